From 797319ce73ea586fa022303738a29f6a4753cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 01/63] fix: check the size of variable-dimension rasters
 against the stored shape

The shape had been moved from when the list and iterable constructors checked
the size, such that any variable-dimension construction threw a SizeError.
---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From 0172a97fc2ae4437f97ccc2be0ff40f9e02ff1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 02/63] fix: make the domain of a variable-dimension raster
 span all its axes

Position<-1>::zero() is one-dimensional, whatever the raster dimension.
---
 LitlRaster/LitlRaster/impl/Raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..e2bf5d2 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  Position<N> front(dimension());
+  front.fill(0);
+  return Box<N>::fromShape(std::move(front), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 8d9692f1b8e9ca540db9d4462de95fc1f547ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 03/63] fix: keep track of the memory owned by moved and
 assigned AlignedBuffers

The move constructor dropped the ownership (the memory leaked, and later copies
shared the data), and the assignments leaked the memory previously owned.
---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..20e6c70 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 479cef5a1cb3a94692e112150118769a638e4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 04/63] fix: sections of variable-dimension rasters

They were built from one-dimensional positions and a slice of dimension -1,
which reads and writes out of bounds.
---
 LitlRaster/LitlRaster/impl/Raster.hpp | 37 ++++++++++-----------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index e2bf5d2..cbfdefa 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -176,44 +176,35 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto shape = m_shape;
+  shape[last] = back - front + 1;
+  return PtrRaster<const T, N> {shape, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto shape = m_shape;
+  shape[last] = back - front + 1;
+  return PtrRaster<T, N> {shape, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
+  constexpr Index M = N == -1 ? -1 : N - 1;
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
+  Position<M> reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster<const T, M> {reduced, this->data() + index * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
+  constexpr Index M = N == -1 ? -1 : N - 1;
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication
+  Position<M> reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster<T, M> {reduced, this->data() + index * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From c63b19a3e1cc9939241f849b8439f4ae1b763cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 05/63] fix: do not visit any position when iterating over an
 empty box

The iteration started from the front position and never reached the end.
---
 LitlRaster/LitlRaster/BoxIterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..a4e945d 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -22,6 +22,11 @@ public:
    * @brief The beginning position.
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.length(i) <= 0) {
+        return endPosition(box);
+      }
+    }
     return box.front();
   }
 
@@ -80,7 +85,7 @@ public:
    * @brief Reset the current and followers positions to the initial positions.
    */
   void reset() {
-    m_current = m_region.front();
+    m_current = beginPosition(m_region);
   }
 
 private:
-- 
2.43.0


From a064931bdc1eea215c606634031ce038856d2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 06/63] fix: make the box iterator own its region

Ball and subraster iterators feed it with a data member of theirs,
such that copies dangled when the original iterator was destroyed.
---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index a4e945d..1995bd8 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -115,7 +115,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
-- 
2.43.0


From 53464cddb5b9d930295da483eccf404e7a8dc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 07/63] fix: fill infinite vectors with infinity instead of its
 opposite

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From a211e82a5da0567a7195be3d424d826cff51b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 08/63] fix: make subrasters of mutable rasters iterable

The iterator constructor bound the mutable parent to a constant reference.
---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..6c00c8c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From e731bb2c537c6a2506ec23614fc4f6f5472eb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:35 +0000
Subject: [PATCH 09/63] fix: unary plus of containers

It tried to convert the mixin itself to the derived class.
---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..4773d89 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -142,7 +142,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -228,7 +228,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From edd803866c91c2b7ad47b0a7e5a41fb6bbfb3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 10/63] fix: count the positions of a ball instead of those of
 its bounding box

---
 LitlRaster/LitlRaster/Ball.h         | 4 +---
 LitlRaster/LitlRaster/BallIterator.h | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..0007c93 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -98,9 +98,7 @@ public:
   /**
    * @brief Compute the ball size, i.e. number of positions.
    */
-  Index size() const {
-    return box().size(); // FIXME
-  }
+  Index size() const;
 
   /**
    * @brief Get the bounding box length along given axis.
diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..b4979ed 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -121,6 +121,11 @@ typename Ball<N, P>::Iterator end(const Ball<N, P>& region) {
   return typename Ball<N, P>::Iterator(region, Ball<N, P>::Iterator::endPosition(region));
 }
 
+template <Index N, Index P>
+Index Ball<N, P>::size() const {
+  return std::distance(begin(*this), end(*this));
+}
+
 } // namespace Litl
 
 #endif
-- 
2.43.0


From 2495f5e0dcfd43cb1e9e48a53dd07aa2bff2029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 11/63] fix: let the scalar operand of in-place operators be an
 element of the container

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 4773d89..9b687b9 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [rhs](auto e) { \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From 0eba5afd8bf143b5a8bf30c8dfba27bc17e11ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 12/63] fix: subtract a container from a scalar

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 9b687b9..abf0dc2 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -156,6 +155,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [lhs](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -242,6 +251,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [lhs](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
-- 
2.43.0


From 69fbb14fc929204a6d0a250bdb37126953d0634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 13/63] fix: make the element-wise min() and max() of
 containers accessible

---
 LitlContainer/LitlContainer/DataContainer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..2bbdf1f 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -215,6 +215,16 @@ public:
 
   /// @group_operations
 
+  /**
+   * @brief Inherit the element-wise `min()` with an operand.
+   */
+  using MathFunctionsMixin<T, TDerived>::min;
+
+  /**
+   * @brief Inherit the element-wise `max()` with an operand.
+   */
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From c21356564746990948f9231443c0873e997081ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 14/63] fix: linspace of empty and one-element containers, and
 decreasing integers

---
 LitlContainer/LitlContainer/DataContainer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 2bbdf1f..7fa88c8 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -160,10 +160,13 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
+    if (this->size() == 0) {
+      return static_cast<TDerived&>(*this);
+    }
+    const auto last = static_cast<Index>(this->size()) - 1;
     auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    for (Index i = 0; i < last; ++i, ++it) {
+      *it = min + (max - min) / last * i;
     }
     *it = max;
     return static_cast<TDerived&>(*this);
-- 
2.43.0


From 8b7f22d8fb808c5d17c0a15cfad0648024eb71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 15/63] fix: weights of the linear interpolation of quantiles

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..0a2391d 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -151,7 +151,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const Floating inf = nth(f); // Copy values because nth() reorders elements
+    const Floating sup = nth(f + 1);
+    return inf * (1. - d) + sup * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 870e5040cf3d46bde2c3dab4700cfda8ff7b7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 16/63] fix: count the values equal to the last bound of the
 histogram in the last bin

---
 LitlContainer/LitlContainer/DataDistribution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 0a2391d..2e7ef84 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -178,8 +178,9 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    while (it != m_values.end() && *it == bins.back()) {
+      ++out.back();
+      ++it;
     }
     return out;
   }
-- 
2.43.0


From 000d938fb7b409c6e8adca8693fb9d3737e83793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 17/63] fix: compute the sums, mean and variance with floating
 point values

---
 LitlContainer/LitlContainer/DataDistribution.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 2e7ef84..434f364 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -45,11 +45,12 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())),
+      m_sum(Limits<Floating>::zero()), m_sum2(m_sum) {
     for (const auto& v : m_values) {
-      m_sum += v;
-      m_sum2 += v * v;
+      const Floating f = v;
+      m_sum += f;
+      m_sum2 += f * f;
     }
   }
 
@@ -85,7 +86,7 @@ public:
   /**
    * @brief Get the sum of all values.
    */
-  const T& sum() {
+  Floating sum() {
     return m_sum;
   }
 
@@ -121,7 +122,7 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    return (m_sum2 - m_sum * m_sum / size()) / (size() - unbiased);
   }
 
   /**
@@ -211,12 +212,12 @@ private:
   /**
    * @brief The cached sum.
    */
-  T m_sum;
+  Floating m_sum;
 
   /**
    * @brief The cached sum of squares.
    */
-  T m_sum2;
+  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From a6641cb83c771f154f8536021f4fdc1c11c5324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:05 +0000
Subject: [PATCH 18/63] fix: do not round absolute deviations to the value type

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 434f364..f59f42c 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -129,12 +129,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From bd51929aa459b204a4c4337e5ccf1276020f82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 19/63] fix: stop iterating over data samples after the last
 sample

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..4c05877 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -347,7 +347,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -361,7 +361,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From 4b65430ea3b6c8ce1744271db9d4931c5ab7290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 20/63] fix: post-increment and indirection of samplings

---
 LitlRaster/LitlRaster/Sampling.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4c05877..70eef49 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -32,7 +32,7 @@ public:
     }
 
     T* operator->() {
-      return *m_current;
+      return &m_current;
     }
 
     Iterator& operator++() {
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From 61d09696b8e380e077b945205d7d36dcc58d33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 21/63] fix: move data samples by an index instead of a data
 value

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 70eef49..f7f7f7f 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -325,7 +325,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -333,7 +333,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From ef0e265f306f6335aa645163f362f25466b43268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 22/63] fix: shape and run-time axis of position samplings

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index f7f7f7f..5ea4adc 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -137,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From 0eaec982c5de660204d0f82265090db10f075398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 23/63] fix: floor of negative integers

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From e6e9176558c9dbe7506e7217b4870802cbcb466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 24/63] fix: weights of the linear interpolation

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..a0e658a 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From 41456bc4939a8e558a33646b76150c9b8f347e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 25/63] fix: nearest neighbor of negative positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index a0e658a..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From f994c408eb5dfb88c73c181cb019ece51809e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 26/63] fix: read the input rows of the kernel window at the
 right place

---
 LitlTransforms/LitlTransforms/Kernel.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..98990c9 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -99,27 +99,28 @@ private:
     // Compute constants
     auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the window rows
+    std::vector<Index> rows;
+    for (const auto& q : project(m_window)) {
+      rows.push_back(in.index(q));
+    }
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto inIt = &in[p];
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (auto row : rows) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + row, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From f06036d2ecec716a74c744c1d30b5507dc6cf25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 27/63] fix: correlate with kernels which do not fit in the
 raster or do not contain the origin

---
 LitlTransforms/LitlTransforms/Kernel.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 98990c9..553bf22 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -78,6 +78,11 @@ public:
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
     const auto inner = in.domain() - m_window;
+    for (Index i = 0; i < inner.dimension(); ++i) {
+      if (inner.length(i) <= 0 || m_window.front()[i] > 0 || m_window.back()[i] < 0) {
+        return correlateWithExtrapolation(in, in.domain(), out); // No inner region which the outers would surround
+      }
+    }
     const auto outers = inner.surround(m_window);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
-- 
2.43.0


From 5e3394486eb8039b40393d7ddeb477191b7ba780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 28/63] fix: last index of a segment of given size

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..1401878 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + Index(size) - 1);
   }
 
   Index front() const {
-- 
2.43.0


From c96c05e45794737a92b3e988d5f4ae5864d40a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 29/63] fix: crop Kernel1d at both ends of the samples, for any
 step and size

---
 LitlTransforms/LitlTransforms/Convolution.h | 25 ++++++---------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..742c38d 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -76,30 +76,19 @@ public:
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
     auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_backward;
     auto outIt = out.begin();
     Index i = in.front();
 
     printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
 
-    // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
-    }
-
-    // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
-    }
-
-    // Forward-croped
+    // Crop the kernel backward and forward
+    const Index size = in.size();
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
+      const auto backward = std::min(m_backward, i);
+      const auto forward = std::min(m_forward, size - 1 - i);
+      auto windowIt = inIt;
+      windowIt -= backward;
+      *outIt = std::inner_product(originData() - backward, originData() + forward + 1, windowIt, m_bias);
     }
   }
 
-- 
2.43.0


From e714a06c9d1d064177a4cc6374c7cbff22423b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 30/63] fix: crop LineKernel at both ends of the samples, for
 any step and size

---
 LitlTransforms/LitlTransforms/LineKernel.h | 23 +++++++---------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..1db3929 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -88,26 +88,17 @@ public:
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
     auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_origin;
     auto outIt = out.begin();
     auto i = in.front();
 
-    // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-    }
-
-    // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-    }
-
-    // Forward-croped
+    // Crop the kernel backward and forward
+    const Index size = in.size();
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      const auto backward = std::min(m_origin, i);
+      const auto forward = std::min(Index(this->size()) - 1 - m_origin, size - 1 - i);
+      auto windowIt = inIt;
+      windowIt -= backward;
+      *outIt = std::inner_product(originData() - backward, originData() + forward + 1, windowIt, m_bias);
     }
   }
 
-- 
2.43.0


From ad954e558f731a8151ccf101d03a9d1aa953737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 31/63] fix: make line kernels from windows and sequences

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 1db3929..a5cd076 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -118,7 +118,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -127,7 +127,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()), origin);
 }
 
 /**
@@ -138,7 +138,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, values.size() / 2);
 }
 
 } // namespace Litl
-- 
2.43.0


From a3edb2a0247c70a90300d0641d3a8909b170d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 32/63] fix: window and components of a separable kernel

---
 .../LitlTransforms/SeparableKernel.h           | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..0a1638d 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,24 +101,20 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] = w.front();
+      back[k.first] = w.back();
     }
-    return box;
+    return Box<Dimension>(front, back);
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From a36c9f013293f7c17da705baf56f2c7059d1b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 33/63] fix: compose separable kernels without reversing nor
 cropping them

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 0a1638d..0b5aa8a 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -142,9 +142,13 @@ public:
       shape[k.first] = k.second.size();
       origin[k.first] = k.second.origin();
     }
-    auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    auto raster = Raster<Value, Dimension>(shape).fill(T(1));
+    for (const auto& p : raster.domain()) {
+      for (const auto& k : m_kernels) {
+        raster[p] *= k.second[p[k.first]];
+      }
+    }
+    return kernelize(raster, origin);
   }
 
   /**
-- 
2.43.0


From 1269fdd19bb0fe38e72b47f74bf7d0de49c13aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 34/63] fix: do not print nor access the first element when
 correlating

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 0b5aa8a..c45d1cf 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -201,7 +201,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 99d1555ff5f75bd374ffbb7abfc15bac146a8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 35/63] fix: median of an even number of values

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..4cc78e1 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*std::max_element(b, n) + *n) * .5; // max_element in the lower half
   }
 
 private:
-- 
2.43.0


From 501c0ef06b216680bcc18c0a9646401a77e71390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 36/63] fix: filter the whole raster by default

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 4cc78e1..bb86045 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -63,7 +63,8 @@ public:
   void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
-    for (const auto& p : region) {
+    const Box<N> domain = region == Box<N>::whole() ? out.domain() : region;
+    for (const auto& p : domain) {
       for (const auto& q : m_window + p) {
         *it++ = in[q];
       }
-- 
2.43.0


From 3edf21f33ffb8ace8708b5329d35bfc7821de369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 37/63] fix: do not move the values of a centered line kernel
 before reading their number

---
 LitlTransforms/LitlTransforms/LineKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index a5cd076..716f18b 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -40,7 +40,7 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit LineKernel(std::vector<T> values) : LineKernel(std::move(values), values.size() / 2) {}
+  explicit LineKernel(std::vector<T> values) : LineKernel(values, values.size() / 2) {}
 
   /**
    * @brief Get the window.
-- 
2.43.0


From 42bfdae63284a38bcee275eaeefc19b4b5f2b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:32 +0000
Subject: [PATCH 38/63] fix: build the Laplacian kernel

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index c45d1cf..9a91fa8 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -92,7 +92,8 @@ public:
    * or `{-1, 2, -1}` if sign is -1.
    */
   static SeparableKernel laplacian(T sign = 1) {
-    return SeparableKernel(LineKernel<T>({sign, sign * -2, sign}));
+    const LineKernel<T> derivation({sign, sign * -2, sign});
+    return SeparableKernel(derivation);
   }
 
   /// @group_properties
-- 
2.43.0


From b8da3fc6f7313316068a546f8d792f8e73114e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 39/63] fix: destroy the FFTW plan which is replaced by a moved
 one

---
 LitlTransforms/LitlTransforms/DftPlan.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..4b01464 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -109,7 +109,25 @@ public:
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
   LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&&) = default;
+
+  /**
+   * @brief Move assignment operator.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan); // FftwPlanPtr only deletes the handle
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From db8545e189bad5eaa170cdc04f9a8dacaf1edd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 40/63] fix: half limits of complex numbers

---
 LitlTypes/LitlTypes/TypeUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index e82796e..d52620b 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -246,14 +246,14 @@ struct Limits {
    * @brief The min over two.
    */
   static T halfMin() {
-    return min() / 2;
+    return min() / Scalar(2);
   }
 
   /**
    * @brief The max over two in general, rounded up for integers, or `true` for Booleans.
    */
   static T halfMax() {
-    return max() / 2 + std::is_integral<T>::value;
+    return max() / Scalar(2) + Scalar(std::is_integral<T>::value);
   }
 };
 
-- 
2.43.0


From f595a1338057c7d1aa7ceca517b028e8bd376961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 41/63] fix: make NullPtrError::mayThrow() static

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..538e4bf 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -78,7 +78,7 @@ public:
   /**
    * @brief Throw if a given pointer is null.
    */
-  void mayThrow(const void* ptr, const std::string& message) {
+  static void mayThrow(const void* ptr, const std::string& message) {
     if (not ptr) {
       throw NullPtrError(message);
     }
-- 
2.43.0


From e35e358d295e9102daa00ecdc416473f0ce1ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 42/63] fix: separate the name and value in out of bounds
 errors

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 538e4bf..167e825 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -102,7 +102,7 @@ public:
   OutOfBoundsError(const std::string& name, T value, std::pair<T, T> bounds) :
       Exception(
           "Out of bounds error",
-          name + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
+          name + ": " + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
               std::to_string(bounds.second) + "]") {}
 
   /**
-- 
2.43.0


From fb7150fcdcb9852525a72580756852d7b0264efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 43/63] fix: read and write FITS images of any pixel type

---
 LitlIo/LitlIo/Fits.h | 56 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..fe55f5c 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -9,9 +9,59 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits>
 
 namespace Litl {
 
+/**
+ * @brief CFITSIO type codes of the pixel type `T`.
+ */
+template <typename T>
+struct FitsTypeCode {
+
+  using Value = std::remove_cv_t<T>;
+
+  static_assert(std::is_arithmetic<Value>::value && sizeof(Value) <= 8, "No such FITS pixel type");
+
+  /**
+   * @brief Code for the values in memory (`TXXX`).
+   */
+  static constexpr int memory() {
+    if (std::is_floating_point<Value>::value) {
+      return sizeof(Value) == 4 ? TFLOAT : TDOUBLE;
+    }
+    switch (sizeof(Value)) {
+      case 1:
+        return std::is_signed<Value>::value ? TSBYTE : TBYTE;
+      case 2:
+        return std::is_signed<Value>::value ? TSHORT : TUSHORT;
+      case 4:
+        return std::is_signed<Value>::value ? TINT : TUINT;
+      default:
+        return std::is_signed<Value>::value ? TLONGLONG : TULONGLONG;
+    }
+  }
+
+  /**
+   * @brief Code for the image in the file (`XXX_IMG`).
+   */
+  static constexpr int image() {
+    if (std::is_floating_point<Value>::value) {
+      return sizeof(Value) == 4 ? FLOAT_IMG : DOUBLE_IMG;
+    }
+    switch (sizeof(Value)) {
+      case 1:
+        return std::is_signed<Value>::value ? SBYTE_IMG : BYTE_IMG;
+      case 2:
+        return std::is_signed<Value>::value ? SHORT_IMG : USHORT_IMG;
+      case 4:
+        return std::is_signed<Value>::value ? LONG_IMG : ULONG_IMG;
+      default:
+        return std::is_signed<Value>::value ? LONGLONG_IMG : ULONGLONG_IMG;
+    }
+  }
+};
+
 class Fits {
 
 public:
@@ -27,7 +77,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsTypeCode<typename TRaster::Value>::memory(),
         1,
         out.size(),
         nullptr,
@@ -46,13 +96,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        FitsTypeCode<typename TRaster::Value>::image(),
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsTypeCode<typename TRaster::Value>::memory(),
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From d572fb5cb3ad876db00718fe813b937083f52f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 44/63] fix: throw when a FITS file cannot be read or written

---
 LitlIo/LitlIo/Fits.h | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fe55f5c..c3e5484 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -6,6 +6,7 @@
 #define _LITLIO_FITS_H
 
 #include "LitlRaster/Raster.h"
+#include "LitlTypes/Exceptions.h"
 
 #include <fitsio.h>
 #include <string>
@@ -72,8 +73,10 @@ public:
     int naxis = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    mayThrow("Cannot open file: ");
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    mayThrow("Cannot read shape: ");
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -84,9 +87,8 @@ public:
         out.data(),
         nullptr,
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    mayThrow("Cannot read image: ");
+    close();
     return out;
   }
 
@@ -107,12 +109,37 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
+    mayThrow("Cannot write image: ");
+    close();
+  }
+
+private:
+  /**
+   * @brief Close the file, and throw if this fails.
+   */
+  void close() {
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow("Cannot close file: ");
+  }
+
+  /**
+   * @brief If CFITSIO reported an error, close the file, reset the status, and throw.
+   */
+  void mayThrow(const std::string& message) {
+    if (m_status == 0) {
+      return;
+    }
+    const auto code = m_status;
+    if (m_fptr) {
+      m_status = 0;
+      fits_close_file(m_fptr, &m_status);
+      m_fptr = nullptr;
+    }
+    m_status = 0;
+    throw Exception("FITS error", message + m_filename + " (CFITSIO status " + std::to_string(code) + ")");
   }
 
-private:
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From 6d5c00d2a7ed599f08f09e2f43c4ad145129044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 45/63] fix: do not read FITS images of the wrong dimension

---
 LitlIo/LitlIo/Fits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index c3e5484..fd862e9 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -74,6 +74,10 @@ public:
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
     mayThrow("Cannot open file: ");
+    if (TRaster::Dimension >= 0 && naxis != TRaster::Dimension) {
+      close();
+      throw Exception("FITS error", "Wrong image dimension: " + m_filename);
+    }
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
     mayThrow("Cannot read shape: ");
-- 
2.43.0


From 9e751cb7fa1ae6767c09cc68d134abeddcf8f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 46/63] fix: align owned memory as required when the alignment
 is not a power of two

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 20e6c70..05b7ab4 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -119,7 +119,7 @@ public:
       AlignmentError::mayThrow(m_data, m_as);
     } else {
       m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
-      m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
+      m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);
     }
   }
 
@@ -152,7 +152,7 @@ public:
       m_as = other.m_as;
       if (other.owns()) {
         m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
-        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
+        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);
         std::copy_n(other.m_data, m_size, m_data);
       } else {
         m_container = other.m_container;
-- 
2.43.0


From 8563458c92bed30ebd3644c48fda1095a8d923ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 47/63] fix: do not read out of line kernels the window of
 which does not overlap the line

---
 LitlTransforms/LitlTransforms/Convolution.h | 4 ++++
 LitlTransforms/LitlTransforms/LineKernel.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 742c38d..2f784e4 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -86,6 +86,10 @@ public:
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       const auto backward = std::min(m_backward, i);
       const auto forward = std::min(m_forward, size - 1 - i);
+      if (backward + forward < 0) { // No overlap: the origin is out of the kernel
+        *outIt = m_bias;
+        continue;
+      }
       auto windowIt = inIt;
       windowIt -= backward;
       *outIt = std::inner_product(originData() - backward, originData() + forward + 1, windowIt, m_bias);
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 716f18b..533ed09 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -96,6 +96,10 @@ public:
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       const auto backward = std::min(m_origin, i);
       const auto forward = std::min(Index(this->size()) - 1 - m_origin, size - 1 - i);
+      if (backward + forward < 0) { // No overlap: the origin is out of the kernel
+        *outIt = m_bias;
+        continue;
+      }
       auto windowIt = inIt;
       windowIt -= backward;
       *outIt = std::inner_product(originData() - backward, originData() + forward + 1, windowIt, m_bias);
-- 
2.43.0


From 7ec2ff8750d9846ecde4e6414b726fb0d79d629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:28 +0000
Subject: [PATCH 48/63] fix: do not overflow when averaging the two middle
 values of median filters

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index bb86045..557d18b 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -88,7 +88,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    return (*std::max_element(b, n) + *n) * .5; // max_element in the lower half
+    return *std::max_element(b, n) * .5 + *n * .5; // max_element in the lower half
   }
 
 private:
-- 
2.43.0


From 6fe695ac7e74610e81137cb8604fc04eb52a729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:11 +0000
Subject: [PATCH 49/63] fix: copies of ProgramOptions declare their own options

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..ef30d1d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 1bd34640277d362fa1baea145a31bfcced912fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:47 +0000
Subject: [PATCH 50/63] fix: flags do not take the following positional option
 as their value

---
 LitlRun/LitlRun/ProgramOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index ef30d1d..2038987 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -109,7 +109,7 @@ public:
    * @brief Declare a flag option.
    */
   void flag(const char* name, const char* description) {
-    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);
+    named(name, boost::program_options::bool_switch(), description);
   }
 
   /**
-- 
2.43.0


From 905f3b3d1815e2e3b752f5c484dbb38fd61ccefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 51/63] fix: element access of matrices returns the elements

---
 LitlRaster/LitlRaster/Matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 661c878..ba46bb2 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -99,14 +99,14 @@ public:
    * @brief Access element at given row and column.
    */
   inline const T& operator()(Index row, Index column) const {
-    return column + Columns * row;
+    return this->data()[column + Columns * row];
   }
 
   /**
    * @copybrief operator()()
    */
   inline T& operator()(Index row, Index column) {
-    return const_cast<T&>(const_cast<const Matrix&>(*this)->at(row, column));
+    return const_cast<T&>(const_cast<const Matrix&>(*this)(row, column));
   }
 
   /**
@@ -114,7 +114,7 @@ public:
    */
   template <Index R, Index C>
   const T& at() const {
-    return C + Columns * R;
+    return this->data()[C + Columns * R];
   }
 
   /// @group_operations
-- 
2.43.0


From e4cbc99327eff2e49d10cecf103e60f2a7088078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 52/63] fix: shape of matrices is not a reference to a
 temporary

---
 LitlRaster/LitlRaster/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index ba46bb2..76cb9d7 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -89,7 +89,7 @@ public:
   /**
    * @brief Get the matrix shape.
    */
-  const Position<2>& shape() const {
+  Position<2> shape() const {
     return {N, M};
   }
 
-- 
2.43.0


From e6deab27eea3b30e1122985b820dcad6e2b7b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 53/63] fix: copies of matrices do not refer to the elements of
 the original

---
 LitlRaster/LitlRaster/Matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 76cb9d7..0179d9c 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -10,6 +10,7 @@
 #include "LitlTypes/Exceptions.h"
 
 #include <eigen3/Eigen/Core>
+#include <eigen3/Eigen/LU>
 
 namespace Litl {
 
@@ -57,7 +58,7 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit Matrix() : Container(N * M), m_eigen(this->data()) {}
+  explicit Matrix() : Container(N * M) {}
 
   /**
    * @brief Create the identity matrix.
@@ -120,20 +121,20 @@ public:
   /// @group_operations
 
   T determinant() const {
-    return m_eigen.determinant();
+    return Eigen::Map<const EigenMatrix>(this->data()).determinant();
   }
 
   /// @group_modifier
 
   Matrix& inverse() {
-    m_eigen.inverse();
+    Eigen::Map<EigenMatrix>(this->data()).inverse();
     return *this;
   }
 
   /// @}
 
 private:
-  Eigen::Map<Eigen::Matrix<T, N, M, Eigen::RowMajor>> m_eigen;
+  using EigenMatrix = Eigen::Matrix<T, N, M, Eigen::RowMajor>;
 };
 
 } // namespace Litl
-- 
2.43.0


From 0b1935843ea8eb854ae7e5f9f1bdd9fc55dfc3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 54/63] fix: inverse of matrices is stored

---
 LitlRaster/LitlRaster/Matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Matrix.h b/LitlRaster/LitlRaster/Matrix.h
index 0179d9c..185b143 100644
--- a/LitlRaster/LitlRaster/Matrix.h
+++ b/LitlRaster/LitlRaster/Matrix.h
@@ -127,7 +127,8 @@ public:
   /// @group_modifier
 
   Matrix& inverse() {
-    Eigen::Map<EigenMatrix>(this->data()).inverse();
+    Eigen::Map<EigenMatrix> map(this->data());
+    map = map.inverse().eval();
     return *this;
   }
 
-- 
2.43.0


From 58912996674bf04c604dd28989da336649670560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 55/63] fix: positions can be clamped inside a box

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..c66ef78 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -297,9 +297,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(position.size());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From 2da29847d0600a32d04745541712ff2a5b5263ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:36 +0000
Subject: [PATCH 56/63] fix: nearest neighbor just below the middle of two
 pixels

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 377ab11..d48e768 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,8 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return floor<Index>(e + .5);
+      const auto f = floor<Index>(e);
+      return e - f < .5 ? f : f + 1; // e + .5 may be rounded upward
     });
     return raster[integral];
   }
-- 
2.43.0


From dcbdd53ba429a2f778db260e1ff762268ad42c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:43 +0000
Subject: [PATCH 57/63] fix: variance of values which are large with respect to
 their dispersion

---
 LitlContainer/LitlContainer/DataDistribution.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index f59f42c..a7a6dda 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -46,11 +46,10 @@ public:
    */
   explicit DataDistribution(std::vector<T>&& values) :
       m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())),
-      m_sum(Limits<Floating>::zero()), m_sum2(m_sum) {
+      m_sum(Limits<Floating>::zero()) {
     for (const auto& v : m_values) {
       const Floating f = v;
       m_sum += f;
-      m_sum2 += f * f;
     }
   }
 
@@ -122,7 +121,13 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return (m_sum2 - m_sum * m_sum / size()) / (size() - unbiased);
+    const Floating m = mean();
+    Floating sum2 = Limits<Floating>::zero(); // Of the deviations, as that of the values would cancel out
+    for (const auto& v : m_values) {
+      const Floating d = Floating(v) - m;
+      sum2 += d * d;
+    }
+    return sum2 / (size() - unbiased);
   }
 
   /**
@@ -213,11 +218,6 @@ private:
    * @brief The cached sum.
    */
   Floating m_sum;
-
-  /**
-   * @brief The cached sum of squares.
-   */
-  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From 343796dcf9fdca4716d92336cdcbcdf7d5ca6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:43 +0000
Subject: [PATCH 58/63] fix: standard deviation of increments which are long
 with respect to their dispersion

---
 LitlRun/LitlRun/Chronometer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..23fcca4 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](double sum, double inc) {
+      return sum + (inc - m) * (inc - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From 7da13ed6d1e5ec01c55ac7239f0e006978f05937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:43 +0000
Subject: [PATCH 59/63] fix: shape of variable dimension balls

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 0007c93..ffa8399 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -85,7 +85,7 @@ public:
    * @brief Compute the bounding box shape.
    */
   Position<N> shape() const {
-    return Position<N>(N).fill(length<0>());
+    return Position<N>(dimension()).fill(length<0>());
   }
 
   /**
-- 
2.43.0


From ca397f3b1814411a31efc9a61ca352cb8f785c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:37 +0000
Subject: [PATCH 60/63] fix: copy the vector by which a box is shifted, which
 may be one of its bounds

---
 LitlRaster/LitlRaster/Box.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index c66ef78..5b265da 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -207,8 +207,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator+=(const Position<N>& shift) {
-    m_front += shift;
-    m_back += shift;
+    const auto delta = shift; // Copy, because shift may be one of the bounds
+    m_front += delta;
+    m_back += delta;
     return *this;
   }
 
@@ -216,8 +217,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator-=(const Position<N>& shift) {
-    m_front -= shift;
-    m_back -= shift;
+    const auto delta = shift; // Copy, because shift may be one of the bounds
+    m_front -= delta;
+    m_back -= delta;
     return *this;
   }
 
-- 
2.43.0


From 6e341378ffbb117c420efcf5c2e0d176fba6049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:47 +0000
Subject: [PATCH 61/63] fix: copy the bounds and step of range() and
 linspace(), which may be elements of the container

---
 LitlContainer/LitlContainer/DataContainer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 7fa88c8..8b88d20 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const auto inc = step; // Copy, because step may be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += inc;
     }
     return t;
   }
@@ -164,11 +165,13 @@ public:
       return static_cast<TDerived&>(*this);
     }
     const auto last = static_cast<Index>(this->size()) - 1;
+    const auto a = min; // Copies, because min and max may be elements of the container
+    const auto b = max;
     auto it = this->begin();
     for (Index i = 0; i < last; ++i, ++it) {
-      *it = min + (max - min) / last * i;
+      *it = a + (b - a) / last * i;
     }
-    *it = max;
+    *it = b;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From 07c49c8bc83bcea260eb38269c30780bb92ed603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:32 +0000
Subject: [PATCH 62/63] fix: number of positions of empty boxes, some lengths
 of which are negative

---
 LitlRaster/LitlRaster/Box.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 5b265da..f5fa2b9 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -93,9 +93,15 @@ public:
 
   /**
    * @brief Compute the box size, i.e. number of positions.
+   * @details
+   * The box is empty if any of the lengths is not positive.
    */
   Index size() const {
-    return shapeSize(shape());
+    const auto lengths = shape();
+    const bool empty = std::any_of(lengths.begin(), lengths.end(), [](auto l) {
+      return l <= 0;
+    });
+    return empty ? 0 : shapeSize(lengths);
   }
 
   /**
-- 
2.43.0


From d17f40f8e1b0a47672ea70a1ad1db3b7beb5a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:33 +0000
Subject: [PATCH 63/63] fix: do not convert the elements to the kernel value
 type at the borders of a correlation

---
 LitlTransforms/LitlTransforms/Kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 553bf22..c93f0af 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -143,7 +143,7 @@ private:
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    std::vector<std::decay_t<typename TExtrapolatorIn::Value>> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
-- 
2.43.0

