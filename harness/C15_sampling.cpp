#include "lt.h"
#include <LitlRaster/Sampling.h>
// NOTE: any front and back within [-100, 100] and step of either sign within [-4, 4], finite back (an infinite sampling only makes sense over data, where it stops at the last element), up to 6 samples when iterating (up to 10^15 and 40 samples in dedicated cases); data of up to 12 elements (255 to 70000, one of which is arbitrary, in a dedicated case), strides 1 to 3 (up to 3*2^33, without reading the elements); position samplings of dimension 1 to 5 fixed, 1 to 4 variable (with an explicit step when variable)

// the number of k >= 0 such that front + k * step does not go beyond back
static void sizes(long front, long back, long step) {
  const IndexSampling s {front, back, step};
  const long n = s.size();
  vf_assert(n >= 0, "size is not negative");
  vf_assert(n == 0 || (step > 0 ? front + (n - 1) * step <= back : front + (n - 1) * step >= back), "the last sample does not go beyond the back");
  vf_assert(step > 0 ? front + n * step > back : front + n * step < back, "no sample is missing");
}
VF_CASE(size) {
  const long step = vf_pick("step", -4, 4);
  vf_assume(step != 0);
  const long front = vf_int("front", -100, 100);
  const long back = vf_int("back", -100, 100);
  sizes(front, back, step);
  vf_reach("end");
}
VF_CASE(iterate) {
  const long step = vf_pick("step", -4, 4), n = vf_pick("n", 0, 6);
  vf_assume(step != 0);
  const long front = vf_int("front", -1000, 1000), extra = vf_int("extra", 0, 3);
  vf_assume(extra < std::labs(step));
  const IndexSampling s {front, front + (n - 1) * step + (step > 0 ? extra : -extra), step};
  vf_assert((long)s.size() == n, "size");
  long k = 0;
  for (auto i : s) {
    vf_assert(k < n && i == front + k * step, "samples");
    ++k;
  }
  vf_assert(k == n, "all samples");
  const auto v = s.vector();
  vf_assert((long)v.size() == n, "vector size");
  for (long i = 0; i < n; ++i) vf_assert(v[i] == front + i * step, "vector");
  if (n > 0) {
    auto it = s.begin();
    const auto old = it++;
    auto copy = old;
    vf_assert(*copy == front && *it == front + step && it != old, "post-increment");
    vf_assert(*it.operator->() == front + step, "indirection");
    vf_assert(*(++copy) == front + step && copy == it, "pre-increment");
    it += n - 1;
    vf_assert(it == s.end(), "+=");
    it -= n;
    vf_assert(it == s.begin() && *it == front, "-=");
  }
  vf_reach("end");
}
VF_CASE(floating) {
  const long n = vf_pick("n", 1, 4);
  const double front = vf_dyadic("front", -1000, 1000, 2), step = .5;
  const AxisSampling<double> s {front, front + step * (n - 1), step};
  vf_assert((long)s.size() == n, "size of floating point samplings");
  long k = 0;
  for (auto x : s) { vf_assert(x == front + k * step, "floating point samples"); ++k; }
  vf_assert(k == n, "all samples");
  vf_reach("end");
}

// samples of data
static void data(bool infinite) {
  const long n = vf_pick("n", 1, 5), stride = vf_pick("stride", 1, 3);
  std::vector<int> d(n * stride); // n elements along the strided line
  for (auto& e : d) e = vf_int("d", -1000, 1000);
  const long front = vf_pick("front", 0, n - 1), step = vf_pick("step", 1, 3);
  const long back = infinite ? n - 1 : vf_pick("back", 0, n - 1);
  DataSamples<int> s(d.data(), n, {front, infinite ? Limits<Index>::inf() : back, step}, stride);
  const DataSamples<int>& c = s;
  const long count = back < front ? 0 : (back - front) / step + 1;
  vf_assert((long)s.size() == n && (long)s.count() == count && s.front() == front && s.back() == back && s.step() == step && s.stride() == stride && s.data() == d.data(), "properties");
  const auto v = c.vector();
  vf_assert((long)v.size() == count, "vector size");
  long k = 0;
  for (auto e : c) {
    vf_assert(k < count, "no sample beyond the back");
    const int ref = d[(front + k * step) * stride];
    vf_assert(e == ref && v[k] == ref, "samples");
    ++k;
  }
  vf_assert(k == count, "all samples are visited");
  // writing through the samples modifies them only
  std::vector<int> before(d);
  for (auto& e : s) e += 5000;
  for (long i = 0; i < n * stride; ++i) {
    const long q = i / stride;
    const bool sampled = i % stride == 0 && q >= front && q <= back && (q - front) % step == 0;
    vf_assert(d[i] == before[i] + (sampled ? 5000 : 0), "samples only are written");
  }
  if (count > 1) {
    auto it = s.begin();
    auto old = it++;
    vf_assert(&*old == &d[front * stride] && &*it == &d[(front + step) * stride], "post-increment");
    it -= 1;
    vf_assert(it == old && !(it != old), "-=");
    it += count;
    vf_assert(it == s.end(), "end");
  }
  vf_reach("end");
}
VF_CASE(dataFinite) { data(false); }
VF_CASE(dataInfinite) { data(true); }
VF_CASE(shifts) {
  unsigned char d[8];
  for (auto& e : d) e = vf_int("d", 0, 255);
  DataSamples<unsigned char> s(d + 2, 2);
  vf_assert(s.count() == 2 && s.front() == 0 && s.back() == 1 && s.step() == 1 && s.stride() == 1, "default sampling");
  auto old = s++;
  vf_assert(old.data() == d + 2 && s.data() == d + 3, "post-increment");
  ++s;
  vf_assert(s.data() == d + 4 && *s.begin() == d[4], "pre-increment");
  s -= 3;
  vf_assert(s.data() == d + 1 && s.vector()[1] == d[2], "backward");
  s += 2;
  vf_assert(s.data() == d + 3 && s.count() == 2, "forward");
  vf_reach("end");
}

// positions
template <Index N>
static void positions(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -100, 100), b = symPos<N>("b", dim, -100, 100);
  const Position<N> step = pickPos<N>("step", dim, 1, 3);
  const PositionSampling<N> s(Box<N>(f, b), step);
  const Position<N> shape = s.shape();
  vf_assert((Index)shape.size() == dim, "dimension");
  for (Index i = 0; i < dim; ++i) {
    vf_assert(s.along(i).front == f[i] && s.along(i).back == b[i] && s.along(i).step == step[i], "sampling along an axis");
    vf_assert(shape[i] == (long)s.along(i).size(), "shape");
    vf_assert(shape[i] == (b[i] < f[i] ? 0 : (b[i] - f[i]) / step[i] + 1), "number of samples");
  }
  vf_assert(&s.template along<0>() == &s.along(0), "axis known at compile time");
  vf_reach("end");
}
VF_CASE(positions1) { positions<1>(1); }
VF_CASE(positions3) { positions<3>(3); }
VF_CASE(positionsV) { positions<-1>(vf_pick("dim", 1, 3)); }
VF_CASE(positionsDefault) {
  const Position<2> f = symPos<2>("f", 2, -100, 100), b = symPos<2>("b", 2, -100, 100);
  const PositionSampling<2> s(Box<2>(f, b));
  for (int i = 0; i < 2; ++i) vf_assert(s.along(i).step == 1 && s.shape()[i] == (b[i] < f[i] ? 0 : b[i] - f[i] + 1), "default step");
  vf_reach("end");
}
// floating point samplings: iterators
VF_CASE(floatingIterators) {
  const double front = vf_dyadic("front", -1000, 1000, 2), step = double(vf_pick("step", 1, 5)) / 4;
  const long n = vf_pick("n", 1, 4);
  const AxisSampling<double> s {front, front + step * (n - 1), step};
  vf_assert((long)s.size() == n, "size");
  auto it = s.begin();
  for (long k = 0; k < n; ++k) {
    vf_assert(*it == front + step * k && *it.operator->() == front + step * k && *it == front + step * k, "samples");
    if (k % 2) ++it;
    else it++;
  }
  vf_assert(it == s.end() && !(it != s.end()), "end");
  it -= n;
  vf_assert(it == s.begin() && *it.operator->() == front, "back to the front");
  const auto v = s.vector();
  for (long k = 0; k < n; ++k) vf_assert(v[k] == front + step * k, "vector");
  vf_reach("end");
}
// samplings of any magnitude
VF_CASE(far) {
  const long step = vf_pick("step", -4, 4), n = vf_pick("n", 1, 4);
  vf_assume(step != 0);
  const long front = vf_int("front", -1000000000000000l, 1000000000000000l), extra = vf_int("extra", 0, 3);
  vf_assume(extra < std::labs(step));
  const IndexSampling s {front, front + (n - 1) * step + (step > 0 ? extra : -extra), step};
  vf_assert((long)s.size() == n, "size");
  long k = 0;
  for (auto i : s) {
    vf_assert(k < n && i == front + k * step, "samples");
    ++k;
  }
  vf_assert(k == n, "all samples");
  vf_reach("end");
}
VF_CASE(sizeFar) {
  const long step = 1l << vf_pick("log", 0, 40);
  const long front = vf_int("front", -1000000000000000l, 1000000000000000l);
  const long back = vf_int("back", -1000000000000000l, 1000000000000000l);
  vf_assert((long)IndexSampling({front, back, step}).size() == (back < front ? 0 : (back - front) / step + 1), "size");
  vf_reach("end");
}
// many samples
VF_CASE(iterateLong) {
  const long n = vf_pick("n", 0, 1) * 39 + 1, step = vf_pick("step", 1, 2);
  const long front = vf_int("front", -1000, 1000);
  const IndexSampling s {front, front + (n - 1) * step, step};
  long k = 0;
  for (auto i : s) vf_assert(i == front + step * k++, "samples");
  vf_assert(k == n && (long)s.vector().size() == n, "all samples");
  vf_reach("end");
}
VF_CASE(far_data) { // elements which are far from each other (addresses only)
  char d[4];
  const long strides[] = {1l << 15, 1l << 16, (1l << 31) - 1, 1l << 31, 1l << 32, 3l << 33}, stride = strides[vf_pick("stride", 0, 5)];
  const long front = vf_pick("front", 0, 2), step = vf_pick("step", 1, 3);
  DataSamples<char> s(d, 10, {front, 9, step}, stride);
  const auto n = (9 - front) / step + 1;
  vf_assert(long(s.count()) == n, "count");
  auto it = s.begin();
  for (long k = 0; k < n; ++k) {
    vf_assert(it != s.end() && std::uintptr_t(&*it) == std::uintptr_t(d) + (front + k * step) * stride, "samples");
    if (k % 2) it++; else ++it;
  }
  vf_assert(it == s.end(), "all samples");
  it -= n;
  vf_assert(it == s.begin(), "backward");
  it += n - 1;
  vf_assert(std::uintptr_t(&*it) == std::uintptr_t(d) + (front + (n - 1) * step) * stride, "forward");
  vf_reach("end");
}
// many samples
VF_CASE(large) {
  const long n = pickLarge("n"), step = vf_pick("step", 1, 3), front = vf_pick("front", 0, 2);
  std::vector<int> d(n);
  const long at = largeFill(d, "d", -1000, 1000);
  DataSamples<const int> s(d.data(), n, {front, Limits<Index>::inf(), step});
  long k = front;
  bool same = true;
  for (const auto& e : s) {
    same = same && k < n && &e == d.data() + k;
    if (k == at) vf_assert(e == d[at], "arbitrary element");
    k += step;
  }
  vf_assert(same && k >= n && long(s.count()) == (n - 1 - front) / step + 1, "all samples");
  const IndexSampling i {front, n - 1, step};
  long j = front;
  for (auto e : i) {
    same = same && e == j;
    j += step;
  }
  vf_assert(same && j == k && long(i.size()) == long(s.count()), "indices");
  vf_reach("end");
}
VF_CASE(positions5) { positions<5>(5); }
VF_CASE(positionsV4) { positions<-1>(4); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_positions) { positions<-1>(1); positions<-1>(2); }
