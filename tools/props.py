"""The properties claimed (PROPS) and not claimed (NA)."""
PROPS = []
NA = []


def P(id, title, statement, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **kw))


def N(id, title, statement, quant, why, files, mech, reason, **kw):
    NA.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, reason=reason, **kw))


P("C01", "Raster indexing is the row-major bijection, with checked backward access",
  "For every shape and position, a raster's linear index of the position is the row-major one (first axis varies fastest), distinct inside positions have distinct indices spanning 0 to size-1, and subscripting refers to the element stored at that index, identically for compile-time and run-time dimensions. "
  "Bounds-checked access accepts exactly the coordinates from -length to length-1 along each axis, counts negative ones from the end, and throws OutOfBoundsError for any other position without touching data; containment tests are true exactly for positions (integral or not) with 0 <= coordinate < length.",
  "all shapes and positions, dimensions 1 to 4, fixed or variable; all element indices",
  "tests sample one random 4D shape and a handful of positions of one 2D raster; the property is over all shapes, positions and dimensions",
  ["LitlRaster/LitlRaster/Raster.h", "LitlRaster/LitlRaster/impl/Raster.hpp", "LitlContainer/LitlContainer/DataContainer.h", "LitlRaster/LitlRaster/Vector.h"],
  [("IndexRecursionImpl", "LitlRaster/LitlRaster/impl/Raster.hpp"), ("Raster::at", "LitlRaster/LitlRaster/impl/Raster.hpp"), ("DataContainer::at", "LitlContainer/LitlContainer/DataContainer.h"), ("shapeStride/shapeSize", "LitlRaster/LitlRaster/Vector.h")])

P("C02", "Raster construction, copy and move preserve shape, size, values and ownership",
  "A raster always holds exactly as many elements as its shape has positions, with the values given at construction in storage order (zeros when none are given, except for aligned memory), and inconsistent sizes are rejected with an error whatever the dimension, fixed or variable. "
  "Owning rasters (vector, valarray, array, aligned buffer) copy deeply and move without copying, pointer-based ones are views of the caller's memory, and two rasters are equal iff their shapes and values are. No sequence of constructions, copies, moves and destructions leaks, double-frees or aliases owned memory.",
  "all shapes (dimensions 1 to 3, fixed and variable), element values, holders, and copy/move/assign sequences",
  "tests construct a few rasters of constant size; mismatched sizes, variable dimensions and copy/move histories of aligned rasters are not exercised",
  ["LitlRaster/LitlRaster/Raster.h", "LitlContainer/LitlContainer/Holders.h", "LitlContainer/LitlContainer/AlignedBuffer.h", "LitlContainer/LitlContainer/DataContainer.h"],
  [("Raster constructors", "LitlRaster/LitlRaster/Raster.h"), ("StdHolder, PtrHolder", "LitlContainer/LitlContainer/Holders.h"), ("AlignedBuffer copy/move", "LitlContainer/LitlContainer/AlignedBuffer.h")],
  over=["inputs", "histories"])

R = "LitlRaster/LitlRaster/"
P("C03", "Slices, sections and profiles are exact views of the requested region",
  "Slicing a raster along a region yields a view whose shape is that of the region and whose elements are the very elements of the region in storage order, when the region is contiguous in memory; any other region is rejected with an error, and contiguity is reported exactly. "
  "Sections and profiles are views of the complete hyperplane or line requested, for fixed and variable dimensions, and writing through a view of a mutable raster writes into the raster.",
  "all shapes and regions inside the domain, dimensions 1 to 4 fixed or variable, all element values",
  "tests slice one constant raster at constant regions; contiguity is a condition over all regions, and variable dimensions are never sliced",
  [R + "Raster.h", R + "impl/Raster.hpp"],
  [("Raster::slice, isContiguous, section, profile", R + "impl/Raster.hpp")])

P("C04", "Boxes are N-dimensional integer intervals with exact set semantics",
  "A box contains exactly the positions between its front and back bounds, both included, along every axis: its shape, lengths, size, containment (integral or real), equality, clamping and projections all agree with that set of positions (the size is their number, null if any length is not positive). "
  "Translating, growing and shrinking a box move its bounds as specified, reversibly, and the boxes surrounding a central one within a margin are disjoint, non-overlapping with it, and together with it partition the grown box.",
  "all pairs of bounds (including empty boxes), margins, vectors and query positions, dimensions 1 to 4 fixed or variable",
  "tests check one or two boxes per operation with constant bounds",
  [R + "Box.h"],
  [("Box", R + "Box.h"), ("operators", R + "Box.h")])

P("C05", "Iterating over a box visits each of its positions once, in storage order",
  "Iterating over a box, or over the domain of a raster, visits every position of the box exactly once, in storage order (first axis fastest), starting at the front and stopping after the back; iterating over an empty box visits nothing. "
  "Iterators may be copied, compared, pre- and post-incremented with the usual semantics.",
  "all boxes within bounds, dimensions 1 to 4 fixed or variable, empty boxes included",
  "tests iterate over a few boxes of constant size; emptiness along each axis and all dimensions are not explored",
  [R + "BoxIterator.h", R + "Box.h"],
  [("Box::Iterator", R + "BoxIterator.h"), ("Box::begin/end", R + "Box.h")])

P("C06", "Border decomposition partitions the grown box around its core",
  "Applying a margin to a box decomposes the grown region into the central box and surrounding boxes so that every position of the grown region belongs to exactly one of them, with no empty surrounding box and no position outside the grown region.",
  "all boxes and margins (asymmetric, null along some axes), dimensions 1 to 3, any position",
  "tests check one 2D margin; disjointness and covering are over all positions",
  [R + "Box.h"],
  [("Box::surround", R + "Box.h")])

P("C07", "Balls contain and visit once exactly the positions within the radius",
  "An L1 or L2 ball contains a position iff its distance to the center under the ball's norm is at most the radius, its size is the number of such positions, and its bounding box contains all of them. "
  "Iterating visits every position of the ball exactly once, in storage order, and translations shift the center only.",
  "all centers, radii within bounds, dimensions 1 to 3",
  "tests iterate over constant balls in 2D and count positions",
  [R + "Ball.h", R + "BallIterator.h"],
  [("Ball", R + "Ball.h"), ("Ball::Iterator", R + "BallIterator.h")])

P("C08", "Subrasters view exactly the pixels of their region",
  "A subraster of a raster and a region views exactly the pixels whose position is in the region: iterating visits each of them once in storage order, reading gives the raster's values and writing modifies these pixels only. "
  "Elements are addressed relative to the region front, and a subraster of a constant raster is read-only.",
  "all shapes, regions inside the domain, dimensions 1 to 3, all pixel values",
  "tests iterate over one constant subraster and never modify through it",
  [R + "Subraster.h", R + "SubrasterIterator.h"],
  [("Subraster", R + "Subraster.h"), ("Subraster::Iterator", R + "SubrasterIterator.h")])

P("C09", "Vectors and positions build, compare, slice and extend component-wise",
  "A vector, of fixed or variable dimension, holds exactly the coordinates it was given, rejects inputs of another dimension, copies deeply, and equals another vector iff all coordinates are equal. "
  "Zero, one and infinity constants have these coordinates and are recognized as such, slicing keeps the first coordinates, extending pads with the given ones, the shape and stride helpers give products of lengths.",
  "all coordinates (bounded), dimensions 1 to 4, fixed or variable, element types long, int and double",
  "tests use constant vectors of dimension 2 to 4; infinity, mismatched sizes and variable dimensions are hardly exercised",
  [R + "Vector.h", "LitlContainer/LitlContainer/DataContainer.h"],
  [("Vector", R + "Vector.h"), ("shapeStride, shapeSize", R + "Vector.h")])

C = "LitlContainer/LitlContainer/"
T = "LitlTransforms/LitlTransforms/"
P("C10", "Container and raster arithmetic is element-wise, whatever the operands alias",
  "Every arithmetic operator between two vector-like containers, or a vector-like container and a scalar on either side, computes the scalar operation on each element and nothing else: the result has the operands' size and shape, out-of-place operators leave the operands unchanged, in-place ones return the container itself, and increments follow the prefix and postfix conventions. "
  "This also holds when the scalar or other operand is (an element of) the container itself.",
  "all element values and sizes, element types, holders, operators and operand aliasing",
  "tests apply each operator once to one random container; aliasing operands, unsigned wrap-around and scalar-first operators are not exercised",
  [C + "Arithmetic.h", C + "DataContainer.h"],
  [("VectorArithmeticMixin, EuclidArithmeticMixin", C + "Arithmetic.h")])

P("C11", "Math functions are applied element-wise, in place or to a new instance",
  "Each in-place math method replaces every element with the corresponding standard function of it (or of it and of the other operand, in that order), and returns the container; each free function returns a new container with the same values and leaves its argument unchanged. "
  "This holds for roundings, absolute values, trigonometric, hyperbolic, exponential, logarithmic, error and gamma functions, powers, moduli, minima and maxima; the real and imaginary parts, modulus, argument and squared modulus of a complex raster form a real raster of the same shape; and pi() is the nearest representable value.",
  "all element values, sizes, element types and functions",
  "tests compare each function on one random container, and sign-sensitive or two-argument functions on one operand order",
  [C + "Math.h"],
  [("MathFunctionsMixin", C + "Math.h"), ("free math functions", C + "Math.h")])

P("C12", "Containers store, access, fill and transform their elements in order",
  "A data container built from a size, list, iterable, range or moved data has exactly the given elements, contiguous and in order; checked access accepts indices from -size to size-1 and throws otherwise; equality compares sizes and elements; ownership of the data can be taken. "
  "fill(), range(), linspace(), generate() and apply() assign every element as documented, in storage order, including the bounds, and also when the bounds or step are elements of the container; and min(), max() are those of the elements.",
  "all sizes, element values, types, ranges and functions",
  "tests use one size and type per function; empty and one-element ranges, decreasing ranges and index bounds are not sampled",
  [C + "DataContainer.h", C + "ContiguousContainer.h", C + "Holders.h", C + "Sequence.h"],
  [("DataContainer", C + "DataContainer.h"), ("ContiguousContainerMixin", C + "ContiguousContainer.h"), ("Sequence", C + "Sequence.h")])

P("C13", "Aligned buffers are aligned as required and own or share memory consistently",
  "An aligned buffer always lies at an address multiple of the required alignment, rejects shared data which does not, and reports the actual alignment as the highest power of two dividing the address. "
  "Whatever the sequence of copies, moves, assignments, releases and resets, owned memory is freed exactly once, shared or released memory never, and copies hold the same values without aliasing owned memory.",
  "all sizes, addresses returned by the allocator, alignment requirements and copy/move/release histories",
  "tests check one allocation and one copy; the property is over addresses and histories",
  [C + "AlignedBuffer.h", C + "Holders.h", "LitlRaster/LitlRaster/Raster.h"],
  [("AlignedBuffer", C + "AlignedBuffer.h"), ("alignment()", C + "AlignedBuffer.h")],
  over=["inputs", "histories"])

P("C14", "Distributions compute exact order statistics, moments and histograms",
  "The distribution of a container gives its n-th smallest element, minimum, maximum, median and linearly-interpolated quantiles, sum, mean, biased or unbiased variance and median absolute deviation, whatever the order of the elements and of the queries, without modifying the container. "
  "Histograms count in each bin the values between its bounds, the last one included.",
  "all element values, orders and repetitions, element types, quantiles and bins",
  "tests check one random or linear container; ties, integer rounding, bin bounds and repeated queries are not sampled",
  [C + "DataDistribution.h"],
  [("DataDistribution", C + "DataDistribution.h")])

P("C15", "Samplings visit exactly every step-th index or position between their bounds",
  "A linear sampling has as many samples as there are indices from the front to the back, both included, by the given step, and iterating over data samples visits exactly these elements, forward or backward, once, for reading or writing. "
  "Samplings can be shifted and iterators incremented and offset with the usual semantics; a position sampling is the product of the linear samplings along each axis.",
  "all fronts, backs, steps (of either sign), strides, data sizes and dimensions",
  "tests check constant samplings; partial last steps, negative steps and empty samplings are not sampled",
  [R + "Sampling.h"],
  [("LinearSampling, DataSamples", R + "Sampling.h"), ("PositionSampling", R + "Sampling.h")])

P("C16", "Extrapolated rasters read inside elements, and follow the method outside",
  "Reading an extrapolated raster inside the domain gives the element itself, and outside gives the constant, the element at the nearest inside position, or the element at the position modulo the shape, according to the extrapolation method, however far the position is. "
  "No memory outside of the raster is ever accessed, and the decorator follows later changes of the raster.",
  "all shapes, positions inside or outside, dimensions 1 to 3 and variable, element values",
  "tests read a few positions next to the borders of one raster",
  [T + "InterpolationMethods.h", T + "Interpolation.h"],
  [("Dirichlet, NearestNeighbor, Periodic", T + "InterpolationMethods.h"), ("Extrapolator", T + "Interpolation.h")])

P("C17", "Interpolated values are the nearest, multilinear or multicubic ones",
  "Reading an interpolated raster at a real position gives the element at the nearest integral position, or the (bi, tri)linear or (bi, tri)cubic combination of the neighboring elements, which reduces to the element itself at integral positions. "
  "It composes with extrapolation for positions (or stencils) out of the domain, negative ones included.",
  "all element values, shapes, positions (negative and non-integral included), dimensions 1 to 3, methods and element types",
  "tests interpolate at a handful of positive positions of linear rasters, where wrong weights cancel out",
  [T + "InterpolationMethods.h", T + "Interpolation.h", "LitlTypes/LitlTypes/TypeUtils.h"],
  [("Linear, Cubic, NearestNeighbor", T + "InterpolationMethods.h"), ("Interpolator", T + "Interpolation.h")])

P("C18", "Kernel correlation is the weighted sum of the neighbors at every position",
  "Correlating a raster with a kernel gives at every position the sum, over the kernel window, of the kernel values times the elements at the translated positions, the raster being extrapolated where the window exceeds the domain, with exactly the shape of the input. "
  "This holds for any kernel shape and origin, in any dimension; the input is unchanged and no memory outside of the raster is accessed.",
  "all kernel and element values, kernel shapes and origins, raster shapes (smaller than the kernel included), dimensions and extrapolation methods",
  "tests check one constant kernel and centered origins on constant rasters",
  [T + "Kernel.h", T + "InterpolationMethods.h", R + "Box.h"],
  [("Kernel::correlate, correlateTo", T + "Kernel.h")])

P("C19", "Line kernels correlate strided, cropped lines and axes exactly",
  "Correlating data samples with a 1D kernel gives for each sample the sum of the kernel values times the neighboring elements, cropped at the ends of the line, at exactly the samples of the output and nowhere else. "
  "This holds for any origin, step and stride, also along any axis of a raster and for separable correlation of planes; kernels made from windows, sequences or sizes have the documented window and values.",
  "all kernel and data values, kernel sizes and origins, line sizes, samplings, strides and axes",
  "tests correlate one line at step one with centered kernels much smaller than the line",
  [T + "LineKernel.h", T + "Convolution.h", "LitlTypes/LitlTypes/Segment.h"],
  [("LineKernel::correlate, convolve", T + "LineKernel.h"), ("Kernel1d, convolveAlong", T + "Convolution.h"), ("Segment", "LitlTypes/LitlTypes/Segment.h")])

P("C20", "Separable kernels apply their components one axis after the other",
  "Filtering with a separable kernel equals the successive correlations with its one-dimensional components along their axes, in any order, and axes without component are left as they are. "
  "Composition multiplies and gathers the components, the window is the product of theirs, and Sobel, Prewitt, Scharr and Laplacian kernels derive along one axis and average along the others with the documented values and sign.",
  "all kernel and element values, component sizes and origins, sets of axes, raster shapes in dimensions 2 and 3",
  "tests check one combination of axes on impulse or constant images",
  [T + "SeparableKernel.h", T + "LineKernel.h"],
  [("SeparableKernel", T + "SeparableKernel.h")])

P("C21", "Median filtering gives the median of the neighbors at every position",
  "The median filter maps any neighborhood to its median (the mean of the two central values for an even number), and filtering a raster gives at each position of the filtered region the median of the elements of the translated window, extrapolated out of the domain. "
  "The result has the shape of the region (the whole raster by default), and the input is unchanged.",
  "all element values (ties included), window sizes and positions, raster shapes and regions, extrapolation methods",
  "tests filter one raster with an odd window; even windows, borders and ties are not sampled",
  [T + "MedianFilter.h"],
  [("MedianFilter", T + "MedianFilter.h")])

P("C22", "Random noise is reproducible from its seed and respects its bounds",
  "Two noise generators of the same type, parameters and seed produce the same sequence of values and perturbations, the clock being read only when there is no seed; stable Poisson noise only depends on the value and its rank. "
  "Uniform values lie between the bounds, impulse noise yields each value with its probability (normalized above one) and the input otherwise, and additive noise adds the generated values.",
  "all states of the random engine, bounds, probabilities, input values and interleavings of generations and applications",
  "tests draw some values with one seed; bounds must hold for every drawn word",
  [C + "Random.h", C + "DataContainer.h"],
  [("UniformNoise, GaussianNoise, PoissonNoise, StablePoissonNoise, ImpulseNoise", C + "Random.h"), ("DataContainer::generate, apply", C + "DataContainer.h")],
  over=["inputs", "histories"])

P("C23", "DFT plans compute the right transform in the right buffers, safely",
  "Given FFTW, each DFT plan (real, complex, Hermitian; forward, inverse) reads its input buffer and fills its output buffer with the unnormalized transform of the elements, axis for axis, with the documented shapes; normalizing divides by the number of elements of the logical shape, so that forward then normalized inverse gives back the input. "
  "Inverse and composed plans share the buffers of the direct plan without overwriting them, and plans are created and destroyed exactly once whatever the moves, none being used after destruction.",
  "all shapes within bounds, dimensions 1 to 3 and variable, element values, and plan construction, chaining and move histories",
  "tests transform a few constant rasters, where swapped axes and wrong buffers are invisible, and never move plans",
  [T + "Dft.h", T + "DftPlan.h", T + "DftMemory.h"],
  [("DftPlan", T + "DftPlan.h"), ("DFT types and shapes", T + "Dft.h"), ("DftBuffer, FftwAllocator", T + "DftMemory.h")],
  over=["inputs", "histories"])

U = "LitlRun/LitlRun/"
P("C24", "Pipelines evaluate each required step once, after its prerequisites",
  "Requesting a step of a stepper pipeline returns the value of the step and evaluates exactly the not yet evaluated steps among it and its transitive prerequisites, each once, after its own prerequisites; steps which were already evaluated are returned as they are until the pipeline is reset. "
  "A step which throws is not considered evaluated, and can be requested again; elapsed times are those of the evaluations of each step, and their sum that of the pipeline.",
  "all sequences of requests, failures and resets within bounds over a graph with none to three prerequisites per step, all values and durations",
  "tests request steps of one chain in one order; failures, diamonds, and resets are histories",
  [U + "StepperPipeline.h", "LitlTypes/LitlTypes/SeqUtils.h"],
  [("StepperPipeline::get, evaluate, reset, milliseconds", U + "StepperPipeline.h")],
  over=["inputs", "histories", "fault_sequences"])

P("C25", "Chronometers add the increments between starts and stops; loops agree",
  "A chronometer records the duration between each start and the next stop, as its last increment, and its elapsed time is the offset plus all the increments since construction or reset; count, minimum, maximum, mean and standard deviation are those of the increments. "
  "All the loops of the iteration benchmark compute the same sum of rasters, for any values.",
  "all histories of starts, stops and resets within bounds, all durations, offsets and time units; all raster values",
  "tests sleep for fixed durations and compare loosely",
  [U + "Chronometer.h", "LitlRun/src/lib/IterationBenchmark.cpp", U + "IterationBenchmark.h"],
  [("Chronometer", U + "Chronometer.h"), ("IterationBenchmark::loop*", "LitlRun/src/lib/IterationBenchmark.cpp")],
  over=["inputs", "histories"])

Y = "LitlTypes/LitlTypes/"
P("C26", "Type utilities clamp, floor, limit and loop as documented",
  "Clamping gives the value itself inside of the bounds and the nearest bound outside; flooring gives the greatest integer which is not above, for negative values too; limits (minimum, maximum, infinity, halves) are those of the type, component-wise for complex numbers. "
  "Tuple and sequence loops apply the function to each element exactly once, in order, by reference.",
  "all values, bounds and element values; sequences of up to 4 elements; all supported types",
  "tests call each utility on one or two constants",
  [Y + "TypeUtils.h", Y + "SeqUtils.h", Y + "Segment.h"],
  [("clamp, floor, Limits", Y + "TypeUtils.h"), ("tupleForeach, seqForeach, seqTransform, iteratorTuple*", Y + "SeqUtils.h")])

P("C27", "Errors are thrown exactly when the condition fails, with the right message",
  "Out-of-bounds, null-pointer, size and alignment checks throw if and only if the value lies out of the (included) bounds, the pointer is null, the size is not that of the shape, or the address is not a multiple of the alignment. "
  "Every error is an Exception, whose message is made of the prefix, the name and the values, and which grows with each appended line.",
  "all values and bounds, of signed, unsigned and floating-point types; all pointers and sizes within bounds",
  "tests do not check the exceptions at their boundaries nor their messages",
  [Y + "Exceptions.h", C + "AlignedBuffer.h", C + "Holders.h", C + "DataContainer.h"],
  [("Exception, NullPtrError, OutOfBoundsError", Y + "Exceptions.h"), ("AlignmentError", C + "AlignedBuffer.h"), ("SizeError", C + "Holders.h")])

I = "LitlIo/LitlIo/"
P("C28", "FITS files give back the written rasters, and failures are reported",
  "Reading a FITS file written from a raster gives a raster of the same type with the same shape and values, in the same order, for every integer and floating-point pixel type, and writing changes neither the raster nor any existing file. "
  "When the library cannot open, create, read, write or close the file, or when the dimension or the values do not fit in the raster, an exception is thrown, the file is closed, no memory is overrun, and the object can be used again.",
  "all pixel types, values, shapes within bounds, dimensions 1 to 3 and variable; all failures of a CFITSIO call; sequences of operations",
  "the test writes and reads one raster of characters; failures and other types are not sampled",
  [I + "Fits.h"],
  [("Fits::read, write", I + "Fits.h")],
  over=["inputs", "histories", "fault_sequences"])

P("C29", "Stream insertion and serialization print the elements in order",
  "Inserting a container in a stream prints its elements in order, separated by commas and enclosed in square brackets, all of them up to seven, and the first three and last three with an ellipsis in between above. "
  "Serializing a list of arguments prints each of them once, in order, separated by commas.",
  "all element values within bounds, sizes up to 10 (also of rasters), element types",
  "tests do not compare the printed strings",
  [C + "ContiguousContainer.h", Y + "SeqUtils.h"],
  [("operator<<", C + "ContiguousContainer.h"), ("serialize", Y + "SeqUtils.h")])

P("C30", "Program options are parsed as declared",
  "Every positional option, named option and flag declared with a name, short form, type and default value is available with the value of the command line, in whichever form (long, short, adjacent, equal sign) and order it is given, or else its default; positional options are assigned in the order of their declaration, flags never take a value. "
  "The overloads of parse() agree; has() tells whether an option has a value; getting an option which is not set, undeclared options, missing values, too many positional options and values which are not of the declared type throw. Copies are independent, and the pair of descriptions declares the same options.",
  "all values of the options, forms and orders within bounds, subsets of given options, overloads of parse, successive command lines",
  "tests parse a few lines with one option each; orders, forms, types and copies are not sampled",
  [U + "ProgramOptions.h"], [("ProgramOptions::positional, named, flag, parse, has, as, asPair", U + "ProgramOptions.h")])

P("C31", "Matrices access, invert and copy their own elements",
  "The element at given row and column is that of the row-major buffer; identity and diagonal matrices have the given diagonal and zeros elsewhere; the shape is that of the template parameters; element-wise arithmetic and comparison apply to every element. "
  "The determinant is that of the current elements, inverting replaces the matrix with its inverse, and copied, assigned and moved matrices are independent from their source.",
  "all elements within bounds, shapes, element types",
  "there is no test of matrices",
  [R + "Matrix.h"], [("Matrix", R + "Matrix.h")])

N("N02", "Affinities transform positions by their matrix and translation",
  "Composing translations, scalings and rotations around a center maps each position to the composed image.",
  "all positions and parameters", "the only test is a failing placeholder",
  [T + "Affinity.h"], [("Affinity", T + "Affinity.h")],
  "The members which would implement the property do not compile when instantiated (they need products of matrices by matrices and vectors, which do not exist; rotation is a FIXME), and no program can therefore rely on them: there is no code to encode.")

N("N03", "Masks and structuring elements enumerate their set positions",
  "Iterating over a mask visits exactly its set positions, and morphological filters take the extremum over them.",
  "all masks", "there is no test",
  [R + "Mask.h", T + "StructuringElement.h"], [("Mask", R + "Mask.h"), ("StructuringElement", T + "StructuringElement.h")],
  "Mask.h and StructuringElement.h do not compile (syntax errors, missing headers): there is no code to encode.")

N("N04", "PNG and TIFF files give back the written rasters",
  "Reading a PNG or TIFF file written from a raster gives the same raster.",
  "all rasters", "there is no test",
  ["LitlIo/LitlIo/Png.h", "LitlIo/LitlIo/Tiff.h"], [("Png, Tiff", "LitlIo/LitlIo/Png.h")],
  "Png.h and Tiff.h do not compile and their dependencies are disabled in the build: there is no code to encode.")
