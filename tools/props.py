#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I = ["inputs"]; H = ["inputs", "histories"]
MX = "inc/susa/matrix.h"

p("C01", "Matrix element access is exact, column-major and never out of bounds",
  "For every matrix shape and every index, element (r,c) and linear element r + c*rows denote the same storage cell, a read returns the last value written there, and a write changes that one element and nothing else. An index outside the matrix aborts when assertions are enabled; when assertions are disabled, reading or writing through it never touches storage outside the matrix's own objects and leaves every element unchanged.",
  ["inputs", "configurations"], "all shapes, all (r,c)/linear indices inside and outside the range, all element values, assertion-enabled and assertion-disabled builds",
  "tests read a few literal positions of 3x3 matrices in one build configuration; they never quantify over indices or look for stray writes",
  [MX], [("get/operator()", MX), ("linear index", MX)])

p("C02", "Matrices behave as independent values under copy, assignment and move",
  "Copying or assigning a matrix, including to itself, from or to an empty matrix, and between different shapes, yields a matrix equal to the source in shape and elements; the source is unchanged and later writes to either never affect the other. Moving transfers the contents and leaves a source that can be destroyed or assigned again. No sequence of these operations leaks, double-frees or touches released storage.",
  H, "all sequences of construct/copy/assign/self-assign/move/write/destroy over matrices of all small shapes and all element values",
  "tests assign a handful of literal matrices once; aliasing, empties, self-assignment and release errors depend on histories they never run",
  [MX], [("copy/move constructors, operator=", MX), ("allocate/deallocate", MX)])

p("C03", "Row, column and block edits touch exactly the documented elements",
  "Extracting, replacing or swapping a row or column, dropping one row and column, taking the left, right or middle part, and reshaping each return or modify exactly the elements their definition names, in order, and leave all others unchanged. A request that does not fit (row or column index past the end, source too short, part longer than the vector) is refused by an abort, a false result or an empty result according to the build, never by reading or writing outside the matrix.",
  ["inputs", "configurations"], "all shapes, all row/column/position arguments in and out of range, all element values, assertion-enabled and assertion-disabled builds",
  "tests use single literal arguments in the middle of the range; boundary positions and refusals are not reached",
  [MX], [("set_row/set_col/swap/row/col", MX), ("shrink/reshape/resize/left/right/mid", MX)])

p("C04", "Element-wise arithmetic and comparison act on every element",
  "For equal shapes, +, -, *, / (matrix with matrix, matrix with scalar, scalar with matrix), += and -= produce in each position the scalar operation applied to the operands' elements in that position and in operand order, without modifying their operands (except the left side of += and -=). Operands of different shapes are refused by an abort. Two matrices compare equal exactly when shapes and all elements are equal, and != is the negation of ==.",
  I, "all shapes, element types and element values, including aliased operands",
  "tests compare a few literal results; an error in one position, one operand order or one shape passes",
  [MX], [("arithmetic operators", MX), ("operator==/!=", MX)])

p("C05", "Element-type conversion preserves shape and converts each element",
  "Converting a matrix to another element type gives a matrix of the same shape whose every element is the scalar conversion of the corresponding element (component-wise for complex types), and leaves the source unchanged.",
  I, "all shapes, all supported source/target element types, all element values representable in the target",
  "tests convert one or two literals per type",
  [MX], [("typecasting operators", MX)])

p("C06", "Multi-dimensional arrays address distinct elements and copy by value",
  "For every set of dimensions, each in-range index tuple addresses its own element, first index fastest, through every access form (argument list, initializer list, index vector, raw index), and writing one changes no other; indices left out of a tuple are zero, whatever was accessed before; an index tuple past the end of the array aborts. Copies, assignments (including self-assignment), moves and loading from a raw block give independent arrays with equal dimensions and contents and never access storage outside the arrays involved.",
  H, "all dimension lists up to the bound, all index tuples, all element values, copy/assign/self-assign/move/clone sequences",
  "tests set and read a few literal positions of one array",
  ["inc/susa/array.h"], [("index/get/operator()", "inc/susa/array.h"), ("copy/clone/operator=", "inc/susa/array.h")])

p("C07", "A bit set behaves as a mathematical set of indices below its size",
  "After any sequence of insertions, removals, pops, fill-all, clear-all and copies, membership of every index equals that of a mathematical set subjected to the same operations: fill-all contains every index below the size, pop removes and returns the least member (or the size when empty), and any() is true exactly when the set is non-empty. Indices at or beyond the size are never members and never change anything.",
  H, "all set sizes up to the bound and all operation sequences with arbitrary indices",
  "there is no test for the bit set at all",
  ["src/sets.cpp", "inc/susa/sets.h"], [("bitset operations", "src/sets.cpp")])

p("C08", "The raw memory base class copies and releases its block correctly",
  "Copying, assigning, self-assigning or moving a memory block gives the destination the same number of objects with the same contents in storage of its own (the moved-from block becomes empty), and resizing keeps the common prefix. Reported size always equals the number of usable objects, and no sequence of operations leaks, double-frees or accesses memory outside a live block.",
  H, "all sizes up to the bound including zero, all contents, all sequences of allocate/copy/assign/self-assign/move/deallocate",
  "tests only exercise it indirectly with fixed sizes",
  ["inc/susa/memory.h"], [("memory::allocate/deallocate/operator=", "inc/susa/memory.h")])

p("C09", "Tracked allocation accounts exactly for live bytes and is released in full",
  "While logging-allocator containers are created, copied, assigned, resized, moved and destroyed in any order, the tracker reads exactly the bytes those containers currently hold, also when an allocation fails and however several threads' updates interleave. Once all of them are destroyed it reads what it read at the start, and every block obtained through the allocator has been released exactly once.",
  ["histories", "inputs", "schedules", "fault_sequences"], "all operation sequences and shapes up to the bound, an allocation failure at any point, and all interleavings of two threads' updates",
  "tests check one balanced sequence with literal sizes on one thread and never fail an allocation",
  ["inc/susa/memory.h", MX, "inc/susa/array.h"], [("memory_tacker, allocator_log", "inc/susa/memory.h")])

p("C10", "Matrix text is parsed to exactly the written numbers and never misread",
  "A matrix built from text that lists numbers separated by spaces, tabs or commas, with rows separated by semicolons or newlines and optional brackets and surplus blanks, has exactly the written shape and values, also when the text is assigned over an existing matrix. Text whose rows have different lengths is refused, and no text of any content makes the parser access memory outside the string or the matrix.",
  I, "all strings up to the bound over arbitrary characters (memory safety), and all separator/blank/bracket layouts of all small shapes (values)",
  "tests parse a few well-formed literals; blank/bracket/short-string layouts and malformed text are unexplored",
  ["src/matrix.cpp", MX], [("pre_parser", "src/matrix.cpp"), ("matrix::parser", MX)])

p("C11", "Matrix product, transpose and Hermitian transpose follow their definitions",
  "For conforming shapes the product's entry (i,j) is the sum over k of left(i,k)*right(k,j); the transpose exchanges indices; the Hermitian transpose also conjugates each entry. Operands are unchanged, and non-conforming or empty operands are refused by an abort.",
  I, "all conforming and non-conforming shapes, all element values",
  "tests multiply and transpose one or two literal matrices",
  ["inc/susa/linalg.h"], [("matmul/transpose/hermitian", "inc/susa/linalg.h")])

p("C12", "Concatenation, flips and identity place every element correctly",
  "Concatenating two matrices with equal column counts stacks the second below the first, and with equal row counts only puts it to the right, every element keeping its value. Flipping left-right or up-down reverses the column or row order (a vector's elements), and applying a flip twice restores the input. The identity matrix has ones exactly on its diagonal.",
  I, "all shapes and element values",
  "tests cover one literal case each; unequal widths are never concatenated",
  ["inc/susa/linalg.h"], [("concat/fliplr/flipud/eye", "inc/susa/linalg.h")])

p("C13", "Determinant and rank agree with linear algebra",
  "The determinant of a square matrix equals the signed sum over permutations of its entries (so it is zero for repeated rows and multiplies by -1 under a row swap). The rank of a floating-point matrix is the size of its largest non-singular square submatrix whenever no pivot falls between zero and the tolerance, and computing it leaves the argument unchanged.",
  I, "all square matrices (determinant) and all matrices (rank) up to the size bound with all element values",
  "tests evaluate a few literal matrices",
  ["inc/susa/linalg.h"], [("det/rank", "inc/susa/linalg.h")])

p("C14", "LU/LUP factors, linear solve and inverse are mathematically correct",
  "When a decomposition reports success its factors multiply back to the (row-permuted) input; the LUP forms report failure exactly when a column offers no pivot above the tolerance. For a successful factorization the solution x satisfies A x = b and the computed inverse satisfies A inv(A) = I, for every invertible matrix, including those needing row exchanges.",
  I, "all square matrices up to the size bound (exact arithmetic) and all right-hand sides, including every pivot order",
  "tests solve one or two well-behaved literal systems, which never exercise most pivot orders",
  ["inc/susa/solver.h"], [("lu/lup/solve/invert", "inc/susa/solver.h")])

p("C15", "Filtering and convolution compute the defining sums",
  "Filtering returns, for every output index up to the input length plus the requested tail, the difference equation b*x - a*y with samples outside the input taken as zero, for row, column, scalar and (column-wise) matrix inputs. Convolution returns all length(a)+length(b)-1 coefficients of the polynomial product, is commutative for vectors, and scales by a scalar operand.",
  I, "all coefficient vectors, input shapes and tail lengths up to the bound, all element values",
  "tests use a handful of literals and do not vary shapes",
  ["inc/susa/signal.h"], [("filter/conv", "inc/susa/signal.h")])

p("C16", "Structured matrices and resampling place every element as defined",
  "Convolution matrices of a vector (two or more elements) times a vector equal the convolution; Toeplitz matrices are constant along diagonals with the given first column and row; the Kronecker product's blocks are the entries of the first operand times the second operand. Upsampling by u, column by column, places row i of the input in row i*u of a result with u times as many rows and zeros elsewhere; downsampling by d gives the floor(rows/d) rows whose i-th is row i*d of the input, so it undoes upsampling by the same rate.",
  I, "all vector lengths/shapes/rates up to the bound, all element values",
  "tests check single literals; fill values and rectangular shapes are not reached",
  ["inc/susa/signal.h"], [("convmtx/toeplitz/kron/upsample/downsample", "inc/susa/signal.h")])

p("C17", "The radix-2 FFT and the DFT compute the discrete Fourier transform",
  "For every real input vector whose length is a power of two the fast transform equals the discrete Fourier transform sum x(n) exp(-2*pi*i*n*k/N) up to rounding, and the direct transform does so for every length; matrices are transformed column by column. Lengths that are not a power of two are refused by an abort of the fast transform, and the input is unchanged.",
  I, "all real inputs in a bounded range for each length up to the bound, as row, column and matrix",
  "tests transform one or two literal vectors",
  ["inc/susa/fft.h"], [("radix2/bit_reverse/dft", "inc/susa/fft.h")])

p("C18", "Reductions summarize vectors whole and matrices column by column",
  "Sum, mean, 2-norm and the first index of the minimum and of the maximum are taken over all elements of a vector and separately over each column of a matrix, and a 1x1 matrix reduces to its own value (index 0); variance, standard deviation and differences of standard vectors follow their definitions. The mean of integers is the sum divided by the count, truncated toward zero, also for negative sums. Inputs are unchanged and an empty difference input gives an empty result.",
  I, "all shapes and element values up to the bound, including ties and negative values",
  "tests reduce a few literal positive vectors",
  ["inc/susa/base.h", "inc/susa/statistics.h"], [("sum/mean/norm/min/max/diff", "inc/susa/base.h"), ("mean/var/stdv", "inc/susa/statistics.h")])

p("C19", "Element-wise functions map every element, including the first",
  "Absolute value, sign, real and imaginary part, squared magnitude, conjugate, conversion to complex, logarithm and rounding return a result of the input's shape in which every element is the scalar function of the corresponding input element. Rounding to d>0 decimals yields the multiple of 10^-d nearest to the input (ties away from zero), otherwise the nearest integer. The normal distribution function lies in [0,1], is the complement of the tail function and satisfies F(-x) = 1 - F(x).",
  I, "all shapes and element values up to the bound",
  "tests check a few literals and cannot notice one wrong position",
  ["inc/susa/base.h", "src/base.cpp"], [("abs/sign/real/imag/mag/conj/log", "inc/susa/base.h"), ("round/normcdf/qfunc", "src/base.cpp")])

p("C20", "Integer power, logarithm and modulus are exact",
  "The integer power is the repeated product in machine arithmetic for every exponent; the integer base-2 logarithm returns the position of the highest set bit of every non-zero argument; and the modulus of any integer by any positive modulus is the unique value in [0, m) congruent to it.",
  I, "all 32-bit bases with exponents up to the bound, all unsigned arguments, all integers up to the stated magnitude with all positive moduli",
  "tests try a few literals; precision loss needs large arguments",
  ["src/base.cpp", "inc/susa/base.h"], [("pow/mod", "src/base.cpp"), ("log2", "inc/susa/base.h")])

p("C21", "Sorting returns the ascending permutation of its input",
  "Sorting any vector (two or more elements) returns its elements in non-decreasing order with every value occurring as often as in the input and the same shape, and the sorted-index routine returns a permutation of all positions that lists the elements in non-decreasing order; inputs are unchanged.",
  I, "all vectors up to the length bound, including repeated and extreme values",
  "there is no test for sorting; errors need particular orders or ties",
  ["inc/susa/search.h"], [("sort/sort_indices", "inc/susa/search.h")])

p("C22", "Selection and lookup return the right distinct indices",
  "Selecting the k least (or greatest) elements returns k distinct indices whose values are the k smallest (largest) in order; the limited form does so among the allowed indices only; lookup returns the set of exactly those indices whose element equals the key. This holds for repeated, negative and extreme values.",
  I, "all vectors, keys, allowed-index sets and counts up to the bound",
  "there is no test; errors need ties, negative or extreme values",
  ["inc/susa/search.h"], [("select_least/select_limited_least/select_most/find", "inc/susa/search.h")])

p("C23", "Shortest-path predecessors describe shortest paths",
  "For every graph with non-negative integer weights (zero meaning no edge) and every source, following the returned predecessors from any reachable vertex reaches the source along existing edges with total weight equal to the least possible. The source and unreachable vertices have themselves as predecessor.",
  I, "all weighted digraphs up to the vertex bound and all sources",
  "there is no test; errors need particular topologies",
  ["inc/susa/search.h", "src/sets.cpp"], [("dijkstra", "inc/susa/search.h"), ("bitset fill/any", "src/sets.cpp")])

p("C24", "The convolutional encoder is the linear code of its generators",
  "For every generator set, memory size and input bit sequence the encoder emits, per input bit and generator, the parity of the generator's taps applied to the current and preceding input bits starting from the zero state (any non-zero input byte counts as one). The published next-state and next-output functions describe the same machine, generators given in octal are read as octal, the rate is inputs divided by outputs, and encoding is independent of earlier calls.",
  H, "all generators, memory sizes and bit sequences up to the bound, arbitrary earlier calls",
  "tests encode one literal sequence with one generator pair",
  ["src/ccode.cpp", "inc/susa/ccode.h"], [("encode/next_state/next_output/oct_to_dec", "src/ccode.cpp")])

p("C25", "The convolutional BCJR decoder outputs a-posteriori likelihood ratios",
  "For a terminated code word received with any noise values, prior and signal-to-noise ratio, each output is the ratio of the total probability of all zero-to-zero paths whose input bit is one to those whose input bit is zero, with the stated prior for one. Every path is weighted by the product of its branch likelihoods; impossible bits give a zero or infinite ratio.",
  I, "all received real vectors, priors and SNRs (branch likelihoods as arbitrary positive reals) for all codes and lengths up to the bound",
  "tests decode one noisy literal and compare hard decisions",
  ["src/ccode.cpp"], [("decode_bcjr", "src/ccode.cpp")])

p("C26", "The ISI channel encoder is convolution from a known state",
  "For every impulse response of at least two taps, alphabet, initial state and symbol sequence the encoder's output at each instant is the inner product of the impulse response with the current and preceding symbols, the symbols before the start (and the termination after the end) being those of the given state. Its length is the input length plus the channel memory.",
  I, "all impulse responses, alphabets, initial states and symbol sequences up to the bound",
  "tests encode one literal sequence",
  ["inc/susa/channel.h"], [("encode_isi/get_mem_state", "inc/susa/channel.h")])

p("C27", "The Viterbi equalizer returns a maximum-likelihood sequence",
  "For every impulse response of at least two taps, any received vector and a known state, the decoded sequence is one whose channel output has the least squared distance to the received vector among all symbol sequences that start and end in that state; in particular every noiseless encoding is recovered exactly. With unknown states, noiseless convolution output is recovered whenever it is uniquely decodable, and for two taps the decoded sequence, including its unknown first and last symbols, is one of least squared distance.",
  I, "all received vectors, impulse responses and states up to the trellis bound",
  "tests decode one literal noisy sequence",
  ["inc/susa/channel.h"], [("decode_mlse", "inc/susa/channel.h")])

p("C28", "The BCJR equalizer outputs a-posteriori likelihood ratios",
  "For a binary alphabet, an impulse response of at least two taps and a sequence starting and ending in the zero state, each output is the ratio of the total weight of all trellis paths carrying the second symbol at that instant to those carrying the first, a path's weight being the product of exp(-snr*(received - noiseless output)^2) over its branches.",
  I, "all received vectors, SNRs and impulse responses (branch weights as arbitrary positive reals) up to the trellis bound",
  "tests decode one literal noisy sequence",
  ["inc/susa/channel.h"], [("decode_bcjr", "inc/susa/channel.h")])

p("C29", "BPSK and QAM map and demap symbols correctly",
  "BPSK maps every zero byte to -1 and every other to +1. For every supported order the QAM constellation has that many distinct points, symmetric about the origin on a unit-spaced grid, and demodulating any complex sample returns a constellation point at least distance, so every constellation point demodulates to itself. The noise deviation equals sqrt(Eb/(2*10^(dB/10))) with Eb the average symbol energy per bit.",
  I, "all bytes, all square orders up to the bound, all complex samples and dB values",
  "tests do not exercise modulation",
  ["src/modulation.cpp", "inc/susa/modulation.h"], [("bpsk/qam", "src/modulation.cpp")])

p("C30", "Added noise has the requested power and keeps the signal",
  "Adding white Gaussian noise returns the input signal plus independent noise of the requested signal-to-noise ratio: with the generator's Gaussian draws as given, every output element equals the input element plus sqrt(P/(2*10^(snr/10))) times its own draw (two draws for complex), P being the mean power times the oversampling rate. The input is unchanged.",
  I, "all real and complex signals up to the bound, all SNR values and all generator draws",
  "tests do not exercise noise generation",
  ["inc/susa/modulation.h"], [("awgn", "inc/susa/modulation.h")])

p("C31", "The Mersenne Twister class reproduces MT19937 for every seed",
  "For every 32-bit seed the raw output stream (full mask) equals the reference MT19937 stream for that seed, across state regenerations, and the default-constructed generator equals the reference with seed 5489. Masked outputs are that stream masked.",
  H, "all 2^32 seeds, outputs through more than one state regeneration",
  "tests do not exercise this generator",
  ["src/mt.cpp", "inc/susa/mt.h"], [("init_genrand/genrand_int32", "src/mt.cpp")])

p("C32", "The random-number generator reproduces documented MT19937 for every seed",
  "For every 32-bit seed the generator's full-mask output stream equals the documented MT19937 stream for that seed, across state regenerations; re-initializing restarts the stream, equal seeds give equal streams, and a default-constructed generator is in a defined state.",
  H, "all 2^32 seeds, outputs through more than one state regeneration, re-initialization at any point",
  "tests do not compare with a reference stream",
  ["src/rng.cpp", "inc/susa/rng.h"], [("init/generate_numbers/extract_number", "src/rng.cpp")])

p("C33", "Derived random draws stay in range and follow their distribution rule",
  "For every generator output, uniform draws lie in [0,1], masked draws are within the mask, integer draws lie in 1..max, Bernoulli draws are 0 or 1 (1 exactly when the underlying uniform is at most p), and the discrete draw returns the index whose cumulative-probability interval, in the order the routine documents, contains the uniform. Gaussian draws are finite, come from the polar Box-Muller rule, and vector forms return the requested number of draws for even and odd lengths.",
  I, "all 32-bit generator outputs, all masks, maxima and probability vectors up to the bound",
  "tests do not exercise draws",
  ["src/mt.cpp", "src/rng.cpp"], [("rand/randn/bernoulli/randint/nonuniform", "src/mt.cpp"), ("rand/randn/bernoulli", "src/rng.cpp")])

p("C34", "Root-raised-cosine taps are a symmetric unit-energy filter",
  "For every upsampling factor, roll-off and odd order the taps number the order, are symmetric about the centre, have unit energy, and equal the normalized frequency-sampling formula; even or non-positive orders are refused by an abort.",
  I, "all upsampling factors, odd orders and roll-offs up to the bound",
  "tests do not exercise the filter",
  ["src/rrcosine.cpp", "inc/susa/rrcosine.h"], [("rrcosine/xrc", "src/rrcosine.cpp")])

p("C35", "The singular value decomposition reconstructs its input",
  "For every matrix with at least as many rows as columns the returned factors satisfy U*diag(S)*V' = A up to rounding, U and V have orthonormal columns and the singular values are non-negative.",
  I, "all real matrices up to the size bound",
  "one literal matrix is tested",
  ["src/svd.cpp"], [("svd", "src/svd.cpp")])

p("C36", "Time stamps are fixed-width and elapsed time is never misreported",
  "For every calendar time in the supported century the time stamp is the 14-digit string YYYYMMDDhhmmss of that time, each field zero-padded. The elapsed time reported after starting the chronometer is the clock difference in whole milliseconds, expressed in seconds.",
  I, "all broken-down local times and all clock readings",
  "tests do not exercise utilities",
  ["src/utility.cpp"], [("timestamp/tic/toc", "src/utility.cpp")])

p("C37", "Printed matrices, pairs and tuples show every element once, in order",
  "Printing a matrix yields a bracketed text with elements of a row separated by single blanks and rows by a newline and an aligning blank, 8-bit integers printed as numbers, and parsing that text yields an equal matrix. Pairs and tuples print as parenthesised comma-separated lists.",
  I, "all shapes up to the bound and all integer element values",
  "tests do not compare printed text",
  [MX, "inc/susa/auxiliary.h"], [("operator<<", MX), ("tuple/pair printing", "inc/susa/auxiliary.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
