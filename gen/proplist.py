prop("C01", "Iterations of every parallel loop are independent",
 "Whenever the library spreads a loop over threads, no two iterations write, or write and read, the same memory location, and none of them plans an FFT. The result of every transform and convolution therefore does not depend on how the iterations are scheduled or on the number of threads.",
 ["schedules", "inputs"], "for every thread count, schedule, problem size and parameter choice (padding method, residues, in or out of place, dimension)",
 "A race shows only under particular interleavings and sizes; the tests run a handful of sizes with one or two threads and compare rounded errors.",
 ["convolve.cc", "convolve.h", "fftw++.h", "fftw++.cc", "parallel.h", "parallel.cc", "mpi/"],
 [("parallel loop macros", "parallel.h PARALLEL/PARALLELIF"), ("residue and padding loops", "convolve.cc fftPad*::forward*/backward*"),
  ("per-thread work buffers and sub-convolutions", "convolve.h Convolution2/3"), ("threaded transforms", "fftw++.h ThreadBase, fftwblock, Transpose")])
prop("C03", "Everything acquired is released exactly once, and nothing else is released",
 "Every buffer, table, FFTW plan, helper object and work array that a transform, padding, convolution or wrapper object acquires, in its constructor or in a later call, has been released exactly once when the object has been destroyed; a free-standing function that acquires a temporary releases it before it returns. Each release uses the deallocator that matches the acquisition, nothing is used after its release, storage supplied by the caller is never released, and no object whose destructor releases a member is copied by value.",
 ["inputs", "operation sequences"], "for every constructor, every combination of sizes, padding parameters, residue counts, thread counts and optional arguments, and every sequence construct - use - destroy",
 "Which pointers are set depends on a dozen parameters chosen at run time (p, q, D, inplace, S, C, centered, threads); the tests never look at what remains allocated, and each runs one configuration per process.",
 ["convolve.h", "convolve.cc", "fftw++.h", "fftw++.cc", "align.h", "wrappers/cfftw++.cc", "mpi/"],
 [("padding tables and plans", "convolve.cc fftPad*::init and ~fftPad*"), ("work buffers", "convolve.h Convolution*::init and ~Convolution*"),
  ("plan selection", "fftw++.h fftw::Setup, fftwblock::Plan, mfft1d"), ("MPI buffers", "mpi/mpiconvolve.h, mpi/mpifftw++.h")])
prop("C02", "Executing a transform leaves the object and all shared state unchanged",
 "Executing a transform (fft, fft0 and their normalized forms of every transform class; the forward, backward and pad routines of every padding class; Transpose::transpose; the multiplication routines) writes only to the arrays passed to it and to temporaries of its own. It changes no member of the object, no table the object holds, no global and no static variable, so one planned object can be executed repeatedly and, on different arrays, from several threads at once. (Only exception: the private scratch array V of an in-place fftPadReal.)",
 ["histories", "schedules"], "for every transform and padding class, every routine it can dispatch to, every argument and every sequence of executions",
 "State that survives an execution shows only in a later or a concurrent one, with particular parameters; the tests execute each object in one thread and compare the result of the last execution.",
 ["fftw++.h", "convolve.h", "convolve.cc"],
 [("execution entry points", "fftw++.h fftw::fft, fft0, fftNormalized, Transpose::transpose"), ("padding routines", "convolve.cc fftPad*::forward*/backward*/pad*"),
  ("multiplication routines", "convolve.cc mult*")])
prop("C04", "Every padding object dispatches to one coherent set of routines",
 "However a padding object (fftPad, fftPadCentered, fftPadHermitian, fftPadReal) is constructed, its Forward, Backward and Pad routines and its overwrite flag are set; the forward and backward routine belong together (they undo each other); each of them is implemented by the class; a routine written for a single transform (unit stride) is installed only where there is one; and an out-of-place object whose forward routine relies on a zero-padded work array has the padding routine that provides it.",
 ["inputs"], "for every constructor and every combination of L, M, C, S, m, D, p, q, residues, in/out of place, centered, overwrite",
 "The routines are chosen by nested conditions on about ten parameters; the tests visit only some of the leaves, and a wrong leaf computes wrong values only for its own parameters.",
 ["convolve.cc", "convolve.h"],
 [("dispatch table", "convolve.cc fftPad::init, fftPadCentered::init, fftPadHermitian::init, fftPadReal::init"), ("members", "convolve.h fftBase::Forward, Backward, Pad, overwrite")])
prop("C05", "A transform does not change its input unless that is documented or asked for",
 "Executing a complex-to-complex or real-to-complex transform out of place leaves the input array unchanged (documented exceptions: complex-to-real transforms, and fft0 of rcfft2d and rcfft3d, which shift their input). The forward routine of a padding object changes its input only if the object's overwrite flag is set, and overwrite is set only if the application asked for it. No planner flag lets FFTW destroy its input.",
 ["inputs"], "for every transform class and entry point, every padding object and every parameter choice",
 "The tests refill or discard the input before using it again, and which routine runs depends on many parameters.",
 ["fftw++.h", "fftw++.cc", "convolve.h", "convolve.cc"],
 [("out-of-place execution", "fftw++.h fftw::fft, Execute overrides"), ("overwrite flag", "convolve.cc fftPad*::init; convolve.h Application::overwrite"), ("planner flags", "fftw++.cc fftw::effort; fftw++.h Setup")])
prop("C20", "The arithmetic of Complex is that of the complex numbers",
 "Every operator and function of Complex.h (+ - * / between complex and real operands in either order, unary + and -, the compound assignments, == and !=, conj, multconj, real, imag, abs2, abs, arg, sqrt, pow, exp, polar, expi, realProduct) computes its mathematical definition over the complex numbers, on every branch; a compound assignment changes only its left operand, returns it, and gives the right result also when both operands are the same object (z *= z, z /= z).",
 ["inputs"], "for all operand values (up to rounding, outside zeros of denominators) and for aliased operands",
 "The tests use a few of the operators with generic operands; mixed forms, aliasing and particular quadrants are never exercised.",
 ["Complex.h"],
 [("operators", "Complex.h class Complex and the free operators")])
prop("C21", "The SIMD primitives compute their documented complex products in both builds",
 "Every primitive of cmult-sse2.h (ZMULT, ZCMULT, ZMULTI, ZCMULTI, ZMULT2 in all their forms, CONJ, FLIP, UNPACKL, UNPACKH, LOAD, LOADFLIP, STORE, SQRT and the arithmetic of Vec) computes its documented complex expression of its operands, in the build with SSE2 intrinsics and in the portable build (without __SSE2__), which therefore agree.",
 ["inputs", "build configurations"], "for all operand values and both builds",
 "The tests run in one build only, and only through complete convolutions.",
 ["cmult-sse2.h"],
 [("intrinsics and sign masks", "cmult-sse2.h under __SSE2__"), ("portable class", "cmult-sse2.h class Vec")])
prop("C23", "The multiplication routines store the documented product of every element",
 "multBinary, realMultBinary and multcorrelation store into F[0][j], for every j = 0, ..., n-1 and for no other j, the documented product of F[0][j] and F[1][j] (product; product of reals; product with the conjugate of F[1][j]) and change nothing else; multNone changes nothing. This holds for the serial and the threaded branch alike.",
 ["inputs", "schedules"], "for every n, every thread count and all data",
 "The tests use a few lengths, with the serial or the threaded branch depending on the machine.",
 ["convolve.cc", "convolve.h"],
 [("multiplication routines", "convolve.cc multNone, multBinary, realMultBinary, multcorrelation")])
prop("C15", "The C, Fortran and Python bindings agree with the library they bind",
 "Every function that wrappers/cfftw++.h, wrappers/fftwpp.f90 or wrappers/fftwpp.py names is defined with C linkage in wrappers/cfftw++.cc, and the binding passes and receives the same number and kind of values (pointer, size_t, array of complex128 in C order). Every C entry point forwards its arguments unchanged and in order to the library routine it stands for; the wrapper classes of HybridConvolution.h pad dimension i from its own length to a sufficient one and transform it with the stride count of the remaining dimensions; create, convolve and delete of one convolution type, in every language, operate on one class. The Python classes check the shape of both arrays before native code runs and symmetrize Hermitian input about its centre for even and odd lengths.",
 ["inputs"], "for every entry point, every shape (square or not, even or odd) and every language",
 "The wrapper tests run one cubic example per language; argument order, parity and layout errors need other shapes, and a mismatch across languages is checked by no compiler.",
 ["wrappers/cfftw++.cc", "wrappers/cfftw++.h", "wrappers/HybridConvolution.h", "wrappers/fftwpp.f90", "wrappers/fftwpp.py"],
 [("C entry points", "wrappers/cfftw++.cc"), ("wrapper classes", "wrappers/HybridConvolution.h"), ("ctypes prototypes and classes", "wrappers/fftwpp.py"), ("bind(c) interfaces", "wrappers/fftwpp.f90")])
prop("C13", "Array indexing is row-major and, without NDEBUG, bounds-checked",
 "For every array class of Array.h (array1..array5 and, with index offsets, Array1..Array5), every way of naming an element - A(i,j,..), A[i][j].. and the flat A(i) - reaches the element of the storage at the row-major position of (i-ox,j-oy,..) in the array's extents. In a build without NDEBUG each index is compared with the extent and offset of its own dimension before the element is returned, an index outside [0,n) ends the program, and assigning one array to another of the same dimension compares every extent (and offset) of the two.",
 ["inputs"], "for all extents, offsets and indices, for every class and access form, in debug and release builds",
 "The tests use a few of the classes with few extents and valid indices only; four- and five-dimensional and offset arrays are not used at all.",
 ["Array.h"], [("element access", "Array.h operator[], operator()"), ("offsets", "Array.h Array*::Offsets, Dimension"), ("bounds checks", "Array.h array1::Check, CheckEqual")])
prop("C14", "An array object releases exactly the storage it allocated",
 "Whatever sequence of constructions, (re)allocations, assignments, views, exchanges (swaparray, leftshiftarray, rightshiftarray) and destructions is applied to the array objects of Array.h, storage allocated by an array is released once, by the array that owns it and with the deallocator it came from; memory supplied by the application is never released; copies and views never own storage. Storage is lost only when the application gives it up explicitly (Set, Dimension with a pointer, Activate, Freeze, Hold, or Allocate on an array that already owns storage).",
 ["operation sequences"], "for every sequence of operations on arrays of every class, aligned or not, in debug and release builds",
 "Ownership is one flag bit that each method must keep right; a wrong bit leaks or frees foreign memory only after a particular sequence, and the tests never reallocate, copy or exchange arrays.",
 ["Array.h"], [("ownership flags", "Array.h array1::Activate, Deallocate, Dimension, Set, Hold, Purge"), ("exchanges", "Array.h swaparray, leftshiftarray, rightshiftarray")])
prop("C22", "Every configuration of the library compiles",
 "All library sources (convolve.cc, fftw++.cc, parallel.cc, Array.cc, wrappers/cfftw++.cc and the MPI sources), and every member of the class templates of Array.h and of fftwblock, are well-formed C++ in every supported configuration: with OpenMP and with FFTWPP_SINGLE_THREAD, with SSE2 and with the portable vector class, with and without NDEBUG, NO_CHECK_ALIGN, FFTWPP_VERBOSE and __ArrayExtensions, and in C++11, 14, 17 and 20.",
 ["configurations"], "for every combination of the configuration switches listed",
 "The build and the tests compile one configuration only.",
 ["convolve.h", "convolve.cc", "fftw++.h", "fftw++.cc", "parallel.h", "parallel.cc", "Array.h", "Complex.h", "cmult-sse2.h", "align.h", "mpi/"],
 [("configuration switches", "parallel.h, fftw++.h, cmult-sse2.h, Array.h")])
prop("C07", "A transform runs only in the in-place or out-of-place mode it was built for",
 "A transform object (fft1d ... crfft3d, the multiple transforms and Transpose) is in place exactly if it was constructed with the output omitted or equal to the input. Calling fft, fft0, fftNormalized, fft0Normalized or transpose with arrays of the other mode ends the program with nonzero status before anything is executed or changed; with arrays of the right mode it executes exactly once, from the given input to the given output (the input if the output is omitted). The wrapper classes mfft1d, mrcfft1d and mcrfft1d call the entry point of the same name with the same arrays.",
 ["inputs"], "for every class, every entry point and every combination of construction and call arguments",
 "The tests use each class in the modes they need and never in the wrong one.",
 ["fftw++.h"],
 [("mode recorded", "fftw++.h fftw::Setup"), ("mode checked", "fftw++.h fftw::Setout, Transpose::transpose"), ("entry points", "fftw++.h fft, fft0, fftNormalized, fft0Normalized")])
prop("C08", "Every transform object performs exactly the transform its constructor describes",
 "Each transform class plans with exactly the sizes, number of transforms, strides, distances and sign given to its constructor, and executes a plan of the kind it created. The normalized entry points (fftNormalized, fft0Normalized) execute and then multiply every output element exactly once by 1/(product of the logical sizes), and touch nothing that is not an output element. fft0 and fft0Normalized (and only they) shift the real data: input before, output after executing, with the shift routine of the transform's mode. A multiple transform that does its own threading splits the M transforms into blocks that cover each transform once, with plans of the right count; mfft1d, mrcfft1d and mcrfft1d use a single transform only if M is 1 and the data is contiguous; Transpose plans the rows, columns and length it was given.",
 ["inputs", "thread counts"], "for all sizes, counts, strides, distances, thread counts and planner choices",
 "Strided, multiple, threaded and shifted transforms have many parameter combinations, of which the tests use a few, often with unit stride.",
 ["fftw++.h", "fftw++.cc"],
 [("plans", "fftw++.h Plan members"), ("executions and shifts", "fftw++.h Execute members"), ("normalization", "fftw++.h Normalize, fftNormalized"), ("blocks", "fftw++.h class fftwblock"), ("transposition", "fftw++.h class Transpose")])
prop("C24", "Shift, deNyquist and HermitianSymmetrize change exactly the documented elements",
 "fftw::Shift and the Shift members of rcfft2dMPI and rcfft3dMPI negate exactly the real values whose global index sum over the leading dimensions is odd, and end the program with nonzero status, changing nothing, if a leading size is odd. deNyquist (serial and MPI) zeroes exactly the modes with first index 0 of even leading dimensions and with last index of an even last dimension. HermitianSymmetrize, HermitianSymmetrizeX (serial and on an MPI split) and the serial HermitianSymmetrizeXY set each mode with a negative index to the conjugate of its mirror image, make the origin real, zero the Nyquist planes of even dimensions and change nothing else, also for padded strides. On any MPI process only the local slice is changed, whatever part of the data it holds, an empty one included.",
 ["inputs", "process counts"], "for all sizes (even and odd), strides, and local slices of a distributed array",
 "The tests use few sizes and process counts; an error in one Nyquist line or for one parity changes a few elements only.",
 ["fftw++.h", "convolve.h", "mpi/mpifftw++.h", "mpi/mpifftw++.cc", "mpi/mpiconvolve.h"],
 [("shift", "fftw++.h fftw::Shift; mpi/mpifftw++.cc Shift"), ("Nyquist modes", "deNyquist members in fftw++.h and mpi/mpifftw++.h"), ("symmetrization", "convolve.h HermitianSymmetrize*, mpi/mpiconvolve.h HermitianSymmetrizeX")])
prop("C09", "Requests that cannot be honoured end the program with nonzero status",
 "A padding object constructed with L > M or with 0 < S < C ends the program; so does one constructed with an explicit (m,D) that its algorithm does not support when more than one residue is needed (fftPad: D is 1, or S is 1 and D is n or an even number below n; fftPadCentered: that, and p even; fftPadHermitian: D is 2, p is even, and p is 2 or C is 1; fftPadReal: the parities of n, p, q and m that its constructor documents, and D 1 or, for S=1, (n-1)/2 or an even number below it), while every supported request is accepted. Convolution3 refuses an x stride below Ly times its y stride and an x transform whose count is not the number of (y,z) columns. No FFTW plan is kept, or returned to be executed, without having been found non-null; a failed aligned allocation and a transposition of elements that are not made of doubles end the program. Every exit() or return code with which the library gives up reports nonzero status.",
 ["inputs", "allocation and planner failures"], "for every size, count, stride, (m,D) and every allocation and planning call",
 "The tests pass only requests that can be honoured, and no allocation or plan fails in them.",
 ["convolve.h", "convolve.cc", "fftw++.h", "align.h", "Array.h", "parallel.cc"],
 [("padding requests", "convolve.h fftBase constructors, valid members"), ("plans", "fftw++.h noplan, convolve.cc constructors"), ("allocation", "align.h newAlign")])
prop("C11", "Planner wisdom is never lost or corrupted",
 "The wisdom file is never opened for writing or removed: it is only replaced, by moving into place a file in the same directory that is private to the process, has been closed and was written completely. What is saved contains the current contents of the wisdom file merged with everything this process gained. Every planning miss is remembered: the new wisdom is kept together with what was gained before, noted (wiser), and saved by an exit handler; the wisdom in memory before the miss is restored, and the wisdom-only flag is not left set. Planning reads the saved wisdom first, and no wisdom text is used after it is freed.",
 ["crash points", "concurrent processes", "planning histories"], "for every path through the planner hook and the functions that load and save wisdom",
 "No test looks at the wisdom file; losing wisdom costs only time, and corruption needs a full disk, a crash or a second process.",
 ["fftw++.cc"], [("load and save", "fftw++.cc loadWisdom, saveWisdom, recall"), ("planner", "fftw++.cc Planner")])
prop("C25", "A convolution combines every residue of its inputs and outputs exactly once",
 "Each call of convolve or convolveRaw (any overload, at any offset) on a Convolution, Convolution2, Convolution3, Convolution2MPI or Convolution3MPI, the first and every further one, transforms each of the A inputs at every residue block from data that have not been overwritten yet, in a workspace whose zero padding is intact; gives the multiplier (or the inner convolution of every row) the A transforms of one and the same residue, in order, together with that residue's index, offset and length; transforms each of the B products of that residue back, accumulating it exactly once into the output of the same number and nothing else; on MPI, transposes each transform and each product exactly once, there and back, and waits for it before the data are used; and leaves all B outputs complete where the caller expects them, multiplied once by 1/normalization by convolve and not at all by convolveRaw.",
 ["inputs", "operation sequences"], "for every A and B, number and size of residue blocks, memory layout (in place, out of place, overwriting, caller arrays), split over processes, entry point and repetition",
 "The schedule has a branch for each relation between A, B and the residues, work arrays are shared between roles, and the tests use a few (A,B) with few residues, mostly once per object.",
 ["convolve.h", "convolve.cc", "mpi/mpiconvolve.h"],
 [("1D driver", "convolve.cc Convolution::convolveRaw; convolve.h class Convolution"), ("2D and 3D drivers", "convolve.h Convolution2, Convolution3"), ("MPI drivers", "mpi/mpiconvolve.h Convolution2MPI, Convolution3MPI")])
prop("C12", "Work arrays given to a convolution are used, kept in size and never freed",
 "The work arrays F, W and V given to the constructor of Convolution, Convolution2, Convolution3, Convolution2MPI or Convolution3MPI are the ones used, in place of arrays of the object's own, only within their documented sizes (max(A,B) arrays of outputSize, workSizeW, B times workSizeV), and are never released. The work arrays that are not given are allocated by the object, large enough for every use of them, and released, like its pointer arrays, exactly once and with the deallocator they came from, by its destructor. No array serves two purposes at once, and no pointer array or member is read before it is set or past its end.",
 ["inputs", "operation sequences"], "for every subset of given arrays, A and B, residue blocks, memory layout, and repeated use of the object",
 "No test gives a convolution work arrays of its own, and an array that is too small or is freed by the wrong party rarely shows without memory checking.",
 ["convolve.h", "convolve.cc", "mpi/mpiconvolve.h"],
 [("constructors", "convolve.h Convolution::init, Convolution2::init, Convolution3::init"), ("release", "convolve.cc ~Convolution; convolve.h ~Convolution2, ~Convolution3")])
prop("C16", "A distributed transpose completes its exchanges and places every block",
 "For every distribution of the rows and columns of an N x M matrix of blocks of L words over the processes of a communicator (also with a smaller last block, or with processes that hold no rows or no columns), every block divisor and exchange kind given in mpiOptions, with or without a caller's work array: mpitranspose::localize0 turns the n x M slabs into N x m slabs and localize1 the N x m slabs into n x M slabs, every block ends at its place in the slab of the process that owns it, and out of place (alltoall=0 or 1) the input is preserved; blocking, with wait, or with wait0 and wait1, repeatedly, on any arrays of the documented size; a wait with nothing under way does nothing. Each request an exchange starts is waited for exactly once, the messages and collective operations of all processes match in peer, size and order so that none waits forever, no buffer is changed or read while an exchange fills or sends it, no array or request array is used beyond its size or before it is set, and arrays and communicators the object made are released once.",
 ["inputs", "operation sequences", "schedules"], "for every block size and block length, for the enumerated process counts, distributions, block divisors and exchange kinds, and every interleaving of the processes",
 "The tests run four processes and few sizes; with four processes the inner and outer teams of the block algorithm have the same size, and unequal teams or an unequal last block within teams never occur.",
 ["mpi/mpitranspose.h", "mpi/mpitranspose.cc"],
 [("exchange", "mpi/mpitranspose.h Ialltoall, Ialltoallin, Ialltoallout, Wait"), ("phases", "mpi/mpitranspose.h inphase0..inpost, outphase0..outsync1"), ("set up", "mpi/mpitranspose.h setup, init, deallocate"), ("order", "mpi/mpitranspose.cc fill1_comm_sched")])
prop("C06", "Every access stays within the arrays the caller described",
 "Executing a transform, padding routine or convolution reads and writes only inside the arrays passed to it, whose sizes the documentation states in terms of L, M, C, S, inputLength, outputSize and workSize, and inside the object's own tables and temporaries.",
 ["inputs"], "for every size, stride, count, thread count and every parameter choice of the optimiser",
 "The tests run a few hundred sizes without memory checking.",
 ["convolve.cc", "convolve.h", "fftw++.h"], [("array sizes", "convolve.h inputSize, outputSize, workSizeW, workSizeV")])
prop("C18", "A convolution equals the direct sum",
 "convolve() replaces its first arrays by the multiplication-rule combination of the linear (or correlation, or Hermitian) convolution of its inputs, to rounding error, in one, two and three dimensions, serial, threaded and MPI.",
 ["inputs"], "for every size, padding, (m,D), stride, thread and process count", "The tests compare a sample of sizes with the direct sum.",
 ["convolve.cc", "convolve.h"], [("convolution", "convolve.h Convolution*::convolve")])
prop("C19", "The optimiser picks the fastest supported parameters",
 "Without explicit (m,D), the parameters chosen are those that run fastest among the supported ones on the machine at hand.",
 ["inputs", "machine state"], "for every size on every machine", "Timing is not tested.",
 ["convolve.cc", "convolve.h"], [("search", "convolve.cc fftBase::OptBase")])
