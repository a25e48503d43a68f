"""writes known-findings.json"""
import json, os
fixed = [
 ("C03", "5b7b14d", "parallel.cc measureThreshold returned without releasing its work array when the threshold was found"),
 ("C03", "d2dcf5b", "fftPad::init never released the outer arrays G and H it allocates for planning when q > 1"),
 ("C03", "1415d9f", "~fftPadReal never released the roots of unity Zetaqp0 when p > 2"),
 ("C12", "1740a3a", "Convolution, Convolution2 and Convolution3 replaced the work array W given by the caller by one of their own (or none)"),
 ("C03", "9aba8e5", "fftwblock::init lost the multithreaded FFTW plan when the recorded choice was its own threading"),
 ("C03", "0eab3ea", "fftwblock::Plan lost plan2 when the planner called it again"),
 ("C03", "a3e6ba2", "Convolution2MPI and Convolution3MPI never released the output buffer F they allocate"),
 ("C03", "8bd4015", "mpitranspose::time leaked a stopWatch per timing iteration"),
 ("C03", "d7f5138", "mpitranspose never freed the communicators communicator and splitv"),
 ("C16", "119d6e9", "mpitranspose::time read the uninitialized flag end on processes outside the communicator (a 1x1 transpose over two processes hung)"),
 ("C03", "a7b41a4", "the destructor of a default-constructed split3 deleted an uninitialized pointer"),
 ("C15", "bd61224", "mpiconvolve.h used a global C that only the test programs define"),
 ("C03", "7276653", "copies of a split3 deleted the same reflect table; its communicator was never freed"),
 ("C20", "e1e5c3d", "arg() of a negative real number was 0, so pow(Complex(-2,0),3) returned 8"),
 ("C15", "43ffdee", "cfftw++.h and fftwpp.f90 declared 25 functions the library does not define (create_doublealign, fftwpp_*_dot, *_dotf, *_work*)"),
 ("C15", "305792d", "fftwpp.py passed strided arrays to native code that reads contiguous ones"),
 ("C15", "00ffbda", "HConvolution.convolve accepted arrays of another shape and ran native code past their end"),
 ("C15", "229798d", "fftwpp.py called set/get_fftwpp_maxthreads without declaring their size_t parameter and result"),
 ("C22", "c7f8486", "array5's constructor over caller memory passed nv0 for the pointer v0 and did not compile"),
 ("C13", "0a80f6e", "assigning an array4 to an Array4 compared all extents with Nx() and aborted in debug builds unless the array was a hypercube"),
 ("C14", "a59b397", "Array::deleteAlign wrapped around on an array of length zero"),
 ("C14", "f9443cb", "array1(const void *) left its data pointer uninitialized"),
 ("C14", "0fce553", "an array that gave up aligned storage and then allocated unaligned storage released it with the aligned deallocator"),
 ("C14", "5fba296", "swaparray, leftshiftarray and rightshiftarray lost the ownership of the storage they exchange"),
 ("C22", "11f7456", "Array.h used DBL_MAX without <cfloat>: builds with __ArrayExtensions failed"),
 ("C08", "04f9d9c", "fftNormalized and fft0Normalized of Mfft1d with gaps between the output elements scaled elements that are not output and left output unscaled"),
 ("C24", "c992957", "rcfft2dMPI/rcfft3dMPI::deNyquist wrote outside the local array of a process with an empty slice (4 processes, ny=4)"),
 ("C09", "4be949a", "newAlign printed a message for a failed allocation and continued with a null pointer"),
 ("C09", "cb8b8ec", "Transpose silently did nothing when FFTW created no plan (for example with FFTW_WISDOM_ONLY)"),
 ("C11", "727f833", "the temporary wisdom name grew on every reload; with a directory in wisdomName the wisdom was never saved"),
 ("C25", "132026b", "the two-loop schedule skipped residue blocks of outputs when A-B does not divide B (1D) or is not 1 (2D, 3D), e.g. A=5, B=3, m=M/2"),
 ("C12", "1e354e0", "with B > A the multiplier and the backward transform read past the pointer arrays of A elements in Convolution::operate and convolveRaw(f,offset)"),
 ("C16", "77d219a", "mpitranspose::setup divided by zero when the block divisor exceeds the number of processes with a full block and the exchange kind is timed, e.g. 1x3 over 3 processes, a=2, alltoall=-1"),
 ("C11", "cb2688d", "saveWisdom replaced the wisdom file by a truncated one when writing failed (disk full, file size limit)"),
]
known = []
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "known.py")).read()) if os.path.exists(os.path.join(here, "known.py")) else None
json.dump({"known": known, "fixed": ["fixed: property=%s %s %s" % f for f in fixed]},
          open(os.path.join(here, "..", "known-findings.json"), "w"), indent=1)
