// Instantiates the class templates of the library headers so that every member
// function body is visible to the analyses (nothing here is executed).
#include "convolve.h"
namespace fftwpp {
template class fftwblock<fftw_complex,fftw_complex>;
template class fftwblock<double,fftw_complex>;
template class fftwblock<fftw_complex,double>;
}
namespace fftwpp {
template void mfft1d::fft<Complex*>(Complex *);
template void mfft1d::fft<Complex*,Complex*>(Complex *,Complex *);
template void mfft1d::fftNormalized<Complex*>(Complex *);
template void mfft1d::fftNormalized<Complex*,Complex*>(Complex *,Complex *);
template void mfft1d::Normalize<Complex*>(Complex *);
template void mrcfft1d::fft<double*>(double *);
template void mrcfft1d::fft<double*,Complex*>(double *,Complex *);
template void mrcfft1d::fftNormalized<double*,Complex*>(double *,Complex *);
template void mcrfft1d::fft<Complex*>(Complex *);
template void mcrfft1d::fft<Complex*,double*>(Complex *,double *);
template void mcrfft1d::fftNormalized<Complex*,double*>(Complex *,double *);
}
namespace fftwpp {
template Transpose::Transpose(size_t,size_t,size_t,Complex *,Complex *,size_t);
template void Transpose::transpose<Complex>(Complex *,Complex *);
}
namespace fftwpp {
template Transpose::Transpose(size_t,size_t,size_t,float *,float *,size_t);
}
