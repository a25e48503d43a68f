// Instantiates the MPI templates (nothing here is executed).
#include "mpiconvolve.h"
#include "mpiutils.h"
namespace utils {
template class mpitranspose<Complex>;
template void gatherx<Complex>(const Complex *,Complex *,const split,const unsigned int,const MPI_Comm&);
template void gathery<Complex>(const Complex *,Complex *,const split,const unsigned int,const MPI_Comm&);
template void gatheryz<Complex>(const Complex *,Complex *,const split3&,const MPI_Comm&);
template void gatherxy<Complex>(const Complex *,Complex *,const split3,const MPI_Comm&);
template void show<Complex>(Complex *,unsigned int,unsigned int,const MPI_Comm&);
template void show<Complex>(Complex *,unsigned int,unsigned int,unsigned int,const MPI_Comm&);
}
