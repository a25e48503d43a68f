// Explicit instantiation of every array class template: every member must be
// instantiable (nothing here is executed).
#include "Array.h"
namespace Array {
template class array1<double>;
template class array2<double>;
template class array3<double>;
template class array4<double>;
template class array5<double>;
template class Array1<double>;
template class Array2<double>;
template class Array3<double>;
template class Array4<double>;
template class Array5<double>;
template void swaparray<array1<double> >(array1<double> &,array1<double> &);
template void leftshiftarray<array1<double> >(array1<double> &,array1<double> &,array1<double> &);
template void rightshiftarray<array1<double> >(array1<double> &,array1<double> &,array1<double> &);
template void newAlign<double>(double *&,size_t,size_t);
template void deleteAlign<double>(double *,size_t);
}
