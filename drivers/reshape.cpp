// Parsed (never linked): the redistribution algorithms; the source has its own explicit instantiations.
#include "heffte.h"
#include "/repo/src/heffte_reshape3d.cpp"
namespace heffte{
template class reshape3d_transpose<tag::cpu, int>;
template class reshape3d_transpose<tag::cpu, long long>;
}
