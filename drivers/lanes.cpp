// Parsed (never linked): the packed complex type of the built-in backend, every lane count including AVX512.
// dv-flags: -mavx512f -mavx512dq
#include "heffte_config.h"
#undef Heffte_ENABLE_AVX
#undef Heffte_ENABLE_AVX512
#define Heffte_ENABLE_AVX
#define Heffte_ENABLE_AVX512
#include "heffte.h"
namespace dv_use_heffte { using namespace heffte::stock;
template<typename F, int L> void lanes(F *p, std::complex<F> *c, Complex<F, L> a, Complex<F, L> b, F r){
    a = a + b; a = a - b; a = a * b; a = a / b; a += b; a -= b; a *= b; a /= b; a = a + r; a = a - r; a = a * r; a = a / r; a += r; a -= r; a *= r; a /= r;
    a = a.fmadd(a, b); a = a.fmsub(a, b); a = -a; a = a.conjugate(); a = a.__mul_i(); a = a.__mul_neg_i(); a.get(p);
    Complex<F, L> q(p), s(r, r), t(c), u(c, 3), z; c[0] = a[0]; (void) a.modulus(); (void) a.get();
}
template<typename F, int L> void moduli(F *p, Complex<F, L> a){ a.modulus(p); }
template void lanes<float, 1>(float*, std::complex<float>*, Complex<float, 1>, Complex<float, 1>, float);
template void lanes<double, 1>(double*, std::complex<double>*, Complex<double, 1>, Complex<double, 1>, double);
template void lanes<float, 4>(float*, std::complex<float>*, Complex<float, 4>, Complex<float, 4>, float);
template void lanes<double, 2>(double*, std::complex<double>*, Complex<double, 2>, Complex<double, 2>, double);
template void lanes<float, 8>(float*, std::complex<float>*, Complex<float, 8>, Complex<float, 8>, float);
template void lanes<double, 4>(double*, std::complex<double>*, Complex<double, 4>, Complex<double, 4>, double);
template void lanes<float, 16>(float*, std::complex<float>*, Complex<float, 16>, Complex<float, 16>, float);
template void lanes<double, 8>(double*, std::complex<double>*, Complex<double, 8>, Complex<double, 8>, double);
template void moduli<float, 4>(float*, Complex<float, 4>);
template void moduli<float, 8>(float*, Complex<float, 8>);
template void moduli<float, 16>(float*, Complex<float, 16>);
template void moduli<double, 2>(double*, Complex<double, 2>);
template void moduli<double, 4>(double*, Complex<double, 4>);
template void moduli<double, 8>(double*, Complex<double, 8>);
}
