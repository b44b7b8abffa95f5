// Parsed (never linked): instantiates the transform classes and compute_transform.
#include "heffte.h"
#include "/repo/src/heffte_compute_transform.cpp"
template class heffte::fft3d<heffte::backend::stock, int>;
template class heffte::fft3d<heffte::backend::fftw, long long>;
template class heffte::fft3d<heffte::backend::mkl, int>;
template class heffte::fft3d<heffte::backend::stock_cos, int>;
template class heffte::fft3d<heffte::backend::stock_sin, int>;
template class heffte::fft3d<heffte::backend::stock_cos1, int>;
template class heffte::fft3d<heffte::backend::mkl_cos, int>;
template class heffte::fft3d<heffte::backend::mkl_sin, int>;
template class heffte::fft3d<heffte::backend::fftw_cos, int>;
template class heffte::fft3d<heffte::backend::fftw_sin, int>;
template class heffte::fft3d<heffte::backend::fftw_cos1, int>;
template class heffte::fft3d<heffte::backend::fftw_sin1, int>;
template class heffte::fft3d_r2c<heffte::backend::stock, int>;
template class heffte::fft3d_r2c<heffte::backend::fftw, long long>;
namespace dv_use_heffte { using namespace heffte;
template<typename F, typename T, typename U> void c2c(F const &f, T *x, U *y, scale s){
    f.forward(x, y, s); f.forward(x, y, y, s); f.forward(2, x, y, y, s); f.forward(2, x, y, s);
}
template<typename F, typename T, typename U> void b2c(F const &f, T *x, U *y, scale s){
    f.backward(y, x, s); f.backward(y, x, y, s); f.backward(2, y, x, y, s); f.backward(2, y, x, s);
}
void all(fft3d<backend::stock, int> const &a, fft3d<backend::fftw, long long> const &b, fft3d_r2c<backend::stock, int> const &r, fft3d<backend::stock_cos, int> const &k,
         double *d, float *f, std::complex<double> *z, std::complex<float> *c, scale s){
    c2c(a, z, z, s); b2c(a, z, z, s); c2c(a, d, z, s); b2c(a, d, z, s);
    c2c(b, c, c, s); b2c(b, c, c, s); c2c(b, f, c, s); b2c(b, f, c, s);
    c2c(r, d, z, s); b2c(r, d, z, s); c2c(r, f, c, s); b2c(r, f, c, s);
    c2c(k, d, d, s); b2c(k, d, d, s);
}
}
