// Parsed (never linked): instantiates the packers, the scaling and the small pieces of the executors.
#include "heffte.h"
namespace dv_use_heffte { using namespace heffte;
template<typename T, typename index> void packers(pack_plan_3d<index> const &plan, T const *src, T *dst){
    direct_packer<tag::cpu>().pack(nullptr, plan, src, dst); direct_packer<tag::cpu>().unpack(nullptr, plan, src, dst);
    transpose_packer<tag::cpu>().pack(nullptr, plan, src, dst); transpose_packer<tag::cpu>().unpack(nullptr, plan, src, dst);
    data_scaling::apply(plan.size[0], dst, 2.0);
}
template void packers<float, int>(pack_plan_3d<int> const&, float const*, float*);
template void packers<double, long long>(pack_plan_3d<long long> const&, double const*, double*);
template void packers<std::complex<float>, long long>(pack_plan_3d<long long> const&, std::complex<float> const*, std::complex<float>*);
template void packers<std::complex<double>, int>(pack_plan_3d<int> const&, std::complex<double> const*, std::complex<double>*);
template void packers<int, int>(pack_plan_3d<int> const&, int const*, int*);
}
namespace dv_use_heffte { using namespace heffte;
template<typename P, typename T> void prepos(int n, T const *in, T *out, std::complex<T> const *cin, std::complex<T> *cout){
    P::pre_forward(nullptr, n, in, out); P::post_forward(nullptr, n, cin, out); P::pre_backward(nullptr, n, in, cout); P::post_backward(nullptr, n, in, out);
    (void) P::compute_extended_length(n); (void) make_extended_box<P>(box3d<int>({0, 0, 0}, {n, n, n})); (void) make_extended_box<P>(box3d<long long>({0, 0, 0}, {n, n, n}));
}
template void prepos<cpu_cos_pre_pos_processor, float>(int, float const*, float*, std::complex<float> const*, std::complex<float>*);
template void prepos<cpu_sin_pre_pos_processor, float>(int, float const*, float*, std::complex<float> const*, std::complex<float>*);
template void prepos<cpu_cos1_pre_pos_processor, float>(int, float const*, float*, std::complex<float> const*, std::complex<float>*);
template void prepos<cpu_cos_pre_pos_processor, double>(int, double const*, double*, std::complex<double> const*, std::complex<double>*);
template void prepos<cpu_sin_pre_pos_processor, double>(int, double const*, double*, std::complex<double> const*, std::complex<double>*);
template void prepos<cpu_cos1_pre_pos_processor, double>(int, double const*, double*, std::complex<double> const*, std::complex<double>*);
}
