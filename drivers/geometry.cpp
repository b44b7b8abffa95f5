// Parsed (never linked): makes clang instantiate the templates that are put under contract.
#include "heffte.h"
#include "/repo/src/heffte_reshape3d.cpp"
#include "/repo/src/heffte_plan_logic.cpp"
namespace dv_use {
using namespace heffte;
inline long geometry(box3d<int> a, box3d<int> b, box3d<long long> c, std::vector<box3d<int>> const &v){
    long r = a.ordered_same_as(b) + a.find_order(1) + a.osize(1) + a.is2d() + (a == b) + (a != b) + a.count() + a.empty();
    r += fft1d_get_howmany(a, 1) + fft1d_get_stride(a, 2);
    r += c.ordered_same_as(c) + c.find_order(1) + c.is2d() + c.count() + c.r2c(0).count() + c.collide(c).count();
    box3d<int> two(std::array<int, 2>{{0, 0}}, std::array<int, 2>{{1, 1}});
    box3d<int> twoo(std::array<int, 2>{{0, 0}}, std::array<int, 2>{{1, 1}}, std::array<int, 2>{{1, 0}});
    r += two.count() + twoo.count();
    r += proc_setup_min_surface(a, 5)[0];
    r += match(v, v) + find_world(v).count() + world_complete(v, a);
    r += make_procgrid(5)[0] + count_connections(v, v);
    return r;
}
inline void reshapes(ioboxes<int> const &x, plan_options const &o, double *p, int *q){
    auto r = make_reshape3d<backend::stock>(nullptr, x.in, x.out, MPI_COMM_WORLD, o);
    r->apply(1, p, p, p);
    auto g = mpi::gather_boxes(x.in[0], x.out[0], MPI_COMM_WORLD);
    reshape3d_transpose<tag::cpu, int> tr(nullptr, pack_plan_3d<int>());
    tr.apply(1, p, p, p);
    (void) q;
}
}
