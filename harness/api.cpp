// bounded harness for the C interface (C19) and the argument checks of the C++ interface (C05)
#define main pipeline_main
#include "pipeline.cpp"
#undef main
#include "src/heffte_c.cpp"
static string xname(std::function<void()> f){
    try{ f(); }catch(std::invalid_argument &){ return "invalid_argument"; }catch(std::runtime_error &){ return "runtime_error"; }catch(std::exception &){ return "exception"; }catch(...){ return "unknown"; }
    return "none";
}
// ---------------------------------------------------------------- C05: arguments
template<typename backend, typename C> void containers(string const &name){ // C: scalar of the transform
    typedef typename real_of<C>::type R;
    bool r2c = h::coin() && !std::is_floating_point<C>::value;
    auto c = rcfg<backend>(std::is_floating_point<C>::value, K_COS, r2c, name + " containers");
    c.np = 1; c.in = layout(c.n, 1, {{0, 1, 2}}, 0, false); auto m = c.n; if (r2c) m[c.r2c] = m[c.r2c] / 2 + 1; c.out = layout(m, 1, {{0, 1, 2}}, 0, false);
    h::ok(name + (r2c ? " r2c" : "") + " containers of world " + h::str(c.n));
    B in(c.in[0].low, c.in[0].high), out(c.out[0].low, c.out[0].high);
    fmpi::run(1, [&](int){
        auto trial = [&](auto &fft){
            size_t ni = fft.size_inbox(), no = fft.size_outbox();
            for(int k=-1; k<=1; k++){
                string want = k < 0 ? "invalid_argument" : "none";
                if constexpr (std::is_floating_point<C>::value){
                    string a = xname([&]{ vector<C> x(ni + k); auto y = fft.forward(x); if ((size_t) y.size() != no) h::fail("forward(container) returns the wrong size"); });
                    if (a != want) h::fail("forward of a container with " + std::to_string(k) + " entries more than needed: " + a);
                    string b = xname([&]{ vector<C> x(no + k); auto y = fft.backward(x); if ((size_t) y.size() != ni) h::fail("backward(container) returns the wrong size"); });
                    if (b != want) h::fail("backward of a container with " + std::to_string(k) + " entries more than needed: " + b);
                }else{
                    string a = xname([&]{ vector<R> x(ni + k); auto y = fft.forward(x); if ((size_t) y.size() != no) h::fail("forward(real container) returns the wrong size"); });
                    if (a != want) h::fail("forward of a real container with " + std::to_string(k) + " entries more than needed: " + a);
                    if constexpr (!std::is_same<typename std::decay<decltype(fft)>::type, fft3d_r2c<backend>>::value){ a = xname([&]{ vector<C> x(ni + k); fft.forward(x); }); if (a != want) h::fail("forward of a complex container with " + std::to_string(k) + " entries more than needed: " + a); }
                    string b = xname([&]{ vector<C> x(no + k); auto y = fft.backward(x); if ((size_t) y.size() != ni) h::fail("backward(container) returns the wrong size"); });
                    if (b != want) h::fail("backward of a container with " + std::to_string(k) + " entries more than needed: " + b);
                    if constexpr (!std::is_same<typename std::decay<decltype(fft)>::type, fft3d_r2c<backend>>::value){ b = xname([&]{ vector<C> x(no + k); auto y = fft.backward_real(x); if ((size_t) y.size() != ni) h::fail("backward_real(container) returns the wrong size"); }); if (b != want) h::fail("backward_real of a container with " + std::to_string(k) + " entries more than needed: " + b); }
                }
            }
        };
        if constexpr (!std::is_floating_point<C>::value) if (r2c){ fft3d_r2c<backend> f(in, out, c.r2c, MPI_COMM_WORLD); trial(f); return; }
        fft3d<backend> f(in, out, MPI_COMM_WORLD); trial(f);
    });
}
void arguments(long n){
    for(long t=0; t<n; t++){
        switch(h::R(0, 6)){
            case 0: containers<backend::fftw, complex<float>>("fftw"); break;
            case 1: containers<backend::fftw, complex<double>>("fftw"); break;
            case 2: containers<backend::mkl, complex<double>>("mkl"); break;
            case 3: containers<backend::stock, complex<double>>("stock"); break;
            case 4: containers<backend::stock, complex<float>>("stock"); break;
            case 5: containers<backend::fftw_cos, double>("fftw_cos"); break;
            case 6: containers<backend::stock_sin, double>("stock_sin"); break;
        }
        // invalid dimension of a real transform, boxes of the wrong world
        auto c = rcfg<backend::stock>(false, K_DFT, true, "stock arguments");
        int bad = (int) h::R(0, 3);
        int dim = c.r2c;
        if (bad == 0) dim = h::coin() ? -1 - (int) h::R(0, 3) : 3 + (int) h::R(0, 3);
        auto out = c.out, in = c.in;
        size_t k = 0; while(k < out.size() && out[k].high[0] < 0) k++;
        bool expect = false, both = false; (void) both;
        if (bad == 1){ out[k].high[c.r2c] += 1; } // no longer the shrunk world (or overlapping boxes)
        if (bad == 2){ for(auto &q : in) if (q.high[0] >= 0) for(int d=0; d<3; d++){ q.low[d] += 1; q.high[d] += 1; } for(auto &q : out) if (q.high[0] >= 0) for(int d=0; d<3; d++){ q.low[d] += 1; q.high[d] += 1; } } // does not start at zero
        if (bad == 3) expect = true;
        h::ok("arguments case " + std::to_string(bad) + " dim " + std::to_string(dim) + " | " + c.key);
        fmpi::run(c.np, [&](int me){
            B bi(in[me].low, in[me].high, in[me].order), bo(out[me].low, out[me].high, out[me].order);
            plan_options const &op = c.opt;
            string got = xname([&bi, &bo, &op, dim]{ std::unique_ptr<fft3d_r2c<backend::stock>> f(new fft3d_r2c<backend::stock>(bi, bo, dim, MPI_COMM_WORLD, op)); });
            if (expect && got == "runtime_error") return; // too few points for a process grid
            if ((got == "none") != expect) h::fail("creating the plan gives: " + got);
        });
        #ifdef Heffte_ENABLE_TRACING
        event_log.clear();
        #endif
    }
}
// ---------------------------------------------------------------- C19
static int calg(reshape_algorithm a){ return a == reshape_algorithm::p2p_plined ? Heffte_RESHAPE_ALGORITHM_P2P_PLINED : a == reshape_algorithm::p2p ? Heffte_RESHAPE_ALGORITHM_P2P : Heffte_RESHAPE_ALGORITHM_ALLTOALLV; }
template<typename backend, typename R> void cfront(string const &name, int id, int other){
    typedef complex<R> C;
    bool r2c = h::coin(); int v = r2c ? 1 : (int) h::R(0, 1); // 1: real input
    auto c = rcfg<backend>(false, K_DFT, r2c, "C interface " + name + (sizeof(R) == 4 ? " float" : " double") + (v ? " real input" : ""));
    if (c.opt.algorithm == reshape_algorithm::alltoall) c.opt.algorithm = reshape_algorithm::alltoallv;
    c.opt.use_num_subranks(-1);
    bool defaults = h::coin(4); if (defaults) c.opt = default_options<backend>();
    h::ok(c.key + (defaults ? " default options" : ""));
    c.opt.use_gpu_aware = h::coin();
    bool null_order = h::coin(4) && c.in[0].order == array<int, 3>{{0, 1, 2}} && c.out[0].order == array<int, 3>{{0, 1, 2}};
    int sc = (int) h::R(0, 2); scale cs = sc == Heffte_SCALE_FULL ? scale::full : sc == Heffte_SCALE_SYMMETRIC ? scale::symmetric : scale::none;
    bool buffered = h::coin(); (void) other;
    fmpi::run(c.np, [&](int me){
        string w = " on rank " + std::to_string(me);
        auto const &i = c.in[me]; auto const &o = c.out[me];
        heffte_plan_options po; po.use_reorder = c.opt.use_reorder ? 1 + me % 3 : 0; po.algorithm = calg(c.opt.algorithm); po.use_pencils = c.opt.use_pencils ? 2 : 0; po.use_gpu_aware = c.opt.use_gpu_aware;
        heffte_plan plan = (heffte_plan) 8; int rc = -1;
        string ex = xname([&]{ rc = r2c ? heffte_plan_create_r2c(id, i.low.data(), i.high.data(), null_order ? nullptr : i.order.data(), o.low.data(), o.high.data(), null_order ? nullptr : o.order.data(), c.r2c, MPI_COMM_WORLD, defaults ? nullptr : &po, &plan)
                                       : heffte_plan_create(id, i.low.data(), i.high.data(), null_order ? nullptr : i.order.data(), o.low.data(), o.high.data(), null_order ? nullptr : o.order.data(), MPI_COMM_WORLD, defaults ? nullptr : &po, &plan); });
        if (ex != "none"){ h::fail("creating a plan throws across the interface: " + ex); return; }
        auto work = [&](auto *fft){
            typedef typename std::decay<decltype(*fft)>::type F;
            if (rc != Heffte_SUCCESS || plan == nullptr || plan == (heffte_plan) 8){ h::fail("creating a valid plan fails" + w); return; }
            if (heffte_size_inbox(plan) != fft->size_inbox() || heffte_size_outbox(plan) != fft->size_outbox() || heffte_size_workspace(plan) != (int) fft->size_workspace()) h::fail("the sizes differ from those of the C++ plan" + w);
            if (heffte_get_backend(plan) != id || heffte_is_r2c(plan) != (r2c ? 1 : 0)) h::fail("the backend or the kind of the plan is wrong" + w);
            F *cf = reinterpret_cast<F*>(plan->fft);
            auto same = [](B const &a, B const &b){ return a == b && (a.empty() || a.order == b.order); };
            if (!same(cf->inbox(), fft->inbox()) || !same(cf->outbox(), fft->outbox())) h::fail("the boxes differ from those requested" + w);
            if (cf->get_scale_factor(scale::full) != fft->get_scale_factor(scale::full)) h::fail("the scaling factor differs" + w);
            size_t ni = (size_t) fft->size_inbox(), no = (size_t) fft->size_outbox(), nw = (size_t) fft->size_workspace(), G = 16;
            auto fill = [&](auto &x){ for(size_t k=0; k<x.size(); k++) x[k] = put<typename std::decay<decltype(x[0])>::type>(Z(std::sin(0.7 * k + me), std::cos(1.3 * k - me))); };
            vector<C> w1(nw + 1), w2(nw + 2 * G, nan_<C>());
            auto both = [&](auto *in_dummy, size_t nin, auto *out_dummy, size_t nout, auto cpp, auto cc){
                typedef typename std::decay<decltype(*in_dummy)>::type X; typedef typename std::decay<decltype(*out_dummy)>::type Y;
                vector<X> x(nin + 2 * G); fill(x); auto kx = x; vector<Y> y(nout + 2 * G, nan_<Y>()), z = y;
                cpp(x.data() + G, y.data() + G); string e2 = xname([&]{ cc(x.data() + G, z.data() + G); });
                if (e2 != "none") h::fail("a compute call throws across the interface" + w);
                if (std::memcmp(y.data(), z.data(), y.size() * sizeof(Y))) h::fail("the result of the compute call differs from the C++ transform" + w);
                if (!(x == kx)) h::fail("the compute call modifies its input" + w);
                if (!untouched(w2.data(), G) || !untouched(w2.data() + G + nw, G)) h::fail("the compute call writes outside of the workspace" + w);
            };
            R *r = nullptr; C *z = nullptr; void *wk = w2.data() + G;
            constexpr bool S = sizeof(R) == 4;
            // forward
            if (v) both(r, ni, z, no, [&](R *a, C *b){ fft->forward(a, b, w1.data(), cs); }, [&](R *a, C *b){
                if constexpr (S){ if (buffered) heffte_forward_s2c_buffered(plan, a, b, wk, sc); else heffte_forward_s2c(plan, a, b, sc); }
                else { if (buffered) heffte_forward_d2z_buffered(plan, a, b, wk, sc); else heffte_forward_d2z(plan, a, b, sc); } });
            else if constexpr (std::is_same<F, fft3d<backend>>::value) both(z, ni, z, no, [&](C *a, C *b){ fft->forward(a, b, w1.data(), cs); }, [&](C *a, C *b){
                if constexpr (S){ if (buffered) heffte_forward_c2c_buffered(plan, a, b, wk, sc); else heffte_forward_c2c(plan, a, b, sc); }
                else { if (buffered) heffte_forward_z2z_buffered(plan, a, b, wk, sc); else heffte_forward_z2z(plan, a, b, sc); } });
            // backward
            if (v) both(z, no, r, ni, [&](C *a, R *b){ fft->backward(a, b, w1.data(), cs); }, [&](C *a, R *b){
                if constexpr (S){ if (buffered) heffte_backward_c2s_buffered(plan, a, b, wk, sc); else heffte_backward_c2s(plan, a, b, sc); }
                else { if (buffered) heffte_backward_z2d_buffered(plan, a, b, wk, sc); else heffte_backward_z2d(plan, a, b, sc); } });
            else if constexpr (std::is_same<F, fft3d<backend>>::value) both(z, no, z, ni, [&](C *a, C *b){ fft->backward(a, b, w1.data(), cs); }, [&](C *a, C *b){
                if constexpr (S){ if (buffered) heffte_backward_c2c_buffered(plan, a, b, wk, sc); else heffte_backward_c2c(plan, a, b, sc); }
                else { if (buffered) heffte_backward_z2z_buffered(plan, a, b, wk, sc); else heffte_backward_z2z(plan, a, b, sc); } });
            if (heffte_plan_destroy(plan) != Heffte_SUCCESS) h::fail("destroying a plan fails" + w);
        };
        try{
            if (r2c){ fft3d_r2c<backend> f(B(i.low, i.high, i.order), B(o.low, o.high, o.order), c.r2c, MPI_COMM_WORLD, c.opt); work(&f); }
            else { fft3d<backend> f(B(i.low, i.high, i.order), B(o.low, o.high, o.order), MPI_COMM_WORLD, c.opt); work(&f); }
        }catch(std::exception &){ if (rc == Heffte_SUCCESS || plan != nullptr) h::fail("the C++ interface rejects what the C interface accepts" + w); }
    });
    #ifdef Heffte_ENABLE_TRACING
    event_log.clear();
    #endif
}
void cerrors(long n){
    for(long t=0; t<n; t++){
        bool r2c = h::coin(); int bad = (int) h::R(0, 3);
        auto c = rcfg<backend::stock>(false, K_DFT, r2c, "C interface errors");
        int id = (int) h::R(0, 2), dim = r2c ? c.r2c : 0;
        heffte_plan_options po; po.use_reorder = h::coin(); po.algorithm = (int) h::R(0, 2); po.use_pencils = h::coin(); po.use_gpu_aware = 0;
        int want = 2;
        if (bad == 0){ id = h::coin() ? -(int) h::R(1, 5) : (int) h::R(3, 40); want = 1; }
        if (bad == 1) po.algorithm = h::coin() ? -(int) h::R(1, 4) : (int) h::R(3, 9);
        if (bad == 2){ if (r2c) dim = h::coin() ? -(int) h::R(1, 4) : (int) h::R(3, 9); else po.algorithm = 77; }
        if (bad == 3){ size_t k = 0; while(c.in[k].high[0] < 0) k++; c.in[k].high[h::R(0, 2)] += 2 + (int) h::R(0, 2); if (c.np == 1) want = 2; }
        h::ok("failing case " + std::to_string(bad) + " backend " + std::to_string(id) + " algorithm " + std::to_string(po.algorithm) + " dim " + std::to_string(dim) + " | " + c.key);
        fmpi::run(c.np, [&](int me){
            auto const &i = c.in[me]; auto const &o = c.out[me];
            heffte_plan plan = (heffte_plan) 8; int rc = -1;
            string ex = xname([&]{ rc = r2c ? heffte_plan_create_r2c(id, i.low.data(), i.high.data(), i.order.data(), o.low.data(), o.high.data(), o.order.data(), dim, MPI_COMM_WORLD, &po, &plan)
                                           : heffte_plan_create(id, i.low.data(), i.high.data(), i.order.data(), o.low.data(), o.high.data(), o.order.data(), MPI_COMM_WORLD, &po, &plan); });
            if (ex != "none") h::fail("a failed creation throws across the interface: " + ex);
            if (rc != want) h::fail("a failed creation returns " + std::to_string(rc));
            if (plan != nullptr) h::fail("a failed creation leaves a non-null plan");
        });
        heffte_plan_options d; std::memset(&d, 0x5a, sizeof(d));
        int b = h::coin() ? (int) h::R(0, 2) : (h::coin() ? -(int) h::R(1, 4) : (int) h::R(3, 40));
        int rc = heffte_set_default_options(b, &d);
        if (b < 0 || b > 2) CHECK(rc != Heffte_SUCCESS, "default options of an invalid backend");
        else{
            plan_options e = b == 0 ? default_options<backend::stock>() : b == 1 ? default_options<backend::fftw>() : default_options<backend::mkl>();
            CHECK(rc == Heffte_SUCCESS && d.algorithm == calg(e.algorithm) && (d.use_reorder != 0) == e.use_reorder && (d.use_pencils != 0) == e.use_pencils && (d.use_gpu_aware == 0 || d.use_gpu_aware == 1), "the default options");
        }
        heffte_fft_plan bogus; bogus.backend_type = h::coin() ? -1 : 99; bogus.using_r2c = r2c; bogus.fft = nullptr;
        CHECK(heffte_plan_destroy(&bogus) == 3, "destroying a plan of an invalid backend");
        #ifdef Heffte_ENABLE_TRACING
        event_log.clear();
        #endif
    }
}
int main(int argc, char **argv){
    pid = argv[1]; deep = string(argv[2]) == "thorough"; long m = deep ? 30 : 2;
    h::init(std::stoul(argv[3]));
    if (argc > 4) m = std::stol(argv[4]);
    if (pid == "C05"){ arguments(1500 * m); return h::done("containers one too short, exact and one too long; invalid dimensions; layouts that are not the (shrunk) world, up to 8 ranks"); }
    if (pid == "C19"){
        for(long t=0; t<1500 * m; t++) switch(h::R(0, 5)){
            case 0: cfront<backend::fftw, float>("fftw", Heffte_BACKEND_FFTW, 0); break;
            case 1: cfront<backend::fftw, double>("fftw", Heffte_BACKEND_FFTW, 0); break;
            case 2: cfront<backend::mkl, float>("mkl", Heffte_BACKEND_MKL, 0); break;
            case 3: cfront<backend::mkl, double>("mkl", Heffte_BACKEND_MKL, 0); break;
            case 4: cfront<backend::stock, float>("stock", Heffte_BACKEND_STOCK, 0); break;
            case 5: cfront<backend::stock, double>("stock", Heffte_BACKEND_STOCK, 0); break;
        }
        cerrors(1500 * m);
        return h::done("random plans of three backends, two precisions, real and complex, up to 8 ranks, compared bit by bit with the C++ interface; random invalid requests");
    }
    return 2;
}
