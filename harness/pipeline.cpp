// bounded harness for the transforms (C11, C12, C13, C14, C15): mock stages, single stages, complete transforms
#include "fmpi.h"
#include "heffte.h"
#include "src/heffte_reshape3d.cpp"
#include "src/heffte_plan_logic.cpp"
#include "src/heffte_compute_transform.cpp"
using namespace heffte;
using std::vector; using std::array; using std::string; using std::complex;
typedef box3d<int> B;
typedef complex<double> Z;
static bool deep = false;
static string pid;
// ---------------------------------------------------------------- mock stages (C11)
// every value is a history number: stage s maps v to v * 31 + s modulo a prime, so the order and the number of applications matter
static const long P = 1000003;
static long hist(long v, int s){ return (v * 31 + s + 1) % P; }
template<typename T> T mk(long v){ return T((double) v); }
template<typename T> struct rd{ static long get(T v){ return (long) v; } };
template<typename T> struct rd<complex<T>>{ static long get(complex<T> v){ return (long) v.real(); } };
static const long JUNK = 999983;
struct mock_shaper : reshape3d_base<int>{
    int id; size_t ws;
    mock_shaper(int i, int ni, int no, size_t w) : reshape3d_base<int>(ni, no), id(i), ws(w){}
    template<typename T> void go(int batch, T const src[], T dst[], T work[]) const{
        vector<long> v((size_t) batch * input_size);
        for(size_t i=0; i<v.size(); i++) v[i] = rd<T>::get(src[i]);
        for(size_t i=0; i<ws * batch; i++) work[i] = mk<T>(JUNK);
        for(int j=0; j<batch; j++) for(int i=0; i<output_size; i++) dst[(size_t) j * output_size + i] = mk<T>(input_size == 0 ? 7 + i : hist(v[(size_t) j * input_size + i % input_size], id));
    }
    void apply(int b, float const s[], float d[], float w[]) const override{ go(b, s, d, w); }
    void apply(int b, double const s[], double d[], double w[]) const override{ go(b, s, d, w); }
    void apply(int b, complex<float> const s[], complex<float> d[], complex<float> w[]) const override{ go(b, s, d, w); }
    void apply(int b, complex<double> const s[], complex<double> d[], complex<double> w[]) const override{ go(b, s, d, w); }
    size_t size_workspace() const override{ return ws; }
};
struct mock_exec : executor_base{
    int id, n, nc; size_t ws; bool fwd;
    mock_exec(int i, int nn, int cc, size_t w, bool f) : id(i), n(nn), nc(cc), ws(w), fwd(f){}
    template<typename T> void junk(T *w) const{ if (ws && !w){ h::fail("a stage that needs scratch memory is given none"); return; } for(size_t i=0; i<ws; i++) w[i] = mk<T>(JUNK); }
    template<typename T> void in(bool f, T d[], T *w) const{ if (f != fwd) h::fail("a stage is executed in the wrong direction"); for(int i=0; i<n; i++) d[i] = mk<T>(hist(rd<T>::get(d[i]), id)); junk(w); }
    template<typename R> void r2c(R const s[], complex<R> d[], complex<R> *w) const{ if (!fwd) h::fail("wrong direction"); vector<long> v(n); for(int i=0; i<n; i++) v[i] = rd<R>::get(s[i]); for(int i=0; i<nc; i++) d[i] = mk<complex<R>>(hist(v[i % n], id)); junk(w); }
    template<typename R> void c2r(complex<R> s[], R d[], complex<R> *w) const{ if (fwd) h::fail("wrong direction"); vector<long> v(nc); for(int i=0; i<nc; i++) v[i] = rd<complex<R>>::get(s[i]); for(int i=0; i<n; i++) d[i] = mk<R>(hist(v[i % nc], id)); junk(w); }
    void forward(float d[], float *w) const override{ in(true, d, w); }
    void forward(double d[], double *w) const override{ in(true, d, w); }
    void backward(float d[], float *w) const override{ in(false, d, w); }
    void backward(double d[], double *w) const override{ in(false, d, w); }
    void forward(complex<float> d[], complex<float> *w) const override{ in(true, d, w); }
    void forward(complex<double> d[], complex<double> *w) const override{ in(true, d, w); }
    void backward(complex<float> d[], complex<float> *w) const override{ in(false, d, w); }
    void backward(complex<double> d[], complex<double> *w) const override{ in(false, d, w); }
    void forward(float const s[], complex<float> d[], complex<float> *w) const override{ r2c(s, d, w); }
    void forward(double const s[], complex<double> d[], complex<double> *w) const override{ r2c(s, d, w); }
    void backward(complex<float> s[], float d[], complex<float> *w) const override{ c2r(s, d, w); }
    void backward(complex<double> s[], double d[], complex<double> *w) const override{ c2r(s, d, w); }
    int box_size() const override{ return n; }
    int complex_size() const override{ return nc; }
    size_t workspace_size() const override{ return ws; }
};
template<typename T> void fillw(vector<T> &v, long c){ for(auto &x : v) x = mk<T>(c); }
// mode 0: same type, 1: real to complex (forward), 2: complex to real (backward)
template<typename TI, typename TO, typename TW> void mock(int mode, bool fwd, bool inplace, int batch, bool idle){
    array<std::unique_ptr<reshape3d_base<int>>, 4> shaper;
    array<std::unique_ptr<mock_exec>, 3> ex;
    // logical sizes: s[0] input, s[i+1] after redistribution i; c = size after the real/complex stage
    int merged = h::coin(3) ? (int) h::R(1, 3) : 0; // 1: 3D stage, 2: first two merged, 3: last two merged
    array<bool, 4> act; for(int i=0; i<4; i++) act[i] = h::coin();
    if (mode == 1 && h::coin()) merged = 0;
    if (merged == 1) act[1] = act[2] = false;
    // which executor holds the merged stages, in execution order: forward the first, backward the last of the group
    array<int, 3> kind = {{1, 1, 1}};
    if (merged == 1) kind = fwd ? array<int, 3>{{1, 0, 0}} : array<int, 3>{{0, 0, 1}};
    if (merged == 2){ if (fwd){ act[1] = false; kind = {{1, 0, 1}}; } else { act[2] = false; kind = {{1, 0, 1}}; } }
    if (merged == 3){ if (fwd){ act[2] = false; kind = {{1, 0, 1}}; } else { act[1] = false; kind = {{1, 0, 1}}; } }
    if (merged == 2 && fwd && false) return;
    // with two merged stages the 2D executor sits in slot 0 (first two) or slot 2 (last two), the slot in between is empty
    array<int, 4> in, out; int cur = idle ? 0 : (int) h::R(1, 9), s0 = cur;
    size_t wsz = 0; int mx = 0; size_t exw = 0;
    bool allow0 = h::coin(3);
    int realstage = mode == 1 ? 0 : (mode == 2 ? 2 : -1);
    vector<std::pair<int, int>> prog; // (kind, id)
    for(int i=0; i<4; i++){
        in[i] = cur;
        if (act[i]){ cur = (idle && !h::coin(3)) ? 0 : (int) h::R(allow0 ? 0 : 1, 9); }
        out[i] = cur;
        if (act[i]){ size_t w = (size_t) (in[i] + out[i]) + (h::coin(3) ? h::R(0, 5) : 0); wsz = std::max(wsz, w); shaper[i].reset(new mock_shaper(10 + i, in[i], out[i], w)); }
        if (i < 3 && kind[i] && cur > 0){
            size_t w = h::coin(3) ? h::R(1, 6) : 0; exw = std::max(exw, w);
            int nr = cur, nc = cur;
            if (i == realstage && mode == 1){ nc = (h::coin(4) ? cur : (int) h::R(1, cur)); cur = nc; }
            if (i == realstage && mode == 2){ nr = (h::coin(4) ? cur : (int) h::R(std::max(1, cur), 2 * cur)); nc = cur; cur = nr; }
            ex[i].reset(new mock_exec(20 + i, nr, nc, w, fwd));
            mx = std::max(mx, std::max(nr, nc));
        }
    }
    int sN = cur;
    array<executor_base*, 3> pe = {{ex[0].get(), ex[1].get(), ex[2].get()}};
    // the layout of the workspace is the one documented in setup(): communication, largest box, extra half of a real box, stage scratch
    size_t comm = wsz;
    int lc = (mode != 0) ? (s0 + sN + mx) : 0;
    if (mode != 0) comm = std::max(comm, (size_t) lc + wsz);
    size_t total = comm + mx + lc + exw, off = exw ? total - exw : 0;
    std::ostringstream os;
    os << "mode=" << mode << (fwd ? " fwd" : " bwd") << " batch=" << batch << (inplace ? " in-place" : "") << " sizes " << s0 << "->" << sN << " act=" << act[0] << act[1] << act[2] << act[3] << " exec=" << (pe[0] != nullptr) << (pe[1] != nullptr) << (pe[2] != nullptr) << " stage scratch " << exw;
    h::ok(os.str());
    size_t G = 5;
    vector<TI> input(2 * G + (size_t) batch * s0), keep; vector<TO> output(2 * G + (size_t) batch * std::max(sN, 0)); vector<TW> ws(2 * G + batch * total);
    vector<long> st((size_t) batch * s0);
    for(auto &x : input) x = mk<TI>(JUNK);
    if (inplace){ // intermediate data never exceeds the user array: the boxes of a plan without redistribution
        size_t m = (size_t) batch * std::max(s0, sN); for(int i=0; i<4; i++) m = std::max(m, (size_t) batch * std::max(in[i], out[i])); output.resize(2 * G + m); }
    fillw(output, JUNK); fillw(ws, JUNK);
    for(size_t i=0; i<st.size(); i++){ st[i] = (long) i + 11; input[G + i] = mk<TI>(st[i]); }
    if (inplace) for(size_t i=0; i<st.size(); i++) output[G + i] = mk<TO>(st[i]);
    keep = input;
    vector<TW> kw = ws;
    TI const *src = inplace ? reinterpret_cast<TI const*>(output.data() + G) : input.data() + G;
    compute_transform<tag::cpu, int>(nullptr, batch, src, output.data() + G, ws.data() + G, off, comm, shaper, pe, fwd ? direction::forward : direction::backward);
    // oracle
    int c = s0;
    for(int i=0; i<4; i++){
        if (act[i]){ vector<long> n((size_t) batch * out[i]); for(int j=0; j<batch; j++) for(int k=0; k<out[i]; k++) n[(size_t) j * out[i] + k] = in[i] == 0 ? 7 + k : hist(st[(size_t) j * in[i] + k % in[i]], 10 + i); st = n; c = out[i]; }
        if (i < 3 && ex[i]){ int a = i == realstage && mode == 2 ? ex[i]->nc : ex[i]->n, b = i == realstage && mode == 1 ? ex[i]->nc : ex[i]->n; vector<long> n((size_t) batch * b); for(int j=0; j<batch; j++) for(int k=0; k<b; k++) n[(size_t) j * b + k] = hist(st[(size_t) j * a + k % a], 20 + i); st = n; c = b; }
    }
    bool good = c == sN;
    for(size_t i=0; good && i<st.size(); i++) if (rd<TO>::get(output[G + i]) != st[i]){ good = false; break; }
    if (!good) h::fail("the output is not the result of the planned stages in order");
    if (!inplace){ bool rest = true; for(size_t i=0; i<output.size(); i++) if ((i < G || i >= G + (size_t) batch * sN) && rd<TO>::get(output[i]) != JUNK) rest = false; CHECK(rest, "something outside the output array is written"); }
    if (input != keep) h::fail("the input array is modified");
    for(size_t i=0; i<G; i++) if (ws[i] != kw[i] || rd<TW>::get(ws[ws.size() - 1 - i]) != JUNK) { h::fail("something outside the workspace is written"); break; }
}
void mocks(long n){
    for(long t=0; t<n; t++){
        int batch = (int) h::R(1, 4); bool idle = h::coin(4);
        int k = (int) h::R(0, 7);
        bool fwd = h::coin(), ip = h::coin(3);
        if (k == 0) mock<complex<double>, complex<double>, complex<double>>(0, fwd, ip, batch, idle);
        if (k == 1) mock<double, double, double>(0, fwd, ip, batch, idle);
        if (k == 2) mock<complex<float>, complex<float>, complex<float>>(0, fwd, false, batch, idle);
        if (k == 3) mock<float, float, float>(0, fwd, ip, batch, idle);
        if (k == 4 || k == 5) mock<double, complex<double>, complex<double>>(1, true, false, batch, idle);
        if (k >= 6) mock<complex<double>, double, complex<double>>(2, false, false, batch, idle);
    }
}
// ---------------------------------------------------------------- naive transforms
enum kind_t{ K_DFT, K_COS, K_SIN, K_COS1, K_SIN1 };
static const long double PI = 3.14159265358979323846264338327950288L;
// 1-D transform of a line in the stated normalization; mult is the constant factor of the backward transform of the built-in variants
vector<Z> line(kind_t k, bool fwd, vector<Z> const &x, double mult){
    int n = (int) x.size(); vector<Z> y(n);
    for(int i=0; i<n; i++){
        Z s = 0;
        for(int j=0; j<n; j++){
            if (k == K_DFT){ long double a = 2 * PI * ((long) i * j % n) / n; s += x[j] * Z((double) cosl(a), (double) (fwd ? -sinl(a) : sinl(a))); }
            else{
                long double c = 0;
                if (k == K_COS) c = fwd ? 2 * cosl(PI * (j + 0.5L) * i / n) : (j == 0 ? 1 : 2 * cosl(PI * (i + 0.5L) * j / n));
                if (k == K_SIN) c = fwd ? 2 * sinl(PI * (j + 0.5L) * (i + 1) / n) : (j == n - 1 ? (i % 2 ? -1 : 1) : 2 * sinl(PI * (i + 0.5L) * (j + 1) / n));
                if (k == K_COS1) c = (j == 0 ? 1 : (j == n - 1 ? (i % 2 ? -1 : 1) : 2 * cosl(PI * j * i / (n - 1))));
                if (k == K_SIN1) c = 2 * sinl(PI * (j + 1) * (i + 1) / (n + 1));
                s += x[j] * (double) c * (fwd ? 1.0 : mult);
            }
        }
        y[i] = s;
    }
    return y;
}
void along(kind_t k, bool fwd, vector<Z> &g, array<int, 3> n, int d, double mult){
    long st[3] = {1, n[0], (long) n[0] * n[1]};
    int a = (d + 1) % 3, b = (d + 2) % 3;
    for(int i=0; i<n[a]; i++) for(int j=0; j<n[b]; j++){
        vector<Z> x(n[d]); long o = i * st[a] + j * st[b];
        for(int t=0; t<n[d]; t++) x[t] = g[o + t * st[d]];
        x = line(k, fwd, x, mult);
        for(int t=0; t<n[d]; t++) g[o + t * st[d]] = x[t];
    }
}
array<int, 3> rorder(){ array<int, 3> o = {{0, 1, 2}}; for(long k=h::R(0, 5); k>0; k--) std::next_permutation(o.begin(), o.end()); return o; }
string ord(array<int, 3> const &o){ return std::to_string(o[0]) + std::to_string(o[1]) + std::to_string(o[2]); }
long pos(B const &b, int x, int y, int z){
    int c[3] = {x, y, z}; long n = 1, p = 0;
    for(int k=0; k<3; k++){ int d = b.order[k]; p += n * (c[d] - b.low[d]); n *= b.high[d] - b.low[d] + 1; }
    return p;
}
template<typename F> void each(B const &b, F f){ for(int z=b.low[2]; z<=b.high[2]; z++) for(int y=b.low[1]; y<=b.high[1]; y++) for(int x=b.low[0]; x<=b.high[0]; x++) f(x, y, z); }
template<typename T> struct real_of{ typedef T type; };
template<typename T> struct real_of<complex<T>>{ typedef T type; };
template<typename T> T put(Z v){ return (T) v.real(); }
template<> complex<float> put(Z v){ return {(float) v.real(), (float) v.imag()}; }
template<> complex<double> put(Z v){ return v; }
template<typename T> Z get(T v){ return Z((double) v, 0); }
template<typename T> Z get(complex<T> v){ return Z(v.real(), v.imag()); }
template<typename T> T nan_(){ return (T) std::nan(""); }
template<> complex<float> nan_(){ return {std::nanf(""), std::nanf("")}; }
template<> complex<double> nan_(){ return {std::nan(""), std::nan("")}; }
template<typename T> double tol(){ return sizeof(typename real_of<T>::type) == 4 ? 3e-5 : 1e-11; }
Z rz(bool real){ double a = (double) h::R(-1000, 1000) / 1000, b = real ? 0 : (double) h::R(-1000, 1000) / 1000; return {a, b}; }
template<typename T> bool untouched(T const *p, size_t n){ T q = nan_<T>(); for(size_t i=0; i<n; i++) if (std::memcmp(p + i, &q, sizeof(T))) return false; return true; }
// ---------------------------------------------------------------- single stages (C13, C15)
template<typename T> bool close(vector<Z> const &a, vector<Z> const &b){ double m = 1; for(auto const &v : b) m = std::max(m, std::abs(v)); for(size_t i=0; i<a.size(); i++) if (!(std::abs(a[i] - b[i]) <= tol<T>() * m * 30)) return false; return true; }
array<int, 3> rsize(bool r2r, kind_t k){
    array<int, 3> n;
    for(int d=0; d<3; d++){ n[d] = (int) h::R(1, h::coin(4) ? 17 : 7); if (r2r && k == K_COS1 && n[d] < 2) n[d] = 2; }
    if (!r2r && h::coin(8)) n[h::R(0, 2)] = (int) h::R(18, 67);
    while((long) n[0] * n[1] * n[2] > 2500) n[h::R(0, 2)] = 2;
    return n;
}
template<typename backend, typename T> void stage(kind_t k, bool r2r, double mult, string const &name){
    array<int, 3> n = rsize(r2r, k), lo; for(int d=0; d<3; d++) lo[d] = h::coin() ? 0 : (int) h::R(0, 5);
    auto o = rorder();
    B box({lo[0], lo[1], lo[2]}, {lo[0] + n[0] - 1, lo[1] + n[1] - 1, lo[2] + n[2] - 1}, o);
    int nd = (r2r || !has_executor2d<backend>()) ? 1 : (h::coin(3) ? 1 : (int) h::R(1, has_executor3d<backend>() ? 3 : 2));
    array<int, 3> dims = {{0, 1, 2}};
    for(long q=h::R(0, 5); q>0; q--) std::next_permutation(dims.begin(), dims.end());
    if (r2r) dims[0] = o[0];
    bool fwd = h::coin();
    std::ostringstream os; os << name << " box " << box << " order " << ord(o) << " dims"; for(int i=0; i<nd; i++) os << " " << dims[i]; os << (fwd ? " fwd" : " bwd") << " bytes " << sizeof(T);
    h::ok(os.str());
    auto e = nd == 1 ? make_executor<backend>(nullptr, box, dims[0]) : (nd == 2 ? make_executor<backend>(nullptr, box, dims[0], dims[1]) : make_executor<backend>(nullptr, box));
    size_t N = (size_t) box.count(), G = 40;
    vector<T> d(2 * G + N, nan_<T>()), w(2 * G + e->workspace_size(), nan_<T>());
    vector<Z> g(N);
    for(auto &v : g) v = rz(r2r);
    each(box, [&](int x, int y, int z){ d[G + pos(box, x, y, z)] = put<T>(g[(x - lo[0]) + (long) n[0] * ((y - lo[1]) + (long) n[1] * (z - lo[2]))]); });
    for(auto &v : g) v = get(put<T>(v));
    CHECK(e->box_size() == (int) N, "the stage reports a wrong number of entries");
    if (fwd) e->forward(d.data() + G, w.data() + G); else e->backward(d.data() + G, w.data() + G);
    for(int i=0; i<nd; i++) along(k, fwd, g, n, dims[i], mult);
    vector<Z> got(N);
    each(box, [&](int x, int y, int z){ got[(x - lo[0]) + (long) n[0] * ((y - lo[1]) + (long) n[1] * (z - lo[2]))] = get(d[G + pos(box, x, y, z)]); });
    CHECK(close<T>(got, g), "the stage does not transform exactly the lines of the box");
    CHECK(untouched(d.data(), G) && untouched(d.data() + G + N, G), "the stage writes outside of the box");
    CHECK(untouched(w.data(), G) && untouched(w.data() + w.size() - G, G), "the stage writes outside of its workspace");
}
template<typename backend, typename R> void stage_r2c(string const &name){
    typedef complex<R> C;
    array<int, 3> n = rsize(false, K_DFT), lo; for(int d=0; d<3; d++) lo[d] = h::coin() ? 0 : (int) h::R(0, 5);
    auto o = rorder(); int dim = (int) h::R(0, 2); lo[dim] = 0;
    B box({lo[0], lo[1], lo[2]}, {lo[0] + n[0] - 1, lo[1] + n[1] - 1, lo[2] + n[2] - 1}, o);
    B cbox = box.r2c(dim);
    bool fwd = h::coin();
    std::ostringstream os; os << name << " r2c box " << box << " order " << ord(o) << " dim " << dim << (fwd ? " fwd" : " bwd") << " bytes " << sizeof(R);
    h::ok(os.str());
    auto e = make_executor_r2c<backend>(nullptr, box, dim);
    size_t N = (size_t) box.count(), M = (size_t) cbox.count(), G = 40;
    CHECK(e->box_size() == (int) N && e->complex_size() == (int) M, "the stage reports wrong sizes");
    vector<R> r(2 * G + N, nan_<R>()); vector<C> c(2 * G + M, nan_<C>()), w(2 * G + e->workspace_size(), nan_<C>());
    vector<Z> g(N), f;
    for(auto &v : g) v = get(put<R>(rz(true)));
    f = g; along(K_DFT, true, f, n, dim, 1);
    auto at = [&](int x, int y, int z)->long{ return (x - lo[0]) + (long) n[0] * ((y - lo[1]) + (long) n[1] * (z - lo[2])); };
    if (fwd){
        each(box, [&](int x, int y, int z){ r[G + pos(box, x, y, z)] = put<R>(g[at(x, y, z)]); });
        auto kr = r;
        e->forward(r.data() + G, c.data() + G, w.data() + G);
        vector<Z> got, want; each(cbox, [&](int x, int y, int z){ got.push_back(get(c[G + pos(cbox, x, y, z)])); want.push_back(f[at(x, y, z)]); });
        CHECK(close<R>(got, want), "the real-to-complex stage does not transform exactly the lines of the box");
        CHECK(!std::memcmp(kr.data(), r.data(), r.size() * sizeof(R)), "the real-to-complex stage modifies its input");
    }else{
        each(cbox, [&](int x, int y, int z){ c[G + pos(cbox, x, y, z)] = put<C>(f[at(x, y, z)]); });
        e->backward(c.data() + G, r.data() + G, w.data() + G);
        vector<Z> got, want; each(box, [&](int x, int y, int z){ got.push_back(get(r[G + pos(box, x, y, z)])); want.push_back(g[at(x, y, z)] * (double) n[dim]); });
        CHECK(close<R>(got, want), "the complex-to-real stage does not transform exactly the lines of the box");
    }
    CHECK(untouched(r.data(), G) && untouched(r.data() + G + N, G) && untouched(c.data(), G) && untouched(c.data() + G + M, G), "the stage writes outside of the boxes");
    CHECK(untouched(w.data(), G) && untouched(w.data() + w.size() - G, G), "the stage writes outside of its workspace");
}
void stages(long n){
    for(long t=0; t<n; t++){
        switch(h::R(0, 8)){
            case 0: stage<backend::fftw, complex<float>>(K_DFT, false, 1, "fftw"); break;
            case 1: stage<backend::fftw, complex<double>>(K_DFT, false, 1, "fftw"); break;
            case 2: stage<backend::mkl, complex<float>>(K_DFT, false, 1, "mkl"); break;
            case 3: stage<backend::mkl, complex<double>>(K_DFT, false, 1, "mkl"); break;
            case 4: stage<backend::stock, complex<float>>(K_DFT, false, 1, "stock"); break;
            case 5: stage<backend::stock, complex<double>>(K_DFT, false, 1, "stock"); break;
            case 6: h::coin() ? stage_r2c<backend::fftw, float>("fftw") : stage_r2c<backend::fftw, double>("fftw"); break;
            case 7: h::coin() ? stage_r2c<backend::mkl, float>("mkl") : stage_r2c<backend::mkl, double>("mkl"); break;
            case 8: h::coin() ? stage_r2c<backend::stock, float>("stock") : stage_r2c<backend::stock, double>("stock"); break;
        }
    }
}
template<typename T> void r2r_stage(){
    switch(h::R(0, 8)){
        case 0: stage<backend::fftw_cos, T>(K_COS, true, 1, "fftw_cos"); break;
        case 1: stage<backend::fftw_sin, T>(K_SIN, true, 1, "fftw_sin"); break;
        case 2: stage<backend::fftw_cos1, T>(K_COS1, true, 1, "fftw_cos1"); break;
        case 3: stage<backend::fftw_sin1, T>(K_SIN1, true, 1, "fftw_sin1"); break;
        case 4: stage<backend::stock_cos, T>(K_COS, true, 2, "stock_cos"); break;
        case 5: stage<backend::stock_sin, T>(K_SIN, true, 2, "stock_sin"); break;
        case 6: stage<backend::stock_cos1, T>(K_COS1, true, 2, "stock_cos1"); break;
        case 7: stage<backend::mkl_cos, T>(K_COS, true, 2, "mkl_cos"); break;
        case 8: stage<backend::mkl_sin, T>(K_SIN, true, 2, "mkl_sin"); break;
    }
}
void r2r_stages(long n){ for(long t=0; t<n; t++){ if (h::coin()) r2r_stage<float>(); else r2r_stage<double>(); } }
// ---------------------------------------------------------------- complete transforms
struct Q{ array<int, 3> low, high, order; };
void cut(array<int, 3> lo, array<int, 3> hi, int n, vector<Q> &out){
    int d = (int) h::R(0, 2), tries = 0;
    while(hi[d] == lo[d] && tries++ < 6) d = (d + 1) % 3;
    if (n <= 1 || hi[d] == lo[d]){ out.push_back({lo, hi, {{0, 1, 2}}}); return; }
    int c = (int) h::R(lo[d], hi[d] - 1), a = (int) h::R(1, n - 1);
    auto h1 = hi, l2 = lo; h1[d] = c; l2[d] = c + 1;
    cut(lo, h1, a, out); cut(l2, hi, n - a, out);
}
vector<Q> layout(array<int, 3> sz, int n, array<int, 3> order, int style, bool idle){
    vector<Q> t; array<int, 3> lo = {{0, 0, 0}}, hi = {{sz[0] - 1, sz[1] - 1, sz[2] - 1}};
    int parts = idle ? (int) h::R(1, n) : n;
    if (style <= 4){ // grids: general, pencils along 0..2, slabs
        array<int, 3> g = {{1, 1, 1}};
        int m = parts;
        for(int f=2; f<=m; f++) while(m % f == 0){ int d = (int) h::R(0, 2); if (style >= 1 && style <= 3) while(d == style - 1) d = (int) h::R(0, 2); if (style == 4) d = 2 - (int) (sz[2] == 1); g[d] *= f; m /= f; }
        bool fit = true; for(int d=0; d<3; d++) if (g[d] > sz[d]) fit = false;
        if (fit) for(auto &b : split_world(B(lo, hi, order), g)) t.push_back({b.low, b.high, order});
    }
    if (t.empty()) cut(lo, hi, parts, t);
    vector<int> idx(n); for(int i=0; i<n; i++) idx[i] = i;
    if (h::coin(3)) for(int i=n-1; i>0; i--) std::swap(idx[i], idx[h::R(0, i)]);
    vector<Q> r(n, Q{{{0, 0, 0}}, {{-1, -1, -1}}, order});
    for(size_t i=0; i<t.size(); i++){ r[idx[i]] = t[i]; r[idx[i]].order = order; }
    // the storage order of a layout is taken from the box of rank 0
    if (r[0].high[0] < 0) for(auto &b : r) if (b.high[0] >= 0){ std::swap(r[0], b); break; }
    return r;
}
struct cfg{ array<int, 3> n; int np, batch, r2c, api; vector<Q> in, out; bool idle, inplace, fwd; scale sc; plan_options opt; string key; cfg(plan_options o) : opt(o){} };
template<typename backend> cfg rcfg(bool r2r, kind_t k, bool r2c, string const &name){
    cfg c(default_options<backend>());
    c.np = (int) h::R(1, h::coin() ? 4 : 8);
    c.n = rsize(r2r, k);
    for(int d=0; d<3; d++) while(c.n[d] > 20) c.n[d] /= 2;
    c.idle = h::coin(4);
    c.r2c = r2c ? (int) h::R(0, 2) : -1;
    auto o1 = h::coin(3) ? rorder() : array<int, 3>{{0, 1, 2}}, o2 = h::coin(3) ? rorder() : o1;
    int s1 = (int) h::R(0, 5), s2 = h::coin(3) ? s1 : (int) h::R(0, 5);
    c.in = layout(c.n, c.np, o1, s1, c.idle);
    auto m = c.n; if (r2c) m[c.r2c] = m[c.r2c] / 2 + 1;
    c.out = layout(m, c.np, o2, s2, c.idle);
    if (!r2c && h::coin(4)){ c.out = c.in; for(auto &q : c.out) q.order = o2; }
    c.batch = h::coin() ? 1 : (int) h::R(2, 3);
    c.fwd = h::coin(); c.inplace = !r2c && h::coin(4);
    c.sc = static_cast<scale>(h::R(0, 2)); c.api = (int) h::R(0, 3);
    c.opt.use_reorder = h::coin(); c.opt.algorithm = static_cast<reshape_algorithm>(h::R(0, 3)); c.opt.use_pencils = h::coin();
    if (h::coin(4)) c.opt.use_num_subranks((int) h::R(1, c.np));
    std::ostringstream os;
    os << name << (r2c ? " r2c dim " + std::to_string(c.r2c) : string()) << " world " << h::str(c.n) << " np=" << c.np << " batch=" << c.batch << (c.fwd ? " fwd" : " bwd") << (c.inplace ? " in-place" : "") << " scale=" << (int) c.sc << " api=" << c.api
       << " reorder=" << c.opt.use_reorder << " alg=" << (int) c.opt.algorithm << " pencils=" << c.opt.use_pencils << " sub=" << c.opt.get_subranks() << " orders " << ord(o1) << "," << ord(o2);
    for(auto v : {&c.in, &c.out}){ os << (v == &c.in ? " in=" : " out="); for(auto &q : *v){ if (q.high[0] < 0) os << "[] "; else os << "[" << q.low[0] << ":" << q.high[0] << "," << q.low[1] << ":" << q.high[1] << "," << q.low[2] << ":" << q.high[2] << "] "; } }
    c.key = os.str();
    return c;
}
double factor(kind_t k, double mult, array<int, 3> n){ // one over the gain of forward and backward together
    double g = 1; for(int d=0; d<3; d++) g *= (k == K_DFT ? n[d] : (k == K_COS1 ? 2.0 * (n[d] - 1) : (k == K_SIN1 ? 2.0 * (n[d] + 1) : 2.0 * n[d]))) * mult; return 1 / g;
}
template<typename FFT> struct run_t{
    // TI: element type of the input layout (real for r2c), TO: of the output layout
    template<typename TI, typename TO, typename TW> static void go(cfg const &c, kind_t k, double mult, bool symm, std::function<FFT*(B const&, B const&)> make){
        // the data of the input layout and of the output layout, in global coordinates
        array<int, 3> n = c.n, m = n; if (c.r2c >= 0) m[c.r2c] = n[c.r2c] / 2 + 1;
        double f = factor(k, mult, n);
        double s = c.sc == scale::none ? 1 : (c.sc == scale::full ? f : std::sqrt(f));
        vector<vector<Z>> src(c.batch), res(c.batch);
        long N = (long) n[0] * n[1] * n[2];
        for(int e=0; e<c.batch; e++){
            vector<Z> g(N);
            bool real = symm || std::is_floating_point<TI>::value;
            for(auto &v : g) v = get(put<TI>(rz(real)));
            if (c.fwd){ src[e] = g; for(int d=0; d<3; d++) along(k, true, g, n, d, mult); }
            else if (symm || std::is_same<TI, TO>::value == false){ // data of a real signal
                vector<Z> x = g; for(int d=0; d<3; d++) along(k, true, x, n, d, mult); for(auto &v : x) v = get(put<TO>(v)); src[e] = x; for(auto &v : g) v *= (double) N; }
            else { src[e] = g; for(int d=0; d<3; d++) along(k, false, g, n, d, mult); }
            for(auto &v : g) v *= s;
            res[e] = g;
        }
        auto at = [&](int x, int y, int z)->long{ return x + (long) n[0] * (y + (long) n[1] * z); };
        vector<B> in, out; for(auto &q : c.in) in.push_back(B(q.low, q.high, q.order)); for(auto &q : c.out) out.push_back(B(q.low, q.high, q.order));
        fmpi::run(c.np, [&](int me){
            std::unique_ptr<FFT> fft;
            // a world with fewer points than ranks may have no process grid, which is reported by an exception
            try{ fft.reset(make(in[me], out[me])); }catch(std::runtime_error &e){ if (string(e.what()).find("Cannot split the given number of indexes") == string::npos) throw; return; }
            size_t ni = (size_t) in[me].count(), no = (size_t) out[me].count(), G = 24;
            string w = " on rank " + std::to_string(me);
            if ((size_t) fft->size_inbox() != ni || (size_t) fft->size_outbox() != no) h::fail("the reported box sizes are wrong" + w);
            if (std::abs(fft->get_scale_factor(scale::full) - f) > 1e-12 * f || std::abs(fft->get_scale_factor(scale::symmetric) - std::sqrt(f)) > 1e-12 * std::sqrt(f)) h::fail("the scaling factor is wrong");
            vector<TW> ws(2 * G + c.batch * fft->size_workspace(), nan_<TW>());
            size_t mxs = c.inplace ? std::max(ni, no) : 0;
            vector<TI> a(2 * G + c.batch * std::max(ni, mxs), nan_<TI>()); vector<TO> b(2 * G + c.batch * std::max(no, mxs), nan_<TO>());
            auto load = [&](auto &v, B const &bx, size_t cnt){ typedef typename std::remove_reference<decltype(v[0])>::type T; for(int e=0; e<c.batch; e++) each(bx, [&](int x, int y, int z){ v[G + e * cnt + pos(bx, x, y, z)] = put<T>(src[e][at(x, y, z)]); }); };
            auto check = [&](auto const &v, B const &bx, size_t cnt){
                typedef typename std::remove_cv<typename std::remove_reference<decltype(v[0])>::type>::type T;
                double mx = 1e-30; for(auto const &r : res) for(auto const &x : r) mx = std::max(mx, std::abs(x));
                bool good = true; for(int e=0; e<c.batch; e++) each(bx, [&](int x, int y, int z){ if (!(std::abs(get(v[G + e * cnt + pos(bx, x, y, z)]) - res[e][at(x, y, z)]) <= 30 * tol<T>() * mx)) good = false; });
                if (!good) h::fail("the result is not the requested transform" + w);
                if (!untouched(v.data(), G) || !untouched(v.data() + v.size() - G, G)) h::fail("something outside the output array is written" + w);
            };
            bool usews = c.api % 2 == 0, single = c.api >= 2 && c.batch == 1;
            if (c.fwd) load(a, in[me], ni); else load(b, out[me], no);
            auto ka = a; auto kb = b;
            TI *pa = a.data() + G; TO *pb = b.data() + G; TW *pw = ws.data() + G;
            inplace_or(c, fft.get(), pa, pb, pw, usews, single);
            if (c.inplace){ if (c.fwd){ check(a, out[me], no); } else check(b, in[me], ni); }
            else if (c.fwd){ check(b, out[me], no); if (std::memcmp(a.data(), ka.data(), a.size() * sizeof(TI))) h::fail("the input array is modified" + w); }
            else{ check(a, in[me], ni); if (std::memcmp(b.data(), kb.data(), b.size() * sizeof(TO))) h::fail("the input array is modified" + w); }
            if (!untouched(ws.data(), G) || !untouched(ws.data() + ws.size() - G, G)) h::fail("something outside the reported workspace is written" + w);
        });
    }
    template<typename TI, typename TO, typename TW> static void inplace_or(cfg const &c, FFT *fft, TI *pa, TO *pb, TW *pw, bool usews, bool single){
        TO *fo = pb; TI *bo = pa;
        if constexpr (std::is_same<TI, TO>::value) if (c.inplace){ fo = pa; bo = pb; }
        if (c.fwd){
            if (single){ if (usews) fft->forward(pa, fo, pw, c.sc); else fft->forward(pa, fo, c.sc); }
            else { if (usews) fft->forward(c.batch, pa, fo, pw, c.sc); else fft->forward(c.batch, pa, fo, c.sc); }
        }else{
            if (single){ if (usews) fft->backward(pb, bo, pw, c.sc); else fft->backward(pb, bo, c.sc); }
            else { if (usews) fft->backward(c.batch, pb, bo, pw, c.sc); else fft->backward(c.batch, pb, bo, c.sc); }
        }
    }
};
template<typename backend, typename R> void full_fft(string const &name){
    typedef complex<R> C;
    int v = (int) h::R(0, 4);
    auto c = rcfg<backend>(false, K_DFT, v >= 3, name + (sizeof(R) == 4 ? " float" : " double") + (v == 2 ? " real input" : ""));
    if (v == 2) c.inplace = false;
    h::ok(c.key);
    if (v >= 3) run_t<fft3d_r2c<backend>>::template go<R, C, C>(c, K_DFT, 1, true, [&](B const &i, B const &o){ return new fft3d_r2c<backend>(i, o, c.r2c, MPI_COMM_WORLD, c.opt); });
    else if (v == 2) run_t<fft3d<backend>>::template go<R, C, C>(c, K_DFT, 1, true, [&](B const &i, B const &o){ return new fft3d<backend>(i, o, MPI_COMM_WORLD, c.opt); });
    else run_t<fft3d<backend>>::template go<C, C, C>(c, K_DFT, 1, false, [&](B const &i, B const &o){ return new fft3d<backend>(i, o, MPI_COMM_WORLD, c.opt); });
}
template<typename backend, typename R> void full_r2r(kind_t k, double mult, string const &name){
    auto c = rcfg<backend>(true, k, false, name + (sizeof(R) == 4 ? " float" : " double"));
    h::ok(c.key);
    run_t<fft3d<backend>>::template go<R, R, R>(c, k, mult, false, [&](B const &i, B const &o){ return new fft3d<backend>(i, o, MPI_COMM_WORLD, c.opt); });
}
void fulls(long n, bool r2r){
    for(long t=0; t<n; t++){
        if (!r2r) switch(h::R(0, 5)){
            case 0: full_fft<backend::fftw, float>("fftw"); break;
            case 1: full_fft<backend::fftw, double>("fftw"); break;
            case 2: full_fft<backend::mkl, float>("mkl"); break;
            case 3: full_fft<backend::mkl, double>("mkl"); break;
            case 4: full_fft<backend::stock, float>("stock"); break;
            case 5: full_fft<backend::stock, double>("stock"); break;
        }else switch(h::R(0, 9)){
            case 0: full_r2r<backend::fftw_cos, double>(K_COS, 1, "fftw_cos"); break;
            case 1: full_r2r<backend::fftw_sin, double>(K_SIN, 1, "fftw_sin"); break;
            case 2: full_r2r<backend::fftw_cos1, double>(K_COS1, 1, "fftw_cos1"); break;
            case 3: full_r2r<backend::fftw_sin1, double>(K_SIN1, 1, "fftw_sin1"); break;
            case 4: full_r2r<backend::stock_cos, double>(K_COS, 2, "stock_cos"); break;
            case 5: full_r2r<backend::stock_sin, double>(K_SIN, 2, "stock_sin"); break;
            case 6: full_r2r<backend::stock_cos1, double>(K_COS1, 2, "stock_cos1"); break;
            case 7: full_r2r<backend::mkl_cos, double>(K_COS, 2, "mkl_cos"); break;
            case 8: full_r2r<backend::mkl_sin, double>(K_SIN, 2, "mkl_sin"); break;
            case 9: full_r2r<backend::stock_cos, float>(K_COS, 2, "stock_cos"); break;
        }
        #ifdef Heffte_ENABLE_TRACING
        event_log.clear();
        #endif
    }
}
// ---------------------------------------------------------------- scaling of arrays
template<typename T> void scaling(long n){
    for(long t=0; t<n; t++){
        long m = h::R(0, 60); double f = (double) h::R(1, 4096) / 1024;
        h::ok("data_scaling entries=" + std::to_string(m) + " factor=" + std::to_string(f) + " bytes " + std::to_string(sizeof(T)));
        vector<T> d(m + 20), r; for(auto &x : d) x = put<T>(rz(false)); r = d;
        for(long i=0; i<m; i++) r[10 + i] *= typename real_of<T>::type(f);
        if (h::coin()) data_scaling::apply(nullptr, (long long) m, d.data() + 10, f); else data_scaling::apply((int) m, d.data() + 10, f);
        CHECK(d == r, "not every entry is multiplied exactly once");
    }
}
int main(int argc, char **argv){
    pid = argv[1]; deep = string(argv[2]) == "thorough"; long m = deep ? 30 : 2;
    h::init(std::stoul(argv[3]));
    if (argc > 4) m = std::stol(argv[4]);
    string fb = "random complete transforms: worlds up to 17 points per direction, up to 8 ranks, idle ranks, all orders, options, three backends, batch up to 3, random message orders";
    if (pid == "C11"){ mocks(40000 * m); fulls(1500 * m, false); return h::done(("recording stages in random pipelines (all patterns of inactive redistributions, merged and idle stages, batch up to 4); " + fb).c_str()); }
    if (pid == "C12"){ fulls(2500 * m, false); fulls(600 * m, true); r2r_stages(400 * m); return h::done((fb + ", guarded workspace of exactly the reported size").c_str()); }
    if (pid == "C13"){ stages(6000 * m); r2r_stages(600 * m); return h::done("random boxes up to 67 points per direction, all orders and directions, three backends, guarded arrays"); }
    if (pid == "C14"){ scaling<float>(300); scaling<double>(300); scaling<complex<float>>(300); scaling<complex<double>>(300); fulls(1500 * m, false); fulls(800 * m, true); return h::done(fb.c_str()); }
    if (pid == "C15"){ r2r_stages(4000 * m); fulls(1000 * m, true); return h::done(("random lines of up to 17 points; " + fb).c_str()); }
    return 2;
}
