// bounded harness for the built-in FFT backend (C16, C17, C18)
#include "h.h"
#include "heffte.h"
#include <complex>
#include <map>
using namespace heffte;
using std::vector; using std::string;
typedef long double LD;
typedef std::complex<LD> Z;
static bool deep = false;
static bool prime(size_t n){ if (n < 2) return false; for(size_t d=2; d*d<=n; d++) if (n % d == 0) return false; return true; }
static size_t mulmod(size_t a, size_t b, size_t m){ return (size_t) ((unsigned __int128) a * b % m); }
static size_t pw(size_t b, size_t e, size_t m){ size_t r = 1; for(; e; e >>= 1){ if (e & 1) r = mulmod(r, b, m); b = mulmod(b, b, m); } return r; }
static bool generator(size_t a, size_t p){ size_t n = p - 1; for(size_t d=2; d*d<=n; d++) if (n % d == 0){ if (pw(a, (p - 1) / d, p) == 1) return false; while(n % d == 0) n /= d; } return n == 1 || pw(a, (p - 1) / n, p) != 1; }
static bool power(size_t n, size_t b){ if (n < b) return false; while(n % b == 0) n /= b; return n == 1; }

// ---------------------------------------------------------------- C16
typedef stock::biFuncNode<float, 1> node;
static size_t walk(node *base, size_t at, size_t total, size_t N, string const &in){ // number of nodes of the subtree, 0 on failure
    h::at(in);
    if (at >= total){ CHECK(false, "a child link leaves the allocated plan"); return 0; }
    node &r = base[at];
    CHECK(r.sz == N, "a node has the wrong length");
    CHECK(r.workspace.size() >= N, "the workspace of a node is shorter than its length");
    stock::fft_type t = r.fptr.type;
    if (t == stock::fft_type::pow2){ CHECK(power(N, 2), "power of two kernel on another length"); return 1; }
    if (t == stock::fft_type::pow3){ CHECK(power(N, 3), "power of three kernel on another length"); return 1; }
    if (t == stock::fft_type::pow4){ CHECK(power(N, 4), "power of four kernel on another length"); return 1; }
    if (t == stock::fft_type::discrete){ return 1; }
    if (t == stock::fft_type::rader){
        CHECK(prime(N), "prime algorithm on a composite length");
        if (!prime(N)) return 0;
        CHECK(generator(r.fptr.root, N), "the root is not a generator");
        CHECK(mulmod(r.fptr.root % N, r.fptr.root_inv, N) == 1, "root_inv is not the inverse of the root");
        if (r.left == 0 || at + r.left >= total){ CHECK(false, "a child link leaves the allocated plan"); return 0; }
        size_t k = walk(base, at + r.left, total, N - 1, in);
        return k ? 1 + k : 0;
    }
    if (r.left == 0 || r.right == 0 || at + r.left >= total || at + r.right >= total){ CHECK(false, "a child link leaves the allocated plan"); return 0; }
    size_t a = base[at + r.left].sz, b = base[at + r.right].sz;
    CHECK(a * b == N && a > 1 && b > 1, "a composite node does not factor its length");
    if (a * b != N || a < 2 || b < 2) return 0;
    size_t l = walk(base, at + r.left, total, a, in), q = walk(base, at + r.right, total, b, in);
    if (l && q){
        // the two subtrees are disjoint
        CHECK(r.left + l <= r.right || r.right + q <= r.left, "the subtrees of a composite node overlap");
    }
    return l && q ? 1 + l + q : 0;
}
static void tree(size_t N){
    std::ostringstream os; os << "tree N=" << N;
    h::ok(os.str());
    size_t n = stock::getNumNodes(N);
    vector<node> v(n + 64); // spare entries detect a builder that uses more nodes than it counts
    size_t used = stock::init_fft_tree(v.data(), N);
    CHECK(used == n, "the number of nodes counted differs from the number of nodes built");
    for(size_t i=n; i<v.size(); i++) CHECK(v[i].sz == 0, "a node beyond the counted ones was written");
    walk(v.data(), 0, n, N, os.str());
    if (prime(N)) CHECK(v[0].fptr.type == (N > HEFFTE_STOCK_RADER_MIN ? stock::fft_type::rader : (N == 2 ? stock::fft_type::pow2 : N == 3 ? stock::fft_type::pow3 : stock::fft_type::discrete)), "kernel of a prime length");
}
static void numbers(long n){
    for(long t=0; t<n; t++){
        size_t N = h::coin() ? h::R(1, 5000) : h::R(1, 2000000);
        std::ostringstream os; os << "factor N=" << N; h::ok(os.str());
        size_t k = stock::factor(N);
        CHECK(k >= 1 && N % k == 0, "factor() does not divide");
        CHECK(k > 1 || N == 1, "factor() is trivial");
        CHECK(k < N || prime(N) || N == 1 || N == 4 || N == 16, "factor() gives up on a composite length");
        for(size_t b : {2, 3, 4, 5, 7}) CHECK(stock::power_of(N, b) == power(N, b), "power_of");
        size_t b = h::R(1, 100000), e = h::R(0, 1000000), m = h::R(2, 3000000);
        CHECK(stock::modPow(b, e, m) == pw(b, e, m), "modPow");
    }
    for(size_t p=3; p<(deep ? 40000 : 6000); p++) if (prime(p)){ std::ostringstream os; os << "primeRoot p=" << p; h::ok(os.str()); CHECK(generator(stock::primeRoot(p), p), "primeRoot is not a generator"); }
    for(size_t p=100001; p<(deep ? 110000 : 100400); p++) if (prime(p)){ std::ostringstream os; os << "primeRoot p=" << p; h::ok(os.str()); CHECK(generator(stock::primeRoot(p), p), "primeRoot is not a generator"); }
}

// ---------------------------------------------------------------- C17
template<typename F, int L> struct lanes { static const int n = L == 1 ? 1 : L / 2; };
template<typename F, int L> stock::Complex<F, L> mk(vector<std::complex<F>> const &v){ return stock::Complex<F, L>(v.data(), 1); }
template<typename F, int L> void check_kernel(stock::biFuncNode<F, L> *root, size_t N, string const &what){
    typedef stock::Complex<F, L> C;
    const int K = lanes<F, L>::n;
    size_t si = h::coin(3) ? h::R(2, 5) : 1, so = h::coin(3) ? h::R(2, 5) : 1;
    if (N > 20000) si = so = 1;
    bool fwd = h::coin();
    std::ostringstream os; os << what << " N=" << N << " in-stride=" << si << " out-stride=" << so << (fwd ? " forward" : " backward") << " F=" << sizeof(F) << " L=" << L;
    h::ok(os.str());
    stock::complex_vector<F, L> x((N - 1) * si + 9), y((N - 1) * so + 9);
    vector<vector<std::complex<F>>> xs(x.size(), vector<std::complex<F>>(K));
    vector<std::complex<F>> can(K, std::complex<F>(-77, 33));
    for(size_t i=0; i<x.size(); i++){
        bool used = i >= 4 && (i - 4) % si == 0 && (i - 4) / si < N;
        for(auto &z : xs[i]) z = used ? std::complex<F>(h::R(-9, 9), h::R(-9, 9)) : std::complex<F>(std::nan(""), std::nan(""));
        x[i] = mk<F, L>(xs[i]);
    }
    for(size_t i=0; i<y.size(); i++) y[i] = mk<F, L>(can);
    root->fptr(x.data() + 4, y.data() + 4, si, so, root, fwd ? direction::forward : direction::backward);
    LD tol = std::min((sizeof(F) == 4 ? 6e-8L : 1.2e-16L) * 1000 * ((LD) N * N + 30), (LD) 1.5); // the twiddle factors are formed by repeated products; accuracy is not what is checked
    static std::map<size_t, vector<Z>> tw;
    vector<Z> &w = tw[N];
    if (w.empty()){ w.resize(N); for(size_t i=0; i<N; i++) w[i] = Z(std::cos(2 * M_PIl * i / N), std::sin(2 * M_PIl * i / N)); }
    size_t step = N > 2000 ? N / 37 + 1 : 1;
    for(int l=0; l<K; l++) for(size_t k=0; k<N; k+=step){
        Z s = 0; for(size_t n=0; n<N; n++){ size_t e = mulmod(n, k, N); Z v(xs[4 + n * si][l].real(), xs[4 + n * si][l].imag()); s += v * (fwd ? std::conj(w[e]) : w[e]); }
        std::complex<F> g = y[4 + k * so][l];
        if (!(std::abs(Z(g.real(), g.imag()) - s) <= tol)){ std::ostringstream o2; o2 << "lane " << l << " coefficient " << k << " is (" << g.real() << "," << g.imag() << ") not (" << s.real() << "," << s.imag() << ")"; CHECK(false, o2.str()); return; }
    }
    for(size_t i=0; i<y.size(); i++){ bool used = i >= 4 && (i - 4) % so == 0 && (i - 4) / so < N; if (!used) for(int l=0; l<K; l++) CHECK(y[i][l] == can[l], "an entry outside the strided output was written"); }
    for(size_t i=4; i<x.size(); i++) if ((i - 4) % si == 0 && (i - 4) / si < N) for(int l=0; l<K; l++) CHECK(x[i][l] == xs[i][l], "the input was modified");
}
template<typename F, int L> void whole(size_t N){
    size_t n = stock::getNumNodes(N);
    vector<stock::biFuncNode<F, L>> v(n);
    stock::init_fft_tree(v.data(), N);
    check_kernel<F, L>(v.data(), N, "plan");
}
template<typename F, int L> void leaf(size_t N, stock::fft_type t, char const *nm){ stock::biFuncNode<F, L> r(N, t); check_kernel<F, L>(&r, N, nm); }
template<typename F, int L> void rader(size_t p){
    size_t n = stock::getNumNodes(p - 1), a = 2; while(!generator(a, p)) a++;
    vector<stock::biFuncNode<F, L>> v(n + 1);
    v[0] = stock::biFuncNode<F, L>(p, a, pw(a, p - 2, p));
    v[0].left = 1; stock::init_fft_tree(v.data() + 1, p - 1);
    check_kernel<F, L>(v.data(), p, "rader");
}
template<typename F, int L> void kernels(long m){
    for(long t=0; t<30*m; t++){
        whole<F, L>(h::coin(3) ? h::R(1, sizeof(F) == 4 ? 120 : 400) : h::R(1, 70));
        leaf<F, L>(h::R(1, 40), stock::fft_type::discrete, "DFT");
        leaf<F, L>((size_t) 1 << h::R(1, 8), stock::fft_type::pow2, "pow2");
        leaf<F, L>((size_t) 1 << (2 * h::R(1, 4)), stock::fft_type::pow4, "pow4");
        { size_t n = 3; for(long k=h::R(0, 4); k>0; k--) n *= 3; leaf<F, L>(n, stock::fft_type::pow3, "pow3"); }
        { size_t p; do{ p = h::R(3, 120); } while(!prime(p)); rader<F, L>(p); }
    }
    for(size_t N : {512, 1024, 2048, 729, 2187, 1000, 1009, 1155, 1331, 1536}) if (sizeof(F) == 8 || N % 1009) whole<F, L>(N);
}

// ---------------------------------------------------------------- C18
template<typename F, int L> void lanewise(long m){
    typedef stock::Complex<F, L> C; typedef std::complex<F> S;
    const int K = lanes<F, L>::n;
    auto rnd = [](){ return S((F) (h::R(-80, 80) / 8.0), (F) (h::R(-80, 80) / 8.0)); };
    auto near = [](S a, S b){ return std::abs(a - b) <= (sizeof(F) == 4 ? 2e-4 : 1e-10) * (1 + std::abs(b)); };
    for(long t=0; t<m; t++){
        int st = (int) h::R(1, 5);
        vector<S> a(K * st + 1), b(K), c(K), d(K);
        for(auto &v : a) v = rnd();
        for(auto &v : b) do{ v = rnd(); } while(std::abs(v) < 0.3);
        for(auto &v : c) v = rnd();
        F r; do{ r = (F) (h::R(-80, 80) / 8.0); } while(r == 0);
        std::ostringstream os; os << "lanes F=" << sizeof(F) << " L=" << L << " stride=" << st << " case " << t; h::ok(os.str());
        C A(a.data(), st), B(b.data()), D(c.data());
#define LANES(EXPR, REF, NAME) { C q_ = (EXPR); for(int i=0; i<K; i++){ S x = a[i * st], y = b[i], z = c[i]; (void) x; (void) y; (void) z; S e_ = (REF); CHECK(near(q_[i], e_), NAME); } }
        LANES(A, x, "strided load"); LANES(B, y, "load");
        LANES(A + B, x + y, "add"); LANES(A - B, x - y, "subtract"); LANES(A * B, x * y, "multiply"); LANES(A / B, x / y, "divide");
        LANES(A + r, x + r, "add real"); LANES(A - r, x - r, "subtract real"); LANES(A * r, x * r, "multiply real"); LANES(A / r, x / r, "divide real");
        LANES(-A, -x, "negate"); LANES(A.conjugate(), std::conj(x), "conjugate"); LANES(A.__mul_i(), x * S(0, 1), "times i"); LANES(A.__mul_neg_i(), x * S(0, -1), "times -i");
        LANES(A.fmadd(B, D), x * y + z, "fmadd"); LANES(A.fmsub(B, D), x * y - z, "fmsub");
        { C q = A; q += B; LANES(q, x + y, "+="); q = A; q -= B; LANES(q, x - y, "-="); q = A; q *= B; LANES(q, x * y, "*="); q = A; q /= B; LANES(q, x / y, "/="); }
        { C q = A; q += r; LANES(q, x + r, "+= real"); q = A; q -= r; LANES(q, x - r, "-= real"); q = A; q *= r; LANES(q, x * r, "*= real"); q = A; q /= r; LANES(q, x / r, "/= real"); }
        { C q(b[0].real(), b[0].imag()); for(int i=0; i<K; i++) CHECK(near(q[i], b[0]), "broadcast of one number"); }
        { C q; for(int i=0; i<K; i++) CHECK(q[i] == S(0), "zero"); }
        { vector<F> f(2 * K + 2, F(99)); A.get(f.data() + 1); for(int i=0; i<K; i++) CHECK(f[1 + 2 * i] == a[i * st].real() && f[2 + 2 * i] == a[i * st].imag(), "store"); CHECK(f[0] == F(99) && f[2 * K + 1] == F(99), "store outside the lanes");
          C q(f.data() + 1); for(int i=0; i<K; i++) CHECK(q[i] == a[i * st], "load of reals"); }
        { auto v = A.modulus(); F const *f = reinterpret_cast<F const*>(&v); for(int i=0; i<K; i++) CHECK(near(S(f[2 * i]), S(std::abs(a[i * st]))), "modulus"); }
    }
}
int main(int argc, char **argv){
    string pid = argv[1]; deep = string(argv[2]) == "thorough"; long m = deep ? 20 : 1;
    h::init(std::stoul(argv[3]));
    if (pid == "C16"){
        for(size_t N=1; N<=(deep ? 60000 : 6000); N++) tree(N);
        for(size_t N : {1495729ul, 100003ul, 100019ul, 200006ul, 300009ul, 400012ul, 99991ul, 131072ul, 177147ul, 1048576ul, 531441ul, 262144ul, 1224ul * 1223, 1213ul * 1213, 1217ul * 1217, 1217ul * 1223, 1231ul * 1231, 1229ul * 1237, 999983ul, 100043ul * 7}) tree(N);
        numbers(20000 * m);
        return h::done("plans of all lengths up to 6000 (thorough: 60000) and selected lengths up to 1.5 million, random arguments of the number theory helpers");
    }
    if (pid == "C17"){
        m *= 4; kernels<double, 1>(m); kernels<float, 1>(m);
#ifdef Heffte_ENABLE_AVX
        kernels<double, 2>(m); kernels<double, 4>(m); kernels<float, 4>(m); kernels<float, 8>(m);
#endif
        return h::done("lengths up to 400 and selected up to 2187, every kernel, strides up to 5, both directions, all lane types of the build");
    }
    if (pid == "C18"){
        lanewise<double, 1>(4000 * m); lanewise<float, 1>(4000 * m);
#ifdef Heffte_ENABLE_AVX
        lanewise<double, 2>(4000 * m); lanewise<double, 4>(4000 * m); lanewise<float, 4>(4000 * m); lanewise<float, 8>(4000 * m);
#endif
        return h::done("random numbers, strides up to 5, all lane types of the build");
    }
    return 2;
}
