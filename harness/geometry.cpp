// bounded cross-check of the geometry functions against set-of-points oracles (C01-C06)
#include "h.h"
#include "heffte_plan_logic.h"
using namespace heffte;
using h::R; using h::coin;
template<class I> std::string bs(box3d<I> const &b){ return "[" + h::str(b.low) + h::str(b.high) + "o" + h::str(b.order) + "]"; }
template<class I> std::string vs(std::vector<box3d<I>> const &v){ std::string s; for(auto &b : v) s += bs(b); return s; }
static std::array<int, 3> orders[6] = {{{0,1,2}}, {{0,2,1}}, {{1,0,2}}, {{1,2,0}}, {{2,0,1}}, {{2,1,0}}};
template<class I> using P = std::array<I, 3>;
template<class I> box3d<I> mk(P<I> l, P<I> hh, std::array<int,3> o){ return box3d<I>(l, hh, o); }
template<class I> bool in(P<I> p, P<I> l, P<I> hh){ for(int i=0; i<3; i++) if (p[i] < l[i] || p[i] > hh[i]) return false; return true; }
template<class I> long pts(P<I> l, P<I> hh){ long n = 1; for(int i=0; i<3; i++) n *= std::max<long>(0, (long)hh[i] - (long)l[i] + 1); return n; }
// a valid set of boxes: recursive bisection of the world into n boxes (some may be empty)
template<class I> std::vector<box3d<I>> bricks(box3d<I> w, int n, std::array<int,3> o, bool allow_empty = false){
    if (n == 1) return {box3d<I>(w.low, w.high, o)};
    if (allow_empty && coin(8)) {
        auto r = bricks(w, n-1, o, true);
        int at = R(0, r.size());
        std::vector<box3d<I>> t;
        for(int i=0; i<=(int) r.size(); i++){ if (i == at) t.push_back(box3d<I>(P<I>{0,0,0}, P<I>{-1,-1,-1}, o)); if (i < (int) r.size()) t.push_back(r[i]); }
        return t;
    }
    int d = R(0, 2);
    for(int t=0; t<3 && w.size[d] < 2; t++) d = (d + 1) % 3;
    if (w.size[d] < 2) {
        auto r = bricks(w, 1, o);
        for(int i=1; i<n; i++) r.push_back(box3d<I>(P<I>{0,0,0}, P<I>{-1,-1,-1}, o));
        return r;
    }
    I c = w.low[d] + R(0, w.size[d] - 2);
    P<I> h1 = w.high, l2 = w.low; h1[d] = c; l2[d] = c + 1;
    int n1 = R(1, n-1);
    auto a = bricks(box3d<I>(w.low, h1, o), n1, o, allow_empty), b = bricks(box3d<I>(l2, w.high, o), n - n1, o, allow_empty);
    for(auto &x : b) a.push_back(x);
    return a;
}
// is it a tiling of the world (each point exactly once)?
template<class I> bool tiling(std::vector<box3d<I>> const &v, P<I> l, P<I> hh){
    long n = 0;
    for(auto &b : v) n += pts<I>(b.low, b.high);
    if (n != pts<I>(l, hh)) return false;
    for(auto &b : v) if (pts<I>(b.low, b.high) > 0) for(int i=0; i<3; i++) if (b.low[i] < l[i] || b.high[i] > hh[i]) return false;
    for(size_t i=0; i<v.size(); i++) for(size_t j=0; j<i; j++){
        P<I> a, b; for(int k=0; k<3; k++){ a[k] = std::max(v[i].low[k], v[j].low[k]); b[k] = std::min(v[i].high[k], v[j].high[k]); }
        if (pts<I>(v[i].low, v[i].high) > 0 && pts<I>(v[j].low, v[j].high) > 0 && pts<I>(a, b) > 0) return false;
    }
    return true;
}
template<class I> void c01(long n){
    for(long it=0; it<n; it++){
        P<I> l1, h1, l2, h2;
        int m = coin(6) ? 40000 : 5;
        for(int i=0; i<3; i++){ l1[i] = R(-4, m); h1[i] = l1[i] + R(coin(10) ? -3 : 0, m < 10 ? 4 : m); l2[i] = R(-4, m); h2[i] = l2[i] + R(coin(10) ? -3 : 0, m < 10 ? 4 : m); }
        if (coin(12)) { l2 = l1; h2 = h1; }
        if (coin(20)) { l2 = l1; h2 = h1; if (coin()) l2[R(0,2)] -= 1; else h2[R(0,2)] += 1; }
        auto o1 = orders[R(0, 5)], o2 = orders[R(0, 5)];
        box3d<I> a(l1, h1, o1), b(l2, h2, o2);
        h::ok("C01 " + bs(a) + bs(b));
        CHECK(a.low == l1 && a.high == h1 && a.order == o1, "the box has the given corners and order");
        box3d<I> dflt(l1, h1);
        CHECK(dflt.low == l1 && dflt.high == h1 && (dflt.order == std::array<int,3>{{0,1,2}}), "default order");
        for(int i=0; i<3; i++) CHECK(a.size[i] == h1[i] - l1[i] + 1, "size");
        CHECK(a.count() == pts<I>(l1, h1), "count");
        CHECK(a.empty() == (pts<I>(l1, h1) == 0), "empty");
        auto c = a.collide(b);
        bool ea = a.empty(), eb = b.empty();
        P<I> lo, hi; for(int i=0; i<3; i++){ lo[i] = std::max(l1[i], l2[i]); hi[i] = std::min(h1[i], h2[i]); }
        long common = (ea || eb) ? 0 : pts<I>(lo, hi);
        CHECK(pts<I>(c.low, c.high) == common && c.count() == common && c.empty() == (common == 0), "collide has the number of common points");
        if (common) CHECK(c.low == lo && c.high == hi && c.order == o1, "collide keeps exactly the common points");
        CHECK((a == b) == (l1 == l2 && h1 == h2), "operator ==");
        CHECK((a != b) == !(l1 == l2 && h1 == h2), "operator !=");
        CHECK(a.ordered_same_as(b) == (o1 == o2), "ordered_same_as");
        CHECK(a.is2d() == (a.size[0] == 1 || a.size[1] == 1 || a.size[2] == 1), "is2d");
        for(int d=0; d<3; d++){
            CHECK(a.osize(d) == a.size[o1[d]], "osize");
            CHECK(o1[a.find_order(d)] == d, "find_order");
            auto r = a.r2c(d);
            if (ea) CHECK(r.count() == 0 && r.empty(), "r2c of an empty box");
            else {
                P<I> rh = h1; rh[d] = l1[d] + a.size[d] / 2;
                CHECK(r.low == l1 && r.high == rh && r.order == o1, "r2c keeps the first n/2+1 points");
                int pos = (o1[0] == d) ? 0 : (o1[1] == d) ? 1 : 2;
                long stride = 1; for(int q=0; q<pos; q++) stride *= a.size[o1[q]];
                if (stride < 2000000000L) CHECK(fft1d_get_stride(a, d) == stride, "fft1d_get_stride");
                // number of lines in one batched call: all lines for the fast and slow dimension, one plane for the middle one
                long many = pos == 0 ? (long) a.size[o1[1]] * a.size[o1[2]] : pos == 1 ? (long) a.size[o1[0]] : (long) a.size[o1[0]] * a.size[o1[1]];
                if (many < 2000000000L) CHECK(fft1d_get_howmany(a, d) == many, "fft1d_get_howmany");
            }
        }
    }
}
template<class I> void c02(long n){
    for(long it=0; it<n; it++){
        P<I> l, hh; std::array<int,3> g;
        for(int i=0; i<3; i++){ l[i] = R(-3, 6); hh[i] = l[i] + R(0, coin(5) ? 40 : 9); g[i] = R(1, coin(4) ? 12 : 5); }
        if (coin(30)) hh[0] = l[0] + R(90000, 100000);
        auto o = orders[R(0,5)];
        box3d<I> w(l, hh, o);
        int np = g[0]*g[1]*g[2];
        rank_remap rm(0);
        bool remap = coin(3);
        std::vector<int> map;
        if (remap){
            int all = np + R(0, 5);
            rm.set_subranks(all, np);
            CHECK(rm.map.size() == (size_t) all && rm.size_subcomm == np, "set_subranks size");
            for(int i=0; i<all; i++) CHECK(rm.map[i] == (i < np ? i : -1), "set_subranks map");
            if (coin()) for(int i=all-1; i>0; i--) std::swap(rm.map[i], rm.map[R(0, i)]);
            map = rm.map;
        }
        h::ok("C02 world " + bs(w) + " grid " + h::str(g) + (remap ? " map " + h::str(map) : ""));
        auto r = remap ? split_world(w, g, rm) : split_world(w, g);
        std::vector<box3d<I>> plain;
        if (remap){
            if (r.size() != map.size()){ h::fail("number of boxes"); continue; }
                        std::vector<box3d<I>> q;
            std::vector<int> pos(np);
            for(size_t i=0; i<map.size(); i++) if (map[i] == -1) CHECK(r[i].empty() && r[i].order == o, "idle ranks get an empty box"); else pos[map[i]] = i;
            for(int i=0; i<np; i++) q.push_back(r[pos[i]]);
            plain.swap(q);
        }else plain.swap(r);
        if (plain.size() != (size_t) np){ h::fail("number of boxes"); continue; }
        CHECK(tiling<I>(plain, l, hh), "disjoint boxes that fill the world");
        size_t c = 0;
        P<I> cur;
        cur[2] = l[2];
        for(int k=0; k<g[2]; k++){ cur[1] = l[1]; I ek = 0; for(int j=0; j<g[1]; j++){ cur[0] = l[0]; I ej = 0; for(int i=0; i<g[0]; i++){
            auto &b = plain[c++];
            CHECK(b.order == o, "world order");
            for(int d=0; d<3; d++){ CHECK(b.low[d] == cur[d], "boxes are in grid order"); I q = w.size[d] / g[d]; CHECK(b.size[d] == q || b.size[d] == q + 1, "sizes differ by at most one"); }
            cur[0] = b.high[0] + 1; ej = b.high[1] + 1; ek = b.high[2] + 1;
        } cur[1] = ej; } cur[2] = ek; }
    }
}
template<class I> void c03(long n){
    auto area = [](long a, long b){ return a * b + a + b; };
    for(long it=0; it<n; it++){
        int np = (it < n / 3) ? 1 + it % 400 : R(1, coin(4) ? 60000 : 3000);
        h::ok("C03 get_factors/make_procgrid " + std::to_string(np));
        auto f = get_factors(np);
        std::set<std::pair<int,int>> s, e;
        for(auto x : f) s.insert({x[0], x[1]});
        for(int i=1; i<=np; i++) if (np % i == 0) e.insert({i, np / i});
        CHECK(s == e, "get_factors lists exactly the factorizations");
        auto g = make_procgrid(np);
        CHECK(g[0] >= 1 && g[1] >= 1 && g[0] * g[1] == np, "make_procgrid product");
        for(auto x : e) CHECK(area(g[0], g[1]) <= area(x.first, x.second), "make_procgrid optimal");
    }
    for(long it=0; it<n; it++){
        P<I> l, hh;
        for(int i=0; i<3; i++){ l[i] = R(-2, 2); hh[i] = l[i] + R(0, coin(3) ? 30 : 8); }
        box3d<I> w(l, hh, orders[R(0,5)]);
        std::array<int,2> g{{(int)R(1, coin() ? 6 : 20), (int)R(1, coin() ? 6 : 20)}};
        int d = R(0, 2);
        int a1 = d == 0 ? 1 : 0, a2 = d == 2 ? 1 : 2;
        h::ok("C03 make_procgrid2d world " + bs(w) + " dir " + std::to_string(d) + " grid " + h::str(g));
        int np = g[0] * g[1];
        auto fits = [&](int x, int y){ return x <= w.size[a1] && y <= w.size[a2]; };
        long best = -1;
        for(int i=1; i<=np; i++) if (np % i == 0 && fits(i, np / i)) if (best < 0 || area(i, np / i) < best) best = area(i, np / i);
        try{
            auto r = make_procgrid2d(w, d, g);
            CHECK(r[d] == 1 && r[a1] >= 1 && r[a2] >= 1 && r[a1] * r[a2] == np, "grid product and pencil direction");
            CHECK(fits(r[a1], r[a2]), "grid fits the world");
            if (fits(g[0], g[1])) CHECK(r[a1] == g[0] && r[a2] == g[1], "candidate kept when it fits");
            else CHECK(best >= 0 && area(r[a1], r[a2]) == best, "smallest area");
        }catch(std::runtime_error &){
            CHECK(best < 0, "throws only if no factorization fits");
        }
        int q = coin() ? np : R(1, 64);
        h::ok("C03 proc_setup_min_surface world " + bs(w) + " ranks " + std::to_string(q));
        long bests = -1;
        auto surf = [&](long i, long j, long k){ long x = w.size[0] / i, y = w.size[1] / j, z = w.size[2] / k; return x * y + y * z + z * x; };
        for(int i=1; i<=std::min<long>(q, w.size[0]); i++) if (q % i == 0) for(int j=1; j<=std::min<long>(q / i, w.size[1]); j++) if ((q / i) % j == 0){
            int k = q / i / j;
            if (k <= w.size[2]) if (bests < 0 || surf(i, j, k) < bests) bests = surf(i, j, k);
        }
        if (bests < 0) continue; // no admissible grid: the function asserts
        auto r = proc_setup_min_surface(w, q);
        CHECK(r[0] >= 1 && r[1] >= 1 && r[2] >= 1 && r[0] * r[1] * r[2] == q, "3-D grid product");
        CHECK(r[0] <= w.size[0] && r[1] <= w.size[1] && r[2] <= w.size[2], "3-D grid fits");
        CHECK(surf(r[0], r[1], r[2]) == bests, "minimal surface");
    }
}
template<class I> bool admissible(box3d<I> const &w, int d, int np){
    int a1 = d == 0 ? 1 : 0, a2 = d == 2 ? 1 : 2;
    for(int i=1; i<=np; i++) if (np % i == 0 && i <= w.size[a1] && np / i <= w.size[a2]) return true;
    return false;
}
template<class I> std::multiset<std::array<I,6>> bag(std::vector<box3d<I>> const &v){
    std::multiset<std::array<I,6>> s;
    for(auto &b : v) s.insert({{b.low[0], b.low[1], b.low[2], b.high[0], b.high[1], b.high[2]}});
    return s;
}
template<class I> void c04(long n, bool big){
    for(long it=0; it<n; it++){
        P<I> l{{0,0,0}}, hh;
        for(int i=0; i<3; i++) hh[i] = l[i] + R(coin(8) ? 0 : 2, coin(3) ? 24 : 9);
        if (big){ hh[0] = R(1000, 3000); hh[1] = R(1000, 3000); hh[2] = R(1000, 3000); }
        auto wo = orders[R(0,5)], so = orders[R(0,5)], o = orders[R(0,5)];
        box3d<I> w(l, hh, wo);
        int np = R(1, 12), all = np;
        rank_remap rm(0);
        if (coin(3)){
            all = np + R(1, 5); rm.set_subranks(all, np);
            if (coin()) for(int i=all-1; i>0; i--) std::swap(rm.map[i], rm.map[R(0, i)]); // any subset of the ranks, any numbering
        }
        auto src = coin(3) ? bricks<I>(w, all, so, true) : bricks<I>(w, all, so);
        if (coin(4)){ std::array<int,3> g{{1,1,1}}; g[R(0,2)] = all; auto t = split_world(box3d<I>(l, hh, so), g); src.swap(t); }
        if (coin()) for(int i=all-1; i>0; i--){ int j = R(0, i); auto a = src[i], b = src[j]; std::vector<box3d<I>> t; for(int q=0; q<all; q++) t.push_back(q == i ? b : q == j ? a : src[q]); src.swap(t); }
        int d = R(0, 2), d2 = (d + R(1, 2)) % 3;
        std::string key = "world " + bs(w) + " ranks " + std::to_string(np) + "/" + std::to_string(all) + " dim " + std::to_string(d) + "," + std::to_string(d2) + " order " + h::str(o) + " source " + vs(src);
        bool pencil = true;
        for(auto &b : src) pencil = pencil && b.size[d] == w.size[d];
        CHECK(is_pencils(w, src, d) == pencil, "is_pencils");
        bool slab = pencil;
        for(auto &b : src) slab = slab && b.size[d2] == w.size[d2];
        CHECK(is_slab(w, src, d, d2) == slab, "is_slab");
        auto ro = reorder(src, o);
        CHECK(ro.size() == src.size(), "reorder size");
        for(size_t i=0; i<src.size() && i<ro.size(); i++) CHECK(ro[i].low == src[i].low && ro[i].high == src[i].high && ro[i].order == o, "reorder keeps the boxes");
        h::ok("C04 make_pencils " + key);
        auto grid = make_procgrid(np);
        bool admiss = admissible<I>(w, d, np);
        try{
            auto r = make_pencils(w, grid, d, src, o, rm);
            CHECK(r.size() == (size_t) all, "one box per rank");
            for(auto &b : r) CHECK(b.order == o, "requested order");
            if (pencil){ for(size_t i=0; i<src.size(); i++) CHECK(r[i].low == src[i].low && r[i].high == src[i].high, "pencil source is kept"); }
            else{
                CHECK(tiling<I>(r, l, hh), "layout tiles the world");
                for(size_t i=0; i<r.size(); i++){ if (pts<I>(r[i].low, r[i].high) > 0) CHECK(r[i].size[d] == w.size[d], "pencils span the dimension");
                    if (!rm.empty() && rm.map[i] == -1) CHECK(r[i].empty(), "idle ranks stay empty");
                    else CHECK(!r[i].empty(), "participating ranks hold a tile"); }
            }
        }catch(std::runtime_error &){ CHECK(!pencil && !admiss, "make_pencils throws only if no grid fits"); }
        h::ok("C04 make_slabs " + key);
        auto r = make_slabs(w, np, d, d2, src, o, rm);
        CHECK(r.size() == (size_t) all, "one box per rank");
        CHECK(tiling<I>(r, l, hh), "slabs tile the world");
        for(size_t i=0; i<r.size(); i++){
            CHECK(r[i].order == o, "requested order");
            if (pts<I>(r[i].low, r[i].high) > 0) CHECK(r[i].size[d] == w.size[d] && r[i].size[d2] == w.size[d2], "slabs span both dimensions");
            if (!rm.empty() && rm.map[i] == -1) CHECK(r[i].empty(), "idle ranks stay empty");
        }
        std::array<int,3> g3{{1,1,1}}; g3[3 - d - d2] = np;
        CHECK(bag<I>(r) == bag<I>(rm.empty() ? split_world(w, g3) : split_world(w, g3, rm)), "slabs are a permutation of the tiles");
    }
}
template<class I> void c05(long n){
    for(int t=0; t<6; t++){ // worlds with more points than fit 32 bits
        P<I> l{{0,0,0}}, hh{{R(1100, 2300), R(1100, 2300), R(1100, 2300)}};
        box3d<I> w(l, hh);
        std::array<int,3> g{{R(1, 3), R(1, 3), R(1, 3)}};
        auto v = split_world(w, g);
        h::ok("C05 large world " + bs(w) + " grid " + h::str(g));
        CHECK(find_world(v) == w, "find_world of a large world");
        bool got = true;
        try{ got = world_complete(v, w); }catch(std::invalid_argument &){ got = false; }
        CHECK(got, "a valid large layout is accepted");
        if (v.size() > 1){
            v.pop_back();
            got = true;
            try{ got = world_complete(v, w); }catch(std::invalid_argument &){ got = false; }
            CHECK(!got, "a large layout with a hole is rejected");
        }
    }
    for(long it=0; it<n; it++){
        P<I> l{{0,0,0}}, hh;
        for(int i=0; i<3; i++) hh[i] = R(0, 7);
        if (coin(10)) l[R(0,2)] = R(0, 1);
        for(int i=0; i<3; i++) hh[i] += l[i];
        box3d<I> w0(l, hh, orders[R(0,5)]);
        int np = R(1, 8);
        auto v = bricks<I>(w0, np, w0.order, coin(4));
        if (coin()){ // damage one box
            int k = R(0, v.size() - 1), d = R(0, 2), s = R(0, 1), by = coin() ? 1 : -1;
            std::vector<box3d<I>> t;
            for(int q=0; q<(int) v.size(); q++){ P<I> a = v[q].low, b = v[q].high; if (q == k){ if (s) a[d] += by; else b[d] += by; } t.push_back(box3d<I>(a, b, v[q].order)); }
            v.swap(t);
        }
        if (coin(6)) v.push_back(v[R(0, v.size()-1)]);
        h::ok("C05 " + vs(v));
        bool emp = false; // corners of empty boxes take part in the bounding box: only the convention [0,-1] is meant
        for(auto &b : v) if (b.empty() && !(b.low == P<I>{{0,0,0}} && b.high == P<I>{{-1,-1,-1}})) emp = true;
        if (emp) continue;
        auto w = find_world(v);
        P<I> lo, hi; bool first = true;
        for(auto &b : v) { for(int i=0; i<3; i++){ lo[i] = first ? b.low[i] : std::min(lo[i], b.low[i]); hi[i] = first ? b.high[i] : std::max(hi[i], b.high[i]); } first = false; }
        CHECK(w.low == lo && w.high == hi, "find_world is the bounding box");
        bool valid = tiling<I>(v, lo, hi) && lo == P<I>{{0,0,0}};
        bool got = true;
        try{ got = world_complete(v, w); }catch(std::invalid_argument &){ got = false; }
        CHECK(got == valid, "accepted exactly when the boxes tile their world from zero");
        auto v2 = v;
        CHECK(match(v, v2), "match on equal lists");
        if (coin()){ v2.push_back(v[0]); CHECK(!match(v, v2) && !match(v2, v), "match on different lengths"); }
        else{
            std::vector<box3d<I>> t; int k = R(0, v.size()-1), d = R(0,2), s = R(0,1);
            for(int q=0; q<(int) v.size(); q++){ P<I> a = v[q].low, b = v[q].high; if (q == k){ if (s) a[d] += 1; else b[d] += 1; } t.push_back(box3d<I>(a, b, v[q].order)); }
            CHECK(!match(v, t), "match sees a different box");
        }
    }
}
template<class I> void c06(long n){
    for(long it=0; it<n; it++){
        P<I> l{{0,0,0}}, hh;
        for(int i=0; i<3; i++) hh[i] = R(coin(9) ? 0 : 2, coin(3) ? 20 : 9);
        auto oi = orders[R(0,5)], oo = orders[R(0,5)];
        int r2c = coin() ? -1 : R(0, 2);
        box3d<I> w(l, hh), wc = (r2c == -1) ? w : w.r2c(r2c);
        int np = R(1, 12);
        auto fix = [&](std::vector<box3d<I>> const &v, std::array<int,3> o){ std::vector<box3d<I>> u; for(auto &b : v) u.push_back(b.empty() ? box3d<I>(P<I>{{0,0,0}}, P<I>{{-1,-1,-1}}, o) : b); return u; };
        auto lay = [&](box3d<I> x, std::array<int,3> o)->std::vector<box3d<I>>{
            int t = R(0, 5);
            std::vector<box3d<I>> v;
            if (t <= 1) return fix(bricks<I>(x, np, o, coin(5)), o);
            else if (t == 2){ std::array<int,3> g{{1,1,1}}; g[R(0,2)] = np; return fix(split_world(box3d<I>(x.low, x.high, o), g), o); }
            else if (t == 3){ v.push_back(box3d<I>(x.low, x.high, o)); for(int i=1; i<np; i++) v.push_back(box3d<I>(P<I>{{0,0,0}}, P<I>{{-1,-1,-1}}, o)); }
            else{ auto g2 = make_procgrid(np); int d = R(0,2); std::array<int,3> g = d == 0 ? std::array<int,3>{{1, g2[0], g2[1]}} : d == 1 ? std::array<int,3>{{g2[0], 1, g2[1]}} : std::array<int,3>{{g2[0], g2[1], 1}}; return fix(split_world(box3d<I>(x.low, x.high, o), g), o); }
            return v;
        };
        ioboxes<I> x{lay(w, oi), lay(wc, oo)};
        plan_options opts(coin(), reshape_algorithm::alltoallv, coin());
        int sub = -1;
        if (coin(4)){ sub = R(1, np); opts.use_num_subranks(sub); }
        int part = (sub > 0 && sub < np) ? sub : np;
        h::ok("C06 in " + vs(x.in) + " out " + vs(x.out) + " r2c " + std::to_string(r2c) + " reorder " + std::to_string(opts.use_reorder) + " pencils " + std::to_string(opts.use_pencils) + " sub " + std::to_string(sub));
        bool fits = true;
        for(int d=0; d<3; d++) fits = fits && admissible<I>(w, d, part) && admissible<I>(wc, d, part);
        try{
            auto p = plan_operations(x, r2c, opts, (int) R(0, np-1));
            CHECK(p.index_count == w.count(), "index count is the number of real-space points");
            auto dd = p.fft_direction;
            std::set<int> ds(dd.begin(), dd.end());
            if (!(ds == std::set<int>{0,1,2})){ h::fail("each dimension transformed exactly once"); continue; }
            if (r2c != -1) CHECK(dd[0] == r2c, "the real dimension is first");
            for(int i=0; i<3; i++) CHECK(p.fft_sizes[i] == w.size[i], "fft sizes");
            bool shp = true;
            for(int i=0; i<4; i++) if (p.in_shape[i].size() != (size_t) np || p.out_shape[i].size() != (size_t) np){ h::fail("one box per rank in every layout"); shp = false; }
            if (!shp) continue;
            auto same = [&](std::vector<box3d<I>> const &a, std::vector<box3d<I>> const &b){ for(int i=0; i<np; i++) if (!((a[i].low == b[i].low && a[i].high == b[i].high) || (a[i].empty() && b[i].empty())) || (!a[i].empty() && a[i].order != b[i].order)) return false; return true; };
            CHECK(same(p.in_shape[0], x.in), "starts from the input layout");
            CHECK(same(p.out_shape[3], x.out), "ends in the output layout");
            std::vector<box3d<I>> sh0; for(auto &b : p.out_shape[0]) sh0.push_back(r2c == -1 ? b : b.r2c(r2c));
            CHECK(same(sh0, p.in_shape[1]), "layout after the first transform");
            CHECK(same(p.out_shape[1], p.in_shape[2]), "layout chain 1-2");
            CHECK(same(p.out_shape[2], p.in_shape[3]), "layout chain 2-3");
            for(int s=0; s<3; s++){
                auto &sh = p.out_shape[s];
                auto ww = s == 0 ? w : wc;
                CHECK(tiling<I>(sh, ww.low, ww.high), "layout of stage " + std::to_string(s) + " tiles the world");
                for(auto &b : sh) if (!b.empty()){
                    CHECK(b.size[dd[s]] == ww.size[dd[s]], "complete lines at stage " + std::to_string(s));
                    if (opts.use_reorder) CHECK(b.order[0] == dd[s], "contiguous lines at stage " + std::to_string(s));
                }
            }
            CHECK(tiling<I>(p.in_shape[1], wc.low, wc.high), "shrunk layout tiles the world");
            CHECK(p.options.use_reorder == opts.use_reorder && p.options.use_pencils == opts.use_pencils && p.options.algorithm == opts.algorithm, "options are kept");
        }catch(std::runtime_error &){ CHECK(!fits, "planning fails only if a stage grid does not fit"); }
    }
}
int main(int argc, char **argv){
    std::string p = argc > 1 ? argv[1] : "all";
    bool th = argc > 2 && std::string(argv[2]) == "thorough";
    h::init(argc > 3 ? std::atol(argv[3]) : 1);
    long k = th ? 20 : 1;
    if (p == "C01"){ c01<int>(120000 * k); c01<long long>(60000 * k); }
    if (p == "C02"){ c02<int>(6000 * k); c02<long long>(2000 * k); }
    if (p == "C03"){ c03<int>(3000 * k); c03<long long>(800 * k); }
    if (p == "C04"){ c04<int>(5000 * k, false); c04<long long>(1500 * k, false); c04<int>(60 * k, true); c04<long long>(60 * k, true); }
    if (p == "C05"){ c05<int>(40000 * k); c05<long long>(10000 * k); }
    if (p == "C06"){ c06<int>(12000 * k); c06<long long>(3000 * k); }
    return h::done("random worlds up to 100000 points per side (C01, C02) or about 24 per side, up to 17 ranks, all storage orders; not exhaustive");
}
