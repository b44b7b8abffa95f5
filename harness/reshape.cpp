// bounded harness for the packers, the overlap maps, the groups and the redistributions (C07, C08, C09, C10, C20)
#include "fmpi.h"
#include "heffte.h"
#include "src/heffte_reshape3d.cpp"
using namespace heffte;
using std::vector; using std::array; using std::string;
typedef box3d<int> B;
static bool deep = false;

template<typename T> T val(long k){ return T(k); }
template<typename T> void canary(vector<T> &v){ for(size_t i=0; i<v.size(); i++) v[i] = T(-1000 - (long)(i % 997)); }

// ---------------------------------------------------------------- C07
template<typename T, typename I> void packers(long n){
    for(long t=0; t<n; t++){
        pack_plan_3d<I> p;
        long big = h::coin(4) ? 75 : 9;
        for(int i=0; i<3; i++) p.size[i] = (I) h::R(h::coin(12) ? 0 : 1, h::coin(3) ? big : 6);
        if (h::coin(4)){ long const tile = 256 / (long) sizeof(T); int d = (int) h::R(0, 2); p.size[d] = (I) (tile * h::R(1, 2) + h::R(-1, 1)); if (h::coin()) p.size[(d + 1) % 3] = (I) (tile + h::R(0, 2)); } // around the tile edges
        p.line_stride = p.size[0] + (I) h::R(0, 3);
        p.plane_stride = p.line_stride * p.size[1] + (I) h::R(0, 3);
        array<int, 3> map = {{0, 1, 2}};
        for(long k=h::R(0, 5); k>0; k--) std::next_permutation(map.begin(), map.end());
        p.map = map;
        array<I, 3> ss = {{p.size[map[0]], p.size[map[1]], p.size[map[2]]}};
        p.buff_line_stride = ss[0] + (I) (h::coin(3) ? h::R(0, 2) : 0);
        p.buff_plane_stride = p.buff_line_stride * ss[1] + (I) (h::coin(3) ? h::R(0, 2) : 0);
        std::ostringstream os;
        os << "packers<" << sizeof(T) << "> size=(" << p.size[0] << "," << p.size[1] << "," << p.size[2] << ") line=" << p.line_stride << " plane=" << p.plane_stride
           << " bline=" << p.buff_line_stride << " bplane=" << p.buff_plane_stride << " map=(" << map[0] << "," << map[1] << "," << map[2] << ")";
        h::ok(os.str());
        size_t nd = (size_t) p.plane_stride * (p.size[2] + 1) + 20, cnt = (size_t) p.size[0] * p.size[1] * p.size[2], nb = (size_t) p.buff_plane_stride * (ss[2] + 1) + cnt + 20;
        vector<T> data(nd), buf(nb), ref, keep;
        for(size_t i=0; i<nd; i++) data[i] = T((long) i + 1);
        canary(buf); ref = buf; keep = data;
        { size_t c = 0; for(I s=0; s<p.size[2]; s++) for(I m=0; m<p.size[1]; m++) for(I f=0; f<p.size[0]; f++) ref[5 + c++] = data[7 + s * p.plane_stride + m * p.line_stride + f]; }
        if (h::coin()) direct_packer<tag::cpu>().pack(nullptr, p, data.data() + 7, buf.data() + 5); else transpose_packer<tag::cpu>().pack(nullptr, p, data.data() + 7, buf.data() + 5);
        CHECK(buf == ref, "pack: the buffer is not the addressed block (or something else was written)");
        CHECK(data == keep, "pack: the source was modified");
        // direct unpack
        canary(data); vector<T> dref = data;
        for(size_t i=0; i<nb; i++) buf[i] = T((long) i + 3);
        keep = buf;
        { size_t c = 0; for(I s=0; s<p.size[2]; s++) for(I m=0; m<p.size[1]; m++) for(I f=0; f<p.size[0]; f++) dref[7 + s * p.plane_stride + m * p.line_stride + f] = buf[5 + c++]; }
        direct_packer<tag::cpu>().unpack(nullptr, p, buf.data() + 5, data.data() + 7);
        CHECK(data == dref, "direct unpack: wrong element or an unaddressed element was written");
        CHECK(buf == keep, "unpack: the buffer was modified");
        // transposing unpack
        canary(data); dref = data;
        for(I s=0; s<p.size[2]; s++) for(I m=0; m<p.size[1]; m++) for(I f=0; f<p.size[0]; f++){
            I c[3] = {f, m, s};
            dref[7 + s * p.plane_stride + m * p.line_stride + f] = buf[5 + c[map[0]] + p.buff_line_stride * c[map[1]] + p.buff_plane_stride * c[map[2]]];
        }
        transpose_packer<tag::cpu>().unpack(nullptr, p, buf.data() + 5, data.data() + 7);
        CHECK(data == dref, "transposing unpack: wrong element or an unaddressed element was written");
        CHECK(buf == keep, "unpack: the buffer was modified");
    }
}

// ---------------------------------------------------------------- layouts
array<int, 3> rorder(){ array<int, 3> o = {{0, 1, 2}}; for(long k=h::R(0, 5); k>0; k--) std::next_permutation(o.begin(), o.end()); return o; }
struct P{ array<int, 3> low, high, order; P(array<int, 3> l, array<int, 3> hh, array<int, 3> o = {{0, 1, 2}}) : low(l), high(hh), order(o){} bool empty() const{ return low[0] > high[0] || low[1] > high[1] || low[2] > high[2]; } };
vector<B> toB(vector<P> const &v){ vector<B> r; for(auto const &p : v) r.push_back(B(p.low, p.high, p.order)); return r; }
static const array<int, 3> Z0 = {{0, 0, 0}}, ZM = {{-1, -1, -1}};
// a random tiling of the world over n ranks: recursive bisection, random assignment, some ranks idle
void cut(array<int, 3> lo, array<int, 3> hi, int n, vector<std::pair<array<int, 3>, array<int, 3>>> &out){
    int d = (int) h::R(0, 2), tries = 0;
    while(hi[d] == lo[d] && tries++ < 6) d = (d + 1) % 3;
    if (n <= 1 || hi[d] == lo[d]){ out.push_back({lo, hi}); return; }
    int c = (int) h::R(lo[d], hi[d] - 1), a = (int) h::R(1, n - 1);
    auto h1 = hi, l2 = lo; h1[d] = c; l2[d] = c + 1;
    cut(lo, h1, a, out); cut(l2, hi, n - a, out);
}
vector<P> layout(array<int, 3> lo, array<int, 3> hi, int n, array<int, 3> order){
    vector<std::pair<array<int, 3>, array<int, 3>>> t;
    int style = (int) h::R(0, 3);
    int parts = h::coin(4) ? (int) h::R(1, n) : n;
    vector<P> r;
    if (style == 0){ // regular grid
        array<int, 3> g = {{1, 1, 1}};
        int m = parts;
        for(int f=2; f<=m; f++) while(m % f == 0){ int d = (int) h::R(0, 2); g[d] *= f; m /= f; }
        bool fit = true; for(int d=0; d<3; d++) if (g[d] > hi[d] - lo[d] + 1) fit = false;
        if (fit) for(auto &b : split_world(B(lo, hi, order), g)) t.push_back({b.low, b.high});
    }
    if (t.empty()) cut(lo, hi, parts, t);
    vector<int> idx(n); for(int i=0; i<n; i++) idx[i] = i;
    if (h::coin()) for(int i=n-1; i>0; i--) std::swap(idx[i], idx[h::R(0, i)]);
    r.assign(n, P(Z0, ZM));
    if (h::coin()) for(auto &b : r) b.order = order;
    for(size_t i=0; i<t.size(); i++) r[idx[i]] = P(t[i].first, t[i].second, order);
    return r;
}
string show(vector<B> const &v){ std::ostringstream o; for(auto const &b : v){ if (b.empty()) o << "[] "; else o << "[" << b.low[0] << ":" << b.high[0] << "," << b.low[1] << ":" << b.high[1] << "," << b.low[2] << ":" << b.high[2] << "] "; } return o.str(); }
string ord(array<int, 3> const &o){ return std::to_string(o[0]) + std::to_string(o[1]) + std::to_string(o[2]); }
bool hits(B const &a, B const &b){ if (a.empty() || b.empty()) return false; for(int d=0; d<3; d++) if (std::max(a.low[d], b.low[d]) > std::min(a.high[d], b.high[d])) return false; return true; }
long pos(B const &b, int x, int y, int z){ // storage position of a point by the definition of the storage order
    int c[3] = {x, y, z}; long n = 1, p = 0;
    for(int k=0; k<3; k++){ int d = b.order[k]; p += n * (c[d] - b.low[d]); n *= b.high[d] - b.low[d] + 1; }
    return p;
}
struct world_t{ array<int, 3> lo, hi; vector<B> in, out; int n; string key; };
// make_reshape3d takes the storage order of a layout from the box of rank 0: keep that rank active on request
world_t rworld(bool same_order, int maxn, bool active0 = false){
    world_t w;
    vector<P> in, out;
    w.n = (int) h::R(1, maxn);
    for(int d=0; d<3; d++){ w.lo[d] = h::coin(3) ? (int) h::R(0, 4) : 0; w.hi[d] = w.lo[d] + (int) h::R(0, h::coin(4) ? 14 : 6); }
    auto o = rorder();
    in = layout(w.lo, w.hi, w.n, o);
    auto o2 = same_order ? o : rorder();
    int m = (int) h::R(0, 5);
    if (m == 0){ out = in; for(auto &b : out) b.order = o2; } // same boxes, another order
    else if (m == 1){ out = in; if (w.n > 1) std::rotate(out.begin(), out.begin() + 1, out.end()); for(auto &b : out) b.order = o2; }
    else out = layout(w.lo, w.hi, w.n, o2);
    if (active0) for(auto v : {&in, &out}) if ((*v)[0].empty()) for(auto &b : *v) if (!b.empty()){ std::swap((*v)[0], b); break; }
    w.in = toB(in); w.out = toB(out);
    w.key = "n=" + std::to_string(w.n) + " order " + ord(o) + "->" + ord(o2) + " in=" + show(w.in) + "out=" + show(w.out);
    return w;
}
// ---------------------------------------------------------------- C08
// addresses of the block described by an offset and a plan, in packing order
void plan_addr(int off, pack_plan_3d<int> const &p, vector<long> &a){ for(int s=0; s<p.size[2]; s++) for(int m=0; m<p.size[1]; m++) for(int f=0; f<p.size[0]; f++) a.push_back(off + (long) s * p.plane_stride + (long) m * p.line_stride + f); }
// points of a box in the storage order ord
vector<array<int, 3>> points(B const &b, array<int, 3> const &o){
    vector<array<int, 3>> r; if (b.empty()) return r; array<int, 3> c;
    for(c[o[2]]=b.low[o[2]]; c[o[2]]<=b.high[o[2]]; c[o[2]]++) for(c[o[1]]=b.low[o[1]]; c[o[1]]<=b.high[o[1]]; c[o[1]]++) for(c[o[0]]=b.low[o[0]]; c[o[0]]<=b.high[o[0]]; c[o[0]]++) r.push_back(c);
    return r;
}
B inter(B const &a, B const &b){ array<int, 3> l, h; for(int d=0; d<3; d++){ l[d] = std::max(a.low[d], b.low[d]); h[d] = std::min(a.high[d], b.high[d]); } return B(l, h); }
void check_map(B const &box, B const &other, int off, pack_plan_3d<int> const &p, int size, bool trans, char const *what){
    auto pts = points(inter(box, other), box.order);
    vector<long> a; plan_addr(off, p, a);
    bool good = a.size() == pts.size() && (long) pts.size() == size;
    for(size_t i=0; good && i<pts.size(); i++) good = a[i] == pos(box, pts[i][0], pts[i][1], pts[i][2]);
    if (!good) h::fail(string(what) + ": offset, strides or count do not describe the intersection");
    if (trans && good){ // the position of every point in the message, which is in the sender order
        auto sp = points(inter(box, other), other.order);
        std::map<array<int, 3>, long> at; for(size_t i=0; i<sp.size(); i++) at[sp[i]] = (long) i;
        size_t i = 0;
        bool bad = std::set<int>(p.map.begin(), p.map.end()) != std::set<int>{0, 1, 2};
        if (bad) h::fail(string(what) + ": the map is not a permutation");
        else for(int s=0; s<p.size[2]; s++) for(int m=0; m<p.size[1]; m++) for(int f=0; f<p.size[0]; f++){ int c[3] = {f, m, s}; if (c[p.map[0]] + (long) p.buff_line_stride * c[p.map[1]] + (long) p.buff_plane_stride * c[p.map[2]] != at[pts[i++]]) bad = true; }
        if (bad) h::fail(string(what) + ": the plan does not permute the block to the receiver order");
    }
}
void maps(long n){
    for(long t=0; t<n; t++){
        auto w = rworld(h::coin(3), 9);
        h::ok(w.key);
        vector<vector<int>> sz(w.n, vector<int>(w.n, -1)), rz = sz;
        for(int me=0; me<w.n; me++){
            CHECK(count_collisions(w.out, w.in[me]) == (int) std::count_if(w.out.begin(), w.out.end(), [&](B const &b){ return hits(b, w.in[me]); }), "count_collisions");
            for(int k=0; k<3; k++){
                bool tr = k == 2;
                B const box = k == 0 ? w.in[me] : w.out[me]; auto const &oth = k == 0 ? w.out : w.in;
                if (k == 1 && w.in[0].order != w.out[0].order && !w.in[0].empty()) continue;
                bool same = true; for(auto const &b : oth) if (!b.empty() && !box.empty() && b.order != box.order) same = false;
                if (k == 1 && !same) continue;
                vector<int> proc, off, size; vector<pack_plan_3d<int>> plans;
                if (tr) compute_overlap_map_transpose_pack(me, w.n, box, oth, proc, off, size, plans); else compute_overlap_map_direct_pack(me, w.n, box, oth, proc, off, size, plans);
                std::set<int> want; for(int j=0; j<w.n; j++) if (hits(box, oth[j])) want.insert(j);
                CHECK(std::set<int>(proc.begin(), proc.end()) == want && proc.size() == want.size(), "the list of partners is not the ranks with a non-empty intersection");
                CHECK(off.size() == proc.size() && size.size() == proc.size() && plans.size() == proc.size(), "the lists have different lengths");
                if (want.count(me)) CHECK(!proc.empty() && proc.back() == me, "this rank is not the last partner");
                if (off.size() == proc.size() && size.size() == proc.size() && plans.size() == proc.size())
                    for(size_t i=0; i<proc.size(); i++){ check_map(box, oth[proc[i]], off[i], plans[i], size[i], tr, tr ? "transpose map" : "direct map"); (k == 0 ? sz[me][proc[i]] : rz[proc[i]][me]) = size[i]; }
                // all-to-all variant
                vector<int> group; for(int j=0; j<w.n; j++) if (h::coin()) group.push_back(j);
                vector<int> o2; vector<pack_plan_3d<int>> p2;
                if (tr) compute_overlap_map_all2all_pack<int, true>(group, box, oth, o2, p2); else compute_overlap_map_all2all_pack<int, false>(group, box, oth, o2, p2);
                CHECK(o2.size() == group.size() && p2.size() == group.size(), "all2all map: one entry per group member");
                if (o2.size() == group.size() && p2.size() == group.size()) for(size_t i=0; i<group.size(); i++){
                    if (hits(box, oth[group[i]])) check_map(box, oth[group[i]], o2[i], p2[i], (int) points(inter(box, oth[group[i]]), box.order).size(), tr, "all2all map");
                    else CHECK(p2[i].size[0] == 0, "all2all map: a member without intersection has an empty plan");
                }
                int mx = 0; for(int a : group) for(int b : group) mx = std::max(mx, (int) (hits(w.in[a], w.out[b]) ? inter(w.in[a], w.out[b]).count() : 0));
                CHECK(get_max_size(group, w.in, w.out) == mx, "get_max_size is not the largest pairwise block");
            }
        }
        for(int a=0; a<w.n; a++) for(int b=0; b<w.n; b++) if (rz[a][b] >= 0 || sz[a][b] >= 0) CHECK(sz[a][b] == rz[a][b], "the count prepared by the sender differs from the count expected by the receiver");
    }
}
// ---------------------------------------------------------------- C09
void groups(long n){
    for(long t=0; t<n; t++){
        auto w = rworld(true, 12);
        if (h::coin(3)){ // several independent exchanges: random chains
            int m = (int) h::R(2, 12);
            w.n = m;
            vector<int> idx(m), idy; for(int i=0; i<m; i++) idx[i] = i;
            for(int i=m-1; i>0; i--) std::swap(idx[i], idx[h::R(0, i)]);
            idy = idx;
            for(long k=h::R(0, 3); k>0; k--) std::swap(idy[h::R(0, m-1)], idy[h::R(0, m-1)]);
            vector<P> in(m, P(Z0, ZM)), out(m, P(Z0, ZM));
            int x = 0, y = 0;
            for(int i=0; i<m; i++){ int l = (int) h::R(1, 4); if (i && h::coin(6)) continue; in[idx[i]] = P({{x, 0, 0}}, {{x + l - 1, 0, 0}}); x += l; }
            for(int i=0; i<m && y<x; i++){ int l = std::min(x - y, (i == m - 1) ? x - y : (int) h::R(1, 4)); out[idy[i]] = P({{y, 0, 0}}, {{y + l - 1, 0, 0}}); y += l; }
            w.in = toB(in); w.out = toB(out);
            w.key = "chain n=" + std::to_string(m) + " in=" + show(w.in) + "out=" + show(w.out);
        }
        h::ok(w.key);
        vector<int> comp(w.n); for(int i=0; i<w.n; i++) comp[i] = i;
        for(int r=0; r<w.n; r++) for(int a=0; a<w.n; a++) for(int b=0; b<w.n; b++) if (hits(w.in[a], w.out[b])){ int m = std::min(comp[a], comp[b]); comp[a] = comp[b] = m; }
        for(int me=0; me<w.n; me++){
            vector<int> want;
            bool idle = w.in[me].empty() && w.out[me].empty();
            bool seeded = false;
            for(int j=0; j<w.n; j++) if (hits(w.in[me], w.out[j]) || hits(w.in[j], w.out[me])) seeded = true;
            if (seeded) for(int j=0; j<w.n; j++) if (comp[j] == comp[me]) want.push_back(j);
            if (!seeded && !idle) continue; // boxes that meet nothing: not a pair of layouts of the same world
            vector<int> sp, rp;
            if (h::coin()){ if (!w.in[me].empty()) sp.push_back(me); if (!w.out[me].empty()) rp.push_back(me); }
            else for(int j=0; j<w.n; j++){ int k = (j + me + 1) % w.n; if (hits(w.in[me], w.out[k])) sp.push_back(k); if (hits(w.out[me], w.in[k])) rp.push_back(k); }
            auto g = a2a_group(sp, rp, w.in, w.out);
            if (g != want) h::fail("rank " + std::to_string(me) + ": the group is " + h::str(g) + " and the connected component is " + h::str(want));
            // triples
            vector<int> proc, sizes; for(int j=0; j<w.n; j++){ int k = (j + me + 1) % w.n; if (std::binary_search(want.begin(), want.end(), k) && h::coin()){ proc.push_back(k); sizes.push_back((int) h::R(1, 50)); } }
            reshape3d_alltoallv<tag::cpu, direct_packer, int>::iotripple io(want, proc, sizes);
            bool good = io.counts.size() == want.size() && io.displacements.size() == want.size() && io.map.size() == want.size();
            int off = 0;
            for(size_t i=0; good && i<want.size(); i++){
                auto p = std::find(proc.begin(), proc.end(), want[i]) - proc.begin();
                bool has = p < (long) proc.size();
                good = io.counts[i] == (has ? sizes[p] : 0) && io.map[i] == (has ? (int) p : -1) && (!has || io.displacements[i] == off);
                off += has ? sizes[p] : 0;
            }
            CHECK(good, "counts, displacements and map do not match the message list");
        }
    }
}
// ---------------------------------------------------------------- C10
template<typename T> T tagv(int e, int x, int y, int z){ return T(1 + x + 37 * y + 1369 * z + 50653 * e); }
template<> std::complex<float> tagv(int e, int x, int y, int z){ return {float(1 + x + 37 * y + 1369 * z), float(e + 5)}; }
template<> std::complex<double> tagv(int e, int x, int y, int z){ return {double(1 + x + 37 * y + 1369 * z), double(e + 5)}; }
template<typename T> void redistribute(world_t const &w, int batch, reshape_algorithm alg, bool inplace, plan_options opt){
    fmpi::run(w.n, [&](int me){
        opt.algorithm = alg;
        auto r = make_reshape3d<backend::stock>(nullptr, w.in, w.out, MPI_COMM_WORLD, opt);
        size_t ni = (size_t) w.in[me].count(), no = (size_t) w.out[me].count(), G = 9;
        size_t nw = r ? r->size_workspace() * batch : 0;
        vector<T> src(2 * G + batch * std::max(ni, inplace ? no : 0)), dst(2 * G + batch * std::max(no, inplace ? ni : 0)), ws(2 * G + nw);
        canary(src); canary(dst); canary(ws);
        vector<T> &from = inplace ? dst : src;
        for(int e=0; e<batch; e++) for(auto const &p : points(w.in[me], w.in[me].order)) from[G + e * ni + pos(w.in[me], p[0], p[1], p[2])] = tagv<T>(e, p[0], p[1], p[2]);
        vector<T> ks = src, kw = ws, want = dst;
        if (!r){
            // no communication is done only if nothing has to be done
            for(int i=0; i<(inplace ? 0 : 0); i++) {}
            if (!(w.in[me].empty() && w.out[me].empty())) for(int i=0; i<w.n; i++) if (!(w.in[i] == w.out[i] && (w.in[i].empty() || w.in[i].order == w.out[i].order))) h::fail("no redistribution is built for different layouts");
            return;
        }
        for(int e=0; e<batch; e++) for(auto const &p : points(w.out[me], w.out[me].order)) want[G + e * no + pos(w.out[me], p[0], p[1], p[2])] = tagv<T>(e, p[0], p[1], p[2]);
        r->apply(batch, from.data() + G, dst.data() + G, ws.data() + G);
        string s = " on rank " + std::to_string(me);
        bool vals = true, rest = true;
        for(size_t i=0; i<dst.size(); i++){ bool in = i >= G && i < G + batch * no; if (dst[i] != want[i]) (in ? vals : rest) = false; }
        if (!vals) h::fail("an element is not at its place in the output box" + s);
        if (!rest) h::fail("something outside the destination range is written" + s);
        if (src != ks) h::fail("the source is modified" + s);
        for(size_t i=0; i<G; i++) if (ws[i] != kw[i] || ws[ws.size() - 1 - i] != kw[ws.size() - 1 - i]){ h::fail("something outside the reported workspace is written" + s); break; }
    });
}
void reshapes(long n){
    for(long t=0; t<n; t++){
        auto w = rworld(h::coin(3), 9, true);
        plan_options opt = default_options<backend::stock>();
        int batch = (int) h::R(1, 3);
        auto alg = static_cast<reshape_algorithm>(h::R(0, 3));
        int ty = (int) h::R(0, 3); bool ip = h::coin(3);
        h::ok(w.key + " batch=" + std::to_string(batch) + " alg=" + std::to_string((int) alg) + " type=" + std::to_string(ty) + (ip ? " in-place" : ""));
        if (ty == 0) redistribute<float>(w, batch, alg, ip, opt);
        if (ty == 1) redistribute<double>(w, batch, alg, ip, opt);
        if (ty == 2) redistribute<std::complex<float>>(w, batch, alg, ip, opt);
        if (ty == 3) redistribute<std::complex<double>>(w, batch, alg, ip, opt);
    }
}
// ---------------------------------------------------------------- C20
template<typename I> void gather(long n){
    for(long t=0; t<n; t++){
        int np = (int) h::R(1, 14);
        vector<box3d<I>> in, out;
        auto rb = [&](){ array<I, 3> l, hh; for(int d=0; d<3; d++){ l[d] = (I) h::R(0, 40); hh[d] = l[d] + (I) h::R(h::coin(4) ? -5 : 0, 30); } return box3d<I>(l, hh, rorder()); };
        std::ostringstream os; os << "gather<" << sizeof(I) << "> n=" << np;
        for(int i=0; i<np; i++){ in.push_back(rb()); out.push_back(rb()); os << in.back() << out.back(); }
        h::ok(os.str());
        fmpi::run(np, [&](int me){
            auto g = mpi::gather_boxes(in[me], out[me], MPI_COMM_WORLD);
            auto same = [](vector<box3d<I>> const &a, vector<box3d<I>> const &b){ if (a.size() != b.size()) return false; for(size_t i=0; i<a.size(); i++) if (a[i].low != b[i].low || a[i].high != b[i].high || a[i].size != b[i].size || a[i].order != b[i].order) return false; return true; };
            CHECK(same(g.in, in), "the list of input boxes differs from the supplied ones on rank " + std::to_string(me));
            CHECK(same(g.out, out), "the list of output boxes differs from the supplied ones on rank " + std::to_string(me));
        });
    }
}
int main(int argc, char **argv){
    string pid = argv[1]; deep = string(argv[2]) == "thorough"; long m = deep ? 200 : 12;
    h::init(std::stoul(argv[3]));
    if (pid == "C07"){ packers<float, int>(60 * m); packers<double, int>(120 * m); packers<std::complex<double>, int>(150 * m); packers<std::complex<float>, long long>(120 * m); return h::done("random plans, block sizes up to 75 per direction, all six permutations, four element types"); }
    if (pid == "C08"){ maps(1500 * m); return h::done("random pairs of tilings over up to 9 ranks, all orders, worlds up to 15 points per direction"); }
    if (pid == "C09"){ groups(6000 * m); return h::done("random pairs of tilings and chains over up to 12 ranks"); }
    if (pid == "C10"){ reshapes(3000 * m); return h::done("random pairs of tilings over up to 9 ranks, all orders and algorithms, batch up to 3, random message completion orders"); }
    if (pid == "C20"){ gather<int>(400 * m); gather<long long>(400 * m); return h::done("random boxes on up to 14 ranks"); }
    return 2;
}
