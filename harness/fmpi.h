// An in-process MPI: every rank is a coroutine of one thread, scheduled by a seeded random scheduler, so that a run
// is deterministic, message completion orders and send modes vary with the seed, and a deadlock is seen at once.
// The definitions override the weak symbols of libmpi.  Contract checks made here: matching counts and types,
// equal groups on every member, send buffers unchanged until completion, receive buffers not shared.
#pragma once
#include <mpi.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <map>
#include <deque>
#include <memory>
#include <exception>
#include "h.h"
namespace fmpi {
struct comm_t{ std::vector<int> ranks; long id; };
struct group_t{ std::vector<int> ranks; };
struct req_t{ bool send; int me, peer, tag; comm_t *comm; char *buf; size_t bytes; bool matched = false, done = false; std::vector<char> data; unsigned long sum = 0; };
struct coll_t{ int kind; int arrived = 0, left = 0; size_t n; std::vector<const void*> a; std::vector<void*> b; std::vector<std::array<const int*, 4>> v; std::vector<size_t> cnt; std::vector<std::array<size_t, 2>> ext; std::vector<std::vector<int>> grp; std::vector<comm_t*> res; bool ready = false; };
struct rank_t{ ucontext_t ctx; void *stack = nullptr; bool finished = false; std::function<bool()> wait; std::map<comm_t*, long> seq; };
static std::vector<rank_t> *ranks = nullptr;
static ucontext_t sched;
static int cur = 0;
static comm_t world;
static std::vector<std::unique_ptr<comm_t>> comms;
static std::vector<std::unique_ptr<group_t>> groups;
static std::map<std::pair<comm_t*, long>, coll_t> colls;
static std::deque<req_t*> posted, sent; // unmatched
static std::vector<req_t*> live;
static bool rendezvous = false, aborted = false;
static std::function<void(int)> *body = nullptr;
static const size_t STACK = 4u << 20;
inline comm_t* C(MPI_Comm c){ return (c == MPI_COMM_WORLD) ? &world : reinterpret_cast<comm_t*>(c); }
inline int local(comm_t *c, int r){ for(size_t i=0; i<c->ranks.size(); i++) if (c->ranks[i] == r) return (int) i; return -1; }
inline size_t tsize(MPI_Datatype t){
    if (t == MPI_BYTE || t == MPI_CHAR) return 1;
    if (t == MPI_INT || t == MPI_FLOAT) return 4;
    if (t == MPI_DOUBLE || t == MPI_C_COMPLEX || t == MPI_LONG_LONG || t == MPI_LONG || t == MPI_UNSIGNED_LONG) return 8;
    if (t == MPI_C_DOUBLE_COMPLEX) return 16;
    h::fail("unknown MPI datatype"); return 1;
}
inline unsigned long sum(char const *p, size_t n){ unsigned long s = 1469598103934665603ul; for(size_t i=0; i<n; i++) s = (s ^ (unsigned char) p[i]) * 1099511628211ul; return s; }
inline void yield(){ swapcontext(&(*ranks)[cur].ctx, &sched); if (aborted) throw 42; }
inline void block(std::function<bool()> f){
    if (h::coin(4)) yield();
    while(!f()){ (*ranks)[cur].wait = f; yield(); }
    (*ranks)[cur].wait = nullptr;
}
inline void tramp(){
    int me = cur;
    try{ (*body)(me); }
    catch(int x){ if (x != 42) h::fail("rank " + std::to_string(me) + " ended with an int exception"); }
    catch(std::exception const &e){ h::fail("rank " + std::to_string(me) + " ended with an exception: " + e.what()); aborted = true; }
    (*ranks)[me].finished = true;
    swapcontext(&(*ranks)[me].ctx, &sched);
}
inline void overlap(req_t *r){
    if (!r->bytes) return;
    for(auto q : live) if (q != r && q->me == r->me && !q->done && q->bytes && (!q->send || !r->send)){
        if (q->buf < r->buf + r->bytes && r->buf < q->buf + q->bytes)
            h::fail("buffers of two pending messages overlap");
    }
}
// runs f(rank) on n ranks, returns false on deadlock or exception
inline bool run(int n, std::function<void(int)> f){
    std::vector<rank_t> rs(n);
    ranks = &rs; body = &f; aborted = false;
    world.ranks.resize(n); world.id = 0;
    for(int i=0; i<n; i++) world.ranks[i] = i;
    rendezvous = h::coin();
    static std::vector<void*> pool;
    while((int) pool.size() < n) pool.push_back(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    for(int i=0; i<n; i++){
        getcontext(&rs[i].ctx);
        rs[i].stack = pool[i];
        rs[i].ctx.uc_stack.ss_sp = rs[i].stack; rs[i].ctx.uc_stack.ss_size = STACK; rs[i].ctx.uc_link = &sched;
        makecontext(&rs[i].ctx, (void(*)()) tramp, 0);
    }
    bool good = true;
    while(true){
        std::vector<int> run;
        bool any = false;
        for(int i=0; i<n; i++) if (!rs[i].finished){ any = true; if (aborted || !rs[i].wait || rs[i].wait()) run.push_back(i); }
        if (!any) break;
        if (run.empty()){ h::fail("deadlock: no rank can proceed"); aborted = true; good = false; continue; }
        cur = run[h::R(0, (long) run.size() - 1)];
        swapcontext(&sched, &rs[cur].ctx);
    }
    if (aborted) good = false;
    else{
        if (!posted.empty()) h::fail("a posted receive was never matched");
        if (!sent.empty()) h::fail("a sent message was never received");
    }
    for(auto r : live) delete r;
    live.clear(); posted.clear(); sent.clear(); colls.clear(); comms.clear(); groups.clear();
    return good;
}
inline void match(){
    for(size_t i=0; i<posted.size(); ){
        req_t *r = posted[i]; bool hit = false;
        for(size_t j=0; j<sent.size(); j++){
            req_t *s = sent[j];
            if (s->comm == r->comm && s->me == r->peer && s->peer == r->me && s->tag == r->tag){
                if (s->bytes != r->bytes) h::fail("rank " + std::to_string(s->me) + " sends " + std::to_string(s->bytes) + " bytes where rank " + std::to_string(r->me) + " expects " + std::to_string(r->bytes));
                r->data = s->data; r->matched = s->matched = true;
                sent.erase(sent.begin() + j); posted.erase(posted.begin() + i); hit = true; break;
            }
        }
        if (!hit) i++;
    }
}
inline void finish(req_t *r){
    if (r->done) return;
    r->done = true;
    if (r->send){ if (sum(r->buf, r->bytes) != r->sum) h::fail("send buffer modified before the send completed"); }
    else std::memcpy(r->buf, r->data.data(), std::min(r->data.size(), r->bytes));
    live.erase(std::find(live.begin(), live.end(), r));
    delete r;
}
inline bool complete(req_t *r){ return r->matched || (r->send && !rendezvous); }
inline req_t* post(bool send, void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c){
    comm_t *cm = C(c);
    req_t *r = new req_t();
    if (count < 0){ h::fail("negative message count"); count = 0; }
    if (peer < 0 || peer >= (int) cm->ranks.size()){ h::fail("message peer out of range"); peer = 0; }
    r->send = send; r->me = cur; r->peer = cm->ranks[peer]; r->tag = tag; r->comm = cm; r->buf = (char*) buf; r->bytes = (size_t) count * tsize(t);
    live.push_back(r);
    overlap(r);
    if (send){ r->data.assign(r->buf, r->buf + r->bytes); r->sum = sum(r->buf, r->bytes); sent.push_back(r); }
    else { std::memset(r->buf, 0xFF, r->bytes); posted.push_back(r); }
    match();
    return r;
}
inline coll_t& enter(comm_t *c, int kind, long &key, int &l){
    key = (*ranks)[cur].seq[c]++;
    coll_t &x = colls[{c, key}];
    size_t n = c->ranks.size();
    if (x.arrived == 0){ x.kind = kind; x.n = n; x.a.resize(n); x.b.resize(n); x.v.resize(n); x.cnt.resize(n); x.ext.resize(n); x.grp.resize(n); x.res.resize(n); }
    else if (x.kind != kind) h::fail("ranks call different collectives");
    l = local(c, cur);
    if (l < 0){ h::fail("a collective is called by a rank outside of the communicator"); aborted = true; throw 42; }
    return x;
}
inline void sync(comm_t *c, long key, std::function<void(coll_t&)> act){
    coll_t &x = colls[{c, key}];
    if (++x.arrived == (int) x.n){ act(x); x.ready = true; }
    block([c, key]()->bool{ return colls[{c, key}].ready; });
}
inline void leave(comm_t *c, long key){ coll_t &x = colls[{c, key}]; if (++x.left == (int) x.n) colls.erase({c, key}); }
}
#define FM extern "C"
FM int MPI_Comm_rank(MPI_Comm c, int *r){ *r = fmpi::local(fmpi::C(c), fmpi::cur); return MPI_SUCCESS; }
FM int MPI_Comm_size(MPI_Comm c, int *n){ *n = (int) fmpi::C(c)->ranks.size(); return MPI_SUCCESS; }
FM int MPI_Barrier(MPI_Comm c){ long k; int l; auto *cm = fmpi::C(c); fmpi::enter(cm, 1, k, l); fmpi::sync(cm, k, [](fmpi::coll_t&){}); fmpi::leave(cm, k); return MPI_SUCCESS; }
FM int MPI_Comm_group(MPI_Comm c, MPI_Group *g){ fmpi::groups.emplace_back(new fmpi::group_t{fmpi::C(c)->ranks}); *g = reinterpret_cast<MPI_Group>(fmpi::groups.back().get()); return MPI_SUCCESS; }
FM int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *o){
    auto *b = reinterpret_cast<fmpi::group_t*>(g); fmpi::group_t x;
    for(int i=0; i<n; i++){ if (r[i] < 0 || r[i] >= (int) b->ranks.size()){ h::fail("group member out of range"); continue; } x.ranks.push_back(b->ranks[r[i]]); }
    fmpi::groups.emplace_back(new fmpi::group_t(x)); *o = reinterpret_cast<MPI_Group>(fmpi::groups.back().get()); return MPI_SUCCESS;
}
FM int MPI_Group_free(MPI_Group *g){ *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
FM int MPI_Comm_free(MPI_Comm *c){ *c = MPI_COMM_NULL; return MPI_SUCCESS; }
FM int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out){
    long k; int l; auto *cm = fmpi::C(c); auto &x = fmpi::enter(cm, 2, k, l);
    x.grp[l] = reinterpret_cast<fmpi::group_t*>(g)->ranks;
    fmpi::sync(cm, k, [cm](fmpi::coll_t &y){
        for(size_t i=0; i<y.n; i++){
            auto const &gi = y.grp[i];
            int me = cm->ranks[i];
            bool in = std::find(gi.begin(), gi.end(), me) != gi.end();
            if (!gi.empty() && !in) h::fail("rank " + std::to_string(me) + " proposes a group that it does not belong to");
            for(int r : gi){ int j = fmpi::local(cm, r); if (j < 0 || y.grp[j] != gi) h::fail("rank " + std::to_string(me) + " and rank " + std::to_string(r) + " propose different groups"); }
            for(size_t j=0; j<i; j++) if (in && y.grp[j] == gi) y.res[i] = y.res[j];
            if (in && !y.res[i]){ fmpi::comms.emplace_back(new fmpi::comm_t{gi, 0}); y.res[i] = fmpi::comms.back().get(); }
        }
    });
    auto *r = fmpi::colls[{cm, k}].res[l];
    *out = r ? reinterpret_cast<MPI_Comm>(r) : MPI_COMM_NULL;
    fmpi::leave(cm, k);
    return MPI_SUCCESS;
}
FM int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c){
    long k; int l; auto *cm = fmpi::C(c); auto &x = fmpi::enter(cm, 3, k, l);
    size_t bs = sc * fmpi::tsize(st), br = rc * fmpi::tsize(rt);
    if (bs != br) h::fail("allgather: send and receive sizes differ");
    x.a[l] = s; x.b[l] = r; x.cnt[l] = bs;
    fmpi::sync(cm, k, [](fmpi::coll_t &y){
        for(size_t i=1; i<y.n; i++) if (y.cnt[i] != y.cnt[0]) h::fail("allgather: the ranks use different sizes");
        for(size_t i=0; i<y.n; i++) for(size_t j=0; j<y.n; j++) std::memcpy((char*) y.b[i] + j * y.cnt[0], y.a[j], std::min(y.cnt[0], y.cnt[j]));
    });
    fmpi::leave(cm, k);
    return MPI_SUCCESS;
}
FM int MPI_Alltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c){
    long k; int l; auto *cm = fmpi::C(c); auto &x = fmpi::enter(cm, 4, k, l);
    size_t bs = sc * fmpi::tsize(st), br = rc * fmpi::tsize(rt);
    if (bs != br) h::fail("alltoall: send and receive sizes differ");
    size_t tot = bs * cm->ranks.size();
    if (tot && (char*) r < (char const*) s + tot && (char const*) s < (char*) r + tot) h::fail("alltoall: send and receive buffers overlap");
    x.a[l] = s; x.b[l] = r; x.cnt[l] = bs;
    fmpi::sync(cm, k, [](fmpi::coll_t &y){
        for(size_t i=1; i<y.n; i++) if (y.cnt[i] != y.cnt[0]) h::fail("alltoall: the ranks use different block sizes");
        for(size_t i=0; i<y.n; i++) for(size_t j=0; j<y.n; j++) std::memcpy((char*) y.b[i] + j * y.cnt[i], (char const*) y.a[j] + i * y.cnt[j], std::min(y.cnt[i], y.cnt[j]));
    });
    fmpi::leave(cm, k);
    return MPI_SUCCESS;
}
FM int MPI_Alltoallv(const void *s, const int sc[], const int sd[], MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm c){
    long k; int l; auto *cm = fmpi::C(c); auto &x = fmpi::enter(cm, 5, k, l);
    size_t n = cm->ranks.size(), ts = fmpi::tsize(st);
    if (fmpi::tsize(rt) != ts) h::fail("alltoallv: types differ");
    std::vector<std::array<char const*, 3>> reg;
    for(size_t i=0; i<n; i++){
        if (sc[i] < 0 || rc[i] < 0 || sd[i] < 0 || rd[i] < 0) h::fail("alltoallv: negative count or displacement");
        if (sc[i]) reg.push_back({(char const*) s + sd[i] * ts, (char const*) s + (sd[i] + sc[i]) * ts, nullptr});
        if (rc[i]) reg.push_back({(char const*) r + rd[i] * ts, (char const*) r + (rd[i] + rc[i]) * ts, "r"});
    }
    for(size_t i=0; i<reg.size(); i++) for(size_t j=0; j<i; j++) if (reg[i][0] < reg[j][1] && reg[j][0] < reg[i][1]) h::fail("alltoallv: two message buffers overlap");
    x.a[l] = s; x.b[l] = r; x.v[l] = {sc, sd, rc, rd}; x.cnt[l] = ts;
    fmpi::sync(cm, k, [](fmpi::coll_t &y){
        for(size_t i=0; i<y.n; i++) for(size_t j=0; j<y.n; j++){
            int give = y.v[i][0][j], take = y.v[j][2][i];
            if (give != take) h::fail("alltoallv: member " + std::to_string(i) + " sends " + std::to_string(give) + " entries where member " + std::to_string(j) + " expects " + std::to_string(take));
            std::memcpy((char*) y.b[j] + y.v[j][3][i] * y.cnt[j], (char const*) y.a[i] + y.v[i][1][j] * y.cnt[i], std::min(give, take) * y.cnt[i]);
        }
    });
    fmpi::leave(cm, k);
    return MPI_SUCCESS;
}
FM int MPI_Irecv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *q){ *q = reinterpret_cast<MPI_Request>(fmpi::post(false, b, n, t, p, tag, c)); return MPI_SUCCESS; }
FM int MPI_Isend(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *q){ *q = reinterpret_cast<MPI_Request>(fmpi::post(true, const_cast<void*>(b), n, t, p, tag, c)); return MPI_SUCCESS; }
FM int MPI_Send(const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c){
    auto *r = fmpi::post(true, const_cast<void*>(b), n, t, p, tag, c);
    fmpi::block([r]()->bool{ return fmpi::complete(r); });
    // an eager send is buffered: the record stays in `sent` until matched
    if (!r->matched){ auto *q = new fmpi::req_t(*r); std::replace(fmpi::sent.begin(), fmpi::sent.end(), r, q); q->buf = q->data.data(); q->done = true; fmpi::live.push_back(q); }
    fmpi::finish(r);
    return MPI_SUCCESS;
}
FM int MPI_Recv(void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status*){ auto *r = fmpi::post(false, b, n, t, p, tag, c); fmpi::block([r]()->bool{ return fmpi::complete(r); }); fmpi::finish(r); return MPI_SUCCESS; }
FM int MPI_Waitany(int n, MPI_Request q[], int *idx, MPI_Status*){
    bool any = false;
    for(int i=0; i<n; i++) if (q[i] != MPI_REQUEST_NULL) any = true;
    if (!any){ *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
    // let other ranks run first, so that several messages may be complete
    for(long k=h::R(0, 3); k>0; k--) fmpi::yield();
    fmpi::block([n, q]()->bool{ for(int i=0; i<n; i++) if (q[i] != MPI_REQUEST_NULL && fmpi::complete(reinterpret_cast<fmpi::req_t*>(q[i]))) return true; return false; });
    std::vector<int> c;
    for(int i=0; i<n; i++) if (q[i] != MPI_REQUEST_NULL && fmpi::complete(reinterpret_cast<fmpi::req_t*>(q[i]))) c.push_back(i);
    int i = c[h::R(0, (long) c.size() - 1)];
    fmpi::finish(reinterpret_cast<fmpi::req_t*>(q[i]));
    q[i] = MPI_REQUEST_NULL; *idx = i;
    return MPI_SUCCESS;
}
FM int MPI_Waitall(int n, MPI_Request q[], MPI_Status*){
    fmpi::block([n, q]()->bool{ for(int i=0; i<n; i++) if (q[i] != MPI_REQUEST_NULL && !fmpi::complete(reinterpret_cast<fmpi::req_t*>(q[i]))) return false; return true; });
    for(int i=0; i<n; i++) if (q[i] != MPI_REQUEST_NULL){
        auto *r = reinterpret_cast<fmpi::req_t*>(q[i]);
        if (r->send && !r->matched){ auto *k = new fmpi::req_t(*r); std::replace(fmpi::sent.begin(), fmpi::sent.end(), r, k); k->buf = k->data.data(); k->done = true; fmpi::live.push_back(k); }
        fmpi::finish(r); q[i] = MPI_REQUEST_NULL;
    }
    return MPI_SUCCESS;
}
FM int MPI_Wait(MPI_Request *q, MPI_Status *s){ return MPI_Waitall(1, q, s); }
FM double MPI_Wtime(){ static double t = 0; return t += 1e-3; }
FM int MPI_Initialized(int *f){ *f = 1; return MPI_SUCCESS; }
