// M02: many threads on one parallel pool, parallel loops, element computations on shared spaces. Built with TSan (std::thread), and with OpenMP without it.
#include <atomic>
#include <thread>
#include <deque>
#include <mutex>
#include "mon.h"
#include "anifem++/fem/fem_memory_parallel.h"
#ifndef NO_FEM
#include "aform.h"
#endif
using namespace Ani; using namespace mon;
static void jitter(Rng& r) { int k = r.range(0, 15); if (k < 5) std::this_thread::yield(); else if (k == 5) std::this_thread::sleep_for(std::chrono::microseconds(r.range(1, 60))); else if (k < 9) for (volatile int i = r.range(0, 300); i > 0; i = i - 1); }
struct Note { std::mutex mx; std::string first; std::atomic<int> bad{0}; void put(const std::string& s) { if (bad++ == 0) { std::lock_guard<std::mutex> l(mx); first = s; } } };
#ifdef WITH_OPENMP
typedef mutex_omp MX; static const ThreadPar::Type PT = ThreadPar::Type::OMP;
#else
typedef mutex_std MX; static const ThreadPar::Type PT = ThreadPar::Type::STD;
#endif
// run f(thread) on n threads; with omp the threads of one team
template<class F> static void team(int n, F f) {
#ifdef WITH_OPENMP
    #pragma omp parallel num_threads(n)
    f(omp_get_thread_num());
#else
    std::vector<std::thread> t; for (int i = 1; i < n; ++i) t.emplace_back([&, i] { f(i); }); f(0); for (auto& x : t) x.join();
#endif
}
struct Slot { int owner = 0; long stamp = 0; }; // plain memory: if two threads hold one index, or hand it over without order, the race detector sees it here
struct Shared { DynMemParallel<double, int, MX> P; std::vector<Slot> slot; std::atomic<long> ticket{0}; std::vector<std::atomic<int>> order; Note n; std::atomic<int> threads{0}, depth{0}; std::atomic<long> ops{0}; Shared() : slot(100000), order(400) { for (auto& o : order) o.store(0, std::memory_order_relaxed); } };
// one possession of an index: own it, use its pool, check that nothing of it changes
static void use(Shared& S, int id, DynMem<double, int>* d, int me, Rng& r) {
    if (id < 0 || size_t(id) >= S.slot.size()) { S.n.put(fmt("index %d", id)); return; } if (!d) { S.n.put(fmt("no pool for index %d", id)); return; }
    Slot& s = S.slot[id]; if (s.owner) S.n.put(fmt("index %d given to thread %d while thread %d holds it", id, me, s.owner)); s.owner = me; long t = S.ticket.fetch_add(1, std::memory_order_relaxed); if (t < 400) S.order[t].store(me*64 + id % 64, std::memory_order_relaxed);
    for (int k = r.range(0, 2); k >= 0; --k) { size_t nd = r.range(1, 200), ni = r.range(0, 50), nm = r.range(0, 5); auto p = d->alloc(nd, ni, nm); auto q = p.getPlainMemoryX(); for (size_t i = 0; i < nd; ++i) q.ddata[i] = me*1000.0 + i; for (size_t i = 0; i < ni; ++i) q.idata[i] = me + int(i); auto p2 = d->alloc(size_t(r.range(1, 30)), 1, 0); p2.getPlainMemoryX().ddata[0] = -1; jitter(r);
        for (size_t i = 0; i < nd; ++i) if (q.ddata[i] != me*1000.0 + i) { S.n.put(fmt("memory of thread %d changed", me)); break; } for (size_t i = 0; i < ni; ++i) if (q.idata[i] != me + int(i)) { S.n.put(fmt("memory of thread %d changed", me)); break; } if (s.owner != me) S.n.put(fmt("index %d of thread %d was taken by %d", id, me, s.owner)); ++S.ops; }
    s.owner = 0; ++s.stamp; }
static void body(Shared& S, int me, int loops, Rng r, int spawn) { std::vector<std::thread> kids; 
    for (int k = 0; k < loops; ++k) { jitter(r); int id = S.P.alloc(); jitter(r); auto* d = S.P.get(id); use(S, id, d, me, r); if (S.P.get(id) != d) S.n.put(fmt("the pool of index %d moved", id));
        if (r.coin(1, 4)) { int id2 = S.P.alloc(); if (id2 == id) S.n.put(fmt("index %d given twice to one thread", id)); auto* d2 = S.P.get(id2); if (d2 == d) S.n.put(fmt("indices %d and %d have one pool", id, id2)); use(S, id2, d2, me, r); if (r.coin()) { S.P.release(id2); S.P.release(id); } else { S.P.release(id); jitter(r); S.P.release(id2); } } else S.P.release(id);
#ifndef WITH_OPENMP
        if (spawn > 0 && r.coin(1, 3)) { --spawn; int w = ++S.threads; Rng q(r.next()); kids.emplace_back([&S, w, loops, q] { body(S, w, loops/2, q, 0); }); }
#endif
    }
    for (auto& t : kids) t.join(); }
SECTION(pool) { run_cases(m, m.cases(500, 8000), [&](long, Rng& r) { Shared S; int n = r.range(1, 16), loops = r.range(1, 25), spawn = r.coin() ? r.range(1, 3) : 0; S.threads = n; m.key("pool"); m.desc("%d threads, %d possessions each, %d started later by each", n, loops, spawn); std::vector<Rng> rs; for (int i = 0; i < n; ++i) rs.emplace_back(r.next());
    if (r.coin()) { auto q = S.P.alloc_range(r.range(0, 5)); if (r.coin()) S.P.release_range(q); else for (int i = q.first; i < q.second; ++i) S.slot[i].owner = -1; }
    team(n, [&](int t) { body(S, t+1, loops, rs[t], spawn); }); m.eval(S.ticket.load()); m.obs("possessions of an index", S.ticket.load()); m.obs("buffers checked", S.ops.load()); m.maxi("threads", S.threads.load()); uint64_t h = 7; for (auto& o : S.order) { int v = o.load(); h = hash_bytes(&v, 4, h); } m.distinct(h); m.check(S.n.bad == 0, "pool", "%s", S.n.first.c_str()); }); }
// ranges for teams (allocated and released by the master) while other threads hold single indices
SECTION(ranges) { run_cases(m, m.cases(400, 6000), [&](long, Rng& r) { Shared S; m.key("ranges"); int others = PT == ThreadPar::Type::NONE ? 0 : r.range(0, 4), n = r.range(1, 8); m.desc("%d team threads, %d other threads", n, others); std::vector<std::thread> bg; S.threads = 200;
#ifndef WITH_OPENMP
    for (int i = 0; i < others; ++i) { Rng q(r.next()); bg.emplace_back([&S, i, q] { body(S, 101+i, 12, q, 0); }); }
#endif
    for (int k = 0; k < 6; ++k) { int w = r.range(0, n); auto q = S.P.alloc_range(w); if (q.second - q.first != w) S.n.put(fmt("range of %d indices for %d threads", q.second - q.first, w)); if (w > 0) { std::vector<Rng> rs; for (int i = 0; i < w; ++i) rs.emplace_back(r.next()); team(w, [&](int t) { int id = q.first + t; use(S, id, S.P.get(id), t+1, rs[t]); }); } jitter(r); S.P.release_range(q); }
    for (auto& t : bg) t.join(); m.eval(S.ticket.load()); m.obs("possessions of an index", S.ticket.load()); uint64_t h = 9; for (auto& o : S.order) { int v = o.load(); h = hash_bytes(&v, 4, h); } m.distinct(h); m.check(S.n.bad == 0, "ranges", "%s", S.n.first.c_str()); }); }
// sequential histories of all operations against a model of live indices
template<class MT> static void seqHist(Mon& m, Rng& r) { DynMemParallel<double, int, MT> P; std::map<int, DynMem<double, int>*> live; std::map<int, std::pair<DynMem<double, int>::MemPart, double>> buf; std::vector<std::pair<int, int>> ranges; std::vector<int> singles; std::string h; m.key("history"); int len = r.range(5, 40);
    auto add = [&](int id) { auto* d = P.get(id); m.check(d && !live.count(id), "history", "index %d given while it is in use;%s", id, h.c_str()); for (auto& l : live) m.check(l.second != d, "history", "indices %d and %d share a pool;%s", l.first, id, h.c_str()); live[id] = d; if (r.coin()) { auto p = d->alloc(size_t(r.range(1, 50)), 1, 1); double v = r.sym(); for (size_t i = 0; i < p.getPlainMemory().dSize; ++i) p.getPlainMemory().ddata[i] = v; buf[id] = std::make_pair(std::move(p), v); } };
    auto drop = [&](int id) { buf.erase(id); live.erase(id); };
    for (int s = 0; s < len; ++s) { int k = r.range(0, 13); m.eval(); m.desc("history%s", h.c_str());
        if (k < 4) { int id = P.alloc(); h += fmt(" +%d", id); add(id); singles.push_back(id); }
        else if (k < 6) { int w = r.range(0, 5); auto q = P.alloc_range(w); h += fmt(" +[%d,%d)", q.first, q.second); m.check(q.second - q.first == w, "history", "%d indices for %d threads;%s", q.second - q.first, w, h.c_str()); for (int i = q.first; i < q.second; ++i) add(i); ranges.push_back(q); }
        else if (k < 9 && !singles.empty()) { size_t j = r.range(0, int(singles.size())-1); int id = singles[j]; h += fmt(" -%d", id); drop(id); P.release(id); singles.erase(singles.begin()+long(j)); }
        else if (k < 12 && !ranges.empty()) { size_t j = r.range(0, int(ranges.size())-1); auto q = ranges[j]; h += fmt(" -[%d,%d)", q.first, q.second); for (int i = q.first; i < q.second; ++i) drop(i); if (r.coin(3, 4)) P.release_range(q); else for (int i = q.first; i < q.second; ++i) P.release(i); ranges.erase(ranges.begin()+long(j)); }
        else if (k == 12 && r.coin(1, 3)) { bool c = r.coin(); h += c ? " clear" : " all"; buf.clear(); live.clear(); singles.clear(); ranges.clear(); if (c) P.clear(); else P.release_all(); }
        for (auto& l : live) m.check(P.get(l.first) == l.second, "history", "the pool of index %d moved;%s", l.first, h.c_str());
        for (auto& b : buf) { auto q = b.second.first.getPlainMemory(); bool ok = true; for (size_t i = 0; i < q.dSize; ++i) ok &= q.ddata[i] == b.second.second; m.check(ok, "history", "memory of index %d changed;%s", b.first, h.c_str()); } }
    m.distinct(h); m.obs("operations in histories", len); }
SECTION(history) { run_cases(m, m.cases(3000, 60000), [&](long c, Rng& r) { if (c & 1) seqHist<MX>(m, r); else seqHist<mutex_none>(m, r); }); }
// every index once; one thread number is never used by two threads at a time, numbers are below the number of threads
template<ThreadPar::Type T, class It, class Get> static void loop(Mon& m, Rng& r, const char* kind, It b, It e, long n, Get get) {
    int nt = r.coin(1, 8) ? -1 : r.coin(1, 4) ? 1 : r.range(1, 16), lim = ThreadPar::get_num_threads<T>(nt); if (nt > 0) m.check(T == ThreadPar::Type::NONE ? lim == 1 : lim == nt, "loop:threads", "%d threads for %d", lim, nt); m.check(lim >= 1, "loop:threads", "%d threads", lim);
    std::vector<int> cnt(size_t(n), 0); std::vector<long> per(size_t(std::max(lim, 1)), 0); std::vector<int> by(size_t(n), -1); Note bad; uint64_t sd = r.next(); std::vector<double> extra{1, 2, 3}; bool slow = r.coin(); m.key(std::string("loop:") + kind); m.desc("%s: %ld iterations, %d threads", kind, n, nt); std::atomic<long> tick{0}; std::vector<int> seq(size_t(n), 0); m.eval();
    ThreadPar::parallel_for<T>(nt, [&](It it, int th, std::vector<double>& x, int k) { long i = get(it); if (i < 0 || i >= n) { bad.put(fmt("index %ld of %ld", i, n)); return; } if (th < 0 || th >= int(per.size())) { bad.put(fmt("thread number %d of %zu", th, per.size())); return; } if (slow) { Rng q(sd + uint64_t(i)); jitter(q); } ++cnt[i]; by[i] = th; ++per[th]; long t = tick.fetch_add(1, std::memory_order_relaxed); if (t < n) seq[t] = th; if (&x != &extra || k != 5) bad.put("extra argument"); }, b, e, extra, 5);
    for (long i = 0; i < n; ++i) if (!m.check(cnt[i] == 1, std::string("loop:") + kind, "index %ld of %ld performed %d times by %d threads", i, n, cnt[i], nt)) break; long s = 0; for (long p : per) s += p; m.check(s == n, std::string("loop:") + kind, "%ld calls for %ld iterations", s, n); m.check(bad.bad == 0, std::string("loop:") + kind, "%s", bad.first.c_str()); m.obs(std::string("iterations over ") + kind, n); m.distinct(hash_bytes(seq.data(), seq.size()*sizeof(int), uint64_t(nt))); }
template<ThreadPar::Type T> static void loops(Mon& m, Rng& r) { int n = r.coin(1, 8) ? 0 : r.coin() ? r.range(1, 17) : r.range(1, 700); std::vector<long> v(size_t(n)+1); std::deque<long> d(size_t(n)+1); for (int i = 0; i <= n; ++i) v[i] = d[i] = i; int off = r.range(-50, 50);
    switch (r.range(0, 4)) { case 0: loop<T>(m, r, "pointers", (const long*)v.data(), (const long*)v.data() + n, n, [](const long* p) { return *p; }); break; case 1: loop<T>(m, r, "vector", v.begin(), v.begin() + n, n, [](std::vector<long>::iterator p) { return *p; }); break; case 2: loop<T>(m, r, "deque", d.begin(), d.begin() + n, n, [](std::deque<long>::iterator p) { return *p; }); break;
        case 3: loop<T>(m, r, "long", long(off), long(off + n), n, [off](long p) { return p - off; }); break; default: loop<T>(m, r, "int", off, off + n, n, [off](int p) { return long(p - off); }); } }
SECTION(loop) { run_cases(m, m.cases(1500, 20000), [&](long c, Rng& r) { if (c % 4 == 0) loops<ThreadPar::Type::NONE>(m, r); else loops<PT>(m, r); }); }
#ifndef NO_FEM
// element computations in threads on shared spaces and operators, each thread with the workspace of its index; sequential results afterwards
using namespace af;
struct Job { int kind; SP sa, sb; int oa, ob, rep; Form F; Coef D; std::shared_ptr<FemSpace> spa, spb; ApplyOpFromSpaceView A, B; std::vector<double> par, seq, dofs; double tol; bool dyn;
    void run(std::vector<double>& out) { if (kind == 0) { out.assign(size_t(sa->nf())*sb->nf()*F.f(), NAN); DenseMatrix<> M; M.Init(out.data(), 0, 0, out.size()); int ud = 0; Log log; Fun fn{&D, &log, &ud, rep}; runX<DfuncTraits<>>(F, A, B, fn, M, &ud, dyn); }
        else if (kind == 1) { FemSpace s = makeRaw(*sa); auto op = s.getOP((OperatorType)oa); int nf = sa->nf(), d = orc::dimOp(oa, sa->dim()), q = int(F.XYL.size()/4); out.assign(size_t(d)*q*F.f(), NAN); Batch B(F.ts); DenseMatrix<> M; M.Init(out.data(), 0, 0, out.size()); std::vector<double> dd(dofs); DenseMatrix<> dm(dd.data(), nf, F.f()); fem3DapplyL(B.T, ArrayView<>(F.XYL.data(), F.XYL.size()), dm, op, M, pool()); }
        else { // layouts and quadrature tables
            out.clear(); FemSpace s = makeRaw(*sa); auto map = s.dofMap(); for (auto it = map.begin(); it != map.end(); ++it) { out.push_back(it->gid); out.push_back(it->nelem); out.push_back(it->leid); } auto q = tetrahedron_quadrature_formulas(F.order); for (int i = 0; i < q.GetNumPoints(); ++i) out.push_back(q.GetPointWeight(i).w); auto f = triangle_quadrature_formulas(F.order); for (int i = 0; i < f.GetNumPoints(); ++i) out.push_back(f.GetPointWeight(i).w); auto e = segment_quadrature_formulas(F.order); for (int i = 0; i < e.GetNumPoints(); ++i) out.push_back(e.GetPointWeight(i).w); } } };
SECTION(elements) { run_cases(m, m.cases(150, 2000), [&](long, Rng& r) { m.key("elements"); int nu = r.range(1, 3), nj = r.range(2, 24), n = r.range(2, 12); std::vector<SP> us; std::vector<std::shared_ptr<FemSpace>> fs; while (int(us.size()) < nu) { SP s = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 2), 20); if (orc::unionQuality(*s) < 1e-4L) continue; us.push_back(s); fs.push_back(std::make_shared<FemSpace>(makeRaw(*s))); }
    std::vector<std::unique_ptr<Job>> js; for (int i = 0; i < nj; ++i) { std::unique_ptr<Job> j(new Job); int a = r.range(0, nu-1), b = r.range(0, nu-1); j->kind = r.coin(2, 3) ? 0 : r.range(1, 2); j->sa = us[a]; j->sb = us[b]; j->spa = fs[a]; j->spb = fs[b]; j->oa = pickOp(r, *j->sa); j->ob = pickOp(r, *j->sb); j->dyn = r.coin(3, 4); Dom dom = j->kind ? TET : Dom(r.range(TET, PNTX));
        int R = orc::dimOp(j->ob, j->sb->dim())*(dom == FACEN ? 3 : 1), C = orc::dimOp(j->oa, j->sa->dim()), st = tensorStruct(r, R, C), base = orc::opOrder(j->oa, *j->sa) + orc::opOrder(j->ob, *j->sb); Form F = randForm(r, dom, std::min(base, 12), 2); F.order = std::max(1, std::min(F.order, 12)); j->F = F; if (j->kind == 1) { j->F.XYL.clear(); for (int q = r.range(1, 5); q > 0; --q) { double l[4]; orc::randBary(r, l, true); j->F.XYL.insert(j->F.XYL.end(), l, l+4); } j->dofs.resize(size_t(j->sa->nf())*j->F.f()); for (auto& v : j->dofs) v = r.sym(); }
        j->D = Coef::rand(r, R, C, st, base > 8 ? 0 : 1, false, j->F.ts); j->rep = st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0; if (j->kind == 0) { j->A = j->spa->getOP((OperatorType)j->oa); j->B = j->spb->getOP((OperatorType)j->ob); } m.distinct(j->sa->str() + j->sb->str() + fmt("%d%d%d", j->oa, j->ob, dom)); js.push_back(std::move(j)); }
    m.desc("%d element jobs over %d shared spaces on %d threads", nj, nu, n); DynMemParallel<double, int, MX> P; bool parFirst = r.coin(3, 4); auto seq = [&] { for (auto& j : js) j->run(j->seq); }; if (!parFirst) seq();
    auto range = P.alloc_range(n); ThreadPar::parallel_for<PT>(n, [&](long i, int th) { threadPool() = P.get(range.first + th); Rng q(uint64_t(i)*77+m.seed); jitter(q); js[size_t(i)]->run(js[size_t(i)]->par); threadPool() = nullptr; }, long(0), long(nj)); P.release_range(range); if (parFirst) seq(); m.eval(nj); m.obs("element computations", nj);
    for (auto& j : js) { m.check(j->par.size() == j->seq.size(), "elements", "sizes differ"); double sc = 0; for (double v : j->seq) sc = std::max(sc, std::fabs(v)); for (size_t i = 0; i < j->seq.size(); ++i) if (!m.close(j->par[i], j->seq[i], 1e-11*sc + 1e-300, "elements", "entry", long(i), j->kind)) return; } }); }
#endif
