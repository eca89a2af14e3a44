// A06: workspace of exactly the announced size suffices; what does not fit is refused instead of being executed.
#include "aform.h"
#include <sys/wait.h>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
using namespace af;
enum Outcome { REFUSED, DONE, BADMEM, OTHER };
// run f in a child: an exception or a failed assertion is a refusal; a sanitizer report is an out-of-bounds execution
static Outcome guarded(const std::function<bool()>& f, std::string* msg) {
    char nm[] = "/tmp/verif_a06_XXXXXX"; int fd = mkstemp(nm); unlink(nm); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(nullptr); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); dup2(fd, 2); int rc = 10; try { rc = f() ? 11 : 12; } catch (const std::exception&) { rc = 10; } _exit(rc); }
    int st = 0; waitpid(p, &st, 0); std::string txt; off_t n = lseek(fd, 0, SEEK_END); if (n > 0) { txt.resize(std::min<off_t>(n, 4000)); if (pread(fd, &txt[0], txt.size(), 0) < 0) txt.clear(); } close(fd);
    if (txt.find("Sanitizer") != std::string::npos || txt.find("runtime error") != std::string::npos) { size_t b = txt.find("ERROR"); *msg = txt.substr(b == std::string::npos ? 0 : b, 160); for (auto& c : *msg) if (c == '\n') c = ' '; return BADMEM; }
    if (WIFEXITED(st)) { if (WEXITSTATUS(st) == 10) return REFUSED; if (WEXITSTATUS(st) == 11) return DONE; *msg = WEXITSTATUS(st) == 12 ? "finished with a wrong result" : fmt("exit %d", WEXITSTATUS(st)); return OTHER; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && txt.find("Assertion") != std::string::npos) return REFUSED;
    *msg = fmt("signal %d %s", WTERMSIG(st), txt.substr(0, 100).c_str()); return OTHER; }
static bool finite(const double* d, size_t n) { for (size_t i = 0; i < n; ++i) if (!std::isfinite(d[i])) return false; return true; }
static bool sameBits(const double* a, const double* b, size_t n) { return !memcmp(a, b, n*sizeof(double)); }
static bool nearly(const double* a, const double* b, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s = std::max(s, std::fabs(b[i])); for (size_t i = 0; i < n; ++i) if (!(std::fabs(a[i]-b[i]) <= 1e-9*s + 1e-300)) return false; return true; }
struct Prob { SP sa, sb; int oa, ob, tr, rep, nfa, nfb; Form F; Coef D; std::unique_ptr<FemSpace> pa, pb; ApplyOpFromSpaceView A, B; std::string str; };
static bool mk(Mon& m, Rng& r, Prob& p, int maxf) {
    p.sa = r.coin(1, 3) ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 3), 40); p.sb = r.coin(1, 3) ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 3), 40);
    if (r.coin(1, 4)) p.sb = p.sa; if (orc::unionQuality(*p.sa) < 1e-4L || orc::unionQuality(*p.sb) < 1e-4L) return false;
    Dom dom = Dom(r.range(TET, PNTX)); p.oa = pickOp(r, *p.sa); p.ob = r.coin(1, 4) && orc::opOk(p.oa, p.sb->dim()) ? p.oa : pickOp(r, *p.sb); bool match = dom != FACEN && r.coin(1, 3); if (match) matchedPair(r, p.sa, p.sb, p.oa, p.ob); p.nfa = p.sa->nf(); p.nfb = p.sb->nf();
    int da = orc::dimOp(p.oa, p.sa->dim()), db = orc::dimOp(p.ob, p.sb->dim()), R = db*(dom == FACEN ? 3 : 1), st = match ? r.range(TENSOR_NULL, TENSOR_GENERAL) : tensorStruct(r, R, da);
    p.F = randForm(r, dom, r.range(0, r.coin(1, 3) ? 20 : 5), 1); if (dom != PNTX) { int f = r.range(1, maxf); while (p.F.f() < f) p.F.ts.push_back(orc::randTet(r)); }
    p.tr = r.range(0, 2); p.D = Coef::rand(r, R, da, st, r.range(0, 1), false, p.F.ts); p.rep = st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : p.tr == 0 ? 0 : p.tr == 1 ? -1 : st;
    p.pa.reset(new FemSpace(r.coin() ? makeRaw(*p.sa) : makeAlg(*p.sa))); p.pb.reset(new FemSpace(makeRaw(*p.sb))); p.A = p.pa->getOP((OperatorType)p.oa); p.B = p.pb->getOP((OperatorType)p.ob);
    p.str = fmt("%s(%s) x %s(%s) D kind %d traits %d, %s", orc::opName(p.oa), p.sa->str().c_str(), orc::opName(p.ob), p.sb->str().c_str(), st, p.tr, p.F.str().c_str()); m.desc("%s", p.str.c_str()); m.distinct(p.sa->str() + p.sb->str() + fmt("%d%d%d/%d", p.oa, p.ob, dom, p.F.f())); m.sample(p.str); return true; }
static void go(Prob& p, DenseMatrix<>& A, bool dyn, double poison) { int ud = 0; Log log; p.D.ts = &p.F.ts; Fun fn{&p.D, &log, &ud, p.rep};
    if (p.tr == 0) runX<DfuncTraits<>>(p.F, p.A, p.B, fn, A, &ud, dyn, poison); else if (p.tr == 1) runX<DfuncTraits<PerTetra>>(p.F, p.A, p.B, fn, A, &ud, dyn, poison); else runX<DfuncTraits<PerSelection>>(p.F, p.A, p.B, fn, A, &ud, dyn, poison); }
struct ExOut { std::unique_ptr<double[]> d; DenseMatrix<> A; explicit ExOut(size_t n) : d(new double[n]) { for (size_t i = 0; i < n; ++i) d[i] = NAN; A.Init(d.get(), 0, 0, n); } };
#ifndef SHARD
SECTION(exact) { run_cases(m, m.cases(500, 9000), [&](long, Rng& r) { Prob p; if (!mk(m, r, p, 5)) return; size_t n = size_t(p.nfa)*p.nfb*p.F.f(); ExOut a(n), b(n); m.key("exact");
    go(p, a.A, false, NAN); m.eval(); go(p, b.A, false, 3.5); m.eval(); m.obs("exact-size workspaces", 2); if (!m.check(finite(a.d.get(), n), "exact", "the result uses memory that was never written")) return; m.check(sameBits(a.d.get(), b.d.get(), n), "exact", "the result depends on the contents of the workspace"); }); }
SECTION(field) { run_cases(m, m.cases(400, 8000), [&](long, Rng& r) {
    SP s = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 3), 40); if (orc::unionQuality(*s) < 1e-4L) return; int op = pickOp(r, *s), nf = s->nf(), D = orc::dimOp(op, s->dim()); bool cart = r.coin(); int f = cart ? 1 : r.range(1, 5), q = r.range(1, r.coin(1, 4) ? 30 : 4), R = r.range(1, 7);
    FemSpace sp = makeRaw(*s); auto A = sp.getOP((OperatorType)op); vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r)); Batch B(ts); auto tt = tetra(ts[0]);
    std::unique_ptr<double[]> xl(new double[4*q]), X(new double[3*q]), dd(new double[size_t(nf)*f]); for (int i = 0; i < 4*q; ++i) xl[i] = r.sym(); for (int i = 0; i < 3*q; ++i) X[i] = ts[0].x[0][i%3] + ts[0].h*r.sym(); for (int i = 0; i < nf*f; ++i) dd[i] = r.sym(); DenseMatrix<> dm(dd.get(), nf, f);
    bool withD = r.coin(); Coef Dc = Coef::rand(r, R, D, TENSOR_GENERAL, 1, false, ts); int ud = 0; Log log; Fun fn{&Dc, &log, &ud, (int)TENSOR_GENERAL}; size_t n = size_t(withD ? R : D)*q*f; m.key("field"); m.desc("field %s.%s f=%d q=%d %s coefficient %d", s->str().c_str(), orc::opName(op), f, q, cart ? "Cartesian" : "barycentric", withD ? R : 0); m.distinct("field" + s->str() + fmt("%d/%d/%d", op, f, q));
    auto run = [&](double po, ExOut& o, size_t cd, size_t ci, size_t cm) { lib::cut() = lib::Cut{cd, ci, cm}; struct G { ~G() { lib::cut() = lib::Cut(); } } g; typedef DfuncTraits<> Tr; ArrayView<> v(xl.get(), 4*q); ArrayView<const double> x(X.get(), 3*q);
        if (withD) { if (cart) { XMem mem(fem3DapplyX_memory_requirements<Tr>(R, A, q, 1), po); fem3DapplyX<Tr>(tt, x, dm, A, R, fn, o.A, mem.pm, &ud); } else { XMem mem(fem3DapplyL_memory_requirements<Tr>(R, A, q, f), po); fem3DapplyL<Tr>(B.T, v, dm, A, R, fn, o.A, mem.pm, &ud); } }
        else { if (cart) { XMem mem(fem3DapplyX_memory_requirements(A, q, 1), po); fem3DapplyX(tt, x, dm, A, o.A, mem.pm); } else { XMem mem(fem3DapplyL_memory_requirements(A, q, f), po); fem3DapplyL(B.T, v, dm, A, o.A, mem.pm); } } };
    ExOut a(n), b(n); run(NAN, a, 0, 0, 0); run(-2.5, b, 0, 0, 0); m.eval(2); m.obs("exact-size workspaces", 2); if (!m.check(finite(a.d.get(), n), "field", "the result uses memory that was never written")) return; m.check(sameBits(a.d.get(), b.d.get(), n), "field", "the result depends on the contents of the workspace");
    if (r.coin(1, 3)) { int w = r.range(0, 3); size_t k = r.coin() ? 1 : size_t(r.range(1, 40)); std::string msg; ExOut o(w == 3 ? n-1 : n); m.key("field:refuse"); Outcome oc = guarded([&] { run(NAN, o, w == 0 ? k : 0, w == 1 ? k : 0, w == 2 ? k : 0); return w < 3 && nearly(o.d.get(), a.d.get(), n); }, &msg); m.eval(); m.obs(oc == REFUSED ? "refused requests" : "requests with less memory that still fit"); m.check(oc == REFUSED || (oc == DONE && w < 3), "field:refuse", "with %s too small: %s", w == 0 ? "real memory" : w == 1 ? "integer memory" : w == 2 ? "block memory" : "output", msg.c_str()); } }); }
SECTION(refuse) { run_cases(m, m.cases(220, 4000), [&](long, Rng& r) { Prob p; if (!mk(m, r, p, 3)) return; size_t n = size_t(p.nfa)*p.nfb*p.F.f(); ExOut a(n); go(p, a.A, false, NAN); m.key("refuse"); int w = r.range(0, 3); bool pool = w == 3 && r.coin(); size_t k = r.coin() ? 1 : size_t(r.range(1, 60)); size_t on = n; if (w == 3) on = n - std::min(n, size_t(r.coin() ? 1 : r.range(1, int(n)))); ExOut o(on); std::string msg;
    lib::cut() = lib::Cut{w == 0 ? k : 0, w == 1 ? k : 0, w == 2 ? k : 0}; Outcome oc = guarded([&] { go(p, o.A, pool, NAN); return w < 3 && nearly(o.d.get(), a.d.get(), n); }, &msg); lib::cut() = lib::Cut(); m.eval(); m.obs(oc == REFUSED ? fmt("refused: %s", w == 0 ? "real memory" : w == 1 ? "integer memory" : w == 2 ? "block memory" : "output") : std::string("requests with less memory that still fit"));
    m.check(oc == REFUSED || (oc == DONE && w < 3), "refuse", "with %s too small by %zu: %s", w == 0 ? "real memory" : w == 1 ? "integer memory" : w == 2 ? "block memory" : "output", w == 3 ? n-on : k, msg.c_str()); }); }
SECTION(points) { run_cases(m, m.cases(120, 2500), [&](long, Rng& r) { // fewer weights than points, or points without weights: only the pairs are used
    Prob p; if (!mk(m, r, p, 2) || (p.F.dom != PNTL && p.F.dom != PNTX)) return; size_t n = size_t(p.nfa)*p.nfb*p.F.f(), q = p.F.WG.size(); ExOut a(n), b(n); go(p, a.A, false, NAN); m.key("points"); Prob& s = p; int more = r.range(1, 5);
    if (r.coin()) { for (int i = 0; i < more; ++i) s.F.WG.push_back(1e5); } else { for (int i = 0; i < 4*more; ++i) if (p.F.dom == PNTL) s.F.XYL.push_back(0.25); for (int i = 0; i < 3*more; ++i) if (p.F.dom == PNTX) s.F.X.push_back(1e3); }
    s.F.XYL.shrink_to_fit(); s.F.X.shrink_to_fit(); s.F.WG.shrink_to_fit(); Batch B(s.F.ts); auto tt = tetra(s.F.ts[0]); (void)q; go(p, b.A, r.coin(), NAN); m.eval(); m.obs("unpaired points"); m.check(nearly(b.d.get(), a.d.get(), n), "points", "unpaired points or weights changed the result"); }); }
SECTION(interp) { run_cases(m, m.cases(200, 4000), [&](long, Rng& r) { SP s = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 2), 30); if (orc::unionQuality(*s) < 1e-4L) return; FemSpace sp = makeRaw(*s); const BaseFemSpace* b = sp.base().get(); Tet t = orc::randTet(r); auto XYZ = tetra(t); int nf = s->nf(), D = s->dim(), order = r.range(1, 10);
    auto fn = [&](const std::array<double, 3>& X, double* res, unsigned dim, void*) -> int { for (unsigned k = 0; k < dim; ++k) res[k] = 1 + (X[0]-t.x[0][0])/t.h*double(k%unsigned(D)); return 0; }; auto& ef = fn;
    std::unique_ptr<double[]> u(new double[nf]), w(new double[nf]); m.key("interp"); m.desc("interpolation %s order %d %s", s->str().c_str(), order, t.str().c_str()); m.distinct("interp" + s->str());
    for (int i = 0; i < nf; ++i) u[i] = w[i] = NAN; int k = r.range(0, 1), dof = r.range(0, nf-1); DofT::TetGeomSparsity g; g.setCell(true);
    auto run = [&](double* out, size_t len, double po) { if (k == 0) { XMem mem(b->interpolateByDOFs_mem_req(order), po); b->interpolateByDOFs(XYZ, ef, ArrayView<>(out, len), g, mem.pm, nullptr, order); } else { XMem mem(b->interpolateOnDOF_mem_req(dof, 1, order), po); b->interpolateOnDOF(XYZ, ef, ArrayView<>(out, len), dof, mem.pm, nullptr, order); } };
    run(u.get(), nf, NAN); run(w.get(), nf, 7.5); m.eval(2); m.obs("exact-size interpolation workspaces", 2); m.check(sameBits(u.get(), w.get(), nf), "interp", "the result depends on the contents of the workspace"); if (k == 0) m.check(finite(u.get(), nf), "interp", "the result uses memory that was never written"); else m.check(std::isfinite(u[dof]), "interp", "the dof value uses memory that was never written"); }); }
SECTION(raw) { run_cases(m, m.cases(4000, 100000), [&](long, Rng& r) { // typed parts carved out of raw bytes
    auto sz = [&]() { return size_t(r.coin(1, 4) ? 0 : r.coin() ? r.range(1, 7) : r.range(1, 300)); }; size_t d = sz(), i = sz(), k = sz(); int mis = r.range(0, 15); bool X = r.coin(); m.key("raw"); m.desc("raw %s d=%zu i=%zu m=%zu misaligned by %d", X ? "PlainMemoryX" : "PlainMemory", d, i, k, mis); m.eval(); m.distinct(fmt("raw%d/%zu/%zu/%zu/%d", X, d%9, i%9, k%5, mis)); m.obs("raw carvings");
    PlainMemoryX<> px; px.dSize = d; px.iSize = i; px.mSize = k; PlainMemory<> pm; pm.dSize = d; pm.iSize = i; size_t need = X ? px.enoughRawSize() : pm.enoughRawSize(); bool shorter = r.coin(1, 3); size_t len = shorter && need ? need - r.range(1, int(need)) : need;
    std::unique_ptr<char[]> buf(new char[len + mis + 1]); char* st = buf.get() + mis; void* e = X ? px.allocateFromRaw(st, len) : pm.allocateFromRaw(st, len);
    double* dd = X ? px.ddata : pm.ddata; int* ii = X ? px.idata : pm.idata; DenseMatrix<>* mm = X ? px.mdata : nullptr; size_t kk = X ? k : 0; if (d + i + kk == 0) return;
    if (e == nullptr) { m.check(shorter, "raw:refused", "%zu bytes as announced were refused", len); m.obs("refused raw memory"); return; }
    struct Rg { const char* b; const char* e; }; vector<Rg> v; if (d) v.push_back({(char*)dd, (char*)(dd+d)}); if (i) v.push_back({(char*)ii, (char*)(ii+i)}); if (kk) v.push_back({(char*)mm, (char*)(mm+kk)});
    for (size_t a = 0; a < v.size(); ++a) { m.check(v[a].b >= st && v[a].e <= st + len, "raw", "part %zu lies outside the %zu bytes given", a, len); for (size_t b = 0; b < a; ++b) m.check(v[a].e <= v[b].b || v[b].e <= v[a].b, "raw", "parts %zu and %zu overlap", a, b); }
    m.check((!d || uintptr_t(dd) % alignof(double) == 0) && (!i || uintptr_t(ii) % alignof(int) == 0) && (!kk || uintptr_t(mm) % alignof(DenseMatrix<>) == 0), "raw", "a part is misaligned"); m.check((char*)e <= st + len, "raw", "the reported end lies outside");
    if (X) { // typed blocks instead of bytes
        bool fs = r.coin(); PlainMemoryX<> q; q.dSize = d; q.iSize = i; q.mSize = k; auto need2 = q.enoughPlainMemory(fs); std::unique_ptr<double[]> D(new double[need2.dSize]); std::unique_ptr<int[]> I(new int[need2.iSize]); PlainMemory<> src = need2; src.ddata = D.get(); src.idata = I.get(); if (!fs && need2.iSize && r.coin()) { }
        m.check(q.allocateFromPlainMemory(src, fs), "raw:typed", "blocks of the announced sizes were refused"); if (d) for (size_t t = 0; t < d; ++t) q.ddata[t] = 1; if (i) for (size_t t = 0; t < i; ++t) q.idata[t] = 2; if (k) { m.check(uintptr_t(q.mdata) % alignof(DenseMatrix<>) == 0, "raw:typed", "misaligned"); for (size_t t = 0; t < k; ++t) q.mdata[t].Init(nullptr, 3, 4, 5); }
        bool ok = true; for (size_t t = 0; t < d; ++t) ok &= q.ddata[t] == 1; for (size_t t = 0; t < i; ++t) ok &= q.idata[t] == 2; for (size_t t = 0; t < k; ++t) ok &= q.mdata[t].nRow == 3 && q.mdata[t].nCol == 4 && q.mdata[t].size == 5; m.check(ok, "raw:typed", "typed parts overlap");
        // sizes given in the call instead of in the descriptor; a size of zero keeps what the descriptor had
        PlainMemoryX<> h; size_t s0[3] = {d, i, k}, s1[3] = {r.coin(1, 3) ? 0 : size_t(r.range(1, 4)), r.coin(1, 3) ? 0 : size_t(r.range(1, 4)), r.coin(1, 3) ? 0 : size_t(r.range(1, 4))}; size_t* ss[2] = {s0, s1}; size_t want[3] = {0, 0, 0}; bool any[3] = {false, false, false}; std::vector<std::unique_ptr<double[]>> ds; std::vector<std::unique_ptr<int[]>> is; m.key("raw:sizes");
        for (int c = 0; c < 2; ++c) { auto* z = ss[c]; PlainMemoryX<> t; t.dSize = z[0]; t.iSize = z[1]; t.mSize = z[2]; bool rawc = r.coin(); if (z[0] + z[1] + z[2] == 0) continue; double* od = h.ddata; int* oi = h.idata; auto* om = h.mdata; m.eval();
            if (rawc) { size_t n = t.enoughRawSize(); ds.emplace_back(new double[n/8 + 2]); m.check(h.allocateFromRaw(ds.back().get(), n, z[0], z[1], z[2]) != nullptr, "raw:sizes", "%zu bytes as announced were refused", n); }
            else { auto nd = t.enoughPlainMemory(fs); ds.emplace_back(new double[nd.dSize + 1]); is.emplace_back(new int[nd.iSize + 1]); if (fs ? (nd.dSize > 0) : (nd.iSize > 0)) { size_t cd = fs ? r.range(1, int(nd.dSize)) : 0, ci = fs ? 0 : r.range(1, int(nd.iSize)); PlainMemoryX<> bad = h; bool got = bad.allocateFromPlainMemory(ds.back().get(), nd.dSize - cd, is.back().get(), nd.iSize - ci, z[0], z[1], z[2], fs); size_t haveD = nd.dSize - cd, haveI = nd.iSize - ci; if (got) m.check(haveD >= z[0] && haveI >= z[1] && (!z[2] || (fs ? (char*)(bad.mdata + z[2]) <= (char*)(ds.back().get() + haveD) : (char*)(bad.mdata + z[2]) <= (char*)(is.back().get() + haveI))), "raw:sizes", "accepted blocks that are too small"); else m.check(bad.ddata == h.ddata && bad.idata == h.idata && bad.dSize == h.dSize && bad.iSize == h.iSize && bad.mSize == h.mSize, "raw:sizes", "a refused call changed the descriptor"); m.obs("shortened typed blocks"); }
                m.check(h.allocateFromPlainMemory(ds.back().get(), nd.dSize, is.back().get(), nd.iSize, z[0], z[1], z[2], fs), "raw:sizes", "blocks of the announced sizes were refused"); }
            for (int a = 0; a < 3; ++a) if (z[a]) want[a] = z[a], any[a] = true; m.check(h.dSize == want[0] && h.iSize == want[1] && h.mSize == want[2], "raw:sizes", "asked for %zu/%zu/%zu, the descriptor says %zu/%zu/%zu", want[0], want[1], want[2], h.dSize, h.iSize, h.mSize);
            m.check((z[0] ? h.ddata != nullptr && h.ddata != od : h.ddata == od) && (z[1] ? h.idata != nullptr && h.idata != oi : h.idata == oi) && (z[2] ? h.mdata != nullptr && h.mdata != om : h.mdata == om), "raw:sizes", "%s memory call %d: wrong block (parts of size 0 must keep theirs, the others get new ones)", rawc ? "raw" : "typed", c); for (size_t q2 = 0; q2 < h.dSize && h.ddata; ++q2) h.ddata[q2] = 4; for (size_t q2 = 0; q2 < h.iSize && h.idata; ++q2) h.idata[q2] = 5; for (size_t q2 = 0; q2 < h.mSize && h.mdata; ++q2) h.mdata[q2].Init(nullptr, 6, 7, 8); m.obs("descriptors carved with explicit sizes"); (void)any; }
        } }); }
#else
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
template<class OA, class OB> static bool fitsStatic(const Form& F, int q, int FUS) { size_t f = F.f(), U = 0, V = 0, R = 0, R2 = 0, I = 0; OA::template memoryRequirements<double, int>(int(f), q, U, R, I); if (!std::is_same<OA, OB>::value) OB::template memoryRequirements<double, int>(int(f), q, V, R2, I); typedef MemoryLegacy<double, 1> ML; ML* z = nullptr; (void)z; size_t cU = sizeof(ML::U_d)/8*FUS, cV = sizeof(ML::V_d)/8*FUS, cD = sizeof(ML::DU_d)/8*FUS, cE = sizeof(ML::extra)/8*FUS, nD = F.dom == FACEN ? 3 : 1;
    return U <= cU && V <= cV && std::max(R, R2) <= cE && OB::Dim::value*nD*q*OA::Nfa::value*f <= cD; }
template<int oa, class TA, int ob, class TB> static void ct(Mon& m, Rng& r) {
    typedef Operator<oa, TA> OA; typedef Operator<ob, TB> OB; SP sa = lib::M<TA>::get(), sb = lib::M<TB>::get(); Dom dom = Dom(r.range(TET, PNTX)); int R = orc::dimOp(ob, sb->dim())*(dom == FACEN ? 3 : 1), C = orc::dimOp(oa, sa->dim()), st = tensorStruct(r, R, C); Form F = randForm(r, dom, r.range(0, 5), 4); F.order = std::min(F.maxOrder(), r.coin() ? r.range(1, 8) : r.range(5, 20)); if (dom != PNTX) { int f = r.range(1, 4); while (F.f() < f) F.ts.push_back(orc::randTet(r)); while (F.f() > f) F.ts.pop_back(); }
    Coef D = Coef::rand(r, R, C, st, r.range(0, 1), false, F.ts); int ud = 0; Log log; Fun fn{&D, &log, &ud, st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0}; int nfa = sa->nf(), nfb = sb->nf(); size_t n = size_t(nfa)*nfb*F.f(); std::string d = sa->str() + "." + orc::opName(oa) + " x " + sb->str() + "." + orc::opName(ob); m.distinct("ct" + d + domName(dom) + fmt("%d/%d", F.order, F.f()));
    int q = dom == TET ? tetrahedron_quadrature_formulas(F.order).GetNumPoints() : dom <= FACEN ? triangle_quadrature_formulas(F.order).GetNumPoints() : dom == EDGE ? segment_quadrature_formulas(F.order).GetNumPoints() : dom == NODE ? 1 : int(F.WG.size()); bool overOrder = (dom == TET && F.order > 6) || ((dom == FACE || dom == FACEN) && F.order > 9) || (dom == EDGE && F.order > 20) || (dom >= PNTL && q > 24);
    ExOut ref(n), p2(n); m.key("ct:planned"); m.desc("planned %s %s", d.c_str(), F.str().c_str()); runC<OA, OB, DfuncTraits<>>(PLAIN, F, fn, ref.A, &ud, NAN); runC<OA, OB, DfuncTraits<>>(PLAIN, F, fn, p2.A, &ud, 1.5); m.eval(2); m.obs("compile-time exact-size workspaces", 2); m.check(finite(ref.d.get(), n) && sameBits(ref.d.get(), p2.d.get(), n), "ct:planned", "the result depends on the contents of the workspace");
    for (int i : {STAT1, STAT3, XYSTAT}) { if (i == STAT3 && dom == PNTX) continue; int FUS = i == STAT3 ? 3 : 1; bool tooMany = F.f() > FUS, shortOut = r.coin(1, 4), must = overOrder || tooMany || shortOut || !fitsStatic<OA, OB>(F, q, FUS), may = must || !ifOk(i, F, nfa, nfb);
        std::string key = std::string("ct:") + ifName(i); m.key(key); m.desc("%s%s %s %s", ifName(i), shortOut ? " short output" : "", d.c_str(), F.str().c_str()); size_t on = shortOut ? n - size_t(r.range(1, int(n))) : n; ExOut o(on); bool refused = false; try { runC<OA, OB, DfuncTraits<>>(i, F, fn, o.A, &ud, NAN); } catch (const std::exception&) { refused = true; } m.eval();
        if (refused) { m.obs("refused fixed-size requests"); m.check(may, key, "a request within the limits was refused"); } else { m.check(!must, key, "executed although%s%s%s%s", overOrder ? " the order or number of points is over the limit" : "", tooMany ? " there are too many tetrahedra" : "", shortOut ? " the output is too small" : "", !fitsStatic<OA, OB>(F, q, FUS) ? " the operators do not fit" : ""); if (on == n) { m.obs("accepted fixed-size requests"); m.check(nearly(o.d.get(), ref.d.get(), n), key, "result differs from the planned one"); } } }
    if (r.coin(1, 4)) { int w = r.range(0, 2); size_t k = r.coin() ? 1 : size_t(r.range(1, 60)), on = w == 2 ? n-1 : n; ExOut o(on); std::string msg; m.key("ct:refuse"); m.desc("planned with too little %d %s %s", w, d.c_str(), F.str().c_str()); lib::cut() = lib::Cut{w == 0 ? k : 0, w == 1 ? k : 0, 0}; Outcome oc = guarded([&] { runC<OA, OB, DfuncTraits<>>(PLAIN, F, fn, o.A, &ud, NAN); return w < 2 && nearly(o.d.get(), ref.d.get(), n); }, &msg); lib::cut() = lib::Cut(); m.eval(); m.obs(oc == REFUSED ? "refused planned requests" : "planned requests with less memory that still fit"); m.check(oc == REFUSED || (oc == DONE && w < 2), "ct:refuse", "with %s too small: %s", w == 0 ? "real memory" : w == 1 ? "integer memory" : "output", msg.c_str()); }
    // field evaluation with the first operator
    int Dm = orc::dimOp(oa, sa->dim()), f = r.range(1, 4), np = r.coin(1, 3) ? r.range(20, 60) : r.range(1, 8); vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r)); Batch B(ts); std::unique_ptr<double[]> xl(new double[4*np]), dd(new double[size_t(nfa)*f]), X(new double[3*np]); for (int i = 0; i < 4*np; ++i) xl[i] = r.sym(); for (int i = 0; i < 3*np; ++i) X[i] = ts[0].x[0][i%3] + ts[0].h*r.sym(); for (int i = 0; i < nfa*f; ++i) dd[i] = r.sym(); DenseMatrix<> dm(dd.get(), nfa, f); ArrayView<> xv(xl.get(), 4*np), dv(dd.get(), nfa); ArrayView<const double> Xv(X.get(), 3*np); size_t N = size_t(Dm)*np*f, N1 = size_t(Dm)*np; auto tt = tetra(ts[0]);
    m.key("ct:field"); m.desc("field %s.%s f=%d points %d", sa->str().c_str(), orc::opName(oa), f, np); ExOut a(N), b(N), c(N1); { PMem mem(fem3DapplyL_memory_requirements<OA>(np, f)); fem3DapplyL<OA>(B.T, xv, dm, a.A, mem.pm); } { PMem mem(fem3DapplyX_memory_requirements<OA>(np, 1)); fem3DapplyX<OA>(tt, Xv, dv, ArrayView<>(c.d.get(), N1), mem.pm); } m.eval(2); m.obs("compile-time exact-size workspaces", 2); m.check(finite(a.d.get(), N) && finite(c.d.get(), N1), "ct:field", "the result uses memory that was never written");
    { size_t U = 0, Rr = 0, I = 0; OA::template memoryRequirements<double, int>(f, np, U, Rr, I); bool must = f > 3 || np > 24 || U > size_t(9*24*30*3) || Rr > size_t(60*24*3); bool refused = false; try { fem3DapplyL<OA, 3>(B.T, xv, dm, b.A); } catch (const std::exception&) { refused = true; } m.eval(); m.key("ct:field:static"); if (refused) { m.obs("refused fixed-size requests"); m.check(must || nfa > 30, "ct:field:static", "a request within the limits was refused"); } else { m.obs("accepted fixed-size requests"); if (m.check(!must, "ct:field:static", "executed although it does not fit")) m.check(nearly(b.d.get(), a.d.get(), N), "ct:field:static", "result differs from the planned one"); } }
    { bool refused = false; size_t U = 0, Rr = 0, I = 0; OA::template memoryRequirements<double, int>(1, np, U, Rr, I); bool must = np > 24 || U > size_t(9*24*30) || Rr > size_t(60*24); ExOut o(N1); try { fem3DapplyX<OA>(tt, Xv, dv, ArrayView<>(o.d.get(), N1)); } catch (const std::exception&) { refused = true; } m.eval(); m.key("ct:field:staticX"); if (refused) { m.obs("refused fixed-size requests"); m.check(must || nfa > 30, "ct:field:staticX", "a request within the limits was refused"); } else { m.obs("accepted fixed-size requests"); if (m.check(!must, "ct:field:staticX", "executed although it does not fit")) m.check(nearly(o.d.get(), c.d.get(), N1), "ct:field:staticX", "result differs from the planned one"); } }
    if (r.coin(1, 6)) { std::string msg; size_t k = r.coin() ? 1 : size_t(r.range(1, 60)); bool x = r.coin(); ExOut o(N); lib::cut() = lib::Cut{k, 0, 0}; m.key("ct:field:refuse"); Outcome oc = guarded([&] { if (x) { PMem mem(fem3DapplyX_memory_requirements<OA>(np, 1)); fem3DapplyX<OA>(tt, Xv, dv, ArrayView<>(o.d.get(), N1), mem.pm); return nearly(o.d.get(), c.d.get(), N1); } PMem mem(fem3DapplyL_memory_requirements<OA>(np, f)); fem3DapplyL<OA>(B.T, xv, dm, o.A, mem.pm); return nearly(o.d.get(), a.d.get(), N); }, &msg); lib::cut() = lib::Cut(); m.eval(); m.obs(oc == REFUSED ? "refused planned requests" : "planned requests with less memory that still fit"); m.check(oc == REFUSED || oc == DONE, "ct:field:refuse", "with too little memory: %s", msg.c_str()); }
}
typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P3> P3_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_;
SEC(SHARD) { run_cases(m, m.cases(2*60, 2*900), [&](long c, Rng& r) { switch (c % 2) {
#if SHARD == 0
    case 0: ct<GRAD, FemVec<3, FEM_P3>, IDEN, P1_>(m, r); break; default: ct<IDEN, RT_, GRAD, P2_>(m, r);
#elif SHARD == 1
    case 0: ct<IDEN, P1_, GRAD, FemVec<3, FEM_P3>>(m, r); break; default: ct<IDEN, FemCom<P1_, FemVec<2, FEM_P2>>, IDEN, FemCom<P1_, FemVec<2, FEM_P2>>>(m, r);
#elif SHARD == 2
    case 0: ct<GRAD, P3_, GRAD, P3_>(m, r); break; default: ct<IDEN, FemVecT<3, FemCom<P3_, P0_>>, DIV, FemVec<3, FEM_P2>>(m, r);
#else
    case 0: ct<CURL, ND_, IDEN, FemVec<3, FEM_P1>>(m, r); break; default: ct<GRAD, FemVec<3, FEM_P2>, GRAD, FemVec<3, FEM_P2>>(m, r);
#endif
} }); }
#endif
