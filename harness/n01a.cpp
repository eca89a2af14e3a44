// N01 (assembly): histories of assembling operations over distributed meshes; every matrix, vector and pattern is compared with an explicit sum over all cells
#include "nasm.h"
#include <deque>
using Int = long; using Sp = MatSparsity<Int>;
static uint64_t mixh(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xBF58476D1CE4E5B9ull + c * 0x94D049BB133111EBull + d * 0xD6E8FEB86659FD93ull; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; return z ^ (z >> 32); }
// a random function of a cell: integer entries, so that every sum is exact
struct Fn { bool hasA = false, hasF = false; int tag = 0; size_t n = 0; std::vector<char> mA, mF; bool spA = false, spF = false; size_t nw = 0, niw = 0; bool dyn = false, ud = false;
    double A(long key, size_t i, size_t j) const { if (!mA[j * n + i]) return 0; uint64_t h = mixh(tag, key, i, j); return h % 5 == 0 ? 0 : double(long(h / 5 % 13)) - 6; }
    double F(long key, size_t i) const { if (!mF[i]) return 0; uint64_t h = mixh(tag + 50, key, i, 7); return h % 5 == 0 ? 0 : (h & 1024 ? 1 : -1) * double(3 + h / 5 % 7); }
    static Sp pattern(const std::vector<char>& k, size_t n, size_t q, bool sparse) { if (!sparse) return Sp::make_as_dense(n, q); std::vector<Int> col(1, 0), row; for (size_t j = 0; j < q; ++j) { for (size_t i = 0; i < n; ++i) if (k[j * n + i]) row.push_back(i); col.push_back(row.size()); } return Sp::make_as_sparse(row.size(), n, q, col, row); }
    static void mask(Rng& r, std::vector<char>& k, size_t z, bool& sparse) { k.assign(z, 1); sparse = r.coin(3, 5); if (sparse) { int den = r.range(0, 6); for (auto& x : k) x = den == 6 ? 1 : den == 0 ? 0 : r.coin(den, 6); } }
    void rand(Rng& r, size_t n_, bool a, bool f, int t) { n = n_; hasA = a; hasF = f; tag = t; if (a) mask(r, mA, n * n, spA); if (f) mask(r, mF, n, spF); nw = r.coin() ? r.range(1, 30) : 0; niw = r.coin() ? r.range(1, 30) : 0; dyn = r.coin(); ud = r.coin(); }
    std::string str() const { return fmt("%s%s%s%s%s ", hasA ? spA ? "a" : "A" : "", hasF ? spF ? "f" : "F" : "", nw ? "w" : "", niw ? "i" : "", dyn ? "d" : ""); } };
struct UD { double scale = 1; long calls[64] = {}; };
struct Step { int op; AssmOpts o; int threads; bool nan; double nanv; bool ctx; uint64_t seed; bool external; };
enum { ASM, MTX, RHS_, TPL, PREP, NOPS }; static const char* OPN[] = {"system", "matrix", "vector", "template", "prepare"};
struct Plan { Vars tr, te; bool same; int gt; bool before; bool re, pe, pf; Fn m, r, mr; int init; std::vector<Step> st; };
template<class ASMB> struct Proc {
    Mon& m; Scene& S; int k; const Plan& P; Mesh& M; ASMB& as; bool fresh; std::vector<CellV> cv; std::map<long, int> byKey; std::map<int, int> byLid; Tag all; std::vector<Tag> each; std::map<std::tuple<HandleType, int>, double> val; Tag* ptag = nullptr;
    std::vector<int> handled, called, skipped; int op = 0; const Step* st = nullptr; UD ud; std::map<long, UD> own; double initv = 0; long nanKey = -1; size_t nanRow = 0, nanCol = 0; bool nanInF = false, perm = false;
    Proc(Mon& m, Scene& S, int k, const Plan& P, ASMB& as, bool fresh) : m(m), S(S), k(k), P(P), M(*S.M[k]), as(as), fresh(fresh) {}
    bool owned(HandleType h) const { return M.el(h).owner == k; }
    bool active(const CellV& c) const { for (auto& d : P.te.loc) if (owned(c.ent(d.num, d.nelem))) return true; return false; }
    bool skip(const CellV& c) const { return st->ctx && mixh(st->seed, c.key, 1, 2) % 4 == 0; }
    bool rowEdit(const CellV& c) const { return mixh(st->seed, c.key, 3, 4) % 5 == 0; }
    size_t editedRow(const CellV& c) const { return mixh(st->seed, c.key, 5, 6) % P.tr.n(); }
    double scale(const CellV& c) const { return double(1 + mixh(st->seed, c.key, 8, 9) % 3); }
    // the local matrix and vector the library must add
    double Aij(const CellV& c, size_t i, size_t j) const { if (skip(c)) return 0; if (c.key == nanKey && !nanInF && i == nanRow && j == nanCol) return st->nanv; return scale(c) * fa->A(c.key, i, j) * (rowEdit(c) && editedRow(c) == i ? 2 : 1); }
    double Fi(const CellV& c, size_t i) const { if (skip(c)) return 0; if (c.key == nanKey && nanInF && i == nanRow) return st->nanv; return scale(c) * ff->F(c.key, i) * (rowEdit(c) && editedRow(c) == i ? 2 : 1); }
    NI nat(const CellV& c, const Vars& V, const LD& d, int& sign) const { Pos p = place(c, d); unsigned per = V.v[d.var].cnt[d.num] / V.v[d.var].ndim; sign = p.sign; return NI(Element(&M, p.h), DofT::uchar(1 << d.num), d.var, int(p.c / per), int(p.c % per)); }
    typename ASMB::AssembleMode& mode() { return as.m_assm_traits; }
    auto wrap(const Fn& f) { const Fn* F = &f; std::vector<Sp> in(4, Sp::make_as_dense(3, 1)), out; in.push_back(Sp::make_as_dense(1, 1)); if (P.init != 5) in.push_back(Sp::make_as_dense(P.tr.n(), 1)); if (f.hasA) out.push_back(Fn::pattern(f.mA, f.n, f.n, f.spA)); if (f.hasF) out.push_back(Fn::pattern(f.mF, f.n, 1, f.spF));
        auto& m = this->m; auto fn = [this, F, &m](const double** a, double** res, double* w, Int* iw, void* u, DynMem<double, Int>* d) -> int {
            long key = long(a[4][0]); auto it = byKey.find(key); if (!CK(it != byKey.end(), "function:arguments", "no cell %ld", key)) return -1; CellV& c = cv[it->second]; ++called[c.lid];
            CK((op != RHS_ && F == fa) || (op != MTX && F == ff), "function:choice", "a function of another operation is called by %s", OPN[op]); bool ok = true; for (int i = 0; i < 4; ++i) for (int q = 0; q < 3; ++q) ok = ok && a[i][q] == M.el(c.nd[i]).x[q]; CK(ok, "function:arguments", "coordinates");
            UD* x = static_cast<UD*>(u); CK(x != nullptr && (x == &ud || x->scale == scale(c)), "function:user data", "user data lost"); double sc = x && x != &ud ? x->scale : scale(c); CK((d != nullptr) == F->dyn, "function:memory", "own memory %d", int(F->dyn));
            for (size_t i = 0; i < F->nw; ++i) w[i] = double(key * 100 + long(i)); for (size_t i = 0; i < F->niw; ++i) iw[i] = key * 100 + long(i);
            if (d) { size_t z = 3 + key % 5; auto p1 = d->alloc(z, 2, 1); auto q1 = p1.getPlainMemory(); for (size_t i = 0; i < z; ++i) q1.ddata[i] = double(key) + double(i); auto p2 = d->alloc(2 * z, 0, 0); auto q2 = p2.getPlainMemory(); for (size_t i = 0; i < 2 * z; ++i) q2.ddata[i] = -1; ok = q1.dSize >= z && q2.dSize >= 2 * z; for (size_t i = 0; i < z; ++i) ok = ok && q1.ddata[i] == double(key) + double(i); CK(ok, "function:memory", "own memory overwritten"); }
            int o = 0; if (F->hasA) { double* R = res[o++]; for (size_t j = 0; j < F->n; ++j) for (size_t i = 0; i < F->n; ++i) if (F->mA[j * F->n + i]) *R++ = c.key == nanKey && !nanInF && i == nanRow && j == nanCol ? st->nanv : sc * F->A(key, i, j); }
            if (F->hasF) { double* R = res[o]; for (size_t i = 0; i < F->n; ++i) if (F->mF[i]) *R++ = c.key == nanKey && nanInF && i == nanRow ? st->nanv : sc * F->F(key, i); }
            ok = true; for (size_t i = 0; i < F->nw; ++i) ok = ok && w[i] == double(key * 100 + long(i)); for (size_t i = 0; i < F->niw; ++i) ok = ok && iw[i] == key * 100 + long(i); CK(ok, "function:work", "work arrays overwritten");
            if (P.init != 5) for (size_t i = 0; i < P.tr.n(); ++i) if (!CK(a[5][i] == expectInit(c, i), "function:initial values", "value %zu: %g instead of %g", i, a[5][i], expectInit(c, i))) break;
            return 0; };
        return MatFuncWrapDynamic<ASMB_PT, double, Int>(fn, in, out, f.nw, f.niw, f.ud, f.dyn); }
    typedef decltype(ASMB::mat_func) ASMB_MF;
    static constexpr ThreadPar::Type ASMB_PT = decltype(ASMB::mat_func)::parallel_type;
    double expectInit(const CellV& c, size_t i) const { if (P.init == 0 || P.init == 5) return 0; if (P.init == 1) return initv; auto& d = P.tr.loc[i]; Pos p = place(c, d); return p.sign * val.at({p.h, int(P.tr.at.at({d.var, d.num, int(p.c)})[0])}); }
    void handler(ElementalAssembler& p) {
        int lid = p.cell->LocalID(); auto it = byLid.find(lid); if (!CK(it != byLid.end(), "cells", "cell %d is not a cell of the mesh", lid)) return; CellV& c = cv[it->second]; ++handled[lid]; auto& m = this->m;
        CK(p.cell->GetHandle() == c.h && std::equal(c.nd, c.nd + 4, p.nodes->data()), "nodes", "nodes of cell %d", lid); bool ef = P.pe || P.pf || P.tr.has(1) || P.tr.has(2); if (ef) CK(std::equal(c.ed, c.ed + 6, p.edges->data()) && std::equal(c.fc, c.fc + 4, p.faces->data()), "edges and faces", "edges or faces of cell %d", lid);
        if (perm) { bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && p.node_permutation[i] == c.lab[i]; CK(ok, "permutation", "order of the nodes of cell %d", lid); }
        bool ok = true; for (int i = 0; i < 4; ++i) for (int q = 0; q < 3; ++q) ok = ok && p.get_nodes()[3 * i + q] == M.el(c.nd[i]).x[q]; CK(ok, "coordinates", "coordinates of the nodes of cell %d", lid);
        CK(p.f_type == (op == ASM ? ElementalAssembler::MAT_RHS : op == MTX ? ElementalAssembler::MAT : ElementalAssembler::RHS) && p.m == &M && p.vars->NumVars() == int(P.tr.v.size()), "description", "description of the operation");
        for (size_t i = 0; i < P.tr.n(); ++i) if (!CK(p.vars->initValues.size() == P.tr.n() && p.vars->initValues[i] == expectInit(c, i), "initial values", "initial value %zu of cell %d: %g instead of %g", i, lid, p.vars->initValues[i], expectInit(c, i))) break;
        for (size_t q = 0; q < P.tr.v.size(); ++q) CK(p.vars->begin(int(q)) == p.vars->initValues.data() + P.tr.beg[q] && p.vars->end(int(q)) == p.vars->initValues.data() + P.tr.beg[q + 1], "initial values", "range of variable %zu", q);
        { std::vector<double> g(P.tr.n(), 99); if (c.key % 2) ElementalAssembler::GatherDataOnElement(all, p, g.begin(), nullptr, 0); else ElementalAssembler::GatherDataOnElement(each, p, g.begin(), nullptr, 0); for (size_t i = 0; i < g.size(); ++i) { auto& d = P.tr.loc[i]; Pos q = place(c, d); double want = q.sign * val.at({q.h, int(P.tr.at.at({d.var, d.num, int(q.c)})[0])}); if (!CK(g[i] == want, "gather", "value %zu of cell %d: %g instead of %g", i, lid, g[i], want)) break; } }
        { auto mem = p.pool->alloc(5 + c.key % 7, 3, 0); auto q = mem.getPlainMemory(); for (size_t i = 0; i < 5; ++i) q.ddata[i] = double(c.key); }
        if (skip(c)) { ++skipped[lid]; return; }
        double key = double(c.key); const double* a[6] = {p.get_nodes(), p.get_nodes() + 3, p.get_nodes() + 6, p.get_nodes() + 9, &key, p.vars->initValues.data()};
        UD loc; loc.scale = scale(c); int times = 1 + (c.key % 3 == 0); for (int t = 0; t < times; ++t) { if (c.key % 2) p.compute(a, &loc); else p.compute(a); }
        size_t n = P.tr.n(); auto eq = [](double x, double y) { return x == y || (x != x && y != y); };
        if (op != RHS_) { bool good = true; for (size_t j = 0; j < n && good; ++j) for (size_t i = 0; i < n && good; ++i) { double want = c.key == nanKey && !nanInF && i == nanRow && j == nanCol ? st->nanv : loc.scale * fa->A(c.key, i, j); good = CK(eq(p.loc_m.m_dat[j * n + i], want), "local matrix", "entry (%zu,%zu): %g instead of %g", i, j, p.loc_m.m_dat[j * n + i], want) && CK((*p.loc_mb)[j * n + i] == bool(fa->mA[j * n + i]), "local pattern", "entry (%zu,%zu)", i, j); } }
        if (op != MTX) for (size_t i = 0; i < n; ++i) { double want = c.key == nanKey && nanInF && i == nanRow ? st->nanv : loc.scale * ff->F(c.key, i); if (!CK(eq(p.loc_rhs.m_dat[i], want), "local vector", "entry %zu: %g instead of %g", i, p.loc_rhs.m_dat[i], want)) break; }
        if (rowEdit(c)) { size_t i = editedRow(c); if (op != RHS_) for (size_t j = 0; j < n; ++j) if (fa->mA[j * n + i]) p.loc_m.m_dat[j * n + i] *= 2; if (op != MTX) p.loc_rhs.m_dat[i] *= 2; } }
    void prepare(Rng& r, bool first) {
        if (first) { as.SetMesh(M); FemExprDescr D; for (size_t q = 0; q < P.tr.v.size(); ++q) D.PushTrialFunc(DofMap(make(*P.tr.v[q].mod, r)), "u" + std::to_string(q)); for (size_t q = 0; q < P.te.v.size(); ++q) D.PushTestFunc(DofMap(make(*P.te.v[q].mod, r)), "v" + std::to_string(q));
            if (P.gt >= 0) as.SetEnumerator(GlobEnumeration(GlobEnumeration::ASSEMBLING_TYPE(P.gt))); else if (!fresh) as.SetEnumerator(GlobEnumeration()); if (P.before) { as.GetEnumerator().setMesh(&M); as.GetEnumerator().setVars(D.TrialFuncs()); as.GetEnumerator().setup(); } as.SetProbDescr(D);
            as.SetDataGatherer([this](ElementalAssembler& p) { handler(p); }); if (P.m.hasA) as.SetMatFunc(wrap(P.m)); else if (!fresh) as.SetMatFunc(ASMB_MF()); if (P.r.hasF) as.SetRHSFunc(wrap(P.r)); else if (!fresh) as.SetRHSFunc(ASMB_MF()); if (P.mr.hasA) as.SetMatRHSFunc(wrap(P.mr)); else if (!fresh) as.SetMatRHSFunc(ASMB_MF());
            initv = 1.5; if (!fresh && P.init % 5 == 0) as.SetInitValueSetter(ASMB::makeInitValueSetter(0.)); if (P.init == 1) as.SetInitValueSetter(ASMB::makeInitValueSetter(initv)); }
        as.m_assm_traits.reorder_nodes = P.re; as.m_assm_traits.prepare_edges = P.pe; as.m_assm_traits.prepare_faces = P.pf;
        as.PrepareProblem();
        if (first) { data(m, M, P.tr, r, all, each, val); if (P.init == 2) as.pullInitValFrom(all); if (P.init == 3) { ptag = &all; as.pullInitValFrom(ptag); } if (P.init == 4) as.pullInitValFrom(each);
            cv = cellViews(M, S.g, P.re); for (size_t i = 0; i < cv.size(); ++i) { byKey[cv[i].key] = int(i); byLid[cv[i].lid] = int(i); } auto z = M.e[3].size(); handled.assign(z, 0); called.assign(z, 0); skipped.assign(z, 0); perm = false; for (auto* V : {&P.tr, &P.te}) for (auto& d : V->loc) if (pat(d.num, d.stype).size() > 1 || d.num == 2 || d.num == 4) perm = true; } }
    typedef std::map<long, std::map<long, double>> Mx;
    Mx A; std::map<long, double> b; bool haveA = false; bool templ = false;
    void reset(Sparse::Matrix& X, Sparse::Vector& y) { X = Sparse::Matrix(); y = Sparse::Vector(); A.clear(); b.clear(); haveA = false; templ = false; }
    void run(Rng& r) { auto& m = this->m; prepare(r, true); long B = as.getBegInd(), E = as.getEndInd(); Sparse::Matrix X; Sparse::Vector y; size_t n = P.tr.n();
        std::map<long, std::vector<std::pair<long, int>>> rows, cols; for (auto& c : cv) { for (auto& d : P.te.loc) { int s; auto N = nat(c, P.te, d, s); rows[c.key].push_back({owned(place(c, d).h) ? as.GetEnumerator().OrderR(N).id : -1, s}); } for (auto& d : P.tr.loc) { int s; auto N = nat(c, P.tr, d, s); cols[c.key].push_back({as.GetEnumerator().OrderC(N).id, s}); } }
        for (auto& S0 : P.st) { Step s = S0; st = &s; op = s.op; auto& o = s.o; as.m_assm_traits.num_threads = s.threads; nanKey = -1;
            if (op == PREP) { prepare(r, false); continue; }
            bool canA = P.m.hasA || P.mr.hasA, canF = P.r.hasF || P.mr.hasF, can = op == ASM ? P.mr.hasA || (P.m.hasA && P.r.hasF) : op == RHS_ ? canF : canA; const char* nm = OPN[op]; m.key(nm); int ret = 0;
            if (!can) { bool thrown = false; try { if (op == ASM) as.Assemble(X, y, o); else if (op == MTX) as.AssembleMatrix(X, o); else if (op == RHS_) as.AssembleRHS(y, o); else as.AssembleTemplate(X); } catch (std::runtime_error&) { thrown = true; } CK(thrown, fmt("%s:unavailable", nm), "no exception without a function"); continue; }
            const Fn& fA = op == ASM ? (P.mr.hasA ? P.mr : P.m) : (P.m.hasA ? P.m : P.mr); const Fn& fF = op == ASM ? (P.mr.hasA ? P.mr : P.r) : (P.r.hasF ? P.r : P.mr);
            fa = &fA; ff = &fF;
            if (s.external && op != RHS_ && haveA) for (long i = B; i < E; ++i) if (r.coin(1, 3)) { auto& R = X[i]; long j = r.coin() && R.Size() ? long(R.GetIndex(r.range(0, int(R.Size()) - 1))) : r.range(0, int(as.GetEnumerator().getMatrixSize()) - 1); double v = r.range(-3, 3); R[j] += v; A[i][j] += v; }
            // truthful options
            if (o.is_mtx_sorted) for (long i = B; haveA && i < E; ++i) { auto& R = X[i]; for (size_t q = 1; q < R.Size(); ++q) if (R.GetIndex(q - 1) >= R.GetIndex(q)) o.is_mtx_sorted = false; }
            std::set<std::pair<long, long>> posn; bool any = false; std::vector<std::tuple<long, size_t, size_t, bool>> cand;
            for (auto& c : cv) { bool act = false; for (auto& q : rows[c.key]) act = act || q.first >= 0; if (!act) continue; any = true; if (op != RHS_) for (size_t i = 0; i < n; ++i) if (rows[c.key][i].first >= 0) for (size_t j = 0; j < n; ++j) if (fA.mA[j * n + i]) { posn.insert({rows[c.key][i].first, cols[c.key][j].first}); if (s.nan && !skip(c)) cand.push_back(std::make_tuple(c.key, i, j, false)); }
                if (op == RHS_ || op == ASM) for (size_t i = 0; i < n; ++i) if (rows[c.key][i].first >= 0 && fF.mF[i] && s.nan && !skip(c)) cand.push_back(std::make_tuple(c.key, i, size_t(0), true)); }
            if (o.is_mtx_include_template) { for (auto& q : posn) if (!haveA || !A.count(q.first) || !A[q.first].count(q.second)) o.is_mtx_include_template = false; }
            if (s.nan && op != TPL && !cand.empty()) { auto c = cand[r.range(0, int(cand.size()) - 1)]; nanKey = std::get<0>(c); nanRow = std::get<1>(c); nanCol = std::get<2>(c); nanInF = std::get<3>(c); }
            std::fill(handled.begin(), handled.end(), 0); std::fill(called.begin(), called.end(), 0); std::fill(skipped.begin(), skipped.end(), 0); o.user_data = &ud; ud.scale = -77;
            if (op == ASM) ret = as.Assemble(X, y, o); else if (op == MTX) ret = as.AssembleMatrix(X, o); else if (op == RHS_) ret = as.AssembleRHS(y, o); else ret = as.AssembleTemplate(X);
            m.obs("operations", 1); if (s.threads > 1) m.obs("operations_by_several_threads", 1);
            CK(ret == (nanKey >= 0 ? -1 : 0), fmt("%s:status", nm), "status %d instead of %d", ret, nanKey >= 0 ? -1 : 0); if (nanKey >= 0) { reset(X, y); continue; }
            int nf = op == ASM && &fA == &P.m ? 2 : 1; for (auto& c : cv) { bool act = false; for (auto& q : rows[c.key]) act = act || q.first >= 0; int want = act && op != TPL ? 1 : 0; if (!CK(handled[c.lid] == want, fmt("%s:cells", nm), "cell %d (%s) is processed %d times", c.lid, act ? "active" : "without rows of this process", handled[c.lid])) break; int times = want && !skip(c) ? nf * (1 + (c.key % 3 == 0)) : 0; if (!CK(called[c.lid] == times, fmt("%s:calls", nm), "function of cell %d is called %d times instead of %d", c.lid, called[c.lid], times)) break; }
            // the model
            if (op != RHS_) { haveA = true; if (op == TPL || !o.is_mtx_include_template) for (long i = B; i < E; ++i) A[i][i]; }
            for (auto& c : cv) { auto& R = rows[c.key]; auto& C = cols[c.key]; for (size_t i = 0; i < n; ++i) if (R[i].first >= 0) { if (op == ASM || op == MTX) { for (size_t j = 0; j < n; ++j) if (fA.mA[j * n + i]) { double v = Aij(c, i, j); if (std::fabs(v) > o.drop_val) A[R[i].first][C[j].first] += R[i].second * C[j].second * v; } } if (op == TPL) for (size_t j = 0; j < n; ++j) if (fA.mA[j * n + i]) A[R[i].first][C[j].first]; if (op == ASM || op == RHS_) { b[R[i].first] += R[i].second * Fi(c, i); } } }
            if (op != RHS_) { CK(long(X.GetFirstIndex()) == B && long(X.GetLastIndex()) == E, fmt("%s:interval", nm), "rows [%u,%u) instead of [%ld,%ld)", X.GetFirstIndex(), X.GetLastIndex(), B, E);
                for (long i = B; i < E; ++i) { auto& R = X[i]; auto& W = A[i]; std::map<long, double> got; bool ok = true; for (size_t q = 0; q < R.Size() && ok; ++q) { ok = ok && CK(got.emplace(long(R.GetIndex(q)), R.GetValue(q)).second, fmt("%s:twice", nm), "row %ld has column %u twice", i, R.GetIndex(q)); if ((op == TPL || o.use_ordered_insert) && q) ok = ok && CK(R.GetIndex(q - 1) < R.GetIndex(q), fmt("%s:sorted", nm), "row %ld is not sorted", i); }
                    for (auto& q : W) { auto f = got.find(q.first); ok = ok && CK((f == got.end() ? 0. : f->second) == q.second, fmt("%s:values", nm), "entry (%ld,%ld): %g instead of %g (%s)", i, q.first, f == got.end() ? 0. : f->second, q.second, fA.str().c_str()); if (op == TPL) ok = ok && CK(f != got.end(), "template:missing", "position (%ld,%ld) is missing", i, q.first); if (!ok) break; }
                    for (auto& q : got) { ok = ok && CK(W.count(q.first) || posn.count({i, q.first}), fmt("%s:extra", nm), "entry (%ld,%ld) = %g is not in the pattern", i, q.first, q.second); if (!ok) break; W[q.first] = q.second; }
                    for (auto it = W.begin(); it != W.end();) if (!got.count(it->first)) it = W.erase(it); else ++it;
                    if (op == TPL || !o.is_mtx_include_template) ok = ok && CK(got.count(i), fmt("%s:diagonal", nm), "no diagonal entry in row %ld", i); if (!ok) break; } m.obs("matrix_rows", E - B); }
            if (op == ASM || op == RHS_) { CK(long(y.GetFirstIndex()) == B && long(y.GetLastIndex()) == E, fmt("%s:interval", nm), "vector [%u,%u)", y.GetFirstIndex(), y.GetLastIndex()); for (long i = B; i < E; ++i) if (!CK(y[i] == b[i], fmt("%s:vector", nm), "row %ld: %g instead of %g (%s)", i, double(y[i]), b[i], fF.str().c_str())) break; }
            for (double t : {as.GetTimeInitAssembleData(), as.GetTimeFillMapTemplate(), as.GetTimeInitValSet(), as.GetTimeInitUserHandler(), as.GetTimeEvalLocFunc(), as.GetTimePostProcUserHandler(), as.GetTimeFillGlobalStructs(), as.GetTimeTotal()}) CK(t >= 0, "timers", "negative time %g", t); }
        // values on a cell
        for (auto& c : cv) { std::vector<double> g(n, 99); INMOST::Cell cell(&M, c.h); if (c.key % 2) as.GatherDataOnElement(all, cell, g.begin()); else as.GatherDataOnElement(each, cell, g.begin()); bool ok = true; CellV d0 = P.re ? c : cellView(M, c.lid, S.g, true, [&](HandleType h) { return M.el(h).gid; });
            for (size_t i = 0; i < n && ok; ++i) { auto& d = P.tr.loc[i]; Pos q = place(d0, d); double want = q.sign * val.at({q.h, int(P.tr.at.at({d.var, d.num, int(q.c)})[0])}); ok = CK(g[i] == want, "gather:assembler", "value %zu of cell %d: %g instead of %g", i, c.lid, g[i], want); }
            int var = int(c.key % long(P.tr.v.size())); size_t z = P.tr.beg[var + 1] - P.tr.beg[var]; std::vector<double> o(z, 99); as.GatherDataOnElement(all, cell, o.begin(), {var}); for (size_t i = 0; i < z && ok; ++i) ok = CK(o[i] == g[P.tr.beg[var] + i], "gather:assembler", "value %zu of variable %d", i, var); }
        // the vector of unknowns through a tag and back
        Sparse::Vector x("x"), x2("y"); x.SetInterval(B, E); x2.SetInterval(B, E); for (long i = B; i < E; ++i) x[i] = double(i) + 0.5; unsigned mx = 1; for (int d = 0; d < 4; ++d) mx = std::max(mx, unsigned(P.tr.on[d].size())); Tag t = M.CreateTag("sol", DATA_REAL, 15, NONE, mx); as.SaveSolution(x, t); as.SaveSolution(t, x2); for (long i = B; i < E; ++i) if (!CK(x2[i] == x[i], "solution", "unknown %ld: %g", i, double(x2[i]))) break;
        for (auto& c : cv) for (size_t i = 0; i < n; ++i) { auto& d = P.tr.loc[i]; Pos q = place(c, d); double got = Element(&M, q.h).RealArray(t)[P.tr.at.at({d.var, d.num, int(q.c)})[0]]; if (!CK(got == double(cols[c.key][i].first) + 0.5, "solution", "unknown %zu of cell %d: %g instead of %g", i, c.lid, got, double(cols[c.key][i].first) + 0.5)) break; }
        M.DeleteTag(t); M.DeleteTag(all); for (auto& x : each) M.DeleteTag(x); m.obs("unknowns", E - B); }
    const Fn *fa = nullptr, *ff = nullptr;
};
static Plan randPlan(Rng& r, int maxThreads) {
    Plan P; P.tr = randVars(r, r.coin(1, 4) ? 60 : 24); P.te = P.tr; P.same = r.coin(2, 3); if (!P.same) { for (auto& x : P.te.v) x.mod = regroup(*x.mod, r); P.te.finish(); }
    P.gt = r.range(-1, 5); P.before = r.coin(1, 4); P.re = !r.coin(1, 4); P.pe = r.coin(); P.pf = r.coin(); P.init = r.range(0, 5); size_t n = P.tr.n();
    static const int C[7] = {4, 3, 7, 1, 2, 5, 6}; int c = C[r.range(0, 6)]; if (c & 1) P.m.rand(r, n, true, false, 1); if (c & 2) P.r.rand(r, n, false, true, 2); if (c & 4) P.mr.rand(r, n, true, true, 3); uint64_t t = r.next() % 1000; for (auto* f : {&P.m, &P.r, &P.mr}) f->tag += int(t) * 4;
    int k = r.range(2, 9); while (k--) { Step s; s.op = r.coin(1, 12) ? PREP : r.range(0, 3); s.o = AssmOpts(nullptr, std::vector<double>{1e-100, 0, 2.5}[r.range(0, 2)]); if (r.coin()) s.o.SetUseOrderedInsert(true); if (r.coin()) s.o.SetIsMtxSorted(true); if (r.coin()) s.o.SetIsMtxIncludeTemplate(true); s.threads = r.range(1, maxThreads); s.nan = r.coin(1, 15); s.nanv = r.coin() ? std::numeric_limits<double>::quiet_NaN() : r.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); s.ctx = r.coin(1, 3); s.seed = r.next(); s.external = r.coin(1, 4); P.st.push_back(s); }
    return P; }
// one assembler serves one or two problems: cleared between them, on another mesh, or everything set anew
template<class ASMB> static void history(Mon& m, Rng& r, long cs, int np, int threads) {
    std::deque<Plan> P; std::deque<Scene> S; int again = r.coin(1, 3) ? r.range(1, 3) : 0; P.push_back(randPlan(r, threads)); S.emplace_back(r, np, r.coin(1, 4) ? 14 : 7); if (again) P.push_back(randPlan(r, threads)); if (again == 2) S.emplace_back(r, np, 7); std::string ops, id; static const char* HOW[4] = {"", "cleared", "another mesh", "set anew"};
    for (auto& p : P) { ops += ops.empty() ? "" : fmt("|| %s: ", HOW[again]); ops += fmt("trial %s, test %s, numbering %d, functions %s| %s| %s, init %d, reorder %d, ", p.tr.str().c_str(), p.same ? "same" : p.te.str().c_str(), p.gt, p.m.hasA ? p.m.str().c_str() : "", p.r.hasF ? p.r.str().c_str() : "", p.mr.hasA ? p.mr.str().c_str() : "", p.init, int(p.re)); for (auto& s : p.st) ops += fmt("%s/%d%s ", OPN[s.op], s.threads, s.nan ? "!" : ""); }
    m.desc("%zu cells, %d processes, %s", S[0].g.T.size(), np, ops.c_str()); m.distinct(fmt("%d %s", np, ops.c_str())); if (cs < 3) m.sample(m.cur_desc); m.key("assembly"); m.eval(); m.obs("processes", np); m.obs("reused_assemblers", again != 0);
    std::vector<uint64_t> seed; for (int k = 0; k < np; ++k) seed.push_back(r.next());
    parallel(S[0].w, [&](int k) { Rng q(seed[k]); ASMB as; { Proc<ASMB> p(m, S[0], k, P[0], as, true); p.run(q); if (again) { if (again == 1) as.Clear(); Proc<ASMB> p2(m, S.back(), k, P[1], as, again == 1); p2.run(q); } } as.Clear(); }); m.checks += NCK.exchange(0); }
#ifndef THREADS_ONLY
SECTION(history) { run_cases(m, m.cases(1500, 40000), [&](long c, Rng& r) { history<Assembler>(m, r, c, r.coin(1, 3) ? 1 : r.range(2, 4), 1); }); }
SECTION(threads) { run_cases(m, m.cases(600, 20000), [&](long c, Rng& r) { history<AssemblerP>(m, r, c, r.coin(2, 3) ? 1 : r.range(2, 3), 4); }); }
#elif defined(_OPENMP)
SECTION(openmp) { run_cases(m, m.cases(600, 10000), [&](long c, Rng& r) { history<AssemblerP>(m, r, c, r.coin() ? 1 : r.range(2, 3), 4); }); }
#else
SECTION(race) { run_cases(m, m.cases(600, 10000), [&](long c, Rng& r) { history<AssemblerP>(m, r, c, 1, 4); }); }
#endif
