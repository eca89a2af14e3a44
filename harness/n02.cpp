// N02: global numbering of degrees of freedom over meshes distributed between processes. The mesh library is replaced by a stand-in;
// every number is compared with an explicit list of all degrees of freedom sorted by the documented order.
#include "dofmodel.h"
#include "imesh.h"
#include "anifem++/inmost_interface/global_enumerator.cpp"
using namespace dm; using namespace im; namespace Sparse = INMOST::Sparse; using INMOST::DATA_REAL; using INMOST::NONE;
using EI = IGlobEnumeration::EnumerateIndex; using NI = IGlobEnumeration::NaturalIndex; using Iso = IGlobEnumeration::IsoElementIndex;
static std::string fmtv(const char* f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
struct V { P mod; bool vec; int ndim; std::array<unsigned, 6> cnt; };
struct Rec { int num, var, dim, k; unsigned pos, vpos; };                     // degree of freedom of one entity: kind, variable, component, number; positions on the entity
struct Dof { HandleType h; long gid; int d; Rec q; long ln; };   // gid: global number of the entity, ln: its number among the entities of the process
struct Ctx { std::vector<V> v; FemVarContainer vars; std::array<std::vector<Rec>, 4> on; };   // on[d]: all degrees of freedom of an entity of dimension d in order of position
static Ctx randVars(Rng& r, bool wide = false) {
    Ctx c; int nv = wide ? r.range(1, 2) : r.coin(1, 3) ? 1 : r.range(2, 4);
    for (int i = 0; i < nv; ++i) { V v; for (;;) { v.mod = randNode(r, r.range(0, 2)); if (v.mod->total() > 0 && v.mod->total() < 220) break; }
        if (wide && i == 0) { std::array<unsigned, 6> cn{}; int q = r.range(0, 1) ? 1 : 3; cn[q] = unsigned(r.range(1, 3)); cn[q + 1] = 1; if (r.coin()) cn[0] = 1; v.mod = mkVec(260 / int(cn[q]) + r.range(0, 30), mkCnt(cn)); }
        v.vec = v.mod->k == Node::Vec; v.ndim = v.vec ? v.mod->dim : 1; v.cnt = v.mod->counts(); c.v.push_back(v);
        if (r.coin()) c.vars.PushVar(r.coin() ? makeOps(*v.mod, r).m_invoker->ActualType() == make(*v.mod, r)->ActualType() ? DofMap(make(*v.mod, r)) : DofMap(make(*v.mod, r)) : DofMap(make(*v.mod, r)), "u" + std::to_string(i)); else c.vars.PushBack(make(*v.mod, r)); }
    for (int d = 0; d < 4; ++d) { unsigned pos = 0; std::vector<unsigned> vp(nv, 0);
        for (int n = 0; n < 6; ++n) if (DIMOF[n] == d) for (int v = 0; v < nv; ++v) for (int dim = 0; dim < c.v[v].ndim; ++dim) for (int k = 0; k < int(c.v[v].cnt[n]) / c.v[v].ndim; ++k) c.on[d].push_back({n, v, dim, k, pos++, vp[v]++}); }
    return c;
}
static std::string str(const Ctx& c) { std::string s; for (auto& v : c.v) s += v.mod->str() + " "; return s; }
static NI nat(Mesh* m, HandleType h, const Rec& q) { return NI(Element(m, h), DofT::uchar(1 << q.num), q.var, q.dim, q.k); }
static std::string sn(const NI& n) { return fmtv("(kind %d, entity %d/%d, var %d, dim %d, dof %d)", n.elem_type, HandleNum(n.elem.GetHandle()), HandleID(n.elem.GetHandle()), n.var_id, n.dim_id, n.dim_elem_dof_id); }
static bool same(const NI& a, const NI& b) { return a.elem.GetHandle() == b.elem.GetHandle() && a.elem_type == b.elem_type && a.var_id == b.var_id && a.dim_id == b.dim_id && a.dim_elem_dof_id == b.dim_elem_dof_id; }
static std::mutex MX;   // the oracle's counters are shared by the processes
struct Shared { std::vector<std::vector<long>> beg, end; std::vector<std::map<std::pair<int, long>, std::vector<long>>> tab; explicit Shared(int n) : beg(n), end(n), tab(n) {} };
enum Kind { SIMPLE_A, SIMPLE_M, ORDERED, GLOB };
struct Spec { int kind; std::array<unsigned char, 5> ord; bool rev; int gt; };
static Spec randSpec(Rng& r) { Spec s; s.kind = r.range(0, 4); if (s.kind == 4) s.kind = ORDERED; std::vector<unsigned char> o = {0, 1, 2, 3, 4}; r.shuffle(o); std::copy(o.begin(), o.end(), s.ord.begin()); s.rev = r.coin(1, 3); s.gt = r.range(0, 5); return s; }
static std::string str(const Spec& s) { std::string o; for (int x : s.ord) o += "VDTEK"[x]; return s.kind == SIMPLE_A ? "anitype" : s.kind == SIMPLE_M ? "miniblocks" : s.kind == ORDERED ? "ordered-" + o + (s.rev ? "-rev" : "") : "glob" + std::to_string(s.gt); }
static std::string keyOf(const Spec& s) { return s.kind == SIMPLE_A ? "anitype" : s.kind == SIMPLE_M ? "miniblocks" : s.kind == ORDERED ? (s.rev ? "reversed" : "ordered") : "glob"; }
// documented order: the fields of the key from the most significant
static std::array<long, 5> okey(const Spec& s, const Dof& x) {
    Spec t = s; if (s.kind == GLOB) { static const std::array<unsigned char, 5> W[6] = {{}, {}, {0,1,2,3,4}, {0,2,3,4,1}, {2,0,1,3,4}, {2,0,3,4,1}}; if (s.gt == 0) t.kind = SIMPLE_A; else if (s.gt == 1) t.kind = SIMPLE_M; else { t.kind = ORDERED; t.ord = W[s.gt]; t.rev = false; } }
    if (t.kind == SIMPLE_A) return {x.d, long(x.q.pos), x.ln, 0, 0};
    if (t.kind == SIMPLE_M) return {x.d, x.ln, long(x.q.pos), 0, 0};
    long f[5] = {x.q.var, x.q.dim, x.q.num, x.ln, x.q.k}; std::array<long, 5> k; for (int i = 0; i < 5; ++i) k[i] = f[t.ord[i]]; return k;
}
struct Proc { std::shared_ptr<IGlobEnumeration> e; };
static std::shared_ptr<IGlobEnumeration> makeEnum(const Spec& s, Mesh* m, const FemVarContainer& vars, const std::string& prefix, bool noprefix) {
    if (s.kind == SIMPLE_A || s.kind == SIMPLE_M) { auto e = std::make_shared<SimpleEnumerator>(s.kind == SIMPLE_A ? SimpleEnumerator::ANITYPE : SimpleEnumerator::MINIBLOCKS); e->setMesh(m).setVars(vars); if (noprefix) e->setup(); else e->setup(prefix); return e; }
    if (s.kind == ORDERED) { if (noprefix) return std::make_shared<OrderedEnumerator>(m, vars, s.ord, s.rev); return std::make_shared<OrderedEnumerator>(prefix, m, vars, s.ord, s.rev); }
    auto e = std::make_shared<GlobEnumeration>(GlobEnumeration::ASSEMBLING_TYPE(s.gt)); e->setMesh(m).setVars(vars); e->setup(); return e;
}
static void owned(Mesh* m, const Ctx& c, std::vector<Dof>& L, bool ghosts = false) { for (int d = 0; d < 4; ++d) if (!c.on[d].empty()) for (int l = 0; l < int(m->e[d].size()); ++l) { auto& x = m->e[d][l]; if (!x.alive || (x.owner != m->rank) != ghosts) continue; for (auto& q : c.on[d]) L.push_back({ComposeHandle(d, l), x.gid, d, q, 0}); }
    std::array<long, 4> b; b.fill(LONG_MAX); for (auto& x : L) b[x.d] = std::min(b[x.d], x.gid); for (auto& x : L) x.ln = x.gid - b[x.d]; }
#define CK(ok, key, ...) ([&] { bool o_ = (ok); std::lock_guard<std::mutex> g_(MX); return m.check(o_, key, __VA_ARGS__); }())
static void numbers(Mon& m, const Ctx& c, const Spec& s, Mesh* M, const IGlobEnumeration& e, Shared& S, World& w) {
    std::string K = keyOf(s); int rk = M->rank; long total = 0; for (int d = 0; d < 4; ++d) total += M->total[d] * long(c.on[d].size());
    std::vector<Dof> L; owned(M, c, L);
    CK(e.getMatrixSize() == total && bool(e), K + ":size", "%s: matrix size %ld, %ld degrees of freedom", str(s).c_str(), e.getMatrixSize(), total);
    long B = e.getBegInd(), E = e.getEndInd(); S.beg[rk] = {B}; S.end[rk] = {E};
    CK(E - B == long(L.size()) && B >= 0 && E <= total, K + ":interval", "%s: process %d has [%ld,%ld), owns %zu of %ld", str(s).c_str(), rk, B, E, L.size(), total);
    Spec t = s; bool rev = s.kind == ORDERED && s.rev;
    std::sort(L.begin(), L.end(), [&](const Dof& a, const Dof& b) { return okey(t, a) < okey(t, b); });
    if (rev) std::reverse(L.begin(), L.end());
    auto& T = S.tab[rk];
    for (size_t i = 0; i < L.size(); ++i) { auto& x = L[i]; NI n = nat(M, x.h, x.q); long want = B + long(i);
        long a = e(n).id, b = e.OrderC(n).id, r = e.OrderR(n).id;
        if (!CK(a == want && b == want && r == want, K + ":order", "%s: process %d %s global number %ld: index %ld, column %ld, row %ld instead of %ld", str(s).c_str(), rk, sn(n).c_str(), x.gid, a, b, r, want)) break;
        auto& v = T[{x.d, M->el(x.h).key}]; v.resize(c.on[x.d].size(), -7); v[x.q.pos] = want; }
    for (size_t i = 0; i < L.size(); ++i) { auto& x = L[i]; NI n = nat(M, x.h, x.q); NI back = e(EI(B + long(i)));
        if (!CK(same(back, n) && back == n, K + ":inverse", "%s: process %d index %ld: %s instead of %s", str(s).c_str(), rk, B + long(i), sn(back).c_str(), sn(n).c_str())) break; }
    w.barrier();
    std::vector<Dof> G; owned(M, c, G, true);
    for (auto& x : G) { auto& el = M->el(x.h); NI n = nat(M, x.h, x.q); auto& v = S.tab[el.owner].at({x.d, el.key}); long a = e.OrderC(n).id;
        if (!CK(a == v.at(x.q.pos), K + ":ghost", "%s: process %d ghost %s: column %ld, its owner %d numbers it %ld", str(s).c_str(), rk, sn(n).c_str(), a, el.owner, v.at(x.q.pos))) break; }
    for (int l = 0; l < int(M->e[0].size()); ++l) if (M->e[0][l].alive && M->haveg[0]) CK(e.GNodeIndex(INMOST::Node(M, ComposeHandle(0, l))) == M->e[0][l].gid, K + ":node", "node %d", l);
    w.barrier();
    if (rk == 0) { long at = 0; for (int k = 0; k < w.n; ++k) { CK(S.beg[k][0] == at, K + ":partition", "%s: process %d starts at %ld, %ld expected", str(s).c_str(), k, S.beg[k][0], at); at = S.end[k][0]; } CK(at == total, K + ":partition", "%s: the last process ends at %ld of %ld", str(s).c_str(), at, total); }
    { std::lock_guard<std::mutex> g(MX); m.obs("owned_numbers", long(L.size())); m.obs("ghost_numbers", long(G.size())); }
    w.barrier();
}
static void indices(Mon& m, const Ctx& c, Mesh* M, const IGlobEnumeration& e) {
    for (int d = 0; d < 4; ++d) { int l = 0; while (l < int(M->e[d].size()) && !M->e[d][l].alive) ++l; if (l == int(M->e[d].size())) continue; HandleType h = ComposeHandle(d, l); Element el(M, h);
        for (auto& q : c.on[d]) { NI n = nat(M, h, q); unsigned vs = 0, ts = 0, sh = q.dim * (c.v[q.var].cnt[q.num] / c.v[q.var].ndim), vb = 0; if (q.num == 2 || q.num == 4) { vs = c.v[q.var].cnt[q.num - 1]; for (auto& v : c.v) ts += v.cnt[q.num - 1]; } for (int v = 0; v < q.var; ++v) vb += c.v[v].cnt[q.num];
            auto chk = [&](const char* what, const IGlobEnumeration::NaturalIndexExt& x) { CK(same(x, n), what, "%s: %s instead of %s", what, sn(x).c_str(), sn(n).c_str());
                CK(x.GetElemDofId() == q.pos && x.GetSingleVarDofId() == q.vpos && x.elem_type_shift == ts && x.elem_var_type_shift == vs && x.var_dof_shift == vb && x.dim_dof_shift == sh, what, "%s %s: position %u, alone %u, shifts %u %u %u %u instead of %u, %u, %u %u %u %u", what, sn(n).c_str(), x.GetElemDofId(), x.GetSingleVarDofId(), x.elem_type_shift, x.elem_var_type_shift, x.var_dof_shift, x.dim_dof_shift, q.pos, q.vpos, ts, vs, vb, sh); };
            chk("index:natural", e.getFullIndex(n)); chk("index:position", e.getFullIndex(el, int(q.pos))); chk("index:variable", e.getFullIndex(el, unsigned(q.var), int(q.vpos))); } }
    unsigned mask = 0; for (int d = 0; d < 4; ++d) if (!c.on[d].empty()) mask |= 1u << d; CK(e.getInmostVarElementType() == mask, "index:types", "%u instead of %u", e.getInmostVarElementType(), mask);
    bool triv = true; for (auto& v : c.v) for (auto& x : v.mod->list()) triv = triv && x.stype == 0; CK(e.areVarsTriviallySymmetric() == triv, "index:trivial", "%d instead of %d", int(e.areVarsTriviallySymmetric()), int(triv));
    auto nd = e.getInmostMeshNumDof(); for (int d = 0; d < 4; ++d) CK(nd[d] == c.on[d].size(), "index:counts", "dimension %d: %u instead of %zu", d, nd[d], c.on[d].size());
}
static void walks(Mon& m, const Ctx& c, Mesh* M, const IGlobEnumeration& e, Rng& r) {
    std::vector<Dof> L; owned(M, c, L); long B = e.getBegInd(), E = e.getEndInd();
    long n = 0; for (auto it = e.beginByVector(); it != e.endByVector(); ++it, ++n) { if (!CK(n < E - B && it->GetVecInd().id == B + n, "vector:step", "step %ld: index %ld", n, it->GetVecInd().id)) break; NI x = it->GetNatInd(); long b = e(x).id; if (!CK(b == B + n, "vector:value", "step %ld: %s has index %ld", n, sn(x).c_str(), b)) break; }
    CK(n == E - B, "vector:count", "%ld of %ld", n, E - B);
    if (E > B) for (int k = 0; k < 6; ++k) { long i = r.range(0, int(E - B) - 1), j = r.range(0, int(E - B) - 1); auto a = e.beginByVector() , b = e.beginByVector(); a += i; b += j;
        CK((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j) && a - b == i - j, "vector:compare", "positions %ld and %ld", i, j);
        auto ab = a; ab += j - i; CK(ab == b && ab->GetVecInd() == b->GetVecInd() && same((*ab).GetNatInd(), b->GetNatInd()), "vector:arith", "advance"); ab -= j - i; CK(ab == a, "vector:arith", "go back"); a->GetNatInd(); CK(a[j - i].GetVecInd().id == B + j && same(a[j - i].GetNatInd(), e(EI(B + j))), "vector:arith", "offset"); auto p = a++; CK(p->GetVecInd().id == B + i && a->GetVecInd().id == B + i + 1, "vector:arith", "post-increment"); p = a--; CK(p->GetVecInd().id == B + i + 1 && a->GetVecInd().id == B + i, "vector:arith", "post-decrement"); CK(same(a->GetNatInd(), e(EI(B + i))), "vector:arith", "value after decrement");
        const auto ca = a, cb = b; auto q = ca + (j - i); CK(q == b && cb - ca == j - i, "vector:arith", "sum"); q = (j - i) + ca; CK(e.beginByVector() + i == a && e.endByVector() - (E - B - i) == a, "vector:arith", "sum with a temporary"); CK(q == b, "vector:arith", "sum from the left"); q = b - (j - i); CK(q == a, "vector:arith", "difference"); }
    for (int k = 0; k < 8; ++k) { int sv = -1, sd = -1, sk = -1, mask = 63; long sl = -1; if (k) { if (r.coin(1, 3)) sv = r.range(0, int(c.v.size()) - 1); if (r.coin(1, 3)) sd = r.range(0, 2); if (r.coin(1, 3)) sk = r.range(0, 2); if (r.coin()) mask = r.coin() ? 1 << r.range(0, 5) : r.range(1, 63); if (r.coin(1, 5)) sl = r.range(0, 12); }
        std::set<std::array<long, 5>> want, got; for (auto& x : L) if ((sv < 0 || x.q.var == sv) && (sd < 0 || x.q.dim == sd) && (sk < 0 || x.q.k == sk) && (mask >> x.q.num & 1) && (sl < 0 || HandleID(x.h) == sl)) want.insert({long(x.h), x.q.num, x.q.var, x.q.dim, x.q.k});
        auto arr = [&](const NI& x) { return std::array<long, 5>{long(x.elem.GetHandle()), DofT::GeomTypeToNum(x.elem_type), x.var_id, x.dim_id, x.dim_elem_dof_id}; };
        std::string sl_s = fmtv("slice var %d dim %d dof %d types %#x entity %ld", sv, sd, sk, mask, sl); std::string key = k == 0 ? "geom" : (sl >= 0 ? "geom:entity" : mask != 63 ? "geom:types" : "geom:slice");
        bool okk = true; size_t steps = 0; auto it = e.beginByGeom(sv, sd, sk, DofT::uchar(mask), sl);
        for (; it != e.endByGeom(); ++it) { if (++steps > want.size() + 2) { okk = CK(false, key + "-endless", "%s: more than %zu degrees of freedom", sl_s.c_str(), want.size()); break; }
            NI x = it->GetNatInd(); if (!CK(want.count(arr(x)), key + "-foreign", "%s: visits %s", sl_s.c_str(), sn(x).c_str()) || !CK(got.insert(arr(x)).second, key + "-twice", "%s: visits %s twice", sl_s.c_str(), sn(x).c_str())) { okk = false; break; }
            long a = it->GetVecInd().id, b = e(x).id; if (!CK(a == b && it->GetEnum() != nullptr, key + "-value", "%s: %s reported as %ld, numbered %ld", sl_s.c_str(), sn(x).c_str(), a, b)) { okk = false; break; } }
        if (okk) CK(got.size() == want.size(), key + "-missing", "%s: %zu of %zu visited", sl_s.c_str(), got.size(), want.size()); }
}
// copies between the vector of unknowns, the tag of all variables and the tags of the variables
static void copies(Mon& m, const Ctx& c, Mesh* M, const IGlobEnumeration& e, World& w, Rng& r, int id) {
    size_t mx = 1; unsigned mask = 0; for (int d = 0; d < 4; ++d) { mx = std::max(mx, c.on[d].size()); if (!c.on[d].empty()) mask |= 1u << d; }
    auto T = [&](const char* n, size_t sz, unsigned msk) { return M->CreateTag(std::string("t") + std::to_string(id) + n, DATA_REAL, msk, NONE, unsigned(sz)); };
    Tag A = T("A", mx, mask), Bt = T("B", mx + 1, mask), C = T("C", mx, 15); std::vector<Tag> S, S2; for (size_t v = 0; v < c.v.size(); ++v) { size_t q = 1; unsigned k = 0; for (int d = 0; d < 4; ++d) { size_t z = 0; for (int n = 0; n < 6; ++n) if (DIMOF[n] == d) z += c.v[v].cnt[n]; q = std::max(q, z); if (z) k |= 1u << d; } S.push_back(T(("S" + std::to_string(v)).c_str(), q, k)); S2.push_back(T(("R" + std::to_string(v)).c_str(), q, 15)); }
    auto val = [&](const Rec& q, int d, long key) { return 1 + d + 10. * q.pos + 1000. * double(key % 100000) + 1e9 * double(key / 100000) + 0.25; };
    auto all = [&](auto f) { for (int d = 0; d < 4; ++d) for (int l = 0; l < int(M->e[d].size()); ++l) if (M->e[d][l].alive) for (auto& q : c.on[d]) f(Element(M, ComposeHandle(d, l)), d, M->e[d][l], q); };
    auto cu = [&](Tag t, const char* what, int only = -1) { all([&](Element el, int d, Mesh::El& x, const Rec& q) { double g = el.RealArray(t)[q.pos], wv = only < 0 || only == q.var ? val(q, d, x.key) : -1; CK(g == wv, std::string("copy:") + what, "%s: entity %d/%ld %s var %d kind %d position %u: %g instead of %g", what, d, x.key, x.owner == M->rank ? "own" : "ghost", q.var, q.num, q.pos, g, wv); }); };
    auto cs = [&](std::vector<Tag> t, const char* what, int only = -1) { all([&](Element el, int d, Mesh::El& x, const Rec& q) { if (only >= 0 && only != q.var) return; double g = el.RealArray(t[q.var])[q.vpos], wv = val(q, d, x.key); CK(g == wv, std::string("copy:") + what, "%s: entity %d/%ld %s var %d kind %d position %u: %g instead of %g", what, d, x.key, x.owner == M->rank ? "own" : "ghost", q.var, q.num, q.vpos, g, wv); }); };
    auto cl = [&](Tag t) { for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (int l = 0; l < int(M->e[d].size()); ++l) if (M->e[d][l].alive) for (auto& v : Element(M, ComposeHandle(d, l)).RealArray(t)) v = -1; };
    auto cls = [&](std::vector<Tag>& t) { for (auto& x : t) cl(x); };
    Sparse::Vector x; x.SetInterval(e.getBegInd(), e.getEndInd()); std::vector<Dof> L; owned(M, c, L); for (auto& y : L) x[e(nat(M, y.h, y.q)).id] = val(y.q, y.d, M->el(y.h).key);
    auto cv = [&](const Sparse::Vector& y, const char* what) { CK(long(y.GetFirstIndex()) == e.getBegInd() && long(y.GetLastIndex()) == e.getEndInd(), std::string("copy:") + what, "%s: interval", what); for (long i = e.getBegInd(); i < e.getEndInd(); ++i) if (!CK(y[i] == x[i], std::string("copy:") + what, "%s: component %ld: %g instead of %g", what, i, y[i], x[i])) break; };
    cl(A); cl(Bt); cl(C); cls(S); cls(S2);
    e.CopyByEnumeration(x, A); cu(A, "vector-to-tag"); e.CopyByEnumeration(x, S); cs(S, "vector-to-tags");
    { Sparse::Vector y; e.CopyByEnumeration(A, y); cv(y, "tag-to-vector"); Sparse::Vector z; e.CopyByEnumeration(S, z); cv(z, "tags-to-vector"); }
    e.CopyByEnumeration(A, Bt); cu(Bt, "tag-to-tag"); e.CopyByEnumeration(A, S2); cs(S2, "tag-to-tags"); e.CopyByEnumeration(S, C); cu(C, "tags-to-tag");
    for (int v = 0; v < int(c.v.size()); ++v) { cls(S2); e.CopyVarByEnumeration(x, S2[v], v); cs(S2, "vector-to-variable", v); cls(S2); e.CopyVarByEnumeration(A, S2[v], v); cs(S2, "tag-to-variable", v); cl(C); e.CopyVarByEnumeration(S[v], v, C); cu(C, "variable-to-tag", v); cls(S2); e.CopyVarByEnumeration(v, S[v], S2[v]); cs(S2, "variable-to-variable", v); }
    for (auto& t : S) M->DeleteTag(t); for (auto& t : S2) M->DeleteTag(t); M->DeleteTag(A); M->DeleteTag(Bt); M->DeleteTag(C); (void)w; (void)r;
}
static void lower(Mon& m, const Ctx& c, const Spec& s, Mesh* M, const OrderedEnumerator& e, Rng& r) {
    auto ar = e.getArrangement(); CK(ar.second && ar.first == s.ord, "lower:arrangement", "the arrangement is not returned");
    std::vector<Dof> L; owned(M, c, L); std::sort(L.begin(), L.end(), [&](const Dof& a, const Dof& b) { return okey(s, a) < okey(s, b); });
    for (int k = 0; k < 12; ++k) { Dof x; bool ex = !L.empty() && r.coin(); if (ex) x = L[r.range(0, int(L.size()) - 1)]; else { x.q.num = r.range(0, 5); x.q.var = r.range(0, int(c.v.size())); x.q.dim = r.range(0, 3); x.q.k = r.range(0, 3); int d = DIMOF[x.q.num]; x.d = d; long b = e.getBegElemID()[d], f = e.getEndElemID()[d]; if (b > f) continue; x.ln = r.range(-1, int(f - b) + 1); x.gid = b + x.ln; if (e.getNumElem()[d] == 0) continue; }
        Iso iso(DofT::uchar(1 << x.q.num), x.q.var, x.q.dim, x.q.k); Dof y = x; auto it = std::lower_bound(L.begin(), L.end(), okey(s, x), [&](const Dof& a, const std::array<long, 5>& kk) { return okey(s, a) < kk; });
        long i = it - L.begin(), want = i == long(L.size()) ? e.getEndInd() : e.getBegInd() + (s.rev ? long(L.size()) - 1 - i : i); auto g = e.getLowerOrderIndex(x.gid, iso); (void)y;
        CK(g->GetVecInd().id == want, s.rev ? "lower:reversed" : "lower:value", "%s: lower bound of (kind %d, number %ld, var %d, dim %d, dof %d) has index %ld instead of %ld", str(s).c_str(), x.q.num, x.gid, x.q.var, x.q.dim, x.q.k, g->GetVecInd().id, want); }
}
static void scene(Mon& m, Rng& r, int np, bool deep, bool wide = false) {
    Ctx c = randVars(r, wide); GMesh g = randMesh(r, wide ? 2 : deep ? 14 : 8); World w(np); auto own = randOwner(r, g, np); auto cn = connect(g, own, np);
    std::vector<std::unique_ptr<Mesh>> M; for (int k = 0; k < np; ++k) { M.emplace_back(new Mesh()); build(*M[k], &w, k, g, cn, Rng(r.next())); }
    int ne = r.range(1, 3); std::vector<Spec> sp; for (int i = 0; i < ne; ++i) sp.push_back(randSpec(r)); bool glob = false; for (auto& s : sp) { if (s.kind == GLOB && glob && np > 1) s.kind = r.range(0, 2); glob = glob || s.kind == GLOB; }
    std::string ds; for (auto& s : sp) ds += str(s) + " "; m.desc("%d processes, %zu cells, %s| %s", np, g.T.size(), ds.c_str(), str(c).c_str()); m.distinct(ds + str(c) + std::to_string(g.T.size()) + std::to_string(np)); m.sample(m.cur_desc); m.key("scene");
    std::vector<Shared> S(ne, Shared(np)); uint64_t seed = r.next(); bool keepAll = r.coin(), pre = r.coin(); bool again = r.coin(1, 4);
    parallel(w, [&](int k) {
        Rng q(seed + 77 * k), common(seed); if (pre) M[k]->AssignGlobalID(15);
        std::vector<std::shared_ptr<IGlobEnumeration>> alive;
        for (int i = 0; i < ne; ++i) { auto& s = sp[i]; bool np1 = w.n == 1 && common.coin();
            auto e = makeEnum(s, M[k].get(), c.vars, "pre" + std::to_string(i), np1);
            if (again && s.kind == ORDERED) { auto* o = static_cast<OrderedEnumerator*>(e.get()); o->Clear(); o->setArrangment(s.ord).setReverse(s.rev).setMesh(M[k].get()).setVars(c.vars); o->setup("again" + std::to_string(i)); }
            else if (again && s.kind != GLOB) { auto* o = static_cast<SimpleEnumerator*>(e.get()); o->Clear(); o->setMesh(M[k].get()).setVars(c.vars); o->setup("again" + std::to_string(i)); }
            numbers(m, c, s, M[k].get(), *e, S[i], w); indices(m, c, M[k].get(), *e); walks(m, c, M[k].get(), *e, q); if (i == 0) copies(m, c, M[k].get(), *e, w, q, i);
            if (s.kind == ORDERED) lower(m, c, s, M[k].get(), static_cast<OrderedEnumerator&>(*e), q);
            { std::lock_guard<std::mutex> gd(MX); m.eval(); }
            if (keepAll) { alive.push_back(std::move(e)); if (i > 0) { Shared X(np); (void)X; for (long b = alive[0]->getBegInd(); b < alive[0]->getEndInd(); ++b) if (!CK(alive[0]->OrderC((*alive[0])(EI(b))).id == b, "together", "index %ld of the first numbering changed when the second was made", b)) break; } } else { w.barrier(); e.reset(); w.barrier(); } }
        w.barrier(); });
    m.obs("collective_calls", long(w.collectives));
}
SECTION(one) { run_cases(m, m.cases(500, 6000), [&](long, Rng& r) { scene(m, r, 1, false); }); }
// more than 255 degrees of freedom of a kind on one entity
SECTION(wide) { run_cases(m, m.cases(12, 100), [&](long, Rng& r) { scene(m, r, r.range(1, 2), false, true); }); }
SECTION(several) { run_cases(m, m.cases(500, 6000), [&](long, Rng& r) { scene(m, r, r.range(2, 4), r.coin()); }); }
// the list of variables: names, views and iterators of the container
SECTION(variables) { run_cases(m, m.cases(300, 3000), [&](long, Rng& r) {
    FemVarContainer v; std::vector<P> mods; std::vector<std::string> names; int n = r.range(1, 5); for (int i = 0; i < n; ++i) { P p; for (;;) { p = randNode(r, r.range(0, 2)); if (p->total() < 300) break; } mods.push_back(p); names.push_back("v" + std::to_string(r.range(0, 99))); v.PushVar(DofMap(make(*p, r)), names.back()); }
    m.desc("%d variables", n); m.eval(); m.distinct(names[0] + mods[0]->str() + std::to_string(n)); m.check(v.NumVars() == n, "vars:count", "%d", v.NumVars());
    int i = 0; for (auto it = v.Begin(); it != v.End(); ++it, ++i) { auto x = *it; auto c = mods.at(i)->counts(); auto g = x.dofmap.NumDofs(); m.check(*x.name == names[i] && int(x.iVar) == i && it->iVar == x.iVar && x.back_ptr == &v, "vars:name", "variable %d", i); bool ok = true; for (int k = 0; k < 6; ++k) ok = ok && g[k] == c[k]; m.check(ok && x.dofmap.NumDofOnTet() == mods[i]->total(), "vars:layout", "layout of variable %d", i); }
    m.check(i == n, "vars:walk", "%d of %d", i, n); int a = r.range(0, n - 1), b = r.range(0, n - 1); auto A = v.Begin() + a, B = v.Begin(); B += b; m.check(*v[a].name == names[a] && *A->name == names[a] && *v.Begin()[b].name == names[b] && B - A == b - a && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b) && (A == B) == (a == b), "vars:arith", "iterators %d %d", a, b); auto C = B - (b - a); m.check(C == A, "vars:arith", "difference"); auto D = C++; m.check(D == A && C - D == 1, "vars:arith", "post-increment"); --C; m.check(C == D, "vars:arith", "decrement");
    v.Clear(); m.check(v.NumVars() == 0, "vars:clear", "%d variables after clearing", v.NumVars()); v.PushVar(DofMap(make(*mods[0], r)), "again"); auto g = v.NumDofs(); auto c = mods[0]->counts(); bool ok = true; for (int k = 0; k < 6; ++k) ok = ok && g[k] == c[k]; m.check(ok && v.NumVars() == 1 && *v[0].name == "again", "vars:clear", "reuse after clearing");
}); }
// the kind of numbering cannot be left open
SECTION(kind) { run_cases(m, 7, [&](long cs, Rng& r) { GlobEnumeration g; m.eval(); m.distinct(cs); m.desc("kind %ld", cs); using A = GlobEnumeration::ASSEMBLING_TYPE; A t = cs < 5 ? A(r.range(0, 4)) : GlobEnumeration::NOSPECIFIED; if (cs == 6) g.setAssemblingType(GlobEnumeration::MINIBLOCKS); A was = g.getAssemblingType(); bool thrown = false; try { g.setAssemblingType(t); } catch (const std::runtime_error&) { thrown = true; } m.check(thrown == (t == GlobEnumeration::NOSPECIFIED) && g.getAssemblingType() == (thrown ? was : t), "kind", "setting kind %d on kind %d: %s, kind is %d", int(t), int(was), thrown ? "refused" : "accepted", int(g.getAssemblingType())); }); }
