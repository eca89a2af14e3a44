// Shared by the checks of the assembler: variables with symmetric layouts, the explicit position of every local degree of freedom
#pragma once
#include "dofmodel.h"
#include "imesh.h"
#include "oracle.h"
#include <iostream>
#include <atomic>
#include "anifem++/inmost_interface/elemental_assembler.cpp"
#include "anifem++/inmost_interface/global_enumerator.cpp"
#include "anifem++/inmost_interface/assembler.h"
using namespace dm; using namespace im; namespace Sparse = INMOST::Sparse; using INMOST::DATA_REAL; using INMOST::NONE;
using NI = IGlobEnumeration::NaturalIndex; using mon::Mon; using mon::fmt;
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } }; static NullBuf NB; static struct MuteErr { std::streambuf* o; MuteErr() : o(std::cerr.rdbuf(&NB)) {} ~MuteErr() { std::cerr.rdbuf(o); } } MUTE;
static std::atomic<long> NCK{0}; static std::mutex MX;   // failures only take the lock: the checks order nothing between threads
#define CK(ok, key, ...) ([&] { bool o_ = (ok); NCK.fetch_add(1, std::memory_order_relaxed); if (!o_) { std::lock_guard<std::mutex> g_(MX); m.check(false, key, __VA_ARGS__); } return o_; }())
static std::vector<std::string> pat(int num, int s) {
    auto sp = [](const char* t) { std::vector<std::string> v; std::string c; for (const char* p = t; ; ++p) { if (*p == ' ' || !*p) { if (!c.empty()) v.push_back(c); c.clear(); if (!*p) break; } else c += *p; } return v; };
    if (num == 0) return {"a"}; if (num <= 2) return s == 0 ? sp("aa") : sp("ab ba"); if (num <= 4) return s == 0 ? sp("aaa") : s == 1 ? sp("abb bab bba") : sp("abc bca cab acb cba bac");
    switch (s) { case 0: return sp("aaaa"); case 1: return sp("abbb babb bbab bbba"); case 2: return sp("aabb abab baab abba baba bbaa"); case 3: return sp("abcc bcac cabc acbc cbac bacc bcca cacb accb cbca ccba ccab");
        default: return sp("abcd bcad cabd acbd cbad bacd abdc bcda cadb acdb cbda badc adbc bdca cdab adcb cdba bdac dabc dbca dcab dacb dcba dbac"); }
}
static std::vector<int> verts(int num, int e) { switch (DIMOF[num]) { case 0: return {e}; case 1: return {EN[e][0], EN[e][1]}; case 2: return {FN[e][0], FN[e][1], FN[e][2]}; default: return {0, 1, 2, 3}; } }
// index inside the symmetry group under the order of the vertices by their global numbers; lab: ranks of the four vertices
static int canonLabel(int num, int e, int s, int lsi, const int* lab) {
    auto P = pat(num, s); auto v = verts(num, e); std::string p = P[lsi], q = p; for (size_t k = 0; k < v.size(); ++k) { int rank = 0; for (int w : v) rank += lab[w] < lab[v[k]]; q[rank] = p[k]; }
    for (size_t i = 0; i < P.size(); ++i) if (P[i] == q) return int(i); return -1;
}
static int canonCached(int num, int e, int s, int lsi, const int* lab) { static thread_local std::map<long, int> C; long k = ((((((num * 6 + e) * 5 + s) * 24 + lsi) * 4 + lab[0]) * 4 + lab[1]) * 4 + lab[2]) * 4 + lab[3]; auto it = C.find(k); if (it != C.end()) return it->second; return C[k] = canonLabel(num, e, s, lsi, lab); }
// orientation: an edge runs from the smaller to the greater global number; the normal of a face given by its vertices in ascending order points out of the cell (+1) or into it
static int orient(int num, int e, const int* lab) {
    if (num == 2) return lab[EN[e][0]] < lab[EN[e][1]] ? 1 : -1; if (num != 4) return 1;
    int inv = 0; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) inv += lab[FN[e][i]] > lab[FN[e][j]]; return ((inv % 2 == 0) == (e % 2 == 0)) ? 1 : -1;   // faces 0 and 2 of a positive tetrahedron are listed counterclockwise seen from outside, faces 1 and 3 clockwise
}
struct V { P mod; int ndim; std::array<unsigned, 6> cnt; };
struct Rec { int num, var, dim, k; unsigned pos, vpos; };
struct LD { int var, num, nelem, stype, lsid; unsigned leid; };      // local degree of freedom
struct Vars { std::vector<V> v; std::array<std::vector<Rec>, 4> on; std::vector<LD> loc; std::vector<size_t> beg;
    std::map<std::array<int, 3>, std::array<unsigned, 2>> at;   // (variable, kind, index on the entity) -> positions on the entity
    void finish() { at.clear(); loc.clear(); beg.clear(); int nv = int(v.size()); for (auto& x : v) { x.ndim = x.mod->k == Node::Vec ? x.mod->dim : 1; x.cnt = x.mod->counts(); }
        for (int d = 0; d < 4; ++d) { on[d].clear(); unsigned pos = 0; std::vector<unsigned> vp(nv, 0); for (int n = 0; n < 6; ++n) if (DIMOF[n] == d) for (int q = 0; q < nv; ++q) for (int c = 0; c < int(v[q].cnt[n]); ++c) { int per = int(v[q].cnt[n]) / v[q].ndim; at[{q, n, c}] = {pos, vp[q]}; on[d].push_back({n, q, c / per, c % per, pos++, vp[q]++}); } }
        for (int q = 0; q < nv; ++q) { beg.push_back(loc.size()); for (auto& d : v[q].mod->list()) loc.push_back({q, d.num, d.nelem, d.stype, d.lsid, d.leid}); } beg.push_back(loc.size()); }
    size_t n() const { return loc.size(); }
    bool has(int d) const { return !on[d].empty(); }
    std::string str() const { std::string s; for (auto& x : v) s += x.mod->str() + " "; return s; } };
static P symNode(Rng& r, int depth) { for (;;) { if (depth == 0 || r.coin(1, 3)) return randUnite(r, false); if (r.coin()) return mkVec(r.range(1, 3), symNode(r, depth - 1)); std::vector<P> c; int n = r.range(1, 3); for (int i = 0; i < n; ++i) c.push_back(symNode(r, depth - 1)); return mkCpx(c); } }
static Vars randVars(Rng& r, unsigned maxDof) { for (;;) { Vars c; int nv = r.coin(2, 5) ? 1 : r.range(2, 3); unsigned t = 0; for (int i = 0; i < nv; ++i) { V x; x.mod = symNode(r, r.range(0, 2)); t += x.mod->total(); c.v.push_back(x); } bool bad = t > maxDof || t == 0; for (auto& x : c.v) bad = bad || x.mod->total() == 0; if (bad) continue; c.finish(); return c; } }
static void push(FemVarContainer& f, const Vars& c, Rng& r) { for (size_t i = 0; i < c.v.size(); ++i) f.PushVar(DofMap(make(*c.v[i].mod, r)), "u" + std::to_string(i)); }
// a layout with the same number of degrees of freedom of every kind but grouped differently
static P regroup(const Node& n, Rng& r) { if (n.k == Node::Unite) { static const int offs[7] = {0, 1, 3, 5, 8, 11, 16}, vol[16] = {1, 1, 2, 1, 2, 1, 3, 6, 1, 3, 6, 1, 4, 6, 12, 24}; std::array<unsigned, 16> s{}; for (int q = 0; q < 6; ++q) { int left = int(n.cnt[q]); while (left > 0) { int k = r.range(offs[q], offs[q + 1] - 1); if (vol[k] > left) continue; ++s[k]; left -= vol[k]; } } return mkSym(s); }
    std::vector<P> c; for (auto& x : n.ch) c.push_back(regroup(*x, r)); return n.k == Node::Vec ? mkVec(n.dim, c[0]) : mkCpx(c); }
// one cell as the assembler must see it
struct CellV { int lid; long key; HandleType h, nd[4], ed[6], fc[4]; int lab[4]; bool flipped;
    HandleType ent(int num, int nelem) const { switch (DIMOF[num]) { case 0: return nd[nelem]; case 1: return ed[nelem]; case 2: return fc[nelem]; default: return h; } } };
static CellV cellView(Mesh& M, int lid, const GMesh& g, bool reorder, const std::function<long(HandleType)>& gid) {
    CellV c; c.lid = lid; auto& e = M.e[3][lid]; c.key = e.key; c.h = ComposeHandle(3, lid); std::array<int, 4> t; for (int i = 0; i < 4; ++i) { c.nd[i] = e.high[i]; t[i] = int(M.el(c.nd[i]).key); }
    c.flipped = reorder && vol6(g.X, t) > 0; if (c.flipped) { std::swap(c.nd[2], c.nd[3]); std::swap(t[2], t[3]); }
    long N = long(g.X.size()); for (int k = 0; k < 6; ++k) c.ed[k] = ComposeHandle(1, M.byKey[1].at(ek(N, t[EN[k][0]], t[EN[k][1]]))); for (int k = 0; k < 4; ++k) c.fc[k] = ComposeHandle(2, M.byKey[2].at(fk(N, t[FN[k][0]], t[FN[k][1]], t[FN[k][2]])));
    long q[4]; for (int i = 0; i < 4; ++i) q[i] = gid(c.nd[i]); for (int i = 0; i < 4; ++i) { c.lab[i] = 0; for (int k = 0; k < 4; ++k) c.lab[i] += q[k] < q[i]; } return c;
}
static std::vector<CellV> cellViews(Mesh& M, const GMesh& g, bool reorder) { std::vector<CellV> v; for (int l = 0; l < int(M.e[3].size()); ++l) if (M.e[3][l].alive) v.push_back(cellView(M, l, g, reorder, [&](HandleType h) { return M.el(h).gid; })); return v; }
struct Pos { HandleType h; unsigned c; int sign; };   // entity, canonical index on it among the degrees of freedom of the kind, sign
static Pos place(const CellV& c, const LD& d) { return {c.ent(d.num, d.nelem), d.leid - unsigned(d.lsid) + unsigned(canonCached(d.num, d.nelem, d.stype, d.lsid, c.lab)), orient(d.num, d.nelem, c.lab)}; }
struct Scene { GMesh g; World w; std::vector<std::unique_ptr<Mesh>> M; Scene(Rng& r, int np, int maxc) : g(randMesh(r, maxc)), w(np) { auto own = randOwner(r, g, np); auto cn = connect(g, own, np); for (int k = 0; k < np; ++k) { M.emplace_back(new Mesh()); build(*M[k], &w, k, g, cn, Rng(r.next())); } } };
// tags with random values of the degrees of freedom: one for all variables, one for each of them
static void data(Mon& m, Mesh& M, const Vars& c, Rng& r, Tag& all, std::vector<Tag>& each, std::map<std::tuple<HandleType, int>, double>& val) {
    unsigned mx = 1; for (int d = 0; d < 4; ++d) mx = std::max(mx, unsigned(c.on[d].size())); all = M.CreateTag("all", DATA_REAL, 15, NONE, mx); for (size_t q = 0; q < c.v.size(); ++q) { unsigned k = 1; for (int d = 0; d < 4; ++d) { unsigned z = 0; for (auto& x : c.on[d]) z += x.var == int(q); k = std::max(k, z); } each.push_back(M.CreateTag("one" + std::to_string(q), DATA_REAL, 15, NONE, k)); }
    for (int d = 0; d < 4; ++d) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) { HandleType h = ComposeHandle(d, l); for (auto& q : c.on[d]) { double v = r.sym(); val[{h, int(q.pos)}] = v; Element(&M, h).RealArray(all)[q.pos] = v; Element(&M, h).RealArray(each[q.var])[q.vpos] = v; } } (void)m;
}
