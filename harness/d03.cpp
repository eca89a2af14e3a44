// D03: symmetry renumbering. Oracles: the patterns of the documentation (abb bab bba ...), group laws,
// agreement of canonical labels between different local orders of the same entity.
#include "dofmodel.h"
using namespace dm;
static std::vector<std::string> pat(int num, int s) {
    auto sp = [](const char* t) { std::vector<std::string> v; std::string c; for (const char* p = t; ; ++p) { if (*p == ' ' || !*p) { if (!c.empty()) v.push_back(c); c.clear(); if (!*p) break; } else c += *p; } return v; };
    if (num == 0) return {"a"};
    if (num <= 2) return s == 0 ? sp("aa") : sp("ab ba");
    if (num <= 4) return s == 0 ? sp("aaa") : s == 1 ? sp("abb bab bba") : sp("abc bca cab acb cba bac");
    switch (s) {
        case 0: return sp("aaaa");
        case 1: return sp("abbb babb bbab bbba");
        case 2: return sp("aabb abab baab abba baba bbaa");
        case 3: return sp("abcc bcac cabc acbc cbac bacc bcca cacb accb cbca ccba ccab");
        default: return sp("abcd bcad cabd acbd cbad bacd abdc bcda cadb acdb cbda badc adbc bdca cdab adcb cdba bdac dabc dbca dcab dacb dcba dbac");
    }
}
static int nsym(int num) { static const int n[6] = {1, 2, 2, 3, 3, 5}; return n[num]; }
static std::vector<int> verts(int num, int e) { // local vertices of the entity in its local order
    switch (DIMOF[num]) { case 0: return {e}; case 1: return {EN[e][0], EN[e][1]}; case 2: return {FN[e][0], FN[e][1], FN[e][2]}; default: return {0, 1, 2, 3}; }
}
static std::vector<std::array<uchar, 4>> perms() { std::vector<std::array<uchar, 4>> v; std::array<uchar, 4> p{0, 1, 2, 3}; do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }
// label of local index lsi when the vertices carry the labels lab
static int canon(int num, int e, int s, int lsi, const std::array<uchar, 4>& lab) {
    auto P = pat(num, s); auto v = verts(num, e); std::string p = P[lsi], q = p;
    if (num == 5) for (int k = 0; k < 4; ++k) q[lab[k]] = p[k];
    else for (size_t k = 0; k < v.size(); ++k) { int rank = 0; for (int w : v) rank += lab[w] < lab[v[k]]; q[rank] = p[k]; }
    for (size_t i = 0; i < P.size(); ++i) if (P[i] == q) return i;
    return -1;
}
static const char* KN[6] = {"node", "edge", "oriented edge", "face", "oriented face", "cell"};
SECTION(tables) {
    auto S = perms(); long c = 0;
    run_cases(m, 6, [&](long num, Rng&) {
        for (int s = 0; s < nsym(num); ++s) {
            auto P = pat(num, s); int et = 1 << num; m.desc("%s symmetry %d", KN[num], s);
            m.check(DofSymmetries::symmetry_volume(et, s) == P.size(), "volume", "%d want %zu", DofSymmetries::symmetry_volume(et, s), P.size());
            for (int e = 0; e < NEL[num]; ++e) for (auto& g : S) {
                std::set<int> im; m.eval(); m.distinct(fmt("%ld %d %d %d%d%d%d", num, s, e, g[0], g[1], g[2], g[3]));
                for (size_t l = 0; l < P.size(); ++l) {
                    int got = DofSymmetries::index_on_reorderd_elem(et, e, s, l, g.data()); im.insert(got);
                    m.check(got == canon(num, e, s, l, g), "reindex", "%s %d symmetry %d index %zu order %d%d%d%d: got %d want %d", KN[num], e, s, l, g[0], g[1], g[2], g[3], got, canon(num, e, s, l, g));
                }
                m.check(im.size() == P.size() && *im.begin() == 0 && *im.rbegin() == (int)P.size() - 1, "reindex-bijective", "%s %d symmetry %d", KN[num], e, s);
                // composition on the interior: relabelling by g and then by h is relabelling by their product
                if (num == 5) for (auto& h : S) {
                    std::array<uchar, 4> hg; for (int k = 0; k < 4; ++k) hg[k] = h[g[k]];
                    for (size_t l = 0; l < P.size(); ++l) {
                        int a = DofSymmetries::index_on_reorderd_elem(et, 0, s, l, g.data()), b = DofSymmetries::index_on_reorderd_elem(et, 0, s, a, h.data());
                        m.check(b == DofSymmetries::index_on_reorderd_elem(et, 0, s, l, hg.data()), "reindex-compose", "symmetry %d index %zu", s, l);
                    }
                }
                // only the order of the entity's own vertices matters
                if (num >= 1 && num <= 4) for (auto& h : S) {
                    auto v = verts(num, e); bool same = true; for (int a : v) for (int b : v) if ((g[a] < g[b]) != (h[a] < h[b])) same = false;
                    if (same) for (size_t l = 0; l < P.size(); ++l) m.check(DofSymmetries::index_on_reorderd_elem(et, e, s, l, g.data()) == DofSymmetries::index_on_reorderd_elem(et, e, s, l, h.data()), "reindex-local", "%s %d symmetry %d index %zu", KN[num], e, s, l);
                }
                ++c;
            }
        }
    });
    m.obs("entity_orders", c);
}
SECTION(shared) { // two tetrahedra sharing an entity number its degrees of freedom identically through the translation
    auto S = perms();
    run_cases(m, m.cases(150, 3000), [&](long c, Rng& r) {
        P mod; do { mod = randNode(r, r.range(0, 2)); } while (mod->total() > 700);
        bool sym = true; for (auto& d : mod->list()) sym &= d.stype != 255; if (!sym) return;
        auto map = make(*mod, r); auto L = mod->list(); m.desc("layout %s", mod->str().c_str()); m.sample(mod->str()); m.eval(); m.distinct(mod->str());
        // global vertices: tetrahedron 0 = {0,1,2,3}, tetrahedron 1 shares vertices 1,2,3
        for (int rep = 0; rep < 4; ++rep) {
            auto g0 = S[r.range(0, 23)], g1 = S[r.range(0, 23)]; int newid = r.range(0, 4) * 10 - 5; // label of the vertex that is not shared
            bool same = r.coin(1, 3);                    // the same tetrahedron in another order
            int lab[2][4]; static const int shared_lab[4] = {0, 10, 20, 30};
            for (int k = 0; k < 4; ++k) { lab[0][k] = shared_lab[g0[k]]; lab[1][k] = g1[k] == 0 && !same ? newid : shared_lab[g1[k]]; }
            // for every entity (as a vertex set) the multiset of (pattern over global labels) per canonical index
            std::map<std::string, std::string> key[2];
            for (int t = 0; t < 2; ++t) {
                std::array<uchar, 4> rk; for (int k = 0; k < 4; ++k) { rk[k] = 0; for (int q = 0; q < 4; ++q) rk[k] += lab[t][q] < lab[t][k]; }
                for (size_t i = 0; i < L.size(); ++i) {
                    auto lo = map->LocalOrderOnTet(TetOrder(i)); int num = L[i].num; auto v = verts(num, lo.nelem);
                    int cl = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, rk.data());
                    unsigned cleid = lo.leid - lo.lsid + cl; std::string p = pat(num, lo.stype)[lo.lsid];
                    std::map<int, char> w; for (size_t k = 0; k < v.size(); ++k) w[lab[t][v[k]]] = p[k];
                    std::string ent = std::to_string(num), val; for (auto& x : w) { ent += fmt(",%d", x.first); val += x.second; }
                    ent += fmt(":%u", cleid);
                    m.check(!key[t].count(ent), "canonical-unique", "two degrees of freedom get canonical index %u of entity %s", cleid, ent.c_str());
                    key[t][ent] = val; m.obs("dofs_translated");
                }
            }
            for (auto& x : key[0]) { auto it = key[1].find(x.first); if (it == key[1].end()) continue;
                m.check(it->second == x.second, "shared-identity", "canonical index of %s denotes %s seen from one tetrahedron and %s from the other", x.first.c_str(), x.second.c_str(), it->second.c_str()); m.obs("shared_dofs_compared"); }
        }
    });
}
static std::vector<double> mat(const BaseDofMap& b, const std::array<uchar, 4>& g) { int n = b.NumDofOnTet(); std::vector<double> P(n * n, NAN); S4::build_dof_permutation(b, g.data(), P.data(), n); return P; }
SECTION(action) { // the action of vertex permutations on the degrees of freedom
    auto S = perms(); using namespace Ani::DofT;
    { std::array<std::array<uchar, 4>, 24> A; S4::all_permutations(A); std::set<std::array<uchar, 4>> s(A.begin(), A.end()); m.check(s.size() == 24, "all-permutations", "%zu distinct", s.size());
      auto id = S4::identity_perm(); for (int i = 0; i < 4; ++i) m.check(id[i] == i, "identity-perm", "%d", i);
      for (int e = 0; e < 6; ++e) for (int k = 0; k < 2; ++k) m.check(S4::edge_vertex(e, k) == EN[e][k], "edge-vertex", "%d %d", e, k);
      for (int e = 0; e < 4; ++e) { std::set<int> a, b; for (int k = 0; k < 3; ++k) a.insert(S4::face_vertex(e, k)), b.insert(FN[e][k]); m.check(a == b, "face-vertex", "%d", e); }
      for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { int w = 255; for (int e = 0; e < 6; ++e) if ((EN[e][0] == a && EN[e][1] == b) || (EN[e][0] == b && EN[e][1] == a)) w = e; m.check(S4::find_edge_elem(a, b) == w, "find-edge", "%d %d", a, b);
        for (int d = 0; d < 4; ++d) { int f = 255; if (a != b && b != d && a != d) f = (7 - (a + b + d)) % 4; m.check(S4::find_face_elem(a, b, d) == f, "find-face", "%d %d %d: %d want %d", a, b, d, S4::find_face_elem(a, b, d), f); } } }
    run_cases(m, m.cases(60, 1000), [&](long c, Rng& r) {
        P mod; do { mod = randNode(r, r.range(0, 2)); } while (mod->total() > 150);
        bool sym = true; for (auto& d : mod->list()) sym &= d.stype != 255; if (!sym) return;
        auto map = make(*mod, r); auto L = mod->list(); int n = L.size(); m.desc("layout %s", mod->str().c_str()); m.eval(); m.distinct(mod->str());
        auto checkperm = [&](const std::array<uchar, 4>& g) {
            auto A = mat(*map, g);
            for (int j = 0; j < n; ++j) { int nz = 0, row = -1; for (int i = 0; i < n; ++i) { double x = A[i + j * n]; if (x != 0) { ++nz; row = i; m.check(x == 1 || x == -1, "action-entry", "entry %g", x); } }
                if (!m.check(nz == 1, "action-permutation", "order %d%d%d%d: degree of freedom %d has %d images", g[0], g[1], g[2], g[3], j, nz)) continue;
                // the image carries the moved pattern
                auto& a = L[j]; auto& b = L[row]; auto va = verts(a.num, a.nelem), vb = verts(b.num, b.nelem);
                std::map<int, char> wa, wb; auto pa = pat(a.num, a.stype)[a.lsid], pb = pat(b.num, b.stype)[b.lsid];
                for (size_t k = 0; k < va.size(); ++k) wa[g[va[k]]] = pa[k]; for (size_t k = 0; k < vb.size(); ++k) wb[vb[k]] = pb[k];
                m.check(a.num == b.num && a.stype == b.stype && a.leid - a.lsid == b.leid - b.lsid && wa == wb, "action-pattern", "order %d%d%d%d sends %d (entity %d, pattern %s, number %u) to %d (entity %d, pattern %s, number %u)", g[0], g[1], g[2], g[3], j, a.nelem, pa.c_str(), a.leid, row, b.nelem, pb.c_str(), b.leid);
            }
            return A;
        };
        auto I = checkperm({0, 1, 2, 3}); for (int i = 0; i < n; ++i) m.check(I[i + i * n] == 1, "action-identity", "%d", i);
        for (int rep = 0; rep < 6; ++rep) {
            auto g = S[r.range(0, 23)], h = S[r.range(0, 23)]; std::array<uchar, 4> hg; for (int k = 0; k < 4; ++k) hg[k] = h[g[k]];
            auto A = checkperm(g), B = checkperm(h), C = checkperm(hg); bool ok = true;
            for (int j = 0; j < n && ok; ++j) { int k = -1; for (int i = 0; i < n; ++i) if (A[i + j * n] != 0) k = i; if (k < 0) { ok = false; break; } for (int i = 0; i < n; ++i) if (B[i + k * n] * A[k + j * n] != C[i + j * n]) ok = false; }
            m.check(ok, "action-compose", "action of %d%d%d%d after %d%d%d%d differs from the action of the product", h[0], h[1], h[2], h[3], g[0], g[1], g[2], g[3]);
        }
        // stabilisers
        for (int rep = 0; rep < 4; ++rep) {
            auto lo = map->LocalOrderOnTet(TetOrder(r.range(0, n - 1))); auto sd = S4::stabilizer_data(lo); auto v = verts(GeomTypeToNum(lo.etype), lo.nelem); std::set<int> vs(v.begin(), v.end());
            std::set<std::array<uchar, 4>> G{{0, 1, 2, 3}}, T; bool grow = true;
            while (grow) { grow = false; auto H = G; for (auto& a : H) for (auto& b : sd.generators) { std::array<uchar, 4> p; for (int k = 0; k < 4; ++k) p[k] = b[a[k]]; if (G.insert(p).second) grow = true; } }
            for (auto& g : S) { std::set<int> w; for (int x : v) w.insert(g[x]); if (w == vs) T.insert(g); }
            m.check(G == T, "stabilizer", "generators of the stabiliser of entity (%d,%d) generate %zu permutations, the stabiliser has %zu", lo.etype, lo.nelem, G.size(), T.size());
            for (auto& a : T) for (auto& b : T) { std::array<uchar, 4> p; for (int k = 0; k < 4; ++k) p[k] = b[a[k]];
                int ca = S4::stabilizer_character(a.data(), lo), cb = S4::stabilizer_character(b.data(), lo), cc = S4::stabilizer_character(p.data(), lo);
                m.check(ca * cb == cc && (ca == 1 || ca == -1), "character", "character of the product on entity (%d,%d)", lo.etype, lo.nelem); }
            for (auto& g : T) { int e = 1; if (lo.etype & (EDGE_ORIENT | FACE_ORIENT)) for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if ((g[v[i]] > g[v[j]]) != (v[i] > v[j])) e = -e;
                m.check(S4::stabilizer_character(g.data(), lo) == e, "character-sign", "entity (%d,%d) order %d%d%d%d", lo.etype, lo.nelem, g[0], g[1], g[2], g[3]); }
            auto rep0 = lo; rep0.nelem = 0; auto sg = S4::perm_vertex_to_repr(rep0, lo); std::set<int> img; auto v0 = verts(GeomTypeToNum(lo.etype), 0); for (int x : v0) img.insert(sg[x]); std::set<int> all(sg.begin(), sg.end());
            m.check(img == vs && all.size() == 4, "to-representative", "entity (%d,%d)", lo.etype, lo.nelem);
        }
    });
}
