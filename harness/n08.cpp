// N08: generated meshes of boxes. The generator is compiled in n06lib.cpp
#include "ufun.h"
#include "anifem++/utils/mesh_utils.h"
typedef std::array<long, 3> I3;
static L det3(const I3* p) { long a[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) a[i][k] = p[i + 1][k] - p[0][k]; return L(a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])); }
SECTION(box) {
    run_cases(m, m.cases(400, 5000), [&](long cs, Rng& r) {
        int np = r.coin(1, 4) ? 1 : r.range(2, r.coin() ? 8 : 24); unsigned n[3]; int big = r.coin(1, 5) ? 9 : 5; for (auto& x : n) x = unsigned(r.coin(1, 3) ? 1 : r.range(1, big)); bool cube = r.coin(1, 4); double size = r.coin(1, 3) ? 1 : r.uni(0.1, 20); std::array<double, 3> O{0, 0, 0}, A{1, 1, 1}; bool dflt = !cube && r.coin(1, 4); if (cube) A = {size, size, size}; else if (!dflt) for (int k = 0; k < 3; ++k) { O[k] = r.uni(-5, 5); A[k] = O[k] + r.uni(0.01, 6); }
        m.desc("%u x %u x %u on %d processes%s", n[0], n[1], n[2], np, cube ? ", cube" : ""); m.distinct(m.cur_desc); if (cs < 3) m.sample(m.cur_desc); m.eval(); m.key("box"); World W(np); std::vector<std::unique_ptr<Mesh>> M(np);
        im::parallel(W, [&](int k) { M[k] = cube ? (size == 1 && cs % 2 ? GenerateCube(INMOST_MPI_COMM_WORLD, n[0], n[1], n[2]) : GenerateCube(INMOST_MPI_COMM_WORLD, n[0], n[1], n[2], size)) : dflt ? GenerateParallelepiped(INMOST_MPI_COMM_WORLD, {n[0], n[1], n[2]}) : GenerateParallelepiped(INMOST_MPI_COMM_WORLD, {n[0], n[1], n[2]}, A, O); });
        std::set<I3> all; std::set<std::array<I3, 4>> cells; std::map<std::array<I3, 3>, std::vector<I3>> faces; std::map<I3, int> cubes; long busy = 0;
        for (int k = 0; k < np; ++k) { Mesh& Q = *M[k]; if (!m.check(M[k] != nullptr, "box:mesh", "no mesh")) return; std::vector<I3> at(Q.e[0].size()); std::set<I3> mine, used; std::vector<int> usedFace(Q.e[2].size(), 0);
            for (size_t l = 0; l < Q.e[0].size(); ++l) if (Q.e[0][l].alive) { for (int c = 0; c < 3; ++c) { double h = (A[c] - O[c]) / n[c], z = (Q.e[0][l].x[c] - O[c]) / h; long q = std::lround(z); if (!m.check(std::fabs(z - q) < 1e-9 && q >= 0 && q <= long(n[c]), "box:nodes", "process %d: coordinate %d is %.17g", k, c, Q.e[0][l].x[c])) return; at[l][c] = q; } m.check(mine.insert(at[l]).second, "box:nodes", "process %d: two nodes at %ld %ld %ld", k, at[l][0], at[l][1], at[l][2]); all.insert(at[l]); }
            for (size_t l = 0; l < Q.e[3].size(); ++l) if (Q.e[3][l].alive) { ++busy; auto& c = Q.e[3][l]; if (!m.check(c.high.size() == 4 && c.low.size() == 4, "box:cells", "%zu nodes, %zu faces", c.high.size(), c.low.size())) return; std::array<I3, 4> p; for (int i = 0; i < 4; ++i) { p[i] = at[HandleID(c.high[i])]; used.insert(p[i]); } std::sort(p.begin(), p.end()); if (!m.check(fabsl(det3(p.data())) == 1, "box:volume", "cell of volume %Lg sixths", fabsl(det3(p.data())))) return; m.check(cells.insert(p).second, "box:cells", "a cell exists twice"); I3 lo = p[0], hi = p[0]; for (auto& x : p) for (int q = 0; q < 3; ++q) { lo[q] = std::min(lo[q], x[q]); hi[q] = std::max(hi[q], x[q]); } m.check(hi[0] - lo[0] == 1 && hi[1] - lo[1] == 1 && hi[2] - lo[2] == 1, "box:cells", "a cell spans several cubes"); ++cubes[lo];
                std::set<std::set<HandleType>> want, have; for (int i = 0; i < 4; ++i) { std::set<HandleType> f; for (int j = 0; j < 4; ++j) if (j != i) f.insert(c.high[j]); want.insert(f); } for (auto f : c.low) { ++usedFace[HandleID(f)]; std::set<HandleType> s; for (auto e : Q.el(f).low) for (auto v : Q.el(e).low) s.insert(v); have.insert(s); m.check(Q.el(f).low.size() == 3, "box:faces", "a face of %zu edges", Q.el(f).low.size()); } m.check(want == have, "box:faces", "faces of a cell are not those of its nodes");
                for (int i = 0; i < 4; ++i) { std::array<I3, 3> f; for (int j = 0, z = 0; j < 4; ++j) if (j != i) f[z++] = p[j]; faces[f].push_back(p[i]); } }
            m.check(used == mine, "box:nodes", "process %d has %zu nodes, its cells %zu", k, mine.size(), used.size()); for (size_t l = 0; l < usedFace.size(); ++l) if (Q.e[2][l].alive) m.check(usedFace[l] == 1 || usedFace[l] == 2, "box:faces", "a face of %d cells", usedFace[l]); }
        long nc = long(n[0]) * n[1] * n[2]; m.check(busy == 6 * nc, "box:cells", "%ld cells instead of %ld", busy, 6 * nc); m.check(long(all.size()) == long(n[0] + 1) * (n[1] + 1) * (n[2] + 1), "box:nodes", "%zu nodes", all.size()); bool six = long(cubes.size()) == nc; for (auto& q : cubes) six &= q.second == 6; m.check(six, "box:cells", "cubes are not divided into six cells");
        for (auto& f : faces) { bool bnd = false; for (int c = 0; c < 3; ++c) for (long s : {0L, long(n[c])}) bnd |= f.first[0][c] == s && f.first[1][c] == s && f.first[2][c] == s; if (f.second.size() == 2) { I3 a[4] = {f.first[0], f.first[1], f.first[2], f.second[0]}, b[4] = {f.first[0], f.first[1], f.first[2], f.second[1]}; if (!m.check(!bnd && det3(a) * det3(b) < 0, "box:conforming", "two cells overlap at a face")) return; } else if (!m.check(bnd && f.second.size() == 1, "box:conforming", "an inner face of %zu cells", f.second.size())) return; }
        for (int k = 0; k < np; ++k) m.obs(M[k]->e[3].empty() ? "processes without cells" : "processes with cells"); m.obs("cells", busy); });
}
