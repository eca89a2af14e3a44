// D03: two tetrahedra with different vertex orders agree on the value of every shared degree of freedom of a field.
#include "mon.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
using namespace Ani;
static const int EN[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static std::vector<int> verts(int dim, int e) { if (dim == 0) return {e}; if (dim == 1) return {EN[e][0], EN[e][1]}; if (dim == 2) return {e, (e + 1) % 4, (e + 2) % 4}; return {0, 1, 2, 3}; }
static FemSpace randSp(Rng& r, int depth) {
    if (depth == 0 || r.coin(1, 3)) switch (r.range(0, 8)) {
        case 0: return FemSpace(P0Space()); case 1: return FemSpace(P1Space()); case 2: return FemSpace(P2Space()); case 3: case 4: return FemSpace(P3Space());
        case 5: return FemSpace(ND0Space()); case 6: return FemSpace(RT0Space()); case 7: return FemSpace(CR1Space()); default: return FemSpace(BubbleSpace()); }
    if (r.coin()) return randSp(r, depth - 1) ^ r.range(1, 3);
    return randSp(r, depth - 1) * randSp(r, depth - 1);
}
SECTION(functionals) {
    run_cases(m, m.cases(220, 3000), [&](long c, Rng& r) {
        FemSpace sp = randSp(r, c < 40 ? 0 : r.range(0, 2)); auto& map = sp.dofMap(); int n = map.NumDofOnTet(), dim = sp.dim(); if (n > 400) return;
        m.desc("space %s", sp.typeName().c_str()); m.sample(sp.typeName()); m.distinct(sp.typeName());
        double V[5][3]; do { for (auto& v : V) for (double& x : v) x = r.uni(-2, 2);
            auto det = [&](int a) { double M[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) M[i][k] = V[i + 1][k] - V[a][k]; return M[0][0]*(M[1][1]*M[2][2]-M[1][2]*M[2][1])-M[0][1]*(M[1][0]*M[2][2]-M[1][2]*M[2][0])+M[0][2]*(M[1][0]*M[2][1]-M[1][1]*M[2][0]); };
            if (std::fabs(det(0)) > 0.3 && std::fabs(det(4)) > 0.3 && det(0) * det(4) < 0) break; } while (true);
        // a quadratic field; every component different
        std::vector<double> co(dim * 10); for (double& x : co) x = r.sym();
        auto f = [&](const std::array<double, 3>& X, double* res, unsigned d, void*) -> int {
            double b[10] = {1, X[0], X[1], X[2], X[0]*X[0], X[1]*X[1], X[2]*X[2], X[0]*X[1], X[1]*X[2], X[0]*X[2]};
            for (unsigned k = 0; k < d; ++k) { res[k] = 0; for (int i = 0; i < 10; ++i) res[k] += co[10 * k + i] * b[i]; } return 0; };
        std::array<int, 4> base{0, 1, 2, 3}; 
        // (global vertex set, canonical number, kind) -> value and orientation, per tetrahedron
        std::map<std::string, std::pair<double, int>> first; std::map<std::string, int> firstTet;
        for (int t = 0; t < 6; ++t) {
            int other = t % 3 == 2; std::array<int, 4> g{0, 1, 2, 3}; if (other) g[0] = 4; r.shuffle(g); if (t == 0) g = {0, 1, 2, 3};
            double Y[12]; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) Y[3 * i + k] = V[g[i]][k];
            Tetra<const double> XYZ(Y, Y + 3, Y + 6, Y + 9);
            std::array<unsigned char, 4> rk; for (int k = 0; k < 4; ++k) { rk[k] = 0; for (int q = 0; q < 4; ++q) rk[k] += g[q] < g[k]; }
            std::vector<double> u(n, 0.); DynMem<> wm; m.eval();
            for (int i = 0; i < n; ++i) sp.interpolateOnDOF(XYZ, f, ArrayView<>(u.data(), n), i, wm);
            for (int i = 0; i < n; ++i) {
                auto lo = map.LocalOrderOnTet(DofT::TetOrder(i)); int d = DofT::GeomTypeDim(lo.etype);
                auto v = verts(d, lo.nelem); std::string ent = fmt("%d", lo.etype); std::vector<int> gv; for (int x : v) gv.push_back(g[x]);
                int orient = 1; if (lo.etype == DofT::EDGE_ORIENT) orient = gv[0] < gv[1] ? 1 : -1; if (lo.etype == DofT::FACE_ORIENT) orient = other ? -1 : 1;
                std::sort(gv.begin(), gv.end()); for (int x : gv) ent += fmt(",%d", x);
                int cl = DofT::DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, rk.data());
                ent += fmt(":%u", lo.leid - lo.lsid + cl);
                auto it = first.find(ent);
                if (it == first.end()) { first[ent] = {u[i], orient}; firstTet[ent] = t; }
                else { m.close(u[i] * orient, it->second.first * it->second.second, 1e-11, "shared-value", "degree of freedom value seen from two tetrahedra", i, t); m.obs("shared_values_compared"); if (other) m.obs("shared_values_between_neighbours"); }
            }
        }
    });
}
