// Shared by the checks of the utilities: functions stored on a distributed mesh
#pragma once
#include "space.h"
#include "nasm.h"
#include "interp.h"
#include "anifem++/utils/utils.h"
using orc::SP; using orc::Sp; using orc::L; using orc::Tet;
static struct MuteOut { std::streambuf* o; MuteOut() : o(std::cout.rdbuf(&NB)) {} ~MuteOut() { std::cout.rdbuf(o); } } MUTEO;
static P lay(const Sp& s) { switch (s.k) {
    case Sp::Unit: switch (s.fam) { case orc::P0: return mkSym(predefined_sym(0)); case orc::P1: return mkSym(predefined_sym(1)); case orc::P2: return mkSym(predefined_sym(2)); case orc::P3: return mkSym(predefined_sym(3)); case orc::ND0: return mkSym(predefined_sym(4)); case orc::RT0: return mkSym(predefined_sym(5)); case orc::CR1: return mkSym(predefined_sym(6)); case orc::B2: return mkSym(predefined_sym(7)); default: return mkSym(predefined_sym(8)); }
    case Sp::Vec: return mkVec(s.n, lay(*s.ch[0])); default: { std::vector<P> c; for (auto& q : s.ch) c.push_back(lay(*q)); return mkCpx(c); } } }
static Vars one(const SP& s) { Vars v; V x; x.mod = lay(*s); v.v.push_back(x); v.finish(); return v; }
static Tet tetOf(Mesh& M, const CellV& c) { Tet t; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) t.x[i][k] = M.el(c.nd[i]).x[k]; t.init(); return t; }
static unsigned maxOn(const Vars& c) { unsigned mx = 1; for (int d = 0; d < 4; ++d) mx = std::max(mx, unsigned(c.on[d].size())); return mx; }
static unsigned posOf(const Vars& c, const LD& d, const Pos& p) { return c.at.at({d.var, d.num, int(p.c)})[0]; }
// values of the local degrees of freedom of a cell as stored in a tag
static std::vector<double> local(Mesh& M, const CellV& cv, const Vars& c, Tag t) { std::vector<double> v; for (auto& d : c.loc) { Pos p = place(cv, d); v.push_back(p.sign * Element(&M, p.h).RealArray(t)[posOf(c, d, p)]); } return v; }
// a polynomial with several components
struct Poly { int deg, dim; std::vector<std::array<int, 3>> e; std::vector<double> c;
    Poly(Rng& r, int deg, int dim) : deg(deg), dim(dim) { for (int i = 0; i <= deg; ++i) for (int j = 0; i + j <= deg; ++j) for (int k = 0; i + j + k <= deg; ++k) e.push_back({i, j, k}); for (size_t q = 0; q < e.size() * dim; ++q) c.push_back(r.sym()); }
    static L pw(L x, int n) { L r = 1; while (n-- > 0) r *= x; return r; }
    static L dm1(L x, int n, int d) { return d == 0 ? pw(x, n) : d == 1 ? (n < 1 ? 0 : n * pw(x, n - 1)) : (n < 2 ? 0 : L(n) * (n - 1) * pw(x, n - 2)); }
    L der(const L* x, int comp, int a, int b, int g) const { L s = 0; for (size_t q = 0; q < e.size(); ++q) s += L(c[q * dim + comp]) * dm1(x[0], e[q][0], a) * dm1(x[1], e[q][1], b) * dm1(x[2], e[q][2], g); return s; }
    L val(const L* x, int comp) const { return der(x, comp, 0, 0, 0); }
    L d1(const L* x, int comp, int i) const { return der(x, comp, i == 0, i == 1, i == 2); }
    L d2(const L* x, int comp, int i, int j) const { int n[3] = {0, 0, 0}; ++n[i]; ++n[j]; return der(x, comp, n[0], n[1], n[2]); } };
static void xl(const double* x, L* y) { for (int k = 0; k < 3; ++k) y[k] = x[k]; }
static bool inside(const Tet& t, const double* x, double tol) { L y[3], l[4]; xl(x, y); t.bary(y, l); for (L v : l) if (v < -tol) return false; return true; }
struct Glob { GMesh g; World w; Conn cn; std::vector<int> own; std::vector<std::unique_ptr<Mesh>> M;
    Glob(Rng& r, int np, int maxc) : g(randMesh(r, maxc)), w(np), own(randOwner(r, g, np)) {
#ifdef _OPENMP
        im::ompThreads() = 1 + int((g.T.size() * 7 + g.X.size()) % 4); im::setThreads();
#endif
        cn = connect(g, own, np); for (int k = 0; k < np; ++k) { M.emplace_back(new Mesh()); build(*M[k], &w, k, g, cn, Rng(r.next())); } } };
#ifdef _OPENMP
#define OBS_OMP m.obs(fmt("OpenMP threads=%d", im::ompThreads()));
#else
#define OBS_OMP
#endif
static int randNp(Rng& r) { return r.coin() ? 1 : r.range(2, 4); }
static const char* SPN[] = {"P0", "P1", "P2", "P3", "CR1", "RT0", "ND0", "P1+B4", "P2+B4", "B2", "B4"};
static SP baseSpace(int i) { using namespace orc; switch (i) { case 0: return unit(orc::P0); case 1: return unit(orc::P1); case 2: return unit(orc::P2); case 3: return unit(orc::P3); case 4: return unit(CR1); case 5: return unit(RT0); case 6: return unit(ND0); case 7: return uni({unit(orc::P1), unit(B4)}); case 8: return uni({unit(orc::P2), unit(B4)}); case 9: return unit(B2); default: return unit(B4); } }
