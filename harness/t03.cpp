// T03: strain measures, strain invariants with their derivatives, stress and tangent conversions, against the
// definitions evaluated in independent second-order jets.
#include "mon.h"
#include "jet.h"
#include <limits>
#include <numeric>
#include <iomanip>
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
using namespace mon; using jet::EV; using jet::Jet; namespace AM = Ani::Mech; typedef long double R;
typedef std::array<std::array<Jet, 3>, 3> JM;
static JM matmul(const JM& a, const JM& b, bool ta) { JM c; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { c[i][j] = Jet(9); for (size_t k = 0; k < 3; ++k) c[i][j] = c[i][j] + (ta ? a[k][i] : a[i][k]) * b[k][j]; } return c; }
static Jet det(const JM& c) { return c[0][0]*(c[1][1]*c[2][2]-c[1][2]*c[2][1]) - c[0][1]*(c[1][0]*c[2][2]-c[1][2]*c[2][0]) + c[0][2]*(c[1][0]*c[2][1]-c[1][1]*c[2][0]); }
static Jet tr(const JM& c) { return c[0][0] + c[1][1] + c[2][2]; }
template<class F> static Jet bil(const JM& c, const std::array<F, 3>& f, const std::array<F, 3>& s) { Jet t(9); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) t = t + R(f[i])*(R(s[j])*c[i][j]); return t; }
template<class F> struct T3 {
  typedef Ani::SymMtx3D<F> Sy; typedef Ani::Mtx3D<F> M; typedef Ani::BiSym4Tensor3D<F> B4; typedef Ani::Sym4Tensor3D<F> S4; typedef std::array<F, 3> A;
  Mon& m; Rng& r; const R eps = std::numeric_limits<F>::epsilon()/2; T3(Mon& m, Rng& r): m(m), r(r) {}
  bool near(F got, EV w, const std::string& key, const char* what, int i = -1, int j = -1) { return m.close(double(R(got) - w.v), 0, double(60*eps*w.e + 1e-200L), key, what, i, j); }
  bool nearS(const Sy& d, const Jet& j, const std::string& key) { bool ok = true; for (int a = 0; a < 9 && ok; ++a) ok = near(d(size_t(a/3), size_t(a%3)), j.g[size_t(a)], key, "first derivative", a/3, a%3); m.obs("first derivatives compared"); return ok; }
  bool nearB(const B4& d, const Jet& j, const std::string& key) { bool ok = true; for (int a = 0; a < 9 && ok; ++a) for (int b = 0; b < 9 && ok; ++b) ok = near(d(size_t(a/3), size_t(a%3), size_t(b/3), size_t(b%3)), j.h(a, b), key, "second derivative", a, b); m.obs("second derivatives compared"); return ok; }
  // deformation gradient with positive determinant: tiny, moderate and large
  M grad() { for (;;) { M g; int k = r.range(0, 7); R sc = k == 0 ? 0 : k == 1 ? 1e-8 : k == 2 ? 1e-3 : k == 3 ? 3 : 0.6; for (size_t i = 0; i < 9; ++i) g[i] = F(sc*r.sym()); if (k == 7) for (size_t i = 0; i < 9; ++i) if (i % 4) g[i] = 0; M f = M::Identity() + g; R d = 0; d = R(f(0,0))*(R(f(1,1))*f(2,2)-R(f(1,2))*f(2,1)) - R(f(0,1))*(R(f(1,0))*f(2,2)-R(f(1,2))*f(2,0)) + R(f(0,2))*(R(f(1,0))*f(2,1)-R(f(1,1))*f(2,0)); if (d > 0.05L) return g; } }
  A dir() { A a; for (auto& x : a) x = F(r.sym()); switch (r.range(0, 5)) { case 0: a = {0, 0, 0}; a[size_t(r.range(0, 2))] = 1; break; case 1: { F n = F(std::sqrt(R(a[0])*a[0] + R(a[1])*a[1] + R(a[2])*a[2])); if (n > 0.01) for (auto& x : a) x /= n; break; } case 2: for (auto& x : a) x *= 10; break; default: break; } return a; }
  static JM jm(const M& x) { JM c; for (int i = 0; i < 9; ++i) c[size_t(i/3)][size_t(i%3)] = jet::var(9, i, x[size_t(i)]); return c; }
  std::string txt(const M& g, const A& f, const A& s) { std::string t; for (size_t i = 0; i < 9; ++i) t += fmt("%.9g ", double(g[i])); t += "|"; for (auto x : f) t += fmt("%.6g ", double(x)); t += "|"; for (auto x : s) t += fmt("%.6g ", double(x)); return t; }
  // ---- invariants of a strain
  void invariants() { M g = grad(); A f = dir(), s = r.coin(1, 4) ? f : dir(); Sy E = AM::grU_to_E<F>(g); m.desc("%s", txt(g, f, s).c_str()); m.eval(); m.distinct(txt(g, f, s)); JM c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R e = E(size_t(i), size_t(j)); c[size_t(i)][size_t(j)] = jet::var(9, 3*i+j, e) + jet::var(9, 3*j+i, e) + R(i == j); } JM c2 = matmul(c, c, false);
    Jet J1 = tr(c), J2 = 0.5L*(J1*J1 - tr(c2)), J3 = det(c), JJ = jet::sqrt(J3), J4 = bil(c, f, s), J5 = bil(c2, f, s), J0(9, R(f[0])*s[0] + R(f[1])*s[1] + R(f[2])*s[2]); J0.v.e = 4*(std::fabs(R(f[0])*s[0]) + std::fabs(R(f[1])*s[1]) + std::fabs(R(f[2])*s[2]));
    near(AM::C_I1<F>(E), J1.v, "I1:value", "I1"); nearS(AM::C_I1_dE<F>(), J1, "I1:first"); nearS(AM::C_I1_dE<F>(E), J1, "I1:first"); nearB(AM::C_I1_ddE<F>(), J1, "I1:second"); nearB(AM::C_I1_ddE<F>(E), J1, "I1:second");
    near(AM::C_I2<F>(E), J2.v, "I2:value", "I2"); nearS(AM::C_I2_dE<F>(E), J2, "I2:first"); nearB(AM::C_I2_ddE<F>(), J2, "I2:second"); nearB(AM::C_I2_ddE<F>(E), J2, "I2:second");
    near(AM::C_I3<F>(E), J3.v, "I3:value", "I3"); nearS(AM::C_I3_dE<F>(E), J3, "I3:first"); nearB(AM::C_I3_ddE<F>(E), J3, "I3:second");
    near(AM::C_J<F>(E), JJ.v, "J:value", "J"); nearS(AM::C_J_dE<F>(E), JJ, "J:first"); nearB(AM::C_J_ddE<F>(E), JJ, "J:second");
    near(AM::C_I4fs<F>(E, f, s), J4.v, "I4fs:value", "I4fs"); nearS(AM::C_I4fs_dE<F>(f, s), J4, "I4fs:first"); nearS(AM::C_I4fs_dE<F>(E, f, s), J4, "I4fs:first"); nearB(AM::C_I4fs_ddE<F>(), J4, "I4fs:second"); nearB(AM::C_I4fs_ddE<F>(f, s), J4, "I4fs:second"); nearB(AM::C_I4fs_ddE<F>(E, f, s), J4, "I4fs:second");
    near(AM::C_I5fs<F>(E, f, s), J5.v, "I5fs:value", "I5fs"); nearS(AM::C_I5fs_dE<F>(E, f, s), J5, "I5fs:first"); nearB(AM::C_I5fs_ddE<F>(f, s), J5, "I5fs:second"); nearB(AM::C_I5fs_ddE<F>(E, f, s), J5, "I5fs:second");
    near(AM::C_I0fs<F>(f, s), J0.v, "I0fs:value", "I0fs"); near(AM::C_I0fs<F>(E, f, s), J0.v, "I0fs:value", "I0fs"); nearS(AM::C_I0fs_dE<F>(), J0, "I0fs:first"); nearS(AM::C_I0fs_dE<F>(E, f, s), J0, "I0fs:first"); nearB(AM::C_I0fs_ddE<F>(), J0, "I0fs:second"); nearB(AM::C_I0fs_ddE<F>(E, f, s), J0, "I0fs:second");
    // the autodifferentiable variables report the same for every requested order
    for (int d = 0; d <= 2; ++d) { auto av = [&](const auto& x, const Jet& j, const char* n) { std::string k = std::string("variable:") + n; near(x(), j.v, k + ":value", n); m.check(x.m_dif == d, k + ":order", "%s order %d instead of %d", n, int(x.m_dif), d); if (d >= 1) nearS(x.D(), j, k + ":first"); if (d >= 2) nearB(x.DD(), j, k + ":second"); }; av(AM::I0fs<F>(d, f, s), J0, "I0fs"); av(AM::I1<F>(d, E), J1, "I1"); av(AM::I2<F>(d, E), J2, "I2"); av(AM::I3<F>(d, E), J3, "I3"); av(AM::J<F>(d, E), JJ, "J"); av(AM::I4fs<F>(d, E, f, s), J4, "I4fs"); av(AM::I5fs<F>(d, E, f, s), J5, "I5fs"); } m.obs("strain states"); }
  // ---- strain of a deformation, its directional derivative
  void strain() { M g = grad(), dg; for (size_t i = 0; i < 9; ++i) dg[i] = F(2*r.sym()); if (r.coin(1, 5)) { for (size_t i = 0; i < 9; ++i) dg[i] = 0; dg[size_t(r.range(0, 8))] = 1; } A z{}; m.desc("%s", txt(g, z, z).c_str()); m.eval(); m.distinct(txt(g, z, z) + txt(dg, z, z)); for (int full = 0; full < 2; ++full) { M x = full ? M::Identity() + g : g; JM f = jm(x); if (!full) for (size_t i = 0; i < 3; ++i) f[i][i] = f[i][i] + R(1); JM c = matmul(f, f, true); Sy E = full ? AM::F_to_E<F>(x) : AM::grU_to_E<F>(x), dE = full ? AM::F_and_dF_to_dE<F>(x, dg) : AM::grU_and_dgrU_to_dE<F>(x, dg); std::string w = full ? "F" : "grU"; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { EV v = c[i][j].v; EV e = EV(0.5L)*(v - EV(R(i == j))); if (!full) { // the displacement form must not lose small strains
          EV q; for (size_t k = 0; k < 3; ++k) q = q + EV(g(k, i))*EV(g(k, j)); e = EV(0.5L)*(EV(g(i, j)) + EV(g(j, i)) + q); } near(E(i, j), e, w + "_to_E", "E", int(i), int(j)); EV d; for (size_t k = 0; k < 9; ++k) d = d + EV(0.5L)*c[i][j].g[k]*EV(dg[k]); near(dE(i, j), d, w + "_to_dE", "dE", int(i), int(j)); } m.obs("strains compared"); } }
  // ---- stress and tangent: arbitrary symmetric data against the definition
  void convert() { M g = grad(); Sy S; B4 dS; for (size_t i = 0; i < 6; ++i) S[i] = F(3*r.sym()); for (size_t i = 0; i < 21; ++i) dS[i] = r.coin(1, 8) ? F(0) : F(5*r.sym()); if (r.coin(1, 6)) { dS = B4(); dS[size_t(r.range(0, 20))] = 1; S = Sy(); } A z{}; m.desc("%s", txt(g, z, z).c_str()); m.eval(); m.distinct(txt(g, z, z) + fmt("%.9g %.9g", double(S[0]), double(dS[3]))); EV f[3][3]; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) f[i][j] = EV(g(i, j)) + EV(R(i == j)); M Pm = AM::S_to_P<F>(g, S); S4 D = AM::dS_to_dP<F>(g, S, dS); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { EV p; for (size_t k = 0; k < 3; ++k) p = p + f[i][k]*EV(S(k, j)); p.e += std::fabs(R(S(i, j))); near(Pm(i, j), p, "S_to_P", "P", int(i), int(j)); for (size_t k = 0; k < 3; ++k) for (size_t l = 0; l < 3; ++l) { EV d = i == k ? EV(S(l, j)) : EV(); for (size_t n = 0; n < 3; ++n) for (size_t q = 0; q < 3; ++q) d = d + f[i][n]*f[k][q]*EV(dS(n, j, q, l)); near(D(i, j, k, l), d, "dS_to_dP", "dP", int(3*i+j), int(3*k+l)); } } m.obs("tangents compared"); }
  // ---- an energy of the invariants differentiated over the deformation gradient directly
  void energy() { M g = grad(); A f = dir(), s = r.coin(1, 3) ? f : dir(); int k = r.range(0, 4); std::vector<R> a(8); for (auto& x : a) x = R(F(r.sym())); m.desc("energy %d %s", k, txt(g, f, s).c_str()); m.eval(); m.distinct(fmt("%d", k) + txt(g, f, s)); Sy E = AM::grU_to_E<F>(g); AM::I1<F> i1(2, E); AM::I2<F> i2(2, E); AM::I3<F> i3(2, E); AM::J<F> j(2, E); AM::I4fs<F> i4(2, E, f, s); AM::I5fs<F> i5(2, E, f, s); JM x = jm(g); for (size_t i = 0; i < 3; ++i) x[i][i] = x[i][i] + R(1); JM c = matmul(x, x, true), c2 = matmul(c, c, false); Jet J1 = tr(c), J2 = 0.5L*(J1*J1 - tr(c2)), JF = det(x), J3 = JF*JF, J4 = bil(c, f, s), J5 = bil(c2, f, s);
    auto fa = [&](int i) { return F(a[size_t(i)]); }; Ani::ADVal<> W; Jet w(9); switch (k) { case 0: W = make_shell(fa(0)*(i1 - F(3)) + fa(1)*(i2 - F(3)) + fa(2)*sq(j - F(1))); w = a[0]*(J1 + R(-3)) + a[1]*(J2 + R(-3)) + a[2]*((JF + R(-1))*(JF + R(-1))); break; case 1: W = make_shell(fa(0)*(i1 / i3) + fa(1)*i4*i4 + fa(2)*log(j)); { Jet lj = jet::chain(JF, jet::log(JF.v), EV(1)/JF.v, -(EV(1)/(JF.v*JF.v))); w = a[0]*(J1/J3) + a[1]*(J4*J4) + a[2]*lj; } break; case 2: W = make_shell(fa(0)*i5*i1 + fa(1)*i4*j - fa(2)*i2*i3); w = a[0]*(J5*J1) + a[1]*(J4*JF) - a[2]*(J2*J3); break; case 3: { if (J4.v.v > 3 || J4.v.v < -3) return; W = make_shell(exp(fa(0)*i4) + pow(i3, F(-0.25))*i1); Jet q = a[0]*J4; EV e = jet::exp(q.v); EV t = J3.v; w = jet::chain(q, e, e, e) + jet::chain(J3, jet::cpow(t, -0.25L), EV(-0.25L)*jet::cpow(t, -1.25L), EV(0.3125L)*jet::cpow(t, -2.25L))*J1; break; } default: W = make_shell(i1*i2/j + fa(0)*i5); w = J1*J2/JF + a[0]*J5; }
    // rounding of the strain and of the inner derivatives enters the tangent through the conversions
    R cond = 1; for (size_t i = 0; i < 3; ++i) for (size_t l = 0; l < 3; ++l) cond = std::max(cond, std::fabs(x[i][l].v.v)); R id = std::max(R(1), 1/JF.v.v); R sc = cond*cond*id*id; R gm = 0, hm = 0; { Sy S = W.D(); B4 dS = W.DD(); for (size_t i = 0; i < 6; ++i) gm = std::max(gm, std::fabs(R(S[i]))); for (size_t i = 0; i < 21; ++i) hm = std::max(hm, std::fabs(R(dS[i]))); } R base = 500*sc*eps; M P = AM::S_to_P<F>(g, W.D()); S4 D = AM::dS_to_dP<F>(g, W.D(), W.DD()); m.close(double(R(W()) - w.v.v), 0, double(60*eps*w.v.e + base*(1 + std::fabs(w.v.v) + gm)), "energy:value", "W"); bool ok = true; for (int q = 0; q < 9 && ok; ++q) ok = m.close(double(R(P[size_t(q)]) - w.g[size_t(q)].v), 0, double(60*eps*w.g[size_t(q)].e + base*(gm + hm)*cond), "energy:stress", "P", q); for (int q = 0; q < 9 && ok; ++q) for (int t = 0; t < 9 && ok; ++t) ok = m.close(double(R(D(size_t(q/3), size_t(q%3), size_t(t/3), size_t(t%3))) - w.h(q, t).v), 0, double(60*eps*w.h(q, t).e + base*(gm + hm)*cond*cond*id), "energy:tangent", "dP", q, t); m.obs("energies differentiated"); }
};
SECTION(invd) { run_cases(m, m.cases(1500, 20000), [&](long, Rng& r) { T3<double>(m, r).invariants(); }); }
SECTION(invl) { run_cases(m, m.cases(700, 10000), [&](long, Rng& r) { T3<long double>(m, r).invariants(); }); }
SECTION(strain) { run_cases(m, m.cases(4000, 60000), [&](long c, Rng& r) { if (c % 3) T3<double>(m, r).strain(); else T3<long double>(m, r).strain(); }); }
SECTION(convert) { run_cases(m, m.cases(4000, 60000), [&](long c, Rng& r) { if (c % 3) T3<double>(m, r).convert(); else T3<long double>(m, r).convert(); }); }
SECTION(energy) { run_cases(m, m.cases(1500, 20000), [&](long, Rng& r) { T3<double>(m, r).energy(); }); }
