// T01: automatic differentiation. Random straight-line programs over all operations and kinds of operands are executed
// with the library's statically typed expressions and with independent second-order jets.
#include "mon.h"
#include "jet.h"
#include <memory>
#include <limits>
#include <numeric>
#include <iomanip>
#include <algorithm>
#include <initializer_list>
#include "anifem++/autodiff/cauchy_strain_autodiff.h"
#ifndef STORE
#define STORE 0
#endif
using namespace mon; using jet::EV; using jet::Jet;
// ---- storages: coordinates of the gradient and the Hessian
template<class S> struct Co;
template<size_t N, class F> struct Co<Ani::PhysArrStorageSet<N, F>> { static const int n = int(N); typedef F FT; template<class G> static F g(const G& x, int i) { return x[size_t(i)]; } template<class H> static F h(const H& x, int i, int j) { return x(size_t(i), size_t(j)); } template<class G> static void sg(G& x, int i, F v) { x[size_t(i)] = v; } template<class H> static void sh(H& x, int i, int j, F v) { x(size_t(i), size_t(j)) = v; } static const bool inv = false; static const int nvar = int(N); };
template<size_t N, class F> struct CoM { static const int n = int(N*N); typedef F FT; template<class G> static F g(const G& x, int i) { return x(size_t(i)/N, size_t(i)%N); } template<class H> static F h(const H& x, int i, int j) { return x(size_t(i)/N, size_t(i)%N, size_t(j)/N, size_t(j)%N); } template<class G> static void sg(G& x, int i, F v) { x(size_t(i)/N, size_t(i)%N) = v; } template<class H> static void sh(H& x, int i, int j, F v) { x(size_t(i)/N, size_t(i)%N, size_t(j)/N, size_t(j)%N) = v; } static const bool inv = false; };
template<size_t N, class F> struct Co<Ani::PhysTensorStorageSet<N, F>>: CoM<N, F> { static const int nvar = int(N*N); };
template<size_t N, class F> struct Co<Ani::PhysSymTensorStorageSet<N, F>>: CoM<N, F> { static const int nvar = int(N*(N+1)/2); static const bool inv = N == 3; };
// ---- kinds of operands
enum Kind { P, V, A0, A1, A2, NB, kI0 = NB, kI1, kI4, kI2, kI5, kI3, kJ };
static const char* kn[] = { "Param", "Var", "Val0", "Val1", "Val2", "I0fs", "I1", "I4fs", "I2", "I5fs", "I3", "J" };
template<class S, int K> struct KT; template<class S> using AV0 = Ani::ADVal<Ani::ADState<true,false,false>, S>; template<class S> using AV1 = Ani::ADVal<Ani::ADState<true,true,false>, S>; template<class S> using AV2 = Ani::ADVal<Ani::ADState<true,true,true>, S>;
template<class S> struct KT<S, P> { typedef Ani::Param<S> T; }; template<class S> struct KT<S, V> { typedef Ani::Var<S> T; }; template<class S> struct KT<S, A0> { typedef AV0<S> T; }; template<class S> struct KT<S, A1> { typedef AV1<S> T; }; template<class S> struct KT<S, A2> { typedef AV2<S> T; };
template<class S> struct KT<S, kI0> { typedef Ani::Mech::I0fs<typename S::ValueType> T; }; template<class S> struct KT<S, kI1> { typedef Ani::Mech::I1<typename S::ValueType> T; }; template<class S> struct KT<S, kI4> { typedef Ani::Mech::I4fs<typename S::ValueType> T; }; template<class S> struct KT<S, kI2> { typedef Ani::Mech::I2<typename S::ValueType> T; }; template<class S> struct KT<S, kI5> { typedef Ani::Mech::I5fs<typename S::ValueType> T; }; template<class S> struct KT<S, kI3> { typedef Ani::Mech::I3<typename S::ValueType> T; }; template<class S> struct KT<S, kJ> { typedef Ani::Mech::J<typename S::ValueType> T; };
template<class T> struct KindOf; template<class S> struct KindOf<Ani::Param<S>> { static const int k = P; }; template<class S> struct KindOf<Ani::Var<S>> { static const int k = V; }; template<class S> struct KindOf<AV0<S>> { static const int k = A0; }; template<class S> struct KindOf<AV1<S>> { static const int k = A1; }; template<class S> struct KindOf<AV2<S>> { static const int k = A2; };
template<class F> struct KindOf<Ani::Mech::I0fs<F>> { static const int k = kI0; }; template<class F> struct KindOf<Ani::Mech::I1<F>> { static const int k = kI1; }; template<class F> struct KindOf<Ani::Mech::I4fs<F>> { static const int k = kI4; }; template<class F> struct KindOf<Ani::Mech::I2<F>> { static const int k = kI2; }; template<class F> struct KindOf<Ani::Mech::I5fs<F>> { static const int k = kI5; }; template<class F> struct KindOf<Ani::Mech::I3<F>> { static const int k = kI3; }; template<class F> struct KindOf<Ani::Mech::J<F>> { static const int k = kJ; };

template<class S> struct Prog {
  typedef Co<S> C; typedef typename C::FT FT; typedef typename S::GradientType GT; typedef typename S::HessianType HT;
  struct Node { int kind; std::shared_ptr<void> p; Jet j; };
  Mon& m; Rng& r; int level; std::vector<Node> L; std::string text; const long double eps = std::numeric_limits<FT>::epsilon()/2;
  Prog(Mon& m, Rng& r, int level): m(m), r(r), level(level) {}
  // ---- comparison of a library value with its jet
  bool acceptable(const Jet& j) const { auto ok = [](EV x, long double b) { return std::isfinite(x.v) && std::isfinite(x.e) && std::fabs(x.v) < b; }; if (!ok(j.v, 1e5L) || j.v.e*eps > 1e-5L*(1 + std::fabs(j.v.v))) return false; for (auto& x : j.g) if (!ok(x, 1e8L)) return false; for (auto& x : j.H) if (!ok(x, 1e11L)) return false; return true; }
  bool near(FT got, EV want, const std::string& key, const char* what, int i, int k) { return m.close(double((long double)(got) - want.v), 0, double(40*eps*want.e + 1e-200L), key, what, i, k); }
  // derivative parts not carried by the static type must be zero in the mathematical function; the library's value is read either way
  template<class T> bool compare(const T& x, const Jet& j, const std::string& key) { if (!near(x(), j.v, key + ":value", "value", -1, -1)) return false; m.obs("values compared"); if (level >= 1) { auto d = x.D(); for (int i = 0; i < C::n; ++i) if (!near(C::g(d, i), j.g[size_t(i)], key + ":first", "first derivative", i, -1)) return false; m.obs("gradients compared"); } if (level >= 2) { auto d = x.DD(); for (int i = 0; i < C::n; ++i) for (int k = 0; k < C::n; ++k) if (!near(C::h(d, i, k), j.h(i, k), key + ":second", "second derivative", i, k)) return false; m.obs("Hessians compared"); } return true; }
  template<class T> bool put(const T& x, const Jet& j, const std::string& key) { text += fmt(" %zu=%s", L.size(), key.c_str()); m.desc("level %d:%s", level, text.c_str()); if (!compare(x, j, key)) return false; if (acceptable(j)) L.push_back({KindOf<T>::k, std::make_shared<T>(x), j}); else { text += "(dropped)"; } m.obs("operations"); return true; }
  template<class T> const T& get(const Node& n) const { return *static_cast<const T*>(n.p.get()); }
  // ---- leaves
  FT num() { switch (r.range(0, 7)) { case 0: return 0; case 1: return FT(r.range(-3, 3)); case 2: return FT(r.uni(0.01, 0.9)); case 3: return FT(r.uni(-30, 30)); default: return FT(r.uni(-2.5, 2.5)); } }
  template<class T> Jet fromTensors(const T& x) { Jet j(C::n, x()); auto d = x.D(); auto dd = x.DD(); for (int i = 0; i < C::n; ++i) j.g[size_t(i)] = EV(C::g(d, i)); for (int i = 0; i < C::n; ++i) for (int k = 0; k < C::n; ++k) j.h(i, k) = EV(C::h(dd, i, k)); return j; }
  bool leafBasic() { FT v = num(); if (r.coin(1, 6)) return put(Ani::Param<S>(v), Jet(C::n, v), "leaf:Param"); if (r.coin(1, 12)) { Ani::Param<S> p; p.Init(v); return put(p, Jet(C::n, v), "leaf:Param"); } if (r.coin(1, 12)) { switch (r.range(0, 2)) { case 0: return put(AV0<S>(v), Jet(C::n, v), "leaf:constVal0"); case 1: return put(AV1<S>(v), Jet(C::n, v), "leaf:constVal1"); default: return put(AV2<S>(v), Jet(C::n, v), "leaf:constVal2"); } }
    if (r.coin(2, 3)) { int i = r.range(0, C::nvar - 1); Ani::Var<S> x; if (r.coin()) x = Ani::Var<S>(size_t(i), v, level); else x.Init(size_t(i), v, level); Jet j(C::n, v); GT e; e[size_t(i)] = 1; for (int k = 0; k < C::n; ++k) j.g[size_t(k)] = EV(C::g(e, k)); return put(x, j, "leaf:Var"); }
    GT d; HT dd; for (int i = 0; i < C::n; ++i) if (r.coin(2, 3)) C::sg(d, i, FT(r.uni(-2, 2))); bool lin = r.coin(); for (int i = 0; i < C::n; ++i) for (int k = i; k < C::n; ++k) if (!lin && r.coin(1, 3)) C::sh(dd, i, k, FT(r.uni(-2, 2))); AV2<S> full(2, v, d, dd); Jet j = fromTensors(full); if (lin) { AV1<S> x; if (r.coin()) x.Init(level, v, d, dd); else x = AV1<S>(level, v, level >= 1 ? d : GT(), HT()); return put(x, j, "leaf:Val1"); } AV2<S> x; if (r.coin()) x.Init(level, v, d, dd); else x = AV2<S>(level, v, level >= 1 ? d : GT(), level >= 2 ? dd : HT()); return put(x, j, "leaf:Val2"); }
  template<class S_ = S> typename std::enable_if<!Co<S_>::inv, bool>::type leaf() { return leafBasic(); }
  template<class S_ = S> typename std::enable_if<Co<S_>::inv, bool>::type leaf() { if (!E.size()) { E.resize(6); do { for (auto& x : E) x = FT(r.uni(-0.6, 0.6)); } while (!posdef()); if (r.coin(1, 10)) for (auto& x : E) x = 0; for (auto& x : f) x = FT(r.sym()); for (auto& x : s) x = FT(r.sym()); if (r.coin(1, 4)) s = f; if (r.coin(1, 6)) { f = {1, 0, 0}; s = {0, 1, 0}; } } if (r.coin(1, 4)) return leafBasic(); return leafInv<S>(); }
  std::vector<FT> E; std::array<FT, 3> f{}, s{};
  bool posdef() const { long double c[3][3]; sym(c); return c[0][0] > 0.05L && c[0][0]*c[1][1] - c[0][1]*c[0][1] > 0.05L && det(c) > 0.05L; }
  void sym(long double c[3][3]) const { int k = 0; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j, ++k) c[i][j] = c[j][i] = 2*(long double)E[size_t(k)] + (i == j); }
  static long double det(long double c[3][3]) { return c[0][0]*(c[1][1]*c[2][2]-c[1][2]*c[2][1]) - c[0][1]*(c[1][0]*c[2][2]-c[1][2]*c[2][0]) + c[0][2]*(c[1][0]*c[2][1]-c[1][1]*c[2][0]); }
  template<class S_> bool leafInv() { using namespace Ani::Mech; Ani::SymMtx<3, FT> e; { size_t k = 0; for (size_t i = 0; i < 3; ++i) for (size_t j = i; j < 3; ++j) e(i, j) = E[k++]; } std::array<std::array<Jet, 3>, 3> c; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c[size_t(i)][size_t(j)] = jet::var(9, 3*i+j, e(size_t(i), size_t(j))) + jet::var(9, 3*j+i, e(size_t(i), size_t(j))) + (long double)(i == j); // C = I + 2 sym(E)
    Jet I1v = c[0][0] + c[1][1] + c[2][2]; auto bil = [&](bool sq) { Jet t(9); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) { Jet q(9); if (sq) for (size_t k = 0; k < 3; ++k) q = q + c[i][k]*c[k][j]; else q = c[i][j]; t = t + (long double)(f[i])*((long double)(s[j])*q); } return t; }; auto d3 = [&] { return c[0][0]*(c[1][1]*c[2][2]-c[1][2]*c[2][1]) - c[0][1]*(c[1][0]*c[2][2]-c[1][2]*c[2][0]) + c[0][2]*(c[1][0]*c[2][1]-c[1][1]*c[2][0]); };
    switch (r.range(0, 6)) { case 0: { Jet j(9, (long double)f[0]*s[0] + (long double)f[1]*s[1] + (long double)f[2]*s[2]); j.v.e = 4; return put(Ani::Mech::I0fs<FT>(level, f, s), j, "leaf:I0fs"); } case 1: return put(I1<FT>(level, e), I1v, "leaf:I1"); case 2: return put(Ani::Mech::I4fs<FT>(level, e, f, s), bil(false), "leaf:I4fs"); case 3: { Jet t(9); for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) t = t + c[i][k]*c[k][i]; return put(I2<FT>(level, e), 0.5L*(I1v*I1v - t), "leaf:I2"); } case 4: return put(Ani::Mech::I5fs<FT>(level, e, f, s), bil(true), "leaf:I5fs"); case 5: return put(I3<FT>(level, e), d3(), "leaf:I3"); default: return put(J<FT>(level, e), jet::sqrt(d3()), "leaf:J"); } }
  // ---- dispatch over the static types
  template<class Fn> void visit(const Node& n, Fn&& fn) { switch (n.kind) { case P: fn(get<typename KT<S, P>::T>(n)); break; case V: fn(get<typename KT<S, V>::T>(n)); break; case A0: fn(get<AV0<S>>(n)); break; case A1: fn(get<AV1<S>>(n)); break; case A2: fn(get<AV2<S>>(n)); break; default: visitInv<S>(n, fn); } }
  template<class S_, class Fn> typename std::enable_if<!Co<S_>::inv>::type visitInv(const Node&, Fn&&) {}
  template<class S_, class Fn> typename std::enable_if<Co<S_>::inv>::type visitInv(const Node& n, Fn&& fn) { switch (n.kind) { case kI0: fn(get<typename KT<S_, kI0>::T>(n)); break; case kI1: fn(get<typename KT<S_, kI1>::T>(n)); break; case kI4: fn(get<typename KT<S_, kI4>::T>(n)); break; case kI2: fn(get<typename KT<S_, kI2>::T>(n)); break; case kI5: fn(get<typename KT<S_, kI5>::T>(n)); break; case kI3: fn(get<typename KT<S_, kI3>::T>(n)); break; case kJ: fn(get<typename KT<S_, kJ>::T>(n)); break; } }
  // invariants meet Val2 and each other's neighbour only (compile time); everything else meets everything
  template<int K1, int K2> struct Meet { static const bool v = (K1 < NB && K2 < NB) || (K1 >= NB && (K2 == A2 || K2 == kI1 || K2 == kJ)) || (K2 >= NB && (K1 == A2 || K1 == kI4)); };
  template<class A, class B, class Fn> typename std::enable_if<Meet<KindOf<A>::k, KindOf<B>::k>::v>::type call(const A& a, const B& b, Fn&& fn) { fn(a, b); }
  template<class A, class B, class Fn> typename std::enable_if<!Meet<KindOf<A>::k, KindOf<B>::k>::v>::type call(const A&, const B&, Fn&&) {}
  bool ok = true;
  template<class T> void done(const T& x, const Jet& j, const char* op, int k1, int k2) { ok = put(x, j, std::string(op) + ":" + kn[k1] + (k2 >= 0 ? std::string(",") + kn[k2] : "")); }
  // ---- operations
  void binary() { const Node a = r.pick(L), b = r.coin(1, 5) ? a : r.pick(L); int op = r.range(0, 8); const Jet& x = a.j; const Jet& y = b.j; EV xv = x.v, yv = y.v; auto go = [&](auto&& fn) { visit(a, [&](const auto& u) { visit(b, [&](const auto& w) { call(u, w, fn); }); }); }; int k1 = a.kind, k2 = b.kind;
    switch (op) {
      case 0: go([&](const auto& u, const auto& w) { done(u + w, x + y, "add", k1, k2); }); break;
      case 1: go([&](const auto& u, const auto& w) { done(u - w, x - y, "sub", k1, k2); }); break;
      case 2: case 3: go([&](const auto& u, const auto& w) { done(u * w, x * y, "mul", k1, k2); }); break;
      case 4: if (std::fabs(yv.v) < 0.02L) return; go([&](const auto& u, const auto& w) { done(u / w, x / y, "div", k1, k2); }); break;
      case 5: { bool bc = k2 == P || k2 == A0; if (xv.v < 0.02L && !(bc && std::fabs(xv.v) > 0.02L && yv.e == 0 && yv.v == std::floor(yv.v))) return; if (std::fabs(yv.v) > 12 || xv.v > 100) return; Jet j; if (bc) { long double q = yv.v; auto cp = [&](long double z) { EV w = jet::cpow(xv, z); if (yv.e) w.e += std::fabs(w.v*std::log(std::fabs(xv.v)))*yv.e; return w; }; j = jet::chain(x, cp(q), yv*cp(q-1), yv*(yv-EV(1))*cp(q-2)); } else { EV l = jet::log(xv), w = jet::exp(yv*l); w.e += std::fabs(w.v)*3; j = jet::chain2(x, y, w, w*yv/xv, w*l, w*yv*(yv-EV(1))/(xv*xv), w*(yv*l+EV(1))/xv, w*l*l); } go([&](const auto& u, const auto& w) { done(pow(u, w), j, "pow", k1, k2); }); break; }
      case 6: { EV r2 = xv*xv + yv*yv; if (r2.v < 0.01L) return; EV r4 = r2*r2; EV at(std::atan2(xv.v, yv.v), (std::fabs(yv.v)*xv.e + std::fabs(xv.v)*yv.e)/r2.v + 4); if (yv.v < 0 && std::fabs(xv.v) <= 1e3L*eps*(xv.e + 1)) return; Jet j = jet::chain2(x, y, at, yv/r2, -(xv/r2), -(EV(2)*xv*yv/r4), (xv*xv - yv*yv)/r4, EV(2)*xv*yv/r4); go([&](const auto& u, const auto& w) { done(atan2(u, w), j, "atan2", k1, k2); }); break; }
      case 7: { long double d = xv.v - yv.v; if (std::fabs(d) <= 1e3L*eps*(xv.e + yv.e + 1)) return; if (r.coin()) go([&](const auto& u, const auto& w) { done(min(u, w), d < 0 ? x : y, "min", k1, k2); }); else go([&](const auto& u, const auto& w) { done(max(u, w), d > 0 ? x : y, "max", k1, k2); }); break; }
      default: go([&](const auto& u, const auto& w) { FT p = u(), q = w(); ok = m.check((u < w) == (p < q) && (u > w) == (p > q) && (u <= w) == (p <= q) && (u >= w) == (p >= q) && (u == w) == (p == q) && (u != w) == (p != q), "compare", "comparison of %.17g and %.17g", double(p), double(q)); m.obs("comparisons"); }); } }
  void unary() { const Node a = r.pick(L); const Jet& x = a.j; EV v = x.v; int k = a.kind; auto go = [&](auto&& fn) { visit(a, fn); }; FT c = num(); long double cl = c; Jet cj(C::n, c);
    auto U = [&](const char* name, bool dom, auto&& fn, EV f, EV d, EV dd) { if (!dom) return; Jet j = jet::chain(x, f, d, dd); go([&](const auto& u) { this->done(fn(u), j, name, k, -1); }); }; EV one(1), two(2);
    switch (r.range(0, 36)) {
      case 0: go([&](const auto& u) { done(-u, -x, "neg", k, -1); }); break;
      case 1: go([&](const auto& u) { done(u + c, x + cj, "add-const", k, -1); }); break;
      case 2: go([&](const auto& u) { done(c + u, cj + x, "const-add", k, -1); }); break;
      case 3: go([&](const auto& u) { done(u - c, x - cj, "sub-const", k, -1); }); break;
      case 4: go([&](const auto& u) { done(c - u, cj - x, "const-sub", k, -1); }); break;
      case 5: go([&](const auto& u) { done(u * c, x * cj, "mul-const", k, -1); }); break;
      case 6: go([&](const auto& u) { done(c * u, cj * x, "const-mul", k, -1); }); break;
      case 7: if (std::fabs(cl) > 0.01L) go([&](const auto& u) { done(u / c, x / cj, "div-const", k, -1); }); break;
      case 8: if (std::fabs(v.v) > 0.02L) go([&](const auto& u) { done(c / u, cj / x, "const-div", k, -1); }); break;
      case 9: U("sq", true, [](const auto& u) { return sq(u); }, v*v, two*v, two); break;
      case 10: U("cube", true, [](const auto& u) { return cube(u); }, v*v*v, EV(3)*v*v, EV(6)*v); break;
      case 11: case 12: { long q = r.range(-5, 7); if (q < 0 && std::fabs(v.v) < 0.05L) return; if (std::fabs(v.v) > 40 || (v.e > 0 && std::fabs(v.v) < 1e3L*eps*v.e)) return; EV d = q == 0 ? EV(0) : EV(q)*jet::cpow(v, q-1), dd = (q == 0 || q == 1) ? EV(0) : EV(q*(q-1))*jet::cpow(v, q-2); if (r.coin()) U("pow-long", true, [&](const auto& u) { return pow(u, q); }, jet::cpow(v, q), d, dd); else U("pow-int", true, [&](const auto& u) { return pow(u, int(q)); }, jet::cpow(v, q), d, dd); break; }
      case 13: case 14: { FT q = r.coin() ? FT(r.range(-4, 6)) : FT(r.range(-12, 20))/4; long double ql = q; bool in = ql == std::floor(ql), z = v.v == 0 && v.e == 0; if (z ? !(in ? ql >= 0 : ql > 2) : (v.v < 0 ? !(in && v.v < -0.02L) : v.v < 0.02L)) return; if (std::fabs(v.v) > 40 || (v.e > 0 && std::fabs(v.v) < 1e3L*eps*v.e)) return; U("pow-real", true, [&](const auto& u) { return pow(u, q); }, jet::cpow(v, ql), ql == 0 ? EV(0) : EV(ql)*jet::cpow(v, ql-1), (ql == 0 || ql == 1) ? EV(0) : EV(ql)*(EV(ql)-one)*jet::cpow(v, ql-2)); break; }
      case 15: { FT b = FT(r.uni(0.2, 4)); EV l = jet::log(EV(b)); if (std::fabs(v.v) > 6) return; EV w = jet::exp(v*l); U("const-pow", true, [&](const auto& u) { return pow(b, u); }, w, w*l, w*l*l); break; }
      case 16: { EV w = jet::exp(v); U("exp", std::fabs(v.v) < 10, [](const auto& u) { return exp(u); }, w, w, w); break; }
      case 17: { EV w(std::expm1(v.v), std::exp(v.v)*v.e + 2*std::fabs(std::expm1(v.v))); U("expm1", std::fabs(v.v) < 10, [](const auto& u) { return expm1(u); }, w, w + one, w + one); break; }
      case 18: U("log", v.v > 0.02L, [](const auto& u) { return log(u); }, jet::log(v), one/v, -(one/(v*v))); break;
      case 19: U("log1p", v.v > -0.95L, [](const auto& u) { return log1p(u); }, EV(std::log1p(v.v), v.e/(1+v.v) + 2*std::fabs(std::log1p(v.v))), one/(v+one), -(one/((v+one)*(v+one)))); break;
      case 20: { if (v.v < 0.02L) return; EV s_ = jet::sqrt(v); U("sqrt", true, [](const auto& u) { return sqrt(u); }, s_, one/(two*s_), -(one/(EV(4)*s_*v))); break; }
      case 21: { if (std::fabs(v.v) < 0.02L) return; EV s_ = jet::cbrt(v); U("cbrt", true, [](const auto& u) { return cbrt(u); }, s_, one/(EV(3)*s_*s_), -(two/(EV(9)*s_*s_*v))); break; }
      case 22: U("sin", true, [](const auto& u) { return sin(u); }, jet::sin(v), jet::cos(v), -jet::sin(v)); break;
      case 23: U("cos", true, [](const auto& u) { return cos(u); }, jet::cos(v), -jet::sin(v), -jet::cos(v)); break;
      case 24: { EV q = jet::cos(v), t = jet::sin(v)/q; U("tan", std::fabs(q.v) > 0.05L, [](const auto& u) { return tan(u); }, t, one/(q*q), two*t/(q*q)); break; }
      case 25: { EV t = one + v*v; U("atan", true, [](const auto& u) { return atan(u); }, EV(std::atan(v.v), v.e/t.v + 2*std::fabs(std::atan(v.v))), one/t, -(two*v/(t*t))); break; }
      case 26: case 27: { bool as = r.coin(); if (std::fabs(v.v) > 0.95L) return; EV t = jet::sqrt(one - v*v), q = v/((one - v*v)*t); if (as) U("asin", true, [](const auto& u) { return asin(u); }, EV(std::asin(v.v), v.e/t.v + 2*std::fabs(std::asin(v.v))), one/t, q); else U("acos", true, [](const auto& u) { return acos(u); }, EV(std::acos(v.v), v.e/t.v + 2*std::fabs(std::acos(v.v))), -(one/t), -q); break; }
      case 28: U("sinh", std::fabs(v.v) < 10, [](const auto& u) { return sinh(u); }, jet::sinh(v), jet::cosh(v), jet::sinh(v)); break;
      case 29: U("cosh", std::fabs(v.v) < 10, [](const auto& u) { return cosh(u); }, jet::cosh(v), jet::sinh(v), jet::cosh(v)); break;
      case 30: { EV q = jet::cosh(v), t = jet::sinh(v)/q; U("tanh", std::fabs(v.v) < 10, [](const auto& u) { return tanh(u); }, t, one/(q*q), -(two*t/(q*q))); break; }
      case 31: U("abs", std::fabs(v.v) > 1e3L*eps*(v.e + 1), [](const auto& u) { return abs(u); }, EV(std::fabs(v.v), v.e), EV(v.v > 0 ? 1 : -1), EV(0)); break;
      case 32: U("sign", std::fabs(v.v) > 1e3L*eps*(v.e + 1), [](const auto& u) { return sign(u); }, EV(v.v > 0 ? 1 : -1), EV(0), EV(0)); break;
      case 33: go([&](const auto& u) { done(make_ADVal(u), x, "make_ADVal", k, -1); }); break;
      case 34: go([&](const auto& u) { done(make_shell(u), x, "make_shell", k, -1); }); break;
      case 35: hyp(a); break;
      default: compound(a); } }
  void hyp(const Node& a) { std::vector<const Node*> w{&a}; int n = r.range(1, 4); for (int t = 0; t < 30 && int(w.size()) < n; ++t) { auto& b = r.pick(L); if (b.kind == a.kind) w.push_back(&b); } Jet s2(C::n); for (auto* q : w) s2 = s2 + q->j * q->j; if (s2.v.v < 0.01L) return; Jet j = jet::sqrt(s2); std::vector<Node> nodes; for (auto* q : w) nodes.push_back(*q); const Node a0 = nodes[0]; visit(a0, [&](const auto& u) { typedef typename std::decay<decltype(u)>::type T; if (nodes.size() == 2 && r.coin()) { done(Ani::hypot<T>({this->template get<T>(nodes[0]), this->template get<T>(nodes[1])}), j, "hypot2", a0.kind, -1); return; } std::vector<T> v; v.reserve(nodes.size()); for (auto& q : nodes) v.push_back(this->template get<T>(q)); done(Ani::hypot(static_cast<const T*>(v.data()), v.size()), j, nodes.size() == 1 ? "hypot-one" : "hypot", a0.kind, -1); }); }
  template<class T> void comp(T u, const T& w, const Jet& x, const Jet& y, int k, std::integral_constant<int, 2>) { switch (r.range(0, 3)) { case 0: done(u += w, x + y, "+=", k, -1); break; case 1: done(u -= w, x - y, "-=", k, -1); break; case 2: done(u *= w, x * y, "*=", k, -1); break; default: if (std::fabs(y.v.v) > 0.02L) done(u /= w, x / y, "/=", k, -1); } }
  template<class T> void comp(T u, const T& w, const Jet& x, const Jet& y, int k, std::integral_constant<int, 1>) { if (r.coin()) done(u += w, x + y, "+=", k, -1); else done(u -= w, x - y, "-=", k, -1); }
  void compound(const Node& a) { if (a.kind < A0 || a.kind > A2) return; for (int t = 0; t < 10; ++t) { const Node b = r.pick(L); if (b.kind != a.kind) continue; if (a.kind == A0) comp(get<AV0<S>>(a), get<AV0<S>>(b), a.j, b.j, A0, std::integral_constant<int, 2>()); else if (a.kind == A1) comp(get<AV1<S>>(a), get<AV1<S>>(b), a.j, b.j, A1, std::integral_constant<int, 1>()); else comp(get<AV2<S>>(a), get<AV2<S>>(b), a.j, b.j, A2, std::integral_constant<int, 2>()); return; } }
  void run() { int nl = r.range(1, 4), no = r.range(2, 14); for (int i = 0; i < nl && ok; ++i) ok = leaf(); while (ok && L.empty()) ok = leaf(); for (int i = 0; i < no && ok; ++i) { if (r.coin(1, 12)) ok = leaf(); else if (r.coin(5, 9)) binary(); else unary(); } m.distinct(text); }
};
template<class S> static void programs(Mon& m, long n) { run_cases(m, n, [&](long, Rng& r) { m.eval(); Prog<S> p(m, r, r.coin(3, 4) ? 2 : r.range(0, 1)); p.run(); m.obs("programs"); m.obs(fmt("programs of %zu values", p.L.size())); }); }
#if STORE == 0
SECTION(arr1) { programs<Ani::PhysArrStorageSet<1, double>>(m, m.cases(6000, 60000)); }
#elif STORE == 1
SECTION(arr3) { programs<Ani::PhysArrStorageSet<3, double>>(m, m.cases(6000, 60000)); }
#elif STORE == 2
SECTION(arr4l) { programs<Ani::PhysArrStorageSet<4, long double>>(m, m.cases(4000, 40000)); }
#elif STORE == 3
SECTION(sym3) { programs<Ani::PhysSymTensorStorageSet<3, double>>(m, m.cases(2500, 15000)); }
#elif STORE == 4
SECTION(sym2) { programs<Ani::PhysSymTensorStorageSet<2, double>>(m, m.cases(3000, 25000)); }
#elif STORE == 5
SECTION(mtx2) { programs<Ani::PhysTensorStorageSet<2, double>>(m, m.cases(3000, 25000)); }
#elif STORE == 6
SECTION(mtx3) { programs<Ani::PhysTensorStorageSet<3, double>>(m, m.cases(1500, 10000)); }
#endif
