// Independent second-order jets with running error bounds (oracle of T01 and T03).
// EV = value and bound of the rounding error, in units of the unit roundoff of the type under test.
#pragma once
#include <cmath>
#include <vector>
namespace jet {
typedef long double R;
struct EV { R v, e; EV(R v = 0, R e = 0): v(v), e(e) {} };
inline R ab(R x) { return std::fabs(x); }
inline EV operator+(EV a, EV b) { R r = a.v + b.v; return {r, a.e + b.e + ab(r)}; }
inline EV operator-(EV a, EV b) { R r = a.v - b.v; return {r, a.e + b.e + ab(r)}; }
inline EV operator-(EV a) { return {-a.v, a.e}; }
inline EV operator*(EV a, EV b) { R r = a.v * b.v; return {r, ab(a.v)*b.e + ab(b.v)*a.e + 1.2e-16L*a.e*b.e + ab(r)}; }
inline EV operator/(EV a, EV b) { R r = a.v / b.v; return {r, a.e/ab(b.v) + ab(r/b.v)*b.e + ab(r)}; }
inline EV f1(EV a, R f, R d) { return {f, ab(d)*a.e + 2*ab(f)}; }
inline EV exp(EV a) { R f = std::exp(a.v); return f1(a, f, f); }
inline EV log(EV a) { return f1(a, std::log(a.v), 1/a.v); }
inline EV sqrt(EV a) { R f = std::sqrt(a.v); return f1(a, f, a.e ? 1/(2*f) : 0); }
inline EV cbrt(EV a) { R f = std::cbrt(a.v); return f1(a, f, 1/(3*f*f)); }
inline EV sin(EV a) { return f1(a, std::sin(a.v), std::cos(a.v)); }
inline EV cos(EV a) { return f1(a, std::cos(a.v), std::sin(a.v)); }
inline EV sinh(EV a) { return f1(a, std::sinh(a.v), std::cosh(a.v)); }
inline EV cosh(EV a) { return f1(a, std::cosh(a.v), std::sinh(a.v)); }
inline EV cpow(EV a, R q) { if (q == 0) return EV(1); R f = std::pow(a.v, q); return {f, (a.e ? ab(q*std::pow(a.v, q-1))*a.e : 0) + (3 + ab(q))*ab(f)}; }
struct Jet { int n; EV v; std::vector<EV> g, H; explicit Jet(int n = 0, R c = 0): n(n), v(c), g(size_t(n)), H(size_t(n)*size_t(n)) {} EV& h(int i, int j) { return H[size_t(i*n+j)]; } EV h(int i, int j) const { return H[size_t(i*n+j)]; } };
inline Jet var(int n, int i, R x) { Jet r(n, x); r.g[size_t(i)] = EV(1); return r; }
// f(a) with derivatives f, f', f''
inline Jet chain(const Jet& a, EV f, EV d, EV dd) { Jet r(a.n); r.v = f; for (int i = 0; i < a.n; ++i) r.g[size_t(i)] = d*a.g[size_t(i)]; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) r.h(i,j) = d*a.h(i,j) + dd*(a.g[size_t(i)]*a.g[size_t(j)]); return r; }
// f(a,b) with partial derivatives
inline Jet chain2(const Jet& a, const Jet& b, EV f, EV fa, EV fb, EV faa, EV fab, EV fbb) { Jet r(a.n); r.v = f; for (int i = 0; i < a.n; ++i) r.g[size_t(i)] = fa*a.g[size_t(i)] + fb*b.g[size_t(i)]; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) { EV ai = a.g[size_t(i)], aj = a.g[size_t(j)], bi = b.g[size_t(i)], bj = b.g[size_t(j)]; r.h(i,j) = fa*a.h(i,j) + fb*b.h(i,j) + faa*(ai*aj) + fab*(ai*bj + bi*aj) + fbb*(bi*bj); } return r; }
inline Jet operator+(const Jet& a, const Jet& b) { return chain2(a, b, a.v + b.v, 1, 1, 0, 0, 0); }
inline Jet operator-(const Jet& a, const Jet& b) { return chain2(a, b, a.v - b.v, 1, -1, 0, 0, 0); }
inline Jet operator*(const Jet& a, const Jet& b) { return chain2(a, b, a.v * b.v, b.v, a.v, 0, 1, 0); }
inline Jet operator/(const Jet& a, const Jet& b) { return chain2(a, b, a.v / b.v, EV(1)/b.v, -(a.v/(b.v*b.v)), 0, -(EV(1)/(b.v*b.v)), EV(2)*a.v/(b.v*b.v*b.v)); }
inline Jet operator-(const Jet& a) { return chain(a, -a.v, -1, 0); }
inline Jet operator+(const Jet& a, R c) { return a + Jet(a.n, c); }
inline Jet operator*(R c, const Jet& a) { return Jet(a.n, c) * a; }
inline Jet sqrt(const Jet& a) { EV s = sqrt(a.v); return chain(a, s, EV(1)/(EV(2)*s), -(EV(1)/(EV(4)*s*a.v))); }
}
