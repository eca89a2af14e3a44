// T02: tensor types against dense arrays in long double. DIM selects the dimension of this translation unit.
#include "mon.h"
#include "anifem++/autodiff/physical_tensors.h"
using namespace Ani; using namespace mon; typedef long double L; typedef std::vector<L> V;
template<class F> static L eps() { return std::max(L(std::numeric_limits<F>::epsilon()), L(std::numeric_limits<double>::epsilon())); }
template<int N> static std::vector<std::array<size_t, 4>> cells(int rank) { std::vector<std::array<size_t, 4>> c; int n = rank == 2 ? N*N : N*N*N*N; for (int q = 0; q < n; ++q) { std::array<size_t, 4> a{}; int t = q; for (int k = rank-1; k >= 0; --k) { a[k] = t % N; t /= N; } c.push_back(a); } return c; }
typedef std::array<size_t, 4> Ix;
enum Sy { NONE, SYM, PAIR, BI }; // symmetry of storage
static Ix canon(Ix a, Sy s) { if (s == SYM && a[0] > a[1]) std::swap(a[0], a[1]); if (s == BI) { if (a[0] > a[1]) std::swap(a[0], a[1]); if (a[2] > a[3]) std::swap(a[2], a[3]); } if (s == PAIR || s == BI) if (std::make_pair(a[0], a[1]) > std::make_pair(a[2], a[3])) { std::swap(a[0], a[2]); std::swap(a[1], a[3]); } return a; }
template<class T> static auto get2(T&& t, const Ix& a) -> decltype(t(a[0], a[1])) { return t(a[0], a[1]); }
template<class T> static auto get4(T&& t, const Ix& a) -> decltype(t(a[0], a[1], a[2], a[3])) { return t(a[0], a[1], a[2], a[3]); }
template<int R> struct Acc; template<> struct Acc<2> { template<class T> static decltype(auto) at(T&& t, const Ix& a) { return t(a[0], a[1]); } template<class T> static decltype(auto) at2(T&& t, const Ix& a, int k) { if (k == 0) return t(std::array<size_t, 1>{{a[0]}}, std::array<size_t, 1>{{a[1]}}); return t(std::array<size_t, 2>{{a[0], a[1]}}); } };
template<> struct Acc<4> { template<class T> static decltype(auto) at(T&& t, const Ix& a) { return t(a[0], a[1], a[2], a[3]); } template<class T> static decltype(auto) at2(T&& t, const Ix& a, int k) { if (k == 0) return t(std::array<size_t, 2>{{a[0], a[1]}}, std::array<size_t, 2>{{a[2], a[3]}}); return t(a); } };
template<int N, int R, class T> static V dense(const T& t) { V v; for (auto& c : cells<N>(R)) v.push_back(Acc<R>::at(t, c)); return v; }
template<class I> static Ix ix(I q, int R) { Ix a{}; for (int k = 0; k < R; ++k) a[k] = q[k]; return a; }
// element access, layout, duplication and iterators of one storage type
template<class I> static I mk(const Ix& w, std::integral_constant<int, 2>) { return I(w[0], w[1]); } template<class I> static I mk(const Ix& w, std::integral_constant<int, 4>) { return I(w[0], w[1], w[2], w[3]); }
template<int N, int R, Sy S, class T, bool iters> struct Store { static void go(Mon& m, Rng& r, const char* name) { auto cs = cells<N>(R); std::string key = std::string("store:") + name; m.key(key); m.desc("%s<%d>", name, N); m.eval();
    T t; const T& ct = t; for (auto& c : cs) m.check(Acc<R>::at(ct, c) == 0, key + ":zero", "%s<%d> is not zero at first", name, N); const Ix& w = r.pick(cs); int how = r.range(0, 2); if (how == 0) Acc<R>::at(t, w) = 3; else Acc<R>::at2(t, w, how-1) = 3;
    long cnt = 0; for (auto& c : cs) { bool cls = canon(c, S) == canon(w, S); cnt += cls; double v = double(Acc<R>::at(ct, c)); m.check(v == (cls ? 3 : 0) && double(Acc<R>::at2(ct, c, 0)) == v && double(Acc<R>::at2(ct, c, 1)) == v && double(Acc<R>::at2(t, c, 0)) == v, key, "%s<%d>: after writing (%zu%zu%zu%zu) the element (%zu%zu%zu%zu) is %g", name, N, w[0], w[1], w[2], w[3], c[0], c[1], c[2], c[3], v); }
    size_t sz = t.continuous_size(); m.check(t.rank() == R, key, "rank"); long hit = -1, dup = 0; for (size_t k = 0; k < sz; ++k) { dup += long(t.index_duplication(k)); if (ct[k] != 0) { m.check(hit < 0, key, "%s<%d>: one element is stored twice", name, N); hit = long(k); m.check(long(t.index_duplication(k)) == cnt, key + ":duplication", "%s<%d>: element (%zu%zu%zu%zu) counted %zu times instead of %ld", name, N, w[0], w[1], w[2], w[3], size_t(t.index_duplication(k)), cnt); } } m.check(hit >= 0, key, "%s<%d>: element not in the storage", name, N); m.check(dup == long(cs.size()), key + ":duplication", "%s<%d>: %ld elements instead of %zu", name, N, dup, cs.size()); m.distinct(fmt("%s%d/%ld", name, N, hit)); m.obs("elements written"); iter(m, r, name, key, t, w, hit, std::integral_constant<bool, iters>()); }
    template<class TT> static void iter(Mon&, Rng&, const char*, const std::string&, TT&, const Ix&, long, std::false_type) {}
    template<class TT> static void iter(Mon& m, Rng& r, const char* name, const std::string& key, TT& t, const Ix& w, long hit, std::true_type) { const TT& ct = t; long sz = long(t.continuous_size()); auto q = mk<typename TT::Index>(w, std::integral_constant<int, R>()); m.check(ix(q, R) == canon(w, S), key + ":index", "%s<%d>: canonical index of (%zu%zu%zu%zu)", name, N, w[0], w[1], w[2], w[3]); m.check(long(TT::continuous_index(q)) == hit, key + ":index", "%s<%d>: place of (%zu%zu%zu%zu) is %zu instead of %ld", name, N, w[0], w[1], w[2], w[3], size_t(TT::continuous_index(q)), hit); m.check(TT::index(hit) == q, key + ":index", "%s<%d>: index of place %ld is (%zu%zu..)", name, N, hit, TT::index(hit)[0], TT::index(hit)[1]); m.check(t[q] == 3 && ct[q] == 3, key + ":index", "%s<%d>: access by index", name, N);
        auto b = t.begin(), e = t.end(); auto cb = ct.begin(); auto ce = t.cend(); m.check(e - b == sz && ce - cb == sz, key + ":distance", "%s<%d>: distance of the ends is %ld instead of %ld", name, N, long(e-b), sz); long k = 0; for (auto it = ct.begin(); it != ct.end(); ++it, ++k) { m.check(it.index() == TT::index(k) && long(it.continuous_index()) == k && *it == ct[size_t(k)] && &*it == &*(cb+k), key + ":iterate", "%s<%d>: place %ld", name, N, k); if (k > 2*sz) break; } m.check(k == sz, key + ":iterate", "%s<%d>: %ld steps", name, N, k);
        for (int s = 0; s < 6; ++s) { long i = r.range(0, int(sz)-1), j = r.range(0, int(sz)); auto x = b+i, y = b; y += j; bool ok = (y-x == j-i) && ((x < y) == (i < j)) && ((x > y) == (i > j)) && ((x <= y) == (i <= j)) && ((x >= y) == (i >= j)) && ((x == y) == (i == j)) && ((x != y) == (i != j)); m.check(ok, key + ":compare", "%s<%d>: places %ld and %ld: difference %ld", name, N, i, j, long(y-x)); if (j < sz) m.check(&x[j-i] == &t[size_t(j)], key + ":subscript", "%s<%d>: iterator at %ld, offset %ld", name, N, i, j-i); auto z = x++; m.check(z == b+i && x == b+(i+1), key + ":step", "++"); z = x--; m.check(z == b+(i+1) && x == 1+b+(i-1) && x-i == b, key + ":step", "--"); auto u = x; u -= i; m.check(u == b && --x == b+(i-1) , key + ":step", "-="); } m.obs("iterator walks"); } };
static bool cmpV(Mon& m, const std::string& key, const V& g, const V& w, const V& mag, L tol) { if (!m.check(g.size() == w.size(), key, "%zu values instead of %zu", g.size(), w.size())) return false; for (size_t i = 0; i < g.size(); ++i) if (!m.check(std::fabs(g[i]-w[i]) <= tol*mag[i], key, "element %zu is %.12Lg instead of %.12Lg", i, g[i], w[i])) return false; m.obs("results compared"); return true; }
static V absV(const V& a) { V r(a); for (auto& x : r) x = std::fabs(x); return r; }
static V lin(const V& a, L s, const V& b) { V r(a); for (size_t i = 0; i < a.size(); ++i) r[i] += s*b[i]; return r; }
static L dotV(const V& a, const V& b) { L s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i]*b[i]; return s; }
static L det(const V& a, int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; L d = 0; do { int inv = 0; L t = 1; for (int i = 0; i < n; ++i) { t *= a[i*n+p[i]]; for (int j = 0; j < i; ++j) inv += p[j] > p[i]; } d += inv & 1 ? -t : t; } while (std::next_permutation(p.begin(), p.end())); return d; }
static V mul(const V& a, const V& b, int n) { V c(n*n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) c[i*n+j] += a[i*n+k]*b[k*n+j]; return c; }
// sums, products by numbers, contractions: any type
template<int N, int R, class T, class F> static void linear(Mon& m, Rng& r, const char* name, T (*rnd)(Rng&, F)) { F sc = std::pow(F(10), F(sizeof(F) == 4 ? r.range(-3, 3) : r.range(-9, 9))); T a = rnd(r, sc), b = rnd(r, sc); F s = F(r.sym()*3); if (std::fabs(s) < 0.1f) s = 2; V A = dense<N, R>(a), B = dense<N, R>(b), aA = absV(A), aB = absV(B), mm = lin(aA, 1, aB); L e = 4*eps<F>(); std::string k = std::string("linear:") + name; m.key(k); m.desc("%s<%d> scale %g", name, N, double(sc)); m.eval(); m.distinct(fmt("lin%s%d%zu/%g", name, N, sizeof(F), double(sc))); V Z(A.size(), 0); T c;
    cmpV(m, k + ":+", dense<N, R>(a + b), lin(A, 1, B), mm, e); cmpV(m, k + ":-", dense<N, R>(a - b), lin(A, -1, B), mm, e); cmpV(m, k + ":neg", dense<N, R>(-a), lin(Z, -1, A), aA, 0); cmpV(m, k + ":*", dense<N, R>(a*s), lin(Z, s, A), aA, 4*e); cmpV(m, k + ":c*", dense<N, R>(s*a), lin(Z, s, A), aA, 4*e); cmpV(m, k + ":/", dense<N, R>(a/s), lin(Z, 1/L(s), A), aA, 40*e); c = a; c += b; cmpV(m, k + ":+=", dense<N, R>(c), lin(A, 1, B), mm, e); c = a; c -= b; cmpV(m, k + ":-=", dense<N, R>(c), lin(A, -1, B), mm, e); c = a; c *= s; cmpV(m, k + ":*=", dense<N, R>(c), lin(Z, s, A), aA, 4*e); c = a; c /= s; cmpV(m, k + ":/=", dense<N, R>(c), lin(Z, 1/L(s), A), aA, 40*e); c = a; c += c; cmpV(m, k + ":self", dense<N, R>(c), lin(A, 1, A), aA, e); c = a; c -= c; cmpV(m, k + ":self", dense<N, R>(c), Z, aA, 0);
    L n2 = A.size(); cmpV(m, k + ":Dot", V{L(a.Dot(b))}, V{dotV(A, B)}, V{dotV(aA, aB)}, n2*e); cmpV(m, k + ":Frob", V{L(a.SquareFrobNorm())}, V{dotV(A, A)}, V{dotV(A, A)}, n2*e); cmpV(m, k + ":unchanged", dense<N, R>(a), A, aA, 0); }
template<int N, class F> static PhysMtx<N, F> rM(Rng& r, F sc) { PhysMtx<N, F> a; int k = r.range(0, 5); std::vector<int> p(N); for (int i = 0; i < N; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) a(i, j) = sc*(k == 0 ? F(p[i] == j) : k == 1 ? F(r.range(-2, 2)) : k == 2 && i == j ? F(0) : F(r.sym())); return a; }
template<int N, class F> static SymMtx<N, F> rS(Rng& r, F sc) { SymMtx<N, F> a; int k = r.range(0, 5), d = N > 1 && r.coin(); for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) a(i, j) = sc*(k == 0 ? F((i+j == N-1)*(r.coin() ? 1 : -1)) : k == 1 ? F(r.range(-2, 2)) : k == 2 && d && i == j ? F(0) : F(r.sym())); return a; }
template<int N, class F> static PhysArr<N, F> rV(Rng& r, F sc) { PhysArr<N, F> a; for (auto& x : a) x = sc*F(r.coin(1, 6) ? 0 : r.sym()); return a; }
template<int N, class F> static Tensor4Rank<N, F> rT(Rng& r, F sc) { Tensor4Rank<N, F> t; for (auto& x : t.m_dat) x = sc*F(r.sym()); return t; }
template<int N, class F> static SymTensor4Rank<N, F> rP(Rng& r, F sc) { SymTensor4Rank<N, F> t; for (auto& x : t.m_dat) x = sc*F(r.sym()); return t; }
template<int N, class F> static BiSymTensor4Rank<N, F> rB(Rng& r, F sc) { BiSymTensor4Rank<N, F> t; for (auto& x : t.m_dat) x = sc*F(r.sym()); return t; }
template<int N, class F> struct Only3 { static void go(Mon&, Rng&) {} };
template<class F> struct Only3<3, F> { static void go(Mon& m, Rng& r) { PhysMtx<3, F> a = rM<3, F>(r, F(1)); SymMtx<3, F> s = rS<3, F>(r, F(1)); m.key("adj"); m.eval(); auto ad = [&](const V& A) { V c(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int i1 = (i+1)%3, i2 = (i+2)%3, j1 = (j+1)%3, j2 = (j+2)%3; c[j*3+i] = A[i1*3+j1]*A[i2*3+j2] - A[i1*3+j2]*A[i2*3+j1]; } return c; }; V o(9, 4); cmpV(m, "adj:matrix", dense<3, 2>(a.Adj()), ad(dense<3, 2>(a)), o, 8*eps<F>()); cmpV(m, "adj:symmetric", dense<3, 2>(s.Adj()), ad(dense<3, 2>(s)), o, 8*eps<F>());
        auto I = BiSymTensor4Rank<3, F>::Identity(F(2)); V w; for (auto& c : cells<3>(4)) w.push_back(L((c[0] == c[2] && c[1] == c[3]) + (c[0] == c[3] && c[1] == c[2]))); cmpV(m, "bi:identity", dense<3, 4>(I), w, V(81, 1), 0); } };
template<int N, class F> static void matrix(Mon& m, Rng& r) { F sc = std::pow(F(10), F(sizeof(F) == 4 ? r.range(-3, 3) : r.range(-12, 12))); PhysMtx<N, F> a = rM<N, F>(r, sc), b = rM<N, F>(r, sc); SymMtx<N, F> s = rS<N, F>(r, sc), t = rS<N, F>(r, sc); PhysArr<N, F> u = rV<N, F>(r, F(1)), v = rV<N, F>(r, F(1)); V A = dense<N, 2>(a), B = dense<N, 2>(b), S = dense<N, 2>(s), T = dense<N, 2>(t), U(u.begin(), u.end()), W(v.begin(), v.end()); L e = eps<F>(), q = L(sc)*3*N; m.key("matrix"); m.desc("matrices %dx%d scale %g", N, N, double(sc)); m.eval(); m.distinct(fmt("m%d%zu/%g/%g", N, sizeof(F), double(sc), double(A[0]))); V one(N*N, 1), q2(N*N, q*q), q1(N*N, q); auto D = [](auto&& x) { return dense<N, 2>(x); };
    cmpV(m, "trace", V{L(a.Trace()), L(s.Trace())}, V{[&] { L x = 0; for (int i = 0; i < N; ++i) x += A[i*N+i]; return x; }(), [&] { L x = 0; for (int i = 0; i < N; ++i) x += S[i*N+i]; return x; }()}, V{q, q}, 4*N*e);
    V At(N*N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) At[i*N+j] = A[j*N+i]; cmpV(m, "transpose", D(a.Transpose()), At, q1, 0); cmpV(m, "transpose:sym", D(s.Transpose()), S, q1, 0); V Sy(N*N); for (int i = 0; i < N*N; ++i) Sy[i] = (A[i]+At[i])/2; cmpV(m, "sym", D(a.Sym()), Sy, q1, 2*e);
    cmpV(m, "product:MM", D(a*b), mul(A, B, N), q2, 4*N*e); cmpV(m, "product:MS", D(a*s), mul(A, S, N), q2, 4*N*e); cmpV(m, "product:SM", D(s*a), mul(S, A, N), q2, 4*N*e); { SymMtx<N, F> c; F k0 = F(r.sym())*sc, k1 = F(r.sym()); for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) c(i, j) = k1*s(i, j) + (i == j ? k0 : F(0)); cmpV(m, "product:SS", D(s*c), mul(S, dense<N, 2>(c), N), q2, 20*N*e); cmpV(m, "product:SS", D(c*s), mul(S, dense<N, 2>(c), N), q2, 20*N*e); cmpV(m, "product:SS", D(s*s), mul(S, S, N), q2, 4*N*e); }
    cmpV(m, "sum:M+S", D(a+s), lin(A, 1, S), q1, 2*e); cmpV(m, "sum:S+M", D(s+a), lin(A, 1, S), q1, 2*e); cmpV(m, "sum:M-S", D(a-s), lin(A, -1, S), q1, 2*e); cmpV(m, "sum:S-M", D(s-a), lin(S, -1, A), q1, 2*e);
    V Au(N, 0), Su(N, 0); L uav = 0, usv = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { Au[i] += A[i*N+j]*U[j]; Su[i] += S[i*N+j]*U[j]; uav += A[i*N+j]*U[i]*W[j]; usv += S[i*N+j]*U[i]*W[j]; } std::array<F, N> ua = u; auto VV = [](auto x) { return V(x.begin(), x.end()); }; V qn(N, q); cmpV(m, "mul:M", VV(a.Mul(u)), Au, qn, 4*N*e); cmpV(m, "mul:S", VV(s.Mul(u)), Su, qn, 4*N*e); cmpV(m, "mul:array", VV(a.Mul(ua)), Au, qn, 4*N*e); cmpV(m, "mul:array", VV(s.Mul(ua)), Su, qn, 4*N*e); cmpV(m, "form:M", V{L(a.Dot(u, v))}, V{uav}, V{q*N}, 8*N*e); cmpV(m, "form:S", V{L(s.Dot(u, v))}, V{usv}, V{q*N}, 8*N*e);
    V uv(N*N), uu(N*N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { uv[i*N+j] = U[i]*W[j] + U[j]*W[i]; uu[i*N+j] = U[i]*U[j]; } cmpV(m, "tensor:M", D(PhysMtx<N, F>::TensorSymMul2(u, v)), uv, one, 8*e); cmpV(m, "tensor:S", D(SymMtx<N, F>::TensorSymMul2(u, v)), uv, one, 8*e); cmpV(m, "square:M", D(PhysMtx<N, F>::TensorSquare(u)), uu, one, 4*e); cmpV(m, "square:S", D(SymMtx<N, F>::TensorSquare(u)), uu, one, 4*e);
    V I(N*N, 0); for (int i = 0; i < N; ++i) I[i*N+i] = 5; cmpV(m, "identity", D(PhysMtx<N, F>::Identity(5)), I, one, 0); cmpV(m, "identity", D(SymMtx<N, F>::Identity(5)), I, one, 0); F cm[N*N], rm[N*N]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) cm[i+N*j] = rm[i*N+j] = a(i, j); cmpV(m, "construct", D(PhysMtx<N, F>(cm, false)), A, one, 0); cmpV(m, "construct", D(PhysMtx<N, F>(rm)), A, one, 0); cmpV(m, "construct", D(PhysMtx<N, F>(a.m_dat, false)), At, one, 0); cmpV(m, "construct", D(PhysMtx<N, F>(s)), S, one, 0);
    // determinant, inverse
    auto hada = [&](const V& x) { L p = 1; for (int j = 0; j < N; ++j) { L c = 0; for (int i = 0; i < N; ++i) c += x[i*N+j]*x[i*N+j]; p *= std::sqrt(c); } return p; }; L ha = hada(A), hs = hada(S), da = det(A, N), ds = det(S, N); cmpV(m, "det:M", V{L(a.Det())}, V{da}, V{ha}, 100*N*N*N*e); cmpV(m, "det:S", V{L(s.Det())}, V{ds}, V{hs}, 100*N*N*N*e); if (da == 0) m.obs("singular matrices"); if (std::fabs(da) > 1e-2L*ha) { auto x = a.Inv(); V X = D(x); V P = mul(A, X, N); for (auto& z : I) z /= 5; cmpV(m, "inverse:M", P, I, one, 1e5*N*N*e); for (auto& z : I) z *= 5; m.obs("inverses"); } if (std::fabs(ds) > 1e-2L*hs) { auto x = s.Inv(); V P = mul(S, D(x), N); for (auto& z : I) z /= 5; cmpV(m, "inverse:S", P, I, one, 1e5*N*N*e); m.obs("inverses"); }
    // conversions
    cmpV(m, "convert:S>M", D(tensor_convert<PhysMtx<N, F>>(s)), S, one, 0); cmpV(m, "convert:M>S", D(tensor_convert<SymMtx<N, F>>(PhysMtx<N, F>(s))), S, one, 0); auto av = tensor_convert<PhysArr<N*N, F>>(a); cmpV(m, "convert:M>V", VV(av), A, one, 0); cmpV(m, "convert:V>M", D(tensor_convert<PhysMtx<N, F>>(av)), A, one, 0); auto sv = tensor_convert<PhysArr<N*N, F>>(s); cmpV(m, "convert:S>V", VV(sv), S, one, 0); cmpV(m, "convert:V>S", D(tensor_convert<SymMtx<N, F>>(sv)), S, one, 0); cmpV(m, "convert:M>M", D(tensor_convert<PhysMtx<N, F>>(a)), A, one, 0); }
template<int N, class F> struct Packed { static void go(Mon& m, Rng& r) { SymMtx<N, F> s = rS<N, F>(r, F(1)); V S = dense<N, 2>(s), one(N*N*N*N, 1); auto p = tensor_convert<PhysArr<N*(N+1)/2, F>>(s); cmpV(m, "convert:S>packed", dense<N, 2>(tensor_convert<SymMtx<N, F>>(p)), S, one, 0); size_t k = 0; for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j, ++k) m.check(L(p[k]) == S[i*N+j], "convert:packed-order", "place %zu", k); cmpV(m, "construct:packed", dense<N, 2>(SymMtx<N, F>(p)), S, one, 0);
    auto t = rT<N, F>(r, F(1)); auto q = rP<N, F>(r, F(1)); auto b = rB<N, F>(r, F(1)); auto D = [](auto&& x) { return dense<N, 4>(x); }; cmpV(m, "convert:T>V>T", D(tensor_convert<Tensor4Rank<N, F>>(tensor_convert<PhysArr<N*N*N*N, F>>(t))), D(t), one, 0); cmpV(m, "convert:P>V>P", D(tensor_convert<SymTensor4Rank<N, F>>(tensor_convert<PhysArr<N*N*(N*N+1)/2, F>>(q))), D(q), one, 0); const int K = N*(N+1)/2; cmpV(m, "convert:B>V>B", D(tensor_convert<BiSymTensor4Rank<N, F>>(tensor_convert<PhysArr<K*(K+1)/2, F>>(b))), D(b), one, 0); lower(m, r, std::integral_constant<bool, N != 3>()); }
    static void lower(Mon& m, Rng& r, std::true_type) { std::array<F, N*(N+1)/2> lo; SymMtx<N, F> s = rS<N, F>(r, F(1)); int k = 0; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) lo[k++] = s(i, j); cmpV(m, "construct:lower", dense<N, 2>(SymMtx<N, F>(lo, false)), dense<N, 2>(s), V(N*N, 1), 0); cmpV(m, "construct:upper", dense<N, 2>(SymMtx<N, F>(s.m_dat, true)), dense<N, 2>(s), V(N*N, 1), 0); } static void lower(Mon&, Rng&, std::false_type) {} };
template<class F> struct Packed<1, F> { static void go(Mon&, Rng&) {} };
template<int N, class F> static void four(Mon& m, Rng& r) { m.key("four"); m.desc("fourth rank, dimension %d", N); m.eval(); PhysMtx<N, F> a = rM<N, F>(r, F(1)), b = rM<N, F>(r, F(1)); SymMtx<N, F> s = rS<N, F>(r, F(1)), t = rS<N, F>(r, F(1)); V A = dense<N, 2>(a), B = dense<N, 2>(b), S = dense<N, 2>(s), T = dense<N, 2>(t), one(N*N*N*N, 4); L e = eps<F>(); m.distinct(fmt("f%d%zu/%g", N, sizeof(F), double(A[0]))); auto D = [](auto&& x) { return dense<N, 4>(x); }; auto sq = [&](const V& x) { V o; for (L p : x) for (L q : x) o.push_back(p*q); return o; }; auto sy = [&](const V& x, const V& y) { V o; for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) o.push_back(x[i]*y[j] + y[i]*x[j]); return o; };
    cmpV(m, "square4:T", D(Tensor4Rank<N, F>::TensorSquare(a)), sq(A), one, 2*e); cmpV(m, "square4:T", D(Tensor4Rank<N, F>::TensorSquare(s)), sq(S), one, 2*e); cmpV(m, "tensor4:T", D(Tensor4Rank<N, F>::TensorSymMul2(a, b)), sy(A, B), one, 8*e); cmpV(m, "tensor4:T", D(Tensor4Rank<N, F>::TensorSymMul2(s, t)), sy(S, T), one, 8*e); cmpV(m, "square4:P", D(SymTensor4Rank<N, F>::TensorSquare(a)), sq(A), one, 2*e); cmpV(m, "square4:P", D(SymTensor4Rank<N, F>::TensorSquare(s)), sq(S), one, 2*e); cmpV(m, "tensor4:P", D(SymTensor4Rank<N, F>::TensorSymMul2(a, b)), sy(A, B), one, 8*e); cmpV(m, "tensor4:P", D(SymTensor4Rank<N, F>::TensorSymMul2(s, t)), sy(S, T), one, 8*e); cmpV(m, "square4:B", D(BiSymTensor4Rank<N, F>::TensorSquare(s)), sq(S), one, 2*e); cmpV(m, "tensor4:B", D(BiSymTensor4Rank<N, F>::TensorSymMul2(s, t)), sy(S, T), one, 8*e);
    auto p = rP<N, F>(r, F(1)); auto q = rB<N, F>(r, F(1)); auto tp = tensor_convert<Tensor4Rank<N, F>>(p); auto tq = tensor_convert<Tensor4Rank<N, F>>(q); auto pq = tensor_convert<SymTensor4Rank<N, F>>(q); cmpV(m, "convert4:P>T", D(tp), D(p), one, 0); cmpV(m, "convert4:T>P", D(tensor_convert<SymTensor4Rank<N, F>>(tp)), D(p), one, 0); cmpV(m, "convert4:B>T", D(tq), D(q), one, 0); cmpV(m, "convert4:T>B", D(tensor_convert<BiSymTensor4Rank<N, F>>(tq)), D(q), one, 0); cmpV(m, "convert4:B>P", D(pq), D(q), one, 0); cmpV(m, "convert4:P>B", D(tensor_convert<BiSymTensor4Rank<N, F>>(pq)), D(q), one, 0);
    const int K = N*(N+1)/2; auto sm = tensor_convert<SymMtx<K, F>>(q); cmpV(m, "convert4:B>S>B", D(tensor_convert<BiSymTensor4Rank<N, F>>(sm)), D(q), one, 0); std::vector<std::pair<int, int>> pr; for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) pr.push_back({i, j}); for (int I = 0; I < K; ++I) for (int J = 0; J < K; ++J) m.check(sm(I, J) == q(pr[I].first, pr[I].second, pr[J].first, pr[J].second), "convert4:B>S", "(%d,%d)", I, J); }
typedef double Fd; typedef float Ff;
template<class F> static void stores(Mon& m, Rng& r, int k) { const int N = DIM; switch (k) { case 0: Store<N, 2, SYM, SymMtx<N, F>, true>::go(m, r, "SymMtx"); break; case 1: Store<N, 2, NONE, PhysMtx<N, F>, false>::go(m, r, "PhysMtx"); break; case 2: Store<N, 4, NONE, Tensor4Rank<N, F>, false>::go(m, r, "Tensor4Rank"); break; case 3: Store<N, 4, PAIR, SymTensor4Rank<N, F>, true>::go(m, r, "SymTensor4Rank"); break; default: Store<N, 4, BI, BiSymTensor4Rank<N, F>, true>::go(m, r, "BiSymTensor4Rank"); } }
template<class F> static void lins(Mon& m, Rng& r, int k) { const int N = DIM; switch (k) { case 0: linear<N, 2, SymMtx<N, F>, F>(m, r, "SymMtx", rS<N, F>); break; case 1: linear<N, 2, PhysMtx<N, F>, F>(m, r, "PhysMtx", rM<N, F>); break; case 2: linear<N, 4, Tensor4Rank<N, F>, F>(m, r, "Tensor4Rank", rT<N, F>); break; case 3: linear<N, 4, SymTensor4Rank<N, F>, F>(m, r, "SymTensor4Rank", rP<N, F>); break; default: linear<N, 4, BiSymTensor4Rank<N, F>, F>(m, r, "BiSymTensor4Rank", rB<N, F>); } }
#define CC2(a, b) a##b
#define CC(a, b) CC2(a, b)
#define SEC2(a) SECTION(a)
#define SEC(a) SEC2(a)
SEC(CC(store, DIM)) { run_cases(m, m.cases(500, 10000), [&](long c, Rng& r) { stores<double>(m, r, int(c % 5)); }); }
SEC(CC(linear, DIM)) { run_cases(m, m.cases(300, 10000), [&](long c, Rng& r) { if (c % 3 == 2) lins<float>(m, r, int(c/3 % 5)); else lins<double>(m, r, int(c % 5)); }); }
SEC(CC(matrix, DIM)) { run_cases(m, m.cases(1200, 40000), [&](long c, Rng& r) { if (c % 3 == 2) matrix<DIM, float>(m, r); else matrix<DIM, double>(m, r); }); }
SEC(CC(four, DIM)) { run_cases(m, m.cases(200, 5000), [&](long, Rng& r) { four<DIM, double>(m, r); Packed<DIM, double>::go(m, r); Only3<DIM, double>::go(m, r); }); }
SEC(CC(vector, DIM)) { run_cases(m, m.cases(300, 5000), [&](long, Rng& r) { const int N = DIM; auto u = rV<N, double>(r, 3.), v = rV<N, double>(r, 3.); double s = r.range(1, 9)/4.; m.key("vector"); m.eval(); PhysArr<N> z; for (double x : z) m.check(x == 0, "vector:zero", "not zero"); PhysArr<N> il{1.5}; for (int i = 0; i < N; ++i) m.check(il[i] == (i ? 0 : 1.5), "vector:list", "element %d", i); auto a = u+v, b = u-v, c = -u, d = u*s, e = s*u, f = u/s, g = u; g += v; auto h = u; h -= v; L dt = 0, nn = 0; for (int i = 0; i < N; ++i) { dt += L(u[i])*v[i]; nn += L(u[i])*u[i]; m.check(a[i] == u[i]+v[i] && b[i] == u[i]-v[i] && c[i] == -u[i] && d[i] == u[i]*s && e[i] == d[i] && std::fabs(f[i]-u[i]/s) < 1e-14 && g[i] == a[i] && h[i] == b[i] && u(std::array<size_t, 1>{{size_t(i)}}) == u[i], "vector", "element %d", i); } m.check(std::fabs(u.Dot(v)-dt) < 1e-13 && std::fabs(u.SquareFrobNorm()-nn) < 1e-13, "vector:dot", "%g instead of %g", u.Dot(v), double(dt)); m.distinct(fmt("v%d/%g", N, u[0])); }); }
