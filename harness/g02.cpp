// G02: geometric helpers against long double, over scales, shifts, orientations and shapes.
#include "mon.h"
#include <memory>
#include <array>
#include "anifem++/fem/geometry.h"
#include "anifem++/fem/operations/core.h"
using namespace Ani; using namespace mon; typedef long double L;
template<class S> static L eps() { return std::max(L(std::numeric_limits<S>::epsilon()), L(std::numeric_limits<double>::epsilon())); } // sqrt of the library works in double at most
template<class S> struct T { std::unique_ptr<S[]> x[4]; L X[4][3], h, V; std::string d; 
    explicit T(Rng& r) { for (;;) { int e = sizeof(S) == 4 ? r.range(-4, 4) : r.range(-12, 12); L sc = std::pow(10.0L, e), sh = r.coin() ? 0 : sc*std::pow(10.0L, r.range(0, sizeof(S) == 4 ? 1 : 4)); L st[3]; int kind = r.range(0, 3); for (L& v : st) v = kind == 0 ? std::pow(10.0L, -r.range(0, 2)) : 1; for (int v = 0; v < 4; ++v) { x[v].reset(new S[3]); for (int k = 0; k < 3; ++k) { L c = kind == 1 ? L(v > 0 && v-1 == k) : kind == 2 ? L(r.range(-2, 2)) : L(r.sym()); x[v][k] = S(c*sc*st[k] + sh*(k+1)/3); X[v][k] = x[v][k]; } } if (r.coin()) { int a = r.range(0, 3), b = r.range(0, 3); std::swap(x[a], x[b]); for (int k = 0; k < 3; ++k) std::swap(X[a][k], X[b][k]); } h = 0; for (int a = 0; a < 4; ++a) for (int b = 0; b < a; ++b) { L s = 0; for (int k = 0; k < 3; ++k) s += (X[a][k]-X[b][k])*(X[a][k]-X[b][k]); h = std::max(h, std::sqrt(s)); } L D[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) D[i][k] = X[i+1][k]-X[0][k]; V = (D[0][0]*(D[1][1]*D[2][2]-D[1][2]*D[2][1]) - D[0][1]*(D[1][0]*D[2][2]-D[1][2]*D[2][0]) + D[0][2]*(D[1][0]*D[2][1]-D[1][1]*D[2][0]))/6; if (h > 0 && std::fabs(V) > 1e-4L*h*h*h) break; } d = fmt("(%.9Lg,%.9Lg,%.9Lg) (%.9Lg,%.9Lg,%.9Lg) (%.9Lg,%.9Lg,%.9Lg) (%.9Lg,%.9Lg,%.9Lg)", X[0][0], X[0][1], X[0][2], X[1][0], X[1][1], X[1][2], X[2][0], X[2][1], X[2][2], X[3][0], X[3][1], X[3][2]); }
    // outward area vector of the face opposite to vertex o
    void areaVec(int o, L n[3]) const { int a = (o+1)%4, b = (o+2)%4, c = (o+3)%4; L u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) u[k] = X[b][k]-X[a][k], v[k] = X[c][k]-X[a][k], w[k] = X[o][k]-X[a][k]; n[0] = u[1]*v[2]-u[2]*v[1]; n[1] = u[2]*v[0]-u[0]*v[2]; n[2] = u[0]*v[1]-u[1]*v[0]; L s = n[0]*w[0]+n[1]*w[1]+n[2]*w[2]; for (int k = 0; k < 3; ++k) n[k] *= s > 0 ? -0.5L : 0.5L; } };
static L len(const L* v) { return std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); }
template<class S> static void tet(Mon& m, Rng& r) { T<S> t(r); L e = eps<S>(); m.key("tet"); m.desc("%s", t.d.c_str()); m.eval(); m.distinct(t.d); m.sample(t.d);
    for (int o = 0; o < 4; ++o) { L n[3]; t.areaVec(o, n); L a = len(n), tol = 40*e*t.h*t.h; for (int perm = 0; perm < 2; ++perm) { int p[3] = {(o+1)%4, (o+2)%4, (o+3)%4}; if (perm) { int k = r.range(0, 2); std::swap(p[k], p[(k+1)%3]); } S nn[3] = {S(NAN), S(NAN), S(NAN)}, axb[3]; const S *A = t.x[p[0]].get(), *B = t.x[p[1]].get(), *C = t.x[p[2]].get(), *O = t.x[o].get();
            m.check(std::fabs(L(tri_area(A, B, C)) - a) <= tol, "tri_area", "face %d: %.15Lg instead of %.15Lg", o, L(tri_area(A, B, C)), a); L ar = face_normal(A, B, C, O, nn); m.check(std::fabs(ar - a) <= tol, "face_normal:area", "face %d: %.15Lg instead of %.15Lg", o, ar, a); L q[3] = {L(nn[0]), L(nn[1]), L(nn[2])}; m.check(std::fabs(len(q)-1) <= 8*e, "face_normal:unit", "face %d: length %.15Lg", o, len(q)); for (int k = 0; k < 3; ++k) if (!m.check(std::fabs(q[k] - n[k]/a) <= 2*tol/a, "face_normal:direction", "face %d component %d: %.15Lg instead of %.15Lg", o, k, q[k], n[k]/a)) return;
            cross(A, B, C, axb); L c2[3]; { L u[3], v[3]; for (int k = 0; k < 3; ++k) u[k] = t.X[p[0]][k]-t.X[p[2]][k], v[k] = t.X[p[1]][k]-t.X[p[2]][k]; c2[0] = u[1]*v[2]-u[2]*v[1]; c2[1] = u[2]*v[0]-u[0]*v[2]; c2[2] = u[0]*v[1]-u[1]*v[0]; S ua[3], va[3], w[3]; for (int k = 0; k < 3; ++k) ua[k] = S(u[k]), va[k] = S(v[k]); cross(ua, va, w); for (int k = 0; k < 3; ++k) { m.check(std::fabs(L(axb[k]) - c2[k]) <= tol, "cross", "of points, component %d: %.15Lg instead of %.15Lg", k, L(axb[k]), c2[k]); m.check(std::fabs(L(w[k]) - c2[k]) <= tol, "cross", "component %d: %.15Lg instead of %.15Lg", k, L(w[k]), c2[k]); } } m.obs("faces judged"); } }
    auto whole = [&](auto& tt, const char* k) { auto c = tt.centroid(); for (int i = 0; i < 3; ++i) { L w = 0, mg = 0; for (int v = 0; v < 4; ++v) w += t.X[v][i]/4, mg += std::fabs(t.X[v][i]); m.check(std::fabs(L(c[i]) - w) <= 4*e*mg, std::string("centroid") + k, "component %d: %.15Lg instead of %.15Lg", i, L(c[i]), w); } m.check(std::fabs(L(tt.diameter()) - t.h) <= 8*e*t.h, std::string("diameter") + k, "%.15Lg instead of %.15Lg", L(tt.diameter()), t.h);
        for (int o = 0; o < 4; ++o) { L n[3]; t.areaVec(o, n); L a = len(n), tol = 40*e*t.h*t.h; auto q = tt.normal((unsigned char)o); auto g = tt.normal_direction((unsigned char)o); L gl = std::sqrt(L(g[0])*g[0]+L(g[1])*g[1]+L(g[2])*g[2]); for (int i = 0; i < 3; ++i) { m.check(std::fabs(L(q[i]) - n[i]/a) <= 2*tol/a, std::string("normal") + k, "opposite to %d component %d: %.15Lg instead of %.15Lg", o, i, L(q[i]), n[i]/a); m.check(gl > 0 && std::fabs(L(g[i])/gl - n[i]/a) <= 4*tol/a, std::string("normal_direction") + k, "opposite to %d component %d: %.15Lg instead of %.15Lg", o, i, L(g[i])/gl, n[i]/a); } } };
    Tetra<S> ta(t.x[0].get(), t.x[1].get(), t.x[2].get(), t.x[3].get()); whole(ta, ""); Tetra<const S> tc(t.x[0].get(), t.x[1].get(), t.x[2].get(), t.x[3].get()); whole(tc, ""); DenseMatrix<S> M[4]; for (int v = 0; v < 4; ++v) M[v].Init(t.x[v].get(), 3, 1, 3); Tetra<S> tm(M[0], M[1], M[2], M[3]); whole(tm, " (matrices)");
    // barycentric coordinates
    int q = r.range(1, 5); std::unique_ptr<S[]> P(new S[3*q]), W(new S[4*q]), W2(new S[4*q]), psi(new S[9]); L K = std::pow(t.h, 3)/std::fabs(t.V), tl = 60*e*K; std::vector<L> far(q, 1); for (int n = 0; n < q; ++n) { int kind = r.range(0, 4); L l[4]; for (L& v : l) v = kind == 0 ? L(r.range(0, 2)) : kind == 1 ? L(r.sym()*5) : L(r.uni()); if (kind == 2) l[r.range(0, 3)] = 0; if (kind == 3) { int k = r.range(0, 3); for (int i = 0; i < 4; ++i) l[i] = i == k; } L s = l[0]+l[1]+l[2]+l[3]; if (std::fabs(s) < 0.1L) { l[0] += 1; s += 1; } for (int i = 0; i < 3; ++i) { L v = 0; for (int k = 0; k < 4; ++k) v += l[k]/s*t.X[k][i]; P[3*n+i] = S(v); } for (int i = 0; i < 4; ++i) W[4*n+i] = W2[4*n+i] = S(NAN); }
    getBaryCoord<S>(t.x[0].get(), t.x[1].get(), t.x[2].get(), t.x[3].get(), ArrayView<const S>(P.get(), 3*q), ArrayView<S>(W.get(), 4*q)); S J[9]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) J[k + 3*i] = t.x[i+1][k] - t.x[0][k]; S det = inverse3x3(J, psi.get()); m.check(std::fabs(L(det)/6 - t.V) <= 40*e*t.h*t.h*t.h, "volume", "determinant/6 %.15Lg instead of %.15Lg", L(det)/6, t.V); getBaryCoord<S>(t.x[0].get(), t.x[1].get(), t.x[2].get(), t.x[3].get(), ArrayView<const S>(P.get(), 3*q), ArrayView<S>(W2.get(), 4*q), ArrayView<S>(psi.get(), 9));
    for (int n = 0; n < q; ++n) { L dr = 0, p[3]; for (int i = 0; i < 3; ++i) p[i] = P[3*n+i]; for (int v = 0; v < 4; ++v) { L s[3] = {p[0]-t.X[v][0], p[1]-t.X[v][1], p[2]-t.X[v][2]}; dr = std::max(dr, len(s)/t.h); } L sum = 0, sum2 = 0; for (int o = 0; o < 4; ++o) { L nv[3]; t.areaVec(o, nv); int a = (o+1)%4; L s = 0, b = 0; for (int k = 0; k < 3; ++k) s += nv[k]*(p[k]-t.X[a][k]), b += nv[k]*(t.X[o][k]-t.X[a][k]); L want = s/b, w = W[4*n+o], w2 = W2[4*n+o]; sum += w; sum2 += w2; if (!m.check(std::fabs(w - want) <= tl*(1+dr) && std::fabs(w2 - want) <= tl*(1+dr), "bary", "coordinate %d: %.15Lg and %.15Lg instead of %.15Lg", o, w, w2, want)) return; } m.check(std::fabs(sum-1) <= 40*e*(1+dr)*(1+tl/e*0 + K) && std::fabs(sum2-1) <= 40*e*(1+dr)*(1+K), "bary:sum", "%.17Lg %.17Lg", sum, sum2); m.obs("points judged"); } }
SECTION(tet) { run_cases(m, m.cases(6000, 150000), [&](long c, Rng& r) { if (c % 4 == 3) tet<float>(m, r); else if (c % 4 == 2) tet<long double>(m, r); else tet<double>(m, r); }); }
template<class S> static void inv(Mon& m, Rng& r) { S a[9], b[9]; L e = eps<S>(), M[3][3]; int kind = r.range(0, 3); L C[3][3], det; do { L sc = std::pow(10.0L, r.range(-8, 8)); std::vector<int> p{0, 1, 2}; r.shuffle(p); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L v = kind == 0 ? L(r.sym()) : kind == 1 ? L(p[i] == j)*(1+r.range(0, 3))*(r.coin() ? 1 : -1) : kind == 2 ? (i <= j ? L(r.sym()) : 0) : L(r.range(-3, 3)); a[i+3*j] = S(v*sc); M[i][j] = a[i+3*j]; } for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int i1 = (i+1)%3, i2 = (i+2)%3, j1 = (j+1)%3, j2 = (j+2)%3; C[i][j] = M[i1][j1]*M[i2][j2] - M[i1][j2]*M[i2][j1]; } det = M[0][0]*C[0][0] + M[0][1]*C[0][1] + M[0][2]*C[0][2]; L nn = 0; for (auto& x : M) for (L v : x) nn = std::max(nn, std::fabs(v)); if (std::fabs(det) > 1e-3L*nn*nn*nn) break; } while (true);
    m.key("inverse3x3"); m.desc("inverse of %Lg %Lg %Lg / %Lg %Lg %Lg / %Lg %Lg %Lg", M[0][0], M[0][1], M[0][2], M[1][0], M[1][1], M[1][2], M[2][0], M[2][1], M[2][2]); m.eval(); m.distinct(fmt("%d/%Lg", kind, M[0][0])); for (S& x : b) x = S(NAN); S a0[9]; std::copy(a, a+9, a0); L d = inverse3x3(a, b); L nn = 0; for (auto& x : M) for (L v : x) nn = std::max(nn, std::fabs(v)); m.check(std::fabs(d-det) <= 30*e*nn*nn*nn, "inverse3x3:det", "determinant %.15Lg instead of %.15Lg", d, det); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.check(std::fabs(L(b[i+3*j]) - C[j][i]/det) <= 60*e*nn*nn/std::fabs(det)*(1 + nn*nn*nn/std::fabs(det)), "inverse3x3", "entry (%d,%d): %.15Lg instead of %.15Lg", i, j, L(b[i+3*j]), C[j][i]/det); m.check(std::equal(a, a+9, a0), "inverse3x3:input", "the matrix was changed"); m.obs("inverses judged"); }
SECTION(inverse) { run_cases(m, m.cases(6000, 150000), [&](long c, Rng& r) { if (c % 3 == 0) inv<float>(m, r); else if (c % 3 == 1) inv<long double>(m, r); else inv<double>(m, r); }); }
// collections
SECTION(collection) { run_cases(m, m.cases(1500, 20000), [&](long, Rng& r) { int n = r.range(1, 7), f = r.range(1, n); std::vector<double> x[4]; for (auto& v : x) { v.resize(3*n); for (double& c : v) c = r.sym(); } DenseMatrix<> M[4]; DenseMatrix<const double> Mc[4]; for (int v = 0; v < 4; ++v) { M[v].Init(x[v].data(), 3, n, 3*n); Mc[v].Init(x[v].data(), 3, n, 3*n); } m.key("collection"); m.desc("collection of %d of %d", f, n); m.eval(); m.distinct(fmt("%d/%d", n, f));
    auto chk = [&](const auto& t, int want, const char* k) { m.check(t.fusion == want, "collection:count", "%s: %d tetrahedra instead of %d", k, t.fusion, want); for (int i = 0; i < 3*want; ++i) if (!m.check(t.XY0.data[i] == x[0][i] && t.XY1.data[i] == x[1][i] && t.XY2.data[i] == x[2][i] && t.XY3.data[i] == x[3][i], "collection:data", "%s: coordinate %d", k, i)) return; m.check(t.XY0.nRow == 3 && t.XY3.nRow == 3, "collection:shape", "%s", k); m.obs("collections judged"); };
    chk(make_tetras<double>(x[0].data(), x[1].data(), x[2].data(), x[3].data(), f), f, "make_tetras"); chk(make_tetras<double>((const double*)x[0].data(), (const double*)x[1].data(), (const double*)x[2].data(), (const double*)x[3].data(), f), f, "make_tetras const"); chk(Tetras<DenseMatrix<>>(M[0], M[1], M[2], M[3], f), f, "Tetras(matrices)"); chk(Tetras<DenseMatrix<const double>>(Mc[0], Mc[1], Mc[2], Mc[3], f), f, "Tetras(const matrices)"); chk(Tetras<DenseMatrix<>>(x[0].data(), x[1].data(), x[2].data(), x[3].data(), f), f, "Tetras(pointers)"); Tetras<DenseMatrix<>> none; m.check(none.fusion == 0, "collection:count", "empty collection"); }); }
