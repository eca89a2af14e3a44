// G01: dense solvers against long double identities, for matrices of many shapes, sizes, scales and ranks (both builds run the same oracle).
#include "mon.h"
#include "anifem++/fem/geometry.h"
#include <memory>
typedef long double L; typedef std::vector<double> V;
static const double EPS = 2.3e-16;
#ifdef WITH_EIGEN
static const bool EIG = true;
#else
static const bool EIG = false;
#endif
static double scaleOf(Rng& r) { static const double s[] = {0, 0, 0, 3, -3, 9, -9, 20, -20, 60, -60}; return std::pow(10.0, s[r.range(0, 10)]); }
static std::vector<L> orth(Rng& r, int n) { // product of Householder reflections
    std::vector<L> Q(size_t(n)*n, 0); for (int i = 0; i < n; ++i) Q[i+size_t(n)*i] = r.coin() ? 1 : -1;
    for (int k = 0; k < std::min(n, 8); ++k) { std::vector<L> v(n); L s = 0; for (auto& x : v) { x = r.sym(); s += x*x; } if (s == 0) continue;
        for (int j = 0; j < n; ++j) { L d = 0; for (int i = 0; i < n; ++i) d += v[i]*Q[i+size_t(n)*j]; for (int i = 0; i < n; ++i) Q[i+size_t(n)*j] -= 2*d/s*v[i]; } }
    return Q; }
static double nrm(const V& a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
// invertible square matrices
static V squareMat(Rng& r, int n, std::string* kind) {
    V A(size_t(n)*n, 0); auto a = [&](int i, int j) -> double& { return A[i+size_t(n)*j]; };
    int k = r.range(0, 9); double s = scaleOf(r);
    static const char* nm[] = {"dense", "dense+diag", "permutation", "upper", "lower", "given-condition", "integer", "graded", "block", "rank-one-update"}; *kind = nm[k];
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p);
    switch (k) {
    case 0: for (auto& x : A) x = r.sym(); break;
    case 1: for (auto& x : A) x = r.sym(); for (int i = 0; i < n; ++i) a(i, i) += n; break;
    case 2: for (int i = 0; i < n; ++i) a(p[i], i) = r.coin() ? r.uni(0.5, 2) : -r.uni(0.5, 2); break;
    case 3: for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) a(i, j) = i == j ? r.uni(1, 2) : r.sym()/n; break;
    case 4: for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) a(i, j) = i == j ? r.uni(1, 2) : r.sym()/n; break;
    case 5: { auto U = orth(r, n), W = orth(r, n); int c = r.range(0, 9); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { L t = 0; for (int q = 0; q < n; ++q) t += U[i+size_t(n)*q]*powl(10, n > 1 ? -L(c)*q/(n-1) : 0)*W[j+size_t(n)*q]; a(i, j) = double(t); } break; }
    case 6: for (auto& x : A) x = r.range(-3, 3); for (int i = 0; i < n; ++i) a(p[i], i) += 7; break;
    case 7: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = r.sym()*std::pow(10., -(i+j)%7); for (int i = 0; i < n; ++i) a(i, i) += 3*std::pow(10., -(i%3)*2.); break;
    case 8: for (int b = 0; b < n; b += 3) for (int i = b; i < std::min(n, b+3); ++i) for (int j = b; j < std::min(n, b+3); ++j) a(p[i], j) = r.sym() + (i == j ? 4 : 0); break;
    default: for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) a(i, j) = 1; a(i, i) += r.uni(0.5, 3); }
    }
    for (auto& x : A) x *= s;
    return A;
}
static L rcond(V A, int n) { // pivots ratio by full pivoting in long double
    std::vector<L> B(A.begin(), A.end()); L pm = 0, pn = HUGE_VALL;
    for (int k = 0; k < n; ++k) { int pi = k, pj = k; for (int j = k; j < n; ++j) for (int i = k; i < n; ++i) if (fabsl(B[i+size_t(n)*j]) > fabsl(B[pi+size_t(n)*pj])) pi = i, pj = j;
        for (int j = 0; j < n; ++j) std::swap(B[k+size_t(n)*j], B[pi+size_t(n)*j]); for (int i = 0; i < n; ++i) std::swap(B[i+size_t(n)*k], B[i+size_t(n)*pj]);
        L d = B[k+size_t(n)*k]; pm = std::max(pm, fabsl(d)); pn = std::min(pn, fabsl(d)); if (d == 0) return 0;
        for (int i = k+1; i < n; ++i) { L g = B[i+size_t(n)*k]/d; for (int j = k; j < n; ++j) B[i+size_t(n)*j] -= g*B[k+size_t(n)*j]; } }
    return pn/pm; }
static std::unique_ptr<double[]> heap(size_t n, const double* src = nullptr) { std::unique_ptr<double[]> p(new double[n]); for (size_t i = 0; i < n; ++i) p[i] = src ? src[i] : NAN; return p; }
static void residual(Mon& m, const std::string& key, const V& A, const V& B, const double* X, int n, int M) {
    double nA = nrm(A), nB = nrm(B);
    for (int j = 0; j < M; ++j) { double nX = 0; for (int i = 0; i < n; ++i) nX = std::max(nX, std::fabs(X[i+size_t(n)*j]));
        for (int i = 0; i < n; ++i) { L s = 0; for (int k = 0; k < n; ++k) s += L(A[i+size_t(n)*k])*X[k+size_t(n)*j];
            if (!m.close(double(s - B[i+size_t(n)*j]), 0, 20*EPS*n*n*(nA*nX + nB*0) + 1e-300, key, "residual", i, j)) return; } }
}
static int sz(Rng& r) { int k = r.range(0, 5); return k == 0 ? r.range(1, 3) : k < 4 ? r.range(2, 9) : r.range(10, 40); }
SECTION(lu) {
    run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) {
        int n = sz(r), M = r.range(1, 4); std::string kind; V A = squareMat(r, n, &kind); if (rcond(A, n) < 1e-11L) { m.obs("near-singular skipped"); return; }
        V B(size_t(n)*M); double sb = scaleOf(r); for (auto& x : B) x = sb*(r.coin(1, 5) ? 0 : r.sym());
        m.desc("LU %s n=%d M=%d scale %g", kind.c_str(), n, M, nrm(A)); m.eval(); m.obs("LU " + kind); m.distinct("lu" + kind + fmt("%d/%d/%g", n, M, std::round(std::log10(nrm(A))))); m.key("lu:" + kind);
        auto a = heap(A.size(), A.data()), b = heap(B.size(), B.data()), x = heap(B.size()), w = heap(size_t(n)*(n+M)); std::unique_ptr<int[]> iw(new int[2*n]);
        bool inpl = r.coin();
        Ani::fullPivLU_solve<double>(a.get(), b.get(), n, M, inpl ? b.get() : x.get(), w.get(), iw.get());
        residual(m, "lu:solve:" + kind, A, B, inpl ? b.get() : x.get(), n, M);
        m.check(std::equal(A.begin(), A.end(), a.get()), "lu:solve:input", "the matrix was modified");
        auto w2 = heap(size_t(2)*n*n), inv = heap(A.size()); bool alias = r.coin(1, 3); m.key("lu:inverse" + std::string(alias ? ":alias" : ""));
        Ani::fullPivLU_inverse<double>(a.get(), alias ? a.get() : inv.get(), n, w2.get(), iw.get());
        V I(size_t(n)*n, 0); for (int i = 0; i < n; ++i) I[i+size_t(n)*i] = 1; residual(m, std::string("lu:inverse") + (alias ? ":alias" : ""), A, I, alias ? a.get() : inv.get(), n, n);
        // the factors themselves: P A Q = L U
        auto f = heap(A.size(), A.data()); std::vector<int> p(n), q(n); for (int i = 0; i < n; ++i) p[i] = q[i] = i;
        m.key("lu:factors"); Ani::fullPivLU<double>(f.get(), n, p.data(), q.data());
        auto ps = p, qs = q; std::sort(ps.begin(), ps.end()); std::sort(qs.begin(), qs.end()); bool perm = true; for (int i = 0; i < n; ++i) perm = perm && ps[i] == i && qs[i] == i; if (!m.check(perm, "lu:factors", "reorderings are not permutations")) return;
        bool ok = true;
        for (int i = 0; i < n && ok; ++i) for (int j = 0; j < n && ok; ++j) { L s = 0; for (int k = 0; k <= std::min(i, j); ++k) s += (k == i ? L(1) : L(f[i+size_t(n)*k]))*f[k+size_t(n)*j];
            ok = m.close(double(s - A[p[i]+size_t(n)*q[j]]), 0, 20*EPS*n*n*nrm(A), "lu:factors", "LU - PAQ", i, j); }
        auto b2 = heap(B.size(), B.data()), x2 = heap(B.size()); Ani::LU_solve<double>(f.get(), n, p.data(), q.data(), b2.get(), x2.get(), M); residual(m, "lu:LU_solve", A, B, x2.get(), n, M);
    });
}
SECTION(singular) { // not solvable: must not touch foreign memory
    run_cases(m, m.cases(300, 3000), [&](long c, Rng& r) {
        int n = r.range(1, 9), rk = c % 3 == 0 ? 0 : r.range(0, n-1); V A(size_t(n)*n, 0), G(size_t(n)*std::max(rk, 1)), H(G); for (auto& x : G) x = r.range(-2, 2); for (auto& x : H) x = r.range(-2, 2);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < rk; ++k) A[i+size_t(n)*j] += G[i+size_t(n)*k]*H[j+size_t(n)*k];
        m.desc("singular rank<=%d n=%d", rk, n); m.key("lu:singular"); m.eval(); m.obs("singular matrices"); m.distinct(fmt("sing%d/%d", n, rk));
        auto a = heap(A.size(), A.data()), inv = heap(A.size()), w = heap(size_t(2)*n*n); std::unique_ptr<int[]> iw(new int[2*n]);
        try { Ani::fullPivLU_inverse<double>(a.get(), inv.get(), n, w.get(), iw.get()); } catch (const std::exception&) { m.obs("singular refused"); }
    });
}
SECTION(cholesky) {
    run_cases(m, m.cases(1200, 20000), [&](long, Rng& r) {
        int n = sz(r), M = r.range(1, 4); V A(size_t(n)*n); double s = scaleOf(r); int k = r.range(0, 3);
        V G(size_t(n)*n); for (auto& x : G) x = r.sym(); double d = k == 0 ? 1 : k == 1 ? 1e-3 : k == 2 ? 1e-6 : 10;
        if (k == 2) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) G[i+size_t(n)*j] *= std::pow(10., -(i%5));
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L t = i == j ? d : 0; for (int q = 0; q < n; ++q) t += L(G[i+size_t(n)*q])*G[j+size_t(n)*q]; A[i+size_t(n)*j] = A[j+size_t(n)*i] = double(t)*s; }
        V B(size_t(n)*M); for (auto& x : B) x = r.coin(1, 5) ? 0 : r.sym();
        m.desc("Cholesky kind %d n=%d M=%d scale %g", k, n, M, s); m.eval(); m.obs("Cholesky"); m.distinct(fmt("ch%d/%d/%d/%g", k, n, M, s)); m.key("cholesky");
        auto a = heap(A.size(), A.data()), b = heap(B.size(), B.data()), x = heap(B.size()), w = heap(size_t(n)*(n+1)/2); bool inpl = r.coin(), ow = r.coin();
        Ani::cholesky_solve<double>(a.get(), b.get(), n, M, inpl ? b.get() : x.get(), ow ? a.get() : w.get());
        residual(m, "cholesky:solve", A, B, inpl ? b.get() : x.get(), n, M);
        auto a2 = heap(A.size(), A.data()), inv = heap(A.size()); auto w2 = heap(size_t(n)*(n+1)/2);
        Ani::cholesky_inverse<double>(a2.get(), inv.get(), n, ow ? a2.get() : w2.get()); V I(size_t(n)*n, 0); for (int i = 0; i < n; ++i) I[i+size_t(n)*i] = 1; residual(m, "cholesky:inverse", A, I, inv.get(), n, n);
    });
}
// rectangular matrices, possibly rank deficient; sv: known singular values (decreasing) if any
static V rect(Rng& r, int N, int M, std::string* kind, std::vector<double>* sv) {
    V A(size_t(N)*M, 0); int k = r.range(0, 7), K = std::min(N, M); double s = scaleOf(r); sv->clear();
    static const char* nm[] = {"dense", "known", "known-rank-deficient", "zero-columns", "zero", "repeated", "ill-conditioned", "integer"}; *kind = nm[k];
    if (k == 0) for (auto& x : A) x = r.sym();
    else if (k == 3) { for (auto& x : A) x = r.sym(); for (int j = 0; j < M; ++j) if (r.coin(1, 3)) for (int i = 0; i < N; ++i) A[i+size_t(N)*j] = 0; if (r.coin() && M > 1) for (int i = 0; i < N; ++i) A[i+size_t(N)*(M-1)] = A[i]; }
    else if (k == 4) {}
    else if (k == 7) for (auto& x : A) x = r.range(-1, 1);
    else { std::vector<L> S(K); for (int i = 0; i < K; ++i) S[i] = k == 5 ? (i < K/2 ? 2 : 1) : k == 6 ? powl(10, -L(i)*r.range(1, 4)) : r.uni(0.1, 3); if (k == 2) for (int i = 0; i < K; ++i) if (r.coin(1, 2)) S[i] = 0;
        std::sort(S.rbegin(), S.rend()); auto U = orth(r, N), W = orth(r, M);
        for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { L t = 0; for (int q = 0; q < K; ++q) t += U[i+size_t(N)*q]*S[q]*W[j+size_t(M)*q]; A[i+size_t(N)*j] = double(t*s); }
        for (L x : S) sv->push_back(double(x*s)); }
    if (k == 0 || k == 3 || k == 7) for (auto& x : A) x *= s;
    return A; }
static void orthogonal(Mon& m, const std::string& key, const double* Q, int n) {
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { L s = 0; for (int k = 0; k < n; ++k) s += L(Q[k+size_t(n)*i])*Q[k+size_t(n)*j]; if (!m.close(double(s), i == j, 30*EPS*(n+4), key, "Q^T Q", i, j)) return; } }
SECTION(qr) {
    run_cases(m, m.cases(1500, 20000), [&](long, Rng& r) {
        int N = sz(r), M = r.range(1, N); std::string kind; std::vector<double> sv; V A = rect(r, N, M, &kind, &sv);
        m.desc("QR %s %dx%d scale %g", kind.c_str(), N, M, nrm(A)); m.eval(); m.obs("QR " + kind); m.distinct("qr" + kind + fmt("%d/%d/%g", N, M, std::round(std::log10(nrm(A)+1e-300)))); std::string key = "qr:" + kind; m.key(key);
        auto a = heap(A.size(), A.data()), Q = heap(size_t(N)*N), R = heap(size_t(M)*M), w = heap(size_t(N)*M+N+M);
        Ani::householderQR<double>(a.get(), N, M, Q.get(), R.get(), w.get());
        m.check(std::equal(A.begin(), A.end(), a.get()), "qr:input", "the matrix was modified"); orthogonal(m, key + ":orthogonal", Q.get(), N);
        for (int j = 0; j < M; ++j) for (int i = 0; i < M; ++i) if (i > j && !m.check(R[i+size_t(M)*j] == 0, key + ":triangular", "R[%d,%d]=%g", i, j, R[i+size_t(M)*j])) return;
        for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { L s = 0; for (int k = 0; k <= j; ++k) s += L(Q[i+size_t(N)*k])*R[k+size_t(M)*j]; if (!m.close(double(s - A[i+size_t(N)*j]), 0, 30*EPS*(N+4)*nrm(A), key, "QR - A", i, j)) return; }
    });
}
SECTION(svd) {
    run_cases(m, m.cases(1500, 20000), [&](long, Rng& r) {
        int N = std::min(25, sz(r)), M = std::min(25, sz(r)), K = std::min(N, M); if (r.coin(1, 3)) M = N, K = N; std::string kind; std::vector<double> sv; V A = rect(r, N, M, &kind, &sv);
        bool wu = !r.coin(1, 4), wv = !r.coin(1, 4); double nA = nrm(A);
        m.desc("SVD %s %dx%d scale %g U=%d V=%d", kind.c_str(), N, M, nA, wu, wv); m.eval(); m.obs("SVD " + kind); m.distinct("svd" + kind + fmt("%d/%d/%d%d/%g", N, M, wu, wv, std::round(std::log10(nA+1e-300)))); std::string key = "svd:" + kind; m.key(key);
        auto a = heap(A.size(), A.data()), U = heap(size_t(N)*N), S = heap(K), W = heap(size_t(M)*M), w = heap(size_t(2)*K*K+K);
        int rc = Ani::jacobiSVD<double>(a.get(), N, M, wu ? U.get() : nullptr, S.get(), wv ? W.get() : nullptr, w.get());
        if (!m.check(rc == 0, key, "reported no convergence")) return;
        m.check(std::equal(A.begin(), A.end(), a.get()), "svd:input", "the matrix was modified");
        double t = 60*EPS*(N+M)*std::sqrt(double(N)*M)*nA + 1e-300;
        for (int i = 0; i < K; ++i) if (!m.check(S[i] >= 0 && (i == 0 || S[i] <= S[i-1]), key + ":order", "singular values not decreasing: S[%d]=%g", i, S[i])) return;
        for (size_t i = 0; i < sv.size(); ++i) if (!m.close(S[i], sv[i], t, key + ":values", "S", long(i))) break;
        L fro = 0, sf = 0; for (double x : A) fro += L(x)*x; for (int i = 0; i < K; ++i) sf += L(S[i])*S[i]; m.close(double(sqrtl(sf)), double(sqrtl(fro)), t, key + ":values", "Frobenius norm from singular values");
        if (wu) orthogonal(m, key + ":orthogonalU", U.get(), N); if (wv) orthogonal(m, key + ":orthogonalV", W.get(), M);
        if (wu && wv) for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { L s = 0; for (int k = 0; k < K; ++k) s += L(U[i+size_t(N)*k])*S[k]*W[j+size_t(M)*k]; if (!m.close(double(s - A[i+size_t(N)*j]), 0, t, key, "U S V^T - A", i, j)) return; }
    });
}
