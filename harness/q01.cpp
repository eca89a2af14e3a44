// Q01: quadrature rules. Oracle: closed-form means of barycentric monomials over the simplex; permutation
// orbits of the node set; interiority; positivity; refusal of unsupported orders.
#include "mon.h"
#include "anifem++/fem/quadrature_formulas.h"
template<int N> struct Rule { std::vector<std::array<long double, N>> p; std::vector<long double> w; std::vector<int> sym; bool is_sym; };
template<int N, class Q> static Rule<N> take(const Q& q) {
    Rule<N> r; r.is_sym = q.IsSymmetric();
    auto s = q.GetSymmetryPartition(); r.sym.assign(s.begin(), s.end());
    for (int i = 0; i < q.GetNumPoints(); ++i) {
        auto pw = q.template GetPointWeight<double>(i);
        std::array<long double, N> a; for (int k = 0; k < N; ++k) a[k] = pw.p[k];
        r.p.push_back(a); r.w.push_back(pw.w);
    }
    return r;
}
static long double fact(int n) { long double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
template<int N> struct Get;
template<> struct Get<2> { static auto get(int o) { return segment_quadrature_formulas(o); } static const char* name() { return "segment"; } };
template<> struct Get<3> { static auto get(int o) { return triangle_quadrature_formulas(o); } static const char* name() { return "triangle"; } };
template<> struct Get<4> { static auto get(int o) { return tetrahedron_quadrature_formulas(o); } static const char* name() { return "tetra"; } };

template<int N> static void monos(int ord, std::array<int, N> a, int k, int left, std::vector<std::array<int, N>>& out) {
    if (k == N) { out.push_back(a); return; }
    for (int e = 0; e <= left; ++e) { a[k] = e; monos<N>(ord, a, k + 1, left - e, out); }
}
template<int N> static void check_rule(Mon& m, int ord) {
    std::string nm = Get<N>::name();
    auto q = Get<N>::get(ord);
    m.eval(); m.distinct(nm + std::to_string(ord));
    m.desc("%s order %d", nm.c_str(), ord);
    auto R = take<N>(q);
    int n = R.p.size();
    m.check(n > 0, nm + "-empty", "no points");
    if (!n) return;
    m.obs(nm + "_points", n);
    long double sw = 0;
    for (int i = 0; i < n; ++i) {
        m.check(R.w[i] > 0, nm + "-weight-sign", "weight %d = %Lg", i, R.w[i]); sw += R.w[i];
        long double s = 0;
        for (int k = 0; k < N; ++k) {
            s += R.p[i][k];
            m.check(R.p[i][k] > 0 && R.p[i][k] < 1, nm + "-interior", "node %d coord %d = %Lg", i, k, R.p[i][k]);
            // the raw table has to describe the same node
            m.check(std::fabs((double)R.p[i][k] - q.GetPointData()[N * i + k]) < 4e-15, nm + "-raw-node", "raw coordinate differs node %d coord %d", i, k);
        }
        m.check(std::fabs((double)(s - 1)) < 1e-14, nm + "-bary-sum", "node %d sum %Lg", i, s);
        m.check((double)R.w[i] == q.GetWeightData()[i], nm + "-raw-weight", "raw weight differs %d", i);
    }
    m.close((double)sw, 1, 3e-14, nm + "-weight-sum", "weights", ord);
    // exactness on every barycentric monomial of degree <= ord (these span P_ord)
    std::vector<std::array<int, N>> ms; monos<N>(ord, {}, 0, ord, ms);
    for (auto& a : ms) {
        int deg = 0; long double num = 1; for (int e : a) deg += e, num *= fact(e);
        long double exact = num * fact(N - 1) / fact(deg + N - 1);
        long double got = 0;
        for (int i = 0; i < n; ++i) { long double t = R.w[i]; for (int k = 0; k < N; ++k) for (int e = 0; e < a[k]; ++e) t *= R.p[i][k]; got += t; }
        m.obs(nm + "_monomials");
        m.close((double)got, (double)exact, 3e-15 + 3e-14 * (double)exact, nm + "-exactness", "monomial", deg, a[0]);
    }
    // symmetry
    m.check(R.is_sym, nm + "-not-symmetric", "rule is documented to be symmetric");
    std::array<int, N> perm; for (int k = 0; k < N; ++k) perm[k] = k;
    do {
        for (int i = 0; i < n; ++i) {
            int hit = 0;
            for (int j = 0; j < n; ++j) {
                bool same = true; for (int k = 0; k < N; ++k) if (std::fabs((double)(R.p[j][k] - R.p[i][perm[k]])) > 2e-14) { same = false; break; }
                if (same && std::fabs((double)(R.w[j] - R.w[i])) <= 2e-15) ++hit;
            }
            m.obs(nm + "_node_images");
            m.check(hit == 1, nm + "-orbit", "image of node %d under a vertex permutation met %d times", i, hit);
        }
    } while (std::next_permutation(perm.begin(), perm.end()));
    // declared partition: orbit sizes appear in the documented order
    static const std::vector<int> sizes[5] = {{}, {}, {1, 2}, {1, 3, 6}, {1, 4, 6, 12, 24}};
    int at = 0;
    for (size_t t = 0; t < sizes[N].size(); ++t)
        for (int o = 0; o < R.sym[t]; ++o) {
            int sz = sizes[N][t];
            if (at + sz > n) { m.fail(nm + "-partition", "partition exceeds the number of points"); return; }
            std::vector<long double> ref(R.p[at].begin(), R.p[at].end()); std::sort(ref.begin(), ref.end());
            for (int j = at; j < at + sz; ++j) {
                std::vector<long double> c(R.p[j].begin(), R.p[j].end()); std::sort(c.begin(), c.end());
                bool same = true; for (int k = 0; k < N; ++k) if (std::fabs((double)(c[k] - ref[k])) > 2e-14) same = false;
                m.check(same, nm + "-partition", "point %d is not in the orbit of point %d (orbit size %d)", j, at, sz);
                for (int jj = at; jj < j; ++jj) { bool eq = true; for (int k = 0; k < N; ++k) if (std::fabs((double)(R.p[j][k] - R.p[jj][k])) > 1e-9) eq = false;
                    m.check(!eq, nm + "-partition", "points %d and %d coincide", jj, j); }
            }
            at += sz;
        }
    m.check(at == n, nm + "-partition", "partition describes %d of %d points", at, n);
    // the answer does not depend on history
    auto q2 = Get<N>::get(ord);
    m.check(q2.GetNumPoints() == n && q2.GetPointData() == q.GetPointData(), nm + "-stable", "a second query gives another rule");
#ifdef WITH_EIGEN
    auto W = q.WeightView(); auto B = q.BaryView();
    for (int i = 0; i < n; ++i) { m.check(W(i) == q.GetWeightData()[i], nm + "-eigen-view", "weight %d", i); for (int k = 0; k < N; ++k) m.check(B(k, i) == q.GetPointData()[N * i + k], nm + "-eigen-view", "node %d", i); }
#endif
    m.sample(fmt("%s order %d: %d nodes, %zu monomials exact, partition ok", nm.c_str(), ord, n, ms.size()));
}
template<int N> static void all(Mon& m) {
    run_cases(m, 21, [&](long c, Rng&) { check_rule<N>(m, c); });
    // orders outside the documented range: either refused or really of that order
    for (int ord : {-1000000, -7, -2, -1, 21, 22, 23, 24, 25, 30, 64, 255, 256, 257, 1000000, 2147483647, (int)-2147483648LL}) {
        m.desc("%s order %d", Get<N>::name(), ord); m.eval(); m.distinct(fmt("%s%d", Get<N>::name(), ord));
        bool refused = false; try { auto q = Get<N>::get(ord); (void)q; } catch (const std::exception&) { refused = true; }
        m.obs(refused ? "refused" : "accepted");
        if (!refused) {
            if (ord <= 30 && ord > 0) check_rule<N>(m, ord);
            else m.fail(std::string(Get<N>::name()) + "-range", "order %d accepted", ord);
        }
    }
}
SECTION(segment) { all<2>(m); }
SECTION(triangle) { all<3>(m); }
SECTION(tetra) { all<4>(m); }
