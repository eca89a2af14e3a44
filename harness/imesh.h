// Random conforming tetrahedral meshes and their distribution over the processes of the stand-in
#pragma once
#include "mon.h"
#include "inmost.h"
#ifdef _OPENMP
#include <omp.h>
#endif
namespace im {
using mon::Rng; using INMOST::Mesh; using INMOST::World; using INMOST::HandleType; using INMOST::Tag; using INMOST::Element; using INMOST::ComposeHandle; using INMOST::HandleID; using INMOST::HandleNum;
struct GMesh { std::vector<std::array<double, 3>> X; std::vector<std::array<int, 4>> T; };
inline double vol6(const std::vector<std::array<double, 3>>& X, const std::array<int, 4>& t) { double a[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) a[i][k] = X[t[i + 1]][k] - X[t[0]][k];
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
// boxes of six tetrahedra each (jittered and sheared), cells removed at random, then cells split at an inner point; vertices and cells renumbered, vertex order of a cell arbitrary
inline GMesh randMesh(Rng& r, int maxc) {
    GMesh g; int n[3] = {r.range(1, 2), r.range(1, 2), 1}; if (r.coin(1, 3)) n[2] = 2;
    double S[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) S[i][k] = (i == k ? 1 : 0) + 0.25 * r.sym();
    auto id = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
    for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) { double p[3] = {i + 0.12 * r.sym(), j + 0.12 * r.sym(), k + 0.12 * r.sym()}; std::array<double, 3> x; for (int a = 0; a < 3; ++a) x[a] = S[a][0] * p[0] + S[a][1] * p[1] + S[a][2] * p[2]; g.X.push_back(x); }
    int pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) for (auto& q : pm) { int c[3] = {i, j, k}; std::array<int, 4> t; t[0] = id(c[0], c[1], c[2]); for (int s = 0; s < 3; ++s) { ++c[q[s]]; t[s + 1] = id(c[0], c[1], c[2]); } g.T.push_back(t); }
    r.shuffle(g.T); int keep = r.coin(1, 5) ? 1 : r.range(1, maxc); if (int(g.T.size()) > keep) g.T.resize(keep);
    for (int s = r.range(0, 2); s-- && int(g.T.size()) + 3 <= maxc;) { auto t = g.T.back(); g.T.pop_back(); std::array<double, 3> x{}; double w[4], sw = 0; for (auto& v : w) sw += v = r.uni(0.6, 1.4); for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) x[a] += w[i] / sw * g.X[t[i]][a]; int v = int(g.X.size()); g.X.push_back(x); for (int i = 0; i < 4; ++i) { auto q = t; q[i] = v; g.T.push_back(q); } }
    std::vector<int> used(g.X.size(), -1), perm; for (auto& t : g.T) for (int v : t) if (used[v] < 0) { used[v] = 0; perm.push_back(v); } r.shuffle(perm); std::vector<std::array<double, 3>> Y; for (size_t i = 0; i < perm.size(); ++i) { used[perm[i]] = int(i); Y.push_back(g.X[perm[i]]); }
    for (auto& t : g.T) { for (auto& v : t) v = used[v]; for (int i = 3; i; --i) std::swap(t[i], t[r.range(0, i)]); } r.shuffle(g.T); g.X = Y; return g;
}
inline std::vector<int> randOwner(Rng& r, const GMesh& g, int n) { std::vector<int> o(g.T.size()); int mode = r.range(0, 2), k = r.range(0, 2);
    std::vector<size_t> by(g.T.size()); for (size_t i = 0; i < by.size(); ++i) by[i] = i;
    auto cx = [&](size_t c) { double s = 0; for (int v : g.T[c]) s += g.X[v][k]; return s; };
    if (mode == 0) for (auto& x : o) x = r.range(0, n - 1);
    else { std::sort(by.begin(), by.end(), [&](size_t a, size_t b) { return cx(a) < cx(b); }); for (size_t i = 0; i < by.size(); ++i) o[by[i]] = int(i * n / by.size()); if (mode == 2 && n > 1) { int e = r.range(0, n - 1), to = (e + 1) % n; for (auto& x : o) if (x == e) x = to; } }  // mode 2: a process without cells
    return o; }
struct Conn { long N; std::array<std::map<long, int>, 4> owner; std::array<std::map<long, std::set<int>>, 4> on; std::vector<std::set<int>> cellOn; std::map<long, int> faceCells; };
inline long ek(long N, long a, long b) { if (a > b) std::swap(a, b); return a * N + b; }
inline long fk(long N, long a, long b, long c) { long v[3] = {a, b, c}; std::sort(v, v + 3); return (v[0] * N + v[1]) * N + v[2]; }
inline Conn connect(const GMesh& g, const std::vector<int>& own, int n) {
    Conn c; c.N = long(g.X.size()); std::vector<std::set<int>> nodeOwn(g.X.size()); for (size_t i = 0; i < g.T.size(); ++i) for (int v : g.T[i]) nodeOwn[v].insert(own[i]);
    c.cellOn.resize(g.T.size());
    for (size_t i = 0; i < g.T.size(); ++i) { auto& t = g.T[i]; for (int v : t) c.cellOn[i].insert(nodeOwn[v].begin(), nodeOwn[v].end());   // every process owning a cell at one of the vertices holds a (ghost) copy
        auto put = [&](int d, long key) { auto it = c.owner[d].find(key); if (it == c.owner[d].end()) c.owner[d][key] = own[i]; else it->second = std::min(it->second, own[i]); c.on[d][key].insert(c.cellOn[i].begin(), c.cellOn[i].end()); };
        for (int a = 0; a < 4; ++a) put(0, t[a]); for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b) put(1, ek(c.N, t[a], t[b])); for (int a = 0; a < 4; ++a) { long f = fk(c.N, t[a], t[(a + 1) % 4], t[(a + 2) % 4]); put(2, f); ++c.faceCells[f]; } put(3, long(i)); }
    (void)n; return c;
}
inline void build(Mesh& m, World* w, int rank, const GMesh& g, const Conn& c, Rng r) {
    m.w = w; m.rank = rank; if (w) w->mesh[rank] = &m;
    std::array<std::map<long, HandleType>, 4> H; std::array<std::vector<long>, 4> keys;
    for (int d = 0; d < 4; ++d) { m.total[d] = long(c.owner[d].size()); for (auto& q : c.on[d]) if (q.second.count(rank)) keys[d].push_back(q.first); r.shuffle(keys[d]);
        bool holes = r.coin(); if (!holes && r.coin(1, 3)) std::sort(keys[d].begin(), keys[d].end());
        for (long k : keys[d]) { while (holes && r.coin(1, 5)) { m.e[d].emplace_back(); m.e[d].back().alive = false; } m.e[d].emplace_back(); auto& x = m.e[d].back(); x.key = k; x.owner = c.owner[d].at(k); x.shared = c.on[d].at(k).size() > 1; m.byKey[d][k] = int(m.e[d].size()) - 1; H[d][k] = ComposeHandle(d, int(m.e[d].size()) - 1); }
        if (holes && r.coin()) { m.e[d].emplace_back(); m.e[d].back().alive = false; }
        bool sh = r.coin(2, 3); uint64_t s = r.next(); m.gidOrder[d] = [sh, s](std::vector<int>& v) { if (sh) { Rng q(s); q.shuffle(v); } }; }
    for (long k : keys[0]) { auto& x = m.el(H[0][k]); for (int a = 0; a < 3; ++a) x.x[a] = g.X[k][a]; }
    for (long k : keys[1]) { auto& x = m.el(H[1][k]); x.low = {H[0].at(k / c.N), H[0].at(k % c.N)}; r.shuffle(x.low); }
    for (long k : keys[2]) { auto& x = m.el(H[2][k]); x.bnd = c.faceCells.at(k) == 1; long v[3] = {k / c.N / c.N, k / c.N % c.N, k % c.N}; x.low = {H[1].at(ek(c.N, v[0], v[1])), H[1].at(ek(c.N, v[0], v[2])), H[1].at(ek(c.N, v[1], v[2]))}; r.shuffle(x.low); }
    for (long k : keys[3]) { auto& x = m.el(H[3][k]); auto& t = g.T[k]; for (int a = 0; a < 4; ++a) { x.low.push_back(H[2].at(fk(c.N, t[a], t[(a + 1) % 4], t[(a + 2) % 4]))); x.high.push_back(H[0].at(t[a])); } r.shuffle(x.low); r.shuffle(x.high); }
}
#ifdef _OPENMP
inline int& ompThreads() { static int n = 2; return n; }   // threads of a process
inline void setThreads() { omp_set_num_threads(ompThreads()); }
#else
inline void setThreads() {}
#endif
// the same function on every process; an exception of one of them is thrown again here
template<class F> void parallel(World& w, F&& f) {
    struct As { INMOST::Here old; As(World* w, int k) : old(INMOST::Here::get()) { INMOST::Here::get().w = w; INMOST::Here::get().rank = k; } ~As() { INMOST::Here::get() = old; } };   // what this thread creates belongs to process k
    if (w.n == 1) { As as(&w, 0); setThreads(); f(0); return; }
    std::vector<std::exception_ptr> ex(w.n); std::vector<std::thread> th;
    for (int k = 0; k < w.n; ++k) th.emplace_back([&, k] { As as(&w, k); setThreads(); try { f(k); } catch (...) { ex[k] = std::current_exception(); w.fail(); } });
    for (auto& t : th) t.join();
    std::exception_ptr first; for (auto& e : ex) if (e) { try { std::rethrow_exception(e); } catch (std::exception& q) { if (!first || std::string(q.what()).find("another process failed") == std::string::npos) first = e; } }
    if (first) std::rethrow_exception(first);
}
} // namespace im
