// I01: interval maps against a model over grid cells; I02: text form.
#include "mon.h"
#include <sstream>
#include <limits>
#include <string>
#include <iostream>
#include "anifem++/interval/interval_map.h"
using namespace Ani; using namespace mon;
// key kinds: index on the grid (in order of the comparator) <-> key, and keys strictly between grid points where there are such
template<class K> struct Grid;
template<> struct Grid<long> { typedef std::less<long> C; static constexpr bool step1 = true; static long key(Rng&, int i) { return i - 7; } static std::vector<long> probes(int i) { return {i - 7L}; } static long below() { return -100; } static long above() { return 100; } static const char* name() { return "long"; } };
template<> struct Grid<unsigned> { typedef std::less<unsigned> C; static constexpr bool step1 = true; static unsigned key(Rng&, int i) { return 5 + i; } static std::vector<unsigned> probes(int i) { return {unsigned(5 + i)}; } static unsigned below() { return 0; } static unsigned above() { return 4000000000u; } static const char* name() { return "unsigned"; } };
template<> struct Grid<int> { typedef std::greater<int> C; static constexpr bool step1 = false; static int key(Rng&, int i) { return 30 - 4*i; } static std::vector<int> probes(int i) { return {30-4*i, 29-4*i, 27-4*i}; } static int below() { return 1000; } static int above() { return -1000; } static const char* name() { return "int, decreasing"; } };
template<> struct Grid<double> { typedef std::less<double> C; static constexpr bool step1 = false; static double key(Rng&, int i) { return 0.1*i - 0.7; } static std::vector<double> probes(int i) { double a = 0.1*i - 0.7; return {a, a + 1e-9, a + 0.07, std::nextafter(0.1*(i+1) - 0.7, -10)}; } static double below() { return -1e300; } static double above() { return 1e300; } static const char* name() { return "double"; } };
template<> struct Grid<std::string> { typedef std::less<std::string> C; static constexpr bool step1 = false; static std::string key(Rng&, int i) { return std::string(1, char('c' + i)); } static std::vector<std::string> probes(int i) { std::string s(1, char('c' + i)); return {s, s + "a", s + "zz"}; } static std::string below() { return "a"; } static std::string above() { return "zz"; } static const char* name() { return "string"; } };
template<class T> struct Val; template<> struct Val<long> { static long v(int i) { return i*11 - 20; } }; template<> struct Val<std::string> { static std::string v(int i) { return std::string(i*7+1, char('A'+i)); } };
struct Pt { double x; int y; bool operator==(const Pt& o) const { return x == o.x && y == o.y; } bool operator!=(const Pt& o) const { return !(*this == o); } }; template<> struct Val<Pt> { static Pt v(int i) { return Pt{i*.5, -i}; } };
// model: cells -1 .. M-1; cell i = [key(i), key(i+1)), the first and the last are infinite
struct Model { int M; std::vector<int> c; Model(int M): M(M), c(M + 1, -1) {} int& at(int i) { return c[i+1]; } struct Run { int a, b, v; }; /* cells a..b, a == -1: left infinite, b == M-1: right infinite */
    std::vector<Run> runs() { std::vector<Run> r; for (int i = -1; i < M; ++i) { if (at(i) < 0) continue; if (!r.empty() && r.back().b == i-1 && r.back().v == at(i)) r.back().b = i; else r.push_back({i, i, at(i)}); } return r; } };
template<class K, class T> struct Play {
    typedef interval_map<K, T, typename Grid<K>::C> IM; typedef Grid<K> G;
    static void bounds(Mon&, IM&, const IM&, Model&, Rng&, const K&, int, const std::vector<typename Model::Run>&, std::false_type) {}
    static void bounds(Mon& m, IM& x, const IM& cx, Model&, Rng&, const K& key, int cell, const std::vector<typename Model::Run>& rn, std::true_type) { size_t k = 0; while (k < rn.size() && rn[k].b < cell) ++k; bool ok = x.lower_bound(key) - x.begin() == long(k) && cx.lower_bound(key) - cx.begin() == long(k); m.check(ok, "lower_bound", "lower bound of key in cell %d is piece %ld instead of %zu", cell, long(x.lower_bound(key) - x.begin()), k); if (!G::step1) return; k = 0; while (k < rn.size() && rn[k].b <= cell && !(rn[k].b == x_last(rn, k))) ++k; }
    static int x_last(const std::vector<typename Model::Run>&, size_t) { return -2; }
    static void upper(Mon& m, IM& x, const IM& cx, int M, const K& key, int cell, bool last_of_cell, const std::vector<typename Model::Run>& rn) { size_t k = 0; for (; k < rn.size(); ++k) { bool more = rn[k].b == M-1 || rn[k].b > cell || (rn[k].b == cell && !last_of_cell); if (more) break; } m.check(x.upper_bound(key) - x.begin() == long(k) && cx.upper_bound(key) - cx.begin() == long(k), "upper_bound", "upper bound of key in cell %d is piece %ld instead of %zu", cell, long(x.upper_bound(key) - x.begin()), k); }
    static void whole(Mon& m, Rng& r, IM& x, Model& md, const std::string& hist) { const IM& cx = x; auto rn = md.runs(); int M = md.M; auto eq = [&](bool c, const char* what, long a) { return m.check(c, what, "%s (%ld) after %s", what, a, hist.c_str()); };
        if (!eq(x.size() == rn.size() && x.empty() == rn.empty(), "size", long(x.size()))) return; size_t k = 0; for (auto it = x.begin(); it != x.end(); ++it, ++k) { auto& q = rn[k]; eq(it.is_left_infinite() == (q.a == -1) && it.is_right_infinite() == (q.b == M-1), "infinite-ends", k); eq(it->second == Val<T>::v(q.v), "value", k); if (q.a != -1) eq(it->first.m_start == G::key(r, q.a), "start", k); if (q.b != M-1) eq(it->first.m_end == G::key(r, q.b+1), "end", k); } k = 0; for (auto it = cx.begin(); it != cx.end(); ++it, ++k) eq(it.is_left_infinite() == (rn[k].a == -1) && it.is_right_infinite() == (rn[k].b == M-1) && it->second == Val<T>::v(rn[k].v), "const-iteration", k); eq(k == rn.size(), "const-iteration", k);
        auto probe = [&](const K& key, int cell, bool last) { int v = md.at(cell); bool in = v >= 0; bool ok = x.contains(key) == in && cx.contains(key) == in && x.count(key) == size_t(in); eq(ok, "contains", cell); auto it = x.find(key); auto ci = cx.find(key); eq((it != x.end()) == in && (ci != cx.end()) == in, "find", cell); if (in && it != x.end() && ci != cx.end()) { eq(it->second == Val<T>::v(v) && ci->second == Val<T>::v(v) && cx[key] == Val<T>::v(v) && cx.at(key) == Val<T>::v(v), "lookup", cell); eq(it.contains(key), "piece-contains", cell); m.obs("keys found"); } else if (!in) { bool th = false; try { (void) cx.at(key); } catch (const std::out_of_range&) { th = true; } eq(th, "at-throws", cell); m.obs("keys not found"); } for (auto jt = x.begin(); jt != x.end(); ++jt) { bool has = in && jt == it; if (jt.contains(key) != has) { eq(false, "piece-contains", cell); break; } } bounds(m, x, cx, md, r, key, cell, rn, std::true_type()); up(m, x, cx, M, key, cell, last, rn, std::integral_constant<bool, G::step1>()); };
        for (int i = 0; i < M; ++i) { auto p = G::probes(i); for (size_t j = 0; j < p.size(); ++j) probe(p[j], i, G::step1 && i < M-1); } probe(G::below(), -1, false); probe(G::above(), M-1, false); if (G::step1) { K kb = G::key(r, 0); probe(K(before(kb, std::integral_constant<bool, G::step1>())), -1, true); } }
    static K before(const K& k, std::true_type) { return K(k - 1); } static K before(const K& k, std::false_type) { return k; }
    static void up(Mon& m, IM& x, const IM& cx, int M, const K& key, int cell, bool last, const std::vector<typename Model::Run>& rn, std::true_type) { upper(m, x, cx, M, key, cell, last, rn); } static void up(Mon&, IM&, const IM&, int, const K&, int, bool, const std::vector<typename Model::Run>&, std::false_type) {}
    static void go(Mon& m, Rng& r) { int M = r.range(2, 14), nv = r.range(1, 4), steps = r.range(1, 14), pinf = r.range(0, 4); IM x, y; Model mx(M), my(M); std::string hist; m.key(std::string("map:") + G::name()); m.eval(); long acc = 0, nf0 = m.nfail;
        for (int s = 0; s < steps; ++s) { int op = r.range(0, 30); if (op == 0) { x.clear(); mx = Model(M); hist += "clear; "; } else if (op == 1) { x.swap(y); std::swap(mx, my); hist += "swap; "; } else if (op == 2) { y = x; my = mx; hist += "copy; "; } else if (op == 3) { IM z(x); x = std::move(z); hist += "move; "; }
            else { int v = r.range(0, nv-1), i = r.range(0, M-1), j = r.range(0, M-1); bool li = r.coin(pinf, 12), ri = r.coin(pinf, 12); if (!li && !ri && i > j && !r.coin(1, 8)) std::swap(i, j); if (!r.coin(1, 10) && i == j && j < M-1) ++j; K a = G::key(r, i), b = G::key(r, j); T val = Val<T>::v(v); int ca = li ? -1 : i, cb = ri ? M-1 : j-1; hist += fmt("[%s,%s)=%d; ", li ? "-inf" : std::to_string(i).c_str(), ri ? "inf" : std::to_string(j).c_str(), v); m.desc("%s: %s", G::name(), hist.c_str()); bool ok = ca <= cb; for (int q = ca; q <= cb; ++q) ok = ok && (mx.at(q) < 0 || mx.at(q) == v); auto inf = IM::tag_inf; auto rs = li && ri ? x.insert(inf, inf, val) : li ? x.insert(inf, b, val) : ri ? x.insert(a, inf, val) : x.insert(a, b, val); if (!m.check(rs.second == ok, "insert", "insertion is %s: %s", rs.second ? "accepted" : "refused", hist.c_str())) return; if (ok) { ++acc; for (int q = ca; q <= cb; ++q) mx.at(q) = v; m.obs("insertions accepted"); auto rn = mx.runs(); long k = 0; while (rn[k].b < ca) ++k; m.check(rs.first - x.begin() == k, "insert:iterator", "points to piece %ld instead of %ld: %s", long(rs.first - x.begin()), k, hist.c_str()); } else { m.obs("insertions refused"); if (ca <= cb) { bool p = rs.first != x.end() && !(rs.first->second == val); m.check(p, "insert:iterator", "a refused insertion does not point to an obstacle: %s", hist.c_str()); if (p) { auto rn = mx.runs(); long k = rs.first - x.begin(); m.check(k < long(rn.size()) && rn[k].a <= cb && rn[k].b >= ca, "insert:iterator", "a refused insertion points to a piece elsewhere: %s", hist.c_str()); } } } }
            whole(m, r, x, mx, hist); if (m.nfail != nf0) return; } whole(m, r, y, my, hist + " (other map)"); m.distinct(fmt("%s/%d/%s", G::name(), M, hist.c_str())); m.maxi("longest history", steps); if (acc == 0) m.obs("empty histories"); }
};
SECTION(mlong) { run_cases(m, m.cases(4000, 100000), [&](long, Rng& r) { Play<long, long>::go(m, r); }); }
SECTION(munsigned) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { Play<unsigned, std::string>::go(m, r); }); }
SECTION(mgreater) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { Play<int, long>::go(m, r); }); }
SECTION(mdouble) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { Play<double, Pt>::go(m, r); }); }
SECTION(mstring) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { Play<std::string, std::string>::go(m, r); }); }
