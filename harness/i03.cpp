// I03: interval enumerations, extended arrays and remapped extended arrays against explicit sorted lists.
#include "mon.h"
#include <limits>
#include <memory>
#include "anifem++/interval/ext_array_enum.h"
using namespace Ani; using namespace mon;
// ---- intervals of values
template<class I> struct Own { typedef interval_own_memory<I, I> Mem; static Mem mem(std::vector<I>& raw) { Mem m; for (size_t i = 0; i + 1 < raw.size(); i += 2) m.m_dat.push_back({raw[i], raw[i+1]}); return m; } static const char* name() { return "owned"; } };
template<class I> struct Ext { typedef interval_external_memory<I> Mem; static Mem mem(std::vector<I>& raw) { Mem m; m.m_dat_st = raw.data(); m.m_dat_end = raw.data() + raw.size(); return m; } static const char* name() { return "external"; } };
template<class I> static std::vector<I> rvalues(Rng& r, int n, int lo) { std::vector<I> v; long x = lo; int run = r.range(1, 6); for (int i = 0; i < n; ++i) { v.push_back(I(x)); x += r.coin(1, run) ? r.range(2, 6) : 1; } return v; }
template<class I> static std::vector<I> intervals(Rng& r, const std::vector<I>& v, bool split) { std::vector<I> raw; for (size_t i = 0; i < v.size(); ++i) if (i == 0 || v[i] != v[i-1] + 1 || (split && r.coin(1, 4))) { raw.push_back(I(i)); raw.push_back(v[i]); } if (!v.empty()) { raw.push_back(I(v.size())); raw.push_back(I(v.back() + 1)); } return raw; }
template<class I, template<class> class W> static void values(Mon& m, Rng& r) { int n = r.coin(1, 12) ? 0 : r.range(1, 25); auto v = rvalues<I>(r, n, r.range(std::is_signed<I>::value ? -8 : 8, 12)); auto raw = intervals<I>(r, v, r.coin(1, 3)); if (n == 0 && r.coin()) raw = {0, I(5)}; std::string d; for (auto x : v) d += fmt("%ld,", long(x)); m.key("values"); m.desc("%s %s", W<I>::name(), d.c_str()); m.eval(); m.distinct(fmt("%s/%s/%zu", W<I>::name(), d.c_str(), raw.size())); interval_enum<typename W<I>::Mem> e(W<I>::mem(raw)); auto chk = [&](bool ok, const char* what, long a) { return m.check(ok, what, "%s (%ld)", what, a); }; m.obs("values enumerated", n); m.obs("intervals", long(raw.size()/2));
    if (!chk(e.size() == size_t(n) && e.empty() == (n == 0), "values:size", long(e.size()))) return; auto is = [&](decltype(e.begin()) it, long k) { return it == (k < n ? e.find_left(I(k)) : e.end()) && (k >= n || (it->first == I(k) && it->second == v[size_t(k)] && (*it).first == I(k) && (*it).second == v[size_t(k)])); };
    long k = 0; for (auto it = e.begin(); it != e.end(); ++it, ++k) if (!chk(k < n && is(it, k), "values:forward", k)) return; chk(k == n, "values:forward", k); if (n) { k = n; for (auto it = e.end(); it != e.begin(); ) { --it; --k; if (!chk(k >= 0 && is(it, k), "values:backward", k)) return; } chk(k == 0, "values:backward", k); auto it = e.begin(); k = 0; for (int s = 0; s < 40; ++s) { if (k < n && (k == 0 || r.coin(3, 5))) { if (r.coin()) { auto o = it++; chk(is(o, k), "values:step", k); } else ++it; ++k; } else { if (r.coin()) { auto o = it--; chk(is(o, k), "values:step", k); } else --it; --k; } if (!chk(is(it, k), "values:step", k)) return; } std::vector<decltype(e.begin())> its; for (auto jt = e.begin(); jt != e.end(); ++jt) its.push_back(jt); its.push_back(e.end()); for (int s = 0; s < 30; ++s) { long i = r.range(0, n), j = r.range(0, n); auto &x = its[size_t(i)], &y = its[size_t(j)]; chk((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && x - y == i - j, "values:compare", i*100 + j); } }
    for (long i = std::is_signed<I>::value ? -2 : 0; i <= n + 2; ++i) { bool in = i >= 0 && i < n; auto it = e.find_left(I(i)); chk(in ? it != e.end() && it->first == I(i) && it->second == v[size_t(i)] : it == e.end(), "values:find_left", i); chk(e.contains_left(I(i)) == in, "values:contains_left", i); chk(is(e.lower_bound_left(I(i)), std::min<long>(std::max<long>(i, 0), n)), "values:lower_bound_left", i); chk(is(e.upper_bound_left(I(i)), std::min<long>(std::max<long>(i + 1, 0), n)), "values:upper_bound_left", i); }
    long lo = n ? long(v[0]) - 3 : 0, hi = n ? long(v.back()) + 4 : 3; for (long x = std::is_signed<I>::value ? lo : std::max(0L, lo); x <= hi; ++x) { auto q = std::lower_bound(v.begin(), v.end(), I(x)); bool in = q != v.end() && *q == I(x); auto it = e.find_right(I(x)); chk(in ? it != e.end() && is(it, q - v.begin()) : it == e.end(), "values:find_right", x); chk(e.contains_right(I(x)) == in, "values:contains_right", x); chk(is(e.lower_bound_right(I(x)), q - v.begin()), "values:lower_bound_right", x); chk(is(e.upper_bound_right(I(x)), std::upper_bound(v.begin(), v.end(), I(x)) - v.begin()), "values:upper_bound_right", x); m.obs("values searched"); }
    // iterators of the storage itself
    const auto& mem = e.data(); long np = long(raw.size()/2); auto b = mem.begin(), en = mem.end(); const auto cb = b, ce = en; chk(en - b == np && mem.empty() == (np == 0) && mem.cbegin() == cb && mem.cend() == ce, "storage:size", np); for (int s = 0; np && s < 12; ++s) { long i = r.range(0, int(np)-1), j = r.range(0, int(np)); auto x = b + i; auto y = b; y += j; chk((*x).first == raw[size_t(2*i)] && (*x).second == raw[size_t(2*i+1)] && x->first == raw[size_t(2*i)] && x->second == raw[size_t(2*i+1)], "storage:value", i); chk(y - x == j - i && (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "storage:compare", i*100+j); if (j < np) chk(x[j-i].first == raw[size_t(2*j)] && x[j-i].second == raw[size_t(2*j+1)], "storage:subscript", j); auto z = y; z -= j; chk(z == b && cb + j == y && j + cb == y && y - j == b && ce - (np - i) == x, "storage:jump", j); auto o = x++; chk(o == b + i && x == b + (i+1), "storage:step", i); o = x--; chk(o == b + (i+1) && x == b + i && ++x == b + (i+1) && --x == b + i, "storage:step", i); }
    e.clear(); chk(e.empty() && e.size() == 0 && e.begin() == e.end() && e.find_left(0) == e.end() && e.find_right(1) == e.end() && e.lower_bound_right(1) == e.end(), "values:clear", 0); }
// ---- arrays extended by a ranged value
struct Rg { std::vector<unsigned> t; size_t operator()(size_t v) const { return t[v % t.size()]; } };
template<class A, class G, class E> static void ops(Mon& m, Rng& r, const E& e, const std::vector<A>& L, const std::string& what, const std::function<A(Rng&)>& key, const std::function<long(const A&)>& lower, const std::function<long(const A&)>& upper) { long n = long(L.size()); auto chk = [&](bool ok, const std::string& w, long a) { return m.check(ok, what + ":" + w, "%s %s (%ld)", what.c_str(), w.c_str(), a); }; auto is = [&](const decltype(e.begin())& it, long k) { return k < n ? it != e.end() && long(it->first) == k && it->second == L[size_t(k)] && (*it).second == L[size_t(k)] : it == e.end(); };
    if (!chk(long(e.size()) == n && e.empty() == (n == 0), "size", long(e.size()))) return; long k = 0; for (auto it = e.begin(); it != e.end(); ++it, ++k) if (!chk(k < n && is(it, k), "forward", k)) return; chk(k == n, "forward", k); for (k = 0; k < n; ++k) { if (!chk(e[G(k)] == L[size_t(k)], "number-to-array", k)) return; if (!chk(long(e[L[size_t(k)]]) == k, "array-to-number", k)) return; chk(e.contains(L[size_t(k)]) && e.count(L[size_t(k)]) == 1, "contains", k); chk(is(e.find(L[size_t(k)]), k) && is(e.find(G(k)), k) && is(e.begin(G(k)), k), "find", k); auto lb = e.lower_bound(L[size_t(k)]); if (!chk(is(lb, k), "lower_bound", k)) return; m.obs("elements compared"); }
    chk(e.find(G(n)) == e.end() && e.find(G(n+3)) == e.end(), "find", n); if (n) { k = n; auto it = e.end(); while (k > 0) { --it; --k; if (!chk(is(it, k), "backward", k)) return; } it = e.begin(); k = 0; for (int s = 0; s < 40; ++s) { int op = r.range(0, 6); if (op == 0 && k < n) { auto o = it++; chk(is(o, k), "step", k); ++k; } else if (op == 1 && k > 0) { auto o = it--; chk(is(o, k), "step", k); --k; } else if (op == 2 && k < n) { ++it; ++k; } else if (op == 3 && k > 0) { --it; --k; } else if (op == 4) { long d = r.range(0, int(n - k)); if (r.coin()) it += G(d); else it = r.coin() ? it + G(d) : G(d) + it; k += d; } else if (op == 5) { long d = r.range(0, int(k)); if (r.coin()) it -= G(d); else it = it - G(d); k -= d; } if (!chk(is(it, k), "walk", k)) return; m.obs("iterator steps"); }
        for (int s = 0; s < 12; ++s) { long i = r.range(0, int(n)), j = r.range(0, int(n)); auto x = i == n ? e.end() : e.begin(G(i)), y = j == n ? e.end() : e.begin(G(j)); chk((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "compare", i*1000 + j); } }
    for (int s = 0; s < 40; ++s) { A q = key(r); long p = lower(q); bool in = p < n && L[size_t(p)] == q; std::string t; for (auto x : q) t += fmt("%ld ", long(x)); if (!m.check(e.contains(q) == in && e.count(q) == size_t(in), what + ":contains", "%s contains (%s) is %d", what.c_str(), t.c_str(), int(e.contains(q)))) return; if (!m.check(is(e.find(q), in ? p : n), what + ":find", "find (%s)", t.c_str())) return; if (!m.check(is(e.lower_bound(q), p), what + ":lower_bound", "lower bound of (%s) is not element %ld", t.c_str(), p)) return; if (!m.check(is(e.upper_bound(q), upper(q)), what + ":upper_bound", "upper bound of (%s) is not element %ld", t.c_str(), upper(q))) return; m.obs(in ? "keys found" : "keys not found"); } }
template<unsigned N, class U> static std::vector<std::array<U, N>> base(Rng& r, int hi, int maxn, int mpos, int mhi) { std::vector<std::array<U, N>> b; int n = r.coin(1, 25) ? 0 : r.range(1, maxn); int dens = r.range(1, hi); for (int i = 0; i < n; ++i) { std::array<U, N> a; if (!b.empty() && r.coin(1, 2)) { a = r.pick(b); a[size_t(r.range(0, int(N)-1))] = U(r.range(0, dens)); } else for (auto& x : a) x = U(r.range(0, dens)); if (mpos >= 0 && int(a[size_t(mpos)]) > mhi) a[size_t(mpos)] = U(r.range(0, mhi)); b.push_back(a); } return b; }
template<unsigned N, class U, class G> static void extended(Mon& m, Rng& r) { typedef std::array<U, N+1> A; int hi = r.range(1, 7); unsigned n = unsigned(r.range(0, N)), mm = unsigned(r.range(0, N-1)); auto b = base<N, U>(r, hi, r.coin() ? 6 : 40, -1, 0); Rg rg; int z = r.range(0, 3), top = r.range(1, 6); for (int i = r.range(1, 8); i > 0; --i) rg.t.push_back(unsigned(z == 0 ? r.range(0, top) : z == 1 ? (r.coin(1, 4) ? 0 : r.range(1, top)) : r.range(1, top))); std::vector<A> L; auto sb = b; std::sort(sb.begin(), sb.end()); sb.erase(std::unique(sb.begin(), sb.end()), sb.end()); for (auto& a : sb) for (unsigned s = 0; s < rg(a[mm]); ++s) { A c; std::copy(a.begin(), a.begin() + n, c.begin()); c[n] = U(s); std::copy(a.begin() + n, a.end(), c.begin() + n + 1); L.push_back(c); } std::sort(L.begin(), L.end());
    std::string d; for (auto& a : b) { for (auto x : a) d += fmt("%ld", long(x)); d += ' '; } d += "| rg"; for (auto x : rg.t) d += fmt(" %u", x); bool zero = std::find(rg.t.begin(), rg.t.end(), 0u) != rg.t.end(); m.key(fmt("extended%u%s", N, zero ? ":empty-range" : "")); m.desc("N=%u n=%u m=%u %s", N, n, mm, d.c_str()); m.eval(); m.distinct(fmt("%u%u%u", N, n, mm) + d); ext_range_array_enum<N, Rg, U, G> e; if (r.coin()) e = ext_range_array_enum<N, Rg, U, G>(b, rg, U(n), U(mm)); else e.setBaseSet(b).setRangedExtension(rg, U(n), U(mm)); e.setup(); if (r.coin(1, 4)) e.setup(); auto e2 = e; if (r.coin(1, 5)) e.clear(), e = e2;
    auto key = [&](Rng& q) { A a; if (!L.empty() && q.coin(2, 3)) { a = q.pick(L); if (q.coin(3, 4)) { auto& x = a[size_t(q.range(0, int(N)))]; x = q.coin() ? U(q.range(0, 9)) : x > 0 && q.coin() ? U(x-1) : U(x+1); } } else for (auto& x : a) x = U(q.range(0, 8)); return a; }; std::string w = std::string("extended") + (zero ? ":empty-range" : ""); ops<A, G>(m, r, e, L, w, key, [&](const A& q) { return long(std::lower_bound(L.begin(), L.end(), q) - L.begin()); }, [&](const A& q) { return long(std::upper_bound(L.begin(), L.end(), q) - L.begin()); }); m.obs("extended sets"); if (r.coin(1, 6)) { e.clear(); m.check(e.empty() && e.begin() == e.end(), w + ":clear", "not empty"); } }
// ---- remapped
template<unsigned N, template<class> class W> static void remapped(Mon& m, Rng& r) { typedef unsigned U; typedef unsigned G; typedef std::array<U, N+1> A; const unsigned NV = 4; unsigned n = unsigned(r.range(0, N)), mm = unsigned(r.range(0, N-1)); auto b = base<N, U>(r, r.range(1, 6), r.coin() ? 6 : 30, int(mm), NV-1); std::array<std::vector<int>, NV> vals, raw; std::array<interval_enum<typename W<int>::Mem>, NV> ie; Rg rg; int zp = r.range(0, 4); for (unsigned k = 0; k < NV; ++k) { int sz = zp == 0 ? r.range(0, 5) : r.range(1, 6); vals[k] = rvalues<int>(r, sz, r.range(0, 5)); raw[k] = intervals<int>(r, vals[k], r.coin(1, 4)); ie[k].setMem(W<int>::mem(raw[k])); rg.t.push_back(unsigned(sz)); } bool zero = std::find(rg.t.begin(), rg.t.end(), 0u) != rg.t.end(); const unsigned mp = mm + (n <= mm ? 1 : 0);
    std::vector<A> L0, L; auto sb = b; std::sort(sb.begin(), sb.end()); sb.erase(std::unique(sb.begin(), sb.end()), sb.end()); for (auto& a : sb) for (unsigned s = 0; s < rg(a[mm]); ++s) { A c; std::copy(a.begin(), a.begin() + n, c.begin()); c[n] = s; std::copy(a.begin() + n, a.end(), c.begin() + n + 1); L0.push_back(c); } std::sort(L0.begin(), L0.end()); for (auto c : L0) { c[n] = unsigned(vals[c[mp]][c[n]]); L.push_back(c); }
    std::string d; for (auto& a : b) { for (auto x : a) d += fmt("%ld", long(x)); d += ' '; } for (auto& v : vals) { d += "| "; for (int x : v) d += fmt("%d ", x); } m.key("remapped"); m.desc("%s N=%u n=%u m=%u %s", W<int>::name(), N, n, mm, d.c_str()); m.eval(); m.distinct(std::string("r") + W<int>::name() + fmt("%u%u%u", N, n, mm) + d); ext_range_array_enum<N, Rg, U, G> re(b, rg, n, mm); re.setup(); ext_array_enum<N, NV, Rg, U, G, typename W<int>::Mem> e(re, ie);
    auto back = [&](A q, bool up) { auto& v = vals[q[mp]]; auto p = up ? std::upper_bound(v.begin(), v.end(), int(q[n])) : std::lower_bound(v.begin(), v.end(), int(q[n])); q[n] = p == v.end() ? std::numeric_limits<U>::max() : unsigned(p - v.begin()); return q; }; auto key = [&](Rng& q) { A a; if (!L.empty() && q.coin(2, 3)) { a = q.pick(L); if (q.coin(3, 4)) { auto& x = a[size_t(q.range(0, int(N)))]; x = q.coin() ? U(q.range(0, 12)) : x > 0 && q.coin() ? U(x-1) : U(x+1); } } else for (auto& x : a) x = U(q.range(0, 12)); a[mp] %= NV; return a; };
    ops<A, G>(m, r, e, L, std::string("remapped") + (zero ? ":empty-range" : ""), key, [&](const A& q) { return long(std::lower_bound(L0.begin(), L0.end(), back(q, false)) - L0.begin()); }, [&](const A& q) { A k = back(q, false); bool exact = k[n] < vals[q[mp]].size() && vals[q[mp]][k[n]] == int(q[n]); return exact ? long(std::upper_bound(L0.begin(), L0.end(), k) - L0.begin()) : long(std::lower_bound(L0.begin(), L0.end(), k) - L0.begin()); }); m.obs("remapped sets"); if (r.coin(1, 6)) { e.clear(); m.check(e.empty() && e.begin() == e.end(), "remapped:clear", "not empty"); } }
SECTION(valueso) { run_cases(m, m.cases(3000, 60000), [&](long c, Rng& r) { if (c % 3) values<int, Own>(m, r); else values<unsigned, Own>(m, r); }); }
SECTION(valuese) { run_cases(m, m.cases(3000, 60000), [&](long c, Rng& r) { if (c % 3) values<long, Ext>(m, r); else values<int, Ext>(m, r); }); }
SECTION(ext1) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { extended<1, unsigned, unsigned>(m, r); }); }
SECTION(ext2) { run_cases(m, m.cases(2500, 50000), [&](long, Rng& r) { extended<2, unsigned, size_t>(m, r); }); }
SECTION(ext3) { run_cases(m, m.cases(2500, 50000), [&](long, Rng& r) { extended<3, size_t, size_t>(m, r); }); }
SECTION(ext4) { run_cases(m, m.cases(2500, 50000), [&](long, Rng& r) { extended<4, unsigned, unsigned>(m, r); }); }
SECTION(remap1) { run_cases(m, m.cases(1000, 20000), [&](long c, Rng& r) { if (c % 2) remapped<1, Own>(m, r); else remapped<2, Ext>(m, r); }); }
SECTION(remap3) { run_cases(m, m.cases(1500, 30000), [&](long c, Rng& r) { if (c % 2) remapped<3, Own>(m, r); else remapped<3, Ext>(m, r); }); }
SECTION(remap4) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { remapped<4, Own>(m, r); }); }
