// I02: text form of interval maps: print -> parse, mutated and random text against a reference parser.
#include "mon.h"
#include <sstream>
#include <limits>
#include <string>
#include <iostream>
#include <iomanip>
#include <cerrno>
#include <cstdlib>
#include "anifem++/interval/interval_map.h"
using namespace Ani; using namespace mon;
template<class K> struct Num; // random values, reference reading of a number, text
template<> struct Num<long> { static long any(Rng& r) { switch (r.range(0, 6)) { case 0: return std::numeric_limits<long>::min() + r.range(0, 2); case 1: return std::numeric_limits<long>::max() - r.range(0, 2); case 2: return long(r.next()); default: return r.range(-30, 30); } } static bool read(const std::string& s, long& v) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; size_t j = i; if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; if (j == s.size()) return false; for (size_t k = j; k < s.size(); ++k) if (!isdigit((unsigned char)s[k])) return false; errno = 0; v = strtol(s.c_str(), nullptr, 10); return errno == 0; } static const char* name() { return "long"; } };
template<> struct Num<double> { static double any(Rng& r) { switch (r.range(0, 6)) { case 0: return std::ldexp(r.sym(), r.range(-1000, 1000)); case 1: return std::nextafter(double(r.range(-3, 3)), 10.); default: return r.coin() ? r.range(-30, 30) : r.sym()*100; } } static bool read(const std::string& s, double& v) { if (s.find_first_not_of("0123456789+-.eE \t\n\r") != std::string::npos || s.empty() || isspace((unsigned char)s.back())) return false; char* e; errno = 0; v = strtod(s.c_str(), &e); return *e == 0 && e != s.c_str() && std::fabs(v) < HUGE_VAL; } static const char* name() { return "double"; } };
template<> struct Num<std::string> { static std::string any(Rng& r) { std::string s; int n = r.range(1, 9); for (int i = 0; i < n; ++i) s += char(r.coin() ? r.range('a', 'z') : r.coin() ? r.range('A', 'Z') : r.range('0', '9')); return s; } static bool read(const std::string& s, std::string& v) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; v = s.substr(i); if (v.empty()) return false; for (char c : v) if (isspace((unsigned char)c)) return false; return true; } static const char* name() { return "string"; } };
template<> struct Num<int> { static int any(Rng& r) { switch (r.range(0, 5)) { case 0: return std::numeric_limits<int>::min(); case 1: return std::numeric_limits<int>::max(); default: return r.range(-50, 50); } } static bool read(const std::string& s, int& v) { long l; if (!Num<long>::read(s, l) || l < std::numeric_limits<int>::min() || l > std::numeric_limits<int>::max()) return false; v = int(l); return true; } static const char* name() { return "int"; } };
template<class K, class T> struct Piece { bool li, ri; K a, b; T v; };
template<class K, class T> static bool same(const Piece<K, T>& x, const Piece<K, T>& y) { return x.li == y.li && x.ri == y.ri && (x.li || x.a == y.a) && (x.ri || x.b == y.b) && x.v == y.v; }
template<class M> static auto pieces(const M& x) { std::vector<Piece<typename M::key_type, typename M::mapped_type>> r; for (auto it = x.begin(); it != x.end(); ++it) r.push_back({it.is_left_infinite(), it.is_right_infinite(), it->first.m_start, it->first.m_end, it->second}); return r; }
// set of pieces as a normalised list: reference insertion, false if impossible
template<class K, class T> static bool put(std::vector<Piece<K, T>>& L, Piece<K, T> p) { if (!p.li && !p.ri && !(p.a < p.b)) return false; std::vector<Piece<K, T>> o; for (auto& q : L) { bool qbefore = !q.ri && !p.li && !(p.a < q.b), pbefore = !p.ri && !q.li && !(q.a < p.b); bool touch = (qbefore && q.b == p.a) || (pbefore && p.b == q.a); if ((qbefore || pbefore) && !(touch && q.v == p.v)) { o.push_back(q); continue; } if (!(q.v == p.v)) return false; if (q.li) p.li = true; else if (!p.li && q.a < p.a) p.a = q.a; if (q.ri) p.ri = true; else if (!p.ri && p.b < q.b) p.b = q.b; } o.push_back(p); std::sort(o.begin(), o.end(), [](const Piece<K, T>& x, const Piece<K, T>& y) { if (x.li != y.li) return x.li; return !x.li && x.a < y.a; }); L = o; return true; }
struct Tr { std::string id = ":", md = "->", ed = ";", sp = " \t"; ParseIvlMapTraits get() const { return ParseIvlMapTraits(id, md, ed, sp); } std::string str() const { return "'" + id + "' '" + md + "' '" + ed + "' '" + sp + "'"; } };
static std::string strip(const std::string& s, const std::string& sp) { size_t i = 0, j = s.size(); while (i < j && sp.find(s[i]) != std::string::npos) ++i; while (j > i && sp.find(s[j-1]) != std::string::npos) --j; return s.substr(i, j - i); }
// reference parser: 1 = fine, 0 = must be refused
template<class K, class T> static int refparse(const std::string& in, const Tr& t, std::vector<Piece<K, T>>& L) { std::string s = strip(in, t.sp); L.clear(); while (!s.empty()) { size_t e = s.find(t.ed); std::string p = s.substr(0, e); s = e == std::string::npos ? "" : strip(s.substr(e + t.ed.size()), t.sp); size_t c = p.find(t.id); if (c == std::string::npos) return 0; size_t a = p.find(t.md, c + t.id.size()); if (a == std::string::npos) return 0; std::string l = strip(p.substr(0, c), t.sp), r = strip(p.substr(c + t.id.size(), a - c - t.id.size()), t.sp), v = strip(p.substr(a + t.md.size()), t.sp); Piece<K, T> q{l.empty(), r.empty(), K(), K(), T()}; if (v.empty() || (!q.li && !Num<K>::read(l, q.a)) || (!q.ri && !Num<K>::read(r, q.b)) || !Num<T>::read(v, q.v)) return 0; if (!put(L, q)) return 0; } return 1; }
static Tr rtraits(Rng& r) { Tr t; if (r.coin(1, 3)) return t; static const std::vector<std::string> words = {":", "->", ";", "::", "=>", ";;", "|", "to", "..", "~~~", "@", "=", ",", "###", "#<>#", "&&", "%", "!!!!", "<", "\n"}; std::vector<int> ix; for (int tries = 0; tries < 100; ++tries) { std::string a = r.pick(words), b = r.pick(words), c = r.pick(words); auto clash = [](const std::string& x, const std::string& y) { for (char p : x) if (y.find(p) != std::string::npos) return true; return false; }; if (clash(a, b) || clash(b, c) || clash(a, c)) continue; t.id = a; t.md = b; t.ed = c; break; } static const std::vector<std::string> sps = {" \t", "", " ", "\t", "_", " _\r"}; t.sp = r.pick(sps); return t; }
template<class K, class T> static bool admissible(const Tr& t) { std::string all = t.id + t.md + t.ed + t.sp; const char* num = "0123456789+-.einfa"; bool str = std::is_same<T, std::string>::value || std::is_same<K, std::string>::value; for (char c : all) { if (c == '.' || c == '-' || c == '+' || c == 'e') { if (!(t.md == "->" && c == '-' ) ) return false; } if (str && (isalnum((unsigned char)c))) return false; if (isdigit((unsigned char)c)) return false; } (void) num; return true; }
template<class K, class T> static interval_map<K, T> build(Rng& r, std::vector<Piece<K, T>>& L) { interval_map<K, T> x; L.clear(); int n = r.range(0, 8), nv = r.range(1, 4); std::vector<T> vs; for (int i = 0; i < nv; ++i) vs.push_back(Num<T>::any(r)); for (int i = 0; i < n; ++i) { Piece<K, T> p{r.coin(1, 10), r.coin(1, 10), Num<K>::any(r), Num<K>::any(r), r.pick(vs)}; if (!p.li && !p.ri && p.b < p.a) std::swap(p.a, p.b); put(L, p); auto inf = interval_map<K, T>::tag_inf; if (p.li && p.ri) x.insert(inf, inf, p.v); else if (p.li) x.insert(inf, p.b, p.v); else if (p.ri) x.insert(p.a, inf, p.v); else x.insert(p.a, p.b, p.v); } return x; }
static std::string show(const std::string& s) { std::string o; for (char c : s) o += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : std::string(1, c); return o; }
template<class K, class T> static interval_map<K, T> parse(const std::string& s, const Tr& t, size_t pos = 0, size_t cnt = std::string::npos) { return parse_interval_map<K, T>(s, pos, cnt, details::DefaultParser<K>(), details::DefaultParser<T>(), t.get()); }
template<class K, class T> static bool agree(const interval_map<K, T>& x, const std::vector<Piece<K, T>>& L) { auto p = pieces(x); if (p.size() != L.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (!same(p[i], L[i])) return false; return true; }
template<class K, class T> static std::string print(const interval_map<K, T>& x, const Tr& t) { std::ostringstream o; o << std::setprecision(17); x.print(o, t.get()); return o.str(); }
template<class K, class T> static void trip(Mon& m, Rng& r) { Tr t; do t = rtraits(r); while (!admissible<K, T>(t)); std::vector<Piece<K, T>> L, Q; auto x = build<K, T>(r, L); std::string s = print(x, t); m.key("round-trip"); m.desc("%s->%s, delimiters %s: %s", Num<K>::name(), Num<T>::name(), show(t.str()).c_str(), show(s).c_str()); m.eval(); m.distinct("t" + s); if (!m.check(agree(x, L), "map", "the map itself is wrong")) return; m.check(refparse(s, t, Q) == 1 && Q.size() == L.size(), "print", "printed text does not describe the map"); for (size_t i = 0; i < L.size() && i < Q.size(); ++i) m.check(same(L[i], Q[i]), "print", "printed text does not describe piece %zu", i); auto y = parse<K, T>(s, t); m.check(agree(y, L), "round-trip", "another map: %s", show(print(y, t)).c_str()); m.obs("maps printed and read"); m.obs("pieces printed", long(L.size()));
    // parts of a longer text, other spaces, final delimiter
    std::string pre, post; for (int i = r.range(0, 4); i > 0; --i) pre += char(r.range(33, 90)); for (int i = r.range(0, 4); i > 0; --i) post += char(r.range(33, 90)); auto z = parse<K, T>(pre + s + post, t, pre.size(), s.size()); m.check(agree(z, L), "part-of-text", "text between '%s' and '%s'", pre.c_str(), post.c_str()); auto w = parse<K, T>(pre + s, t, pre.size()); m.check(agree(w, L), "part-of-text", "text after '%s'", pre.c_str()); if (!L.empty()) { std::string u = s + t.ed; if (!t.sp.empty()) { u += r.pick(t.sp); std::string pad; for (int i = r.range(1, 3); i > 0; --i) pad += r.pick(t.sp); u = pad + u; } m.check(agree(parse<K, T>(u, t), L), "final-delimiter", "%s", show(u).c_str()); } }
// any text: the result of the library and of the reference must be the same, refusal is an exception
template<class K, class T> static void any(Mon& m, const std::string& s, const Tr& t) { std::vector<Piece<K, T>> Q; int ok = refparse(s, t, Q); m.key("text"); m.desc("%s->%s, delimiters %s: %s", Num<K>::name(), Num<T>::name(), show(t.str()).c_str(), show(s).c_str()); m.eval(); m.distinct("x" + s); bool thrown = false; interval_map<K, T> x; try { x = parse<K, T>(s, t); } catch (const std::exception&) { thrown = true; } if (ok) { m.check(!thrown, "well-formed-refused", "well-formed text is refused"); if (!thrown) m.check(agree(x, Q), "text-meaning", "another map: %s", show(print(x, t)).c_str()); m.obs("well-formed texts"); } else { m.check(thrown, "malformed-accepted", "malformed text gives the map: %s", show(print(x, t)).c_str()); m.obs("malformed texts refused"); } }
template<class K, class T> static void mutate(Mon& m, Rng& r) { Tr t; do t = rtraits(r); while (!admissible<K, T>(t)); std::vector<Piece<K, T>> L; std::string s = print(build<K, T>(r, L), t); std::string al = t.id + t.md + t.ed + t.sp + t.id + t.md + t.ed + "0123456789-+x.9"; int n = r.range(1, 3); for (int i = 0; i < n; ++i) { int op = r.range(0, 6); size_t p = size_t(r.range(0, int(s.size()))); static std::string none; if (op == 0) s.insert(p, 1, r.pick(al)); else if (op == 1 && p < s.size()) s.erase(p, 1); else if (op == 2 && p < s.size()) s[p] = r.pick(al); else if (op == 3) s = s.substr(0, p); else if (op == 4) s.insert(p, r.coin() ? t.id : r.coin() ? t.md : t.ed); else if (op == 5 && p < s.size()) s.erase(p, size_t(r.range(1, 5))); else if (!s.empty()) s.insert(p, s.substr(size_t(r.range(0, int(s.size())-1)), size_t(r.range(1, 12)))); } any<K, T>(m, s, t); }
template<class K, class T> static void noise(Mon& m, Rng& r) { Tr t; do t = rtraits(r); while (!admissible<K, T>(t)); std::string s; int n = r.range(0, 14); for (int i = 0; i < n; ++i) switch (r.range(0, 7)) { case 0: s += t.id; break; case 1: s += t.md; break; case 2: s += t.ed; break; case 3: if (!t.sp.empty()) s += r.pick(t.sp); break; case 4: s += char(r.range(32, 126)); break; case 5: s += std::to_string(r.range(-9, 9)); break; case 6: { s += std::to_string(r.range(0, 9)) + t.id + std::to_string(r.range(0, 9)) + t.md + std::to_string(r.range(0, 3)) + t.ed; break; } default: s += "99999999999999999999"; } any<K, T>(m, s, t); }
SECTION(tripll) { run_cases(m, m.cases(3000, 60000), [&](long, Rng& r) { trip<long, long>(m, r); }); }
SECTION(tripid) { run_cases(m, m.cases(2000, 40000), [&](long, Rng& r) { trip<int, double>(m, r); }); }
SECTION(tripds) { run_cases(m, m.cases(2000, 40000), [&](long, Rng& r) { trip<double, std::string>(m, r); }); }
SECTION(tripsl) { run_cases(m, m.cases(2000, 40000), [&](long, Rng& r) { trip<std::string, long>(m, r); }); }
SECTION(mutll) { run_cases(m, m.cases(8000, 300000), [&](long, Rng& r) { mutate<long, long>(m, r); }); }
SECTION(mutis) { run_cases(m, m.cases(4000, 100000), [&](long, Rng& r) { mutate<int, std::string>(m, r); }); }
SECTION(mutdl) { run_cases(m, m.cases(4000, 100000), [&](long, Rng& r) { mutate<double, long>(m, r); }); }
SECTION(noise) { run_cases(m, m.cases(8000, 300000), [&](long c, Rng& r) { if (c % 2) noise<long, int>(m, r); else noise<int, long>(m, r); }); }
SECTION(traits) { run_cases(m, 30, [&](long, Rng& r) { m.key("traits"); m.eval(); Tr t; int k = r.range(0, 2); (k == 0 ? t.id : k == 1 ? t.md : t.ed).clear(); m.distinct(fmt("tr%d", k)); bool th = mon::throws([&] { auto x = parse<long, long>("1:2->3;4:5->6", t); (void) x; }); m.check(th, "empty-delimiter", "an empty delimiter (%d) is accepted", k); m.check(parse<long, long>("", Tr()).empty() && parse<long, long>(" \t ", Tr()).empty() && parse<long, long>("1:2->3", Tr(), 6).empty() && parse<long, long>("1:2->3", Tr(), 60).empty() && parse<long, long>("1:2->3", Tr(), 0, 0).empty(), "empty-text", "empty text gives a map that is not empty"); ParseIvlMapTraits u; u.setIntervalDelim("to").setMapDelim("=").setElemDelim("|").setIgnoreSymbols("_"); m.check(u.interval_delimiter == "to" && u.map_delimiter == "=" && u.elem_delimiter == "|" && u.ignore_symbols == "_", "traits", "setters"); }); }
