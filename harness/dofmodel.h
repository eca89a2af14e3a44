// Independent model of degree-of-freedom layouts: an explicit list of (entity kind, entity, index on entity, symmetry label)
#pragma once
#include "mon.h"
#include "anifem++/fem/tetdofmap.h"
#include <memory>
namespace dm {
using namespace Ani; using namespace Ani::DofT;
static const int NEL[6] = {4, 6, 6, 4, 4, 1};
static const int DIMOF[6] = {0, 1, 1, 2, 2, 3};
static const int EN[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
// local order of the vertices of face k: k, k+1, k+2 (mod 4)
static const int FN[4][3] = {{0,1,2},{1,2,3},{2,3,0},{3,0,1}};
struct D { int num, nelem; unsigned leid; int stype, lsid; unsigned part; };  // num: kind index 0..5, part: top-level component
struct Node;
using P = std::shared_ptr<Node>;
struct Node {
    enum K { Unite, Vec, Cpx } k = Unite;
    std::array<unsigned, 16> sym{}; bool has_sym = false; std::array<unsigned, 6> cnt{};
    int dim = 0; std::vector<P> ch;
    std::array<unsigned, 6> counts() const {
        std::array<unsigned, 6> r{};
        if (k == Unite) return cnt;
        if (k == Vec) { if (dim) { r = ch[0]->counts(); for (auto& x : r) x *= dim; } return r; }
        for (auto& c : ch) { auto q = c->counts(); for (int i = 0; i < 6; ++i) r[i] += q[i]; }
        return r;
    }
    unsigned total() const { auto c = counts(); unsigned s = 0; for (int i = 0; i < 6; ++i) s += c[i] * NEL[i]; return s; }
    std::vector<D> list() const {
        std::vector<D> r;
        static const int offs[7] = {0, 1, 3, 5, 8, 11, 16};
        static const int vol[16] = {1, 1, 2, 1, 2, 1, 3, 6, 1, 3, 6, 1, 4, 6, 12, 24};
        if (k == Unite) {
            for (int n = 0; n < 6; ++n) for (int e = 0; e < NEL[n]; ++e) {
                if (!has_sym) { for (unsigned l = 0; l < cnt[n]; ++l) r.push_back({n, e, l, 255, 255, 0}); continue; }
                unsigned l = 0;
                for (int s = offs[n]; s < offs[n+1]; ++s) for (unsigned c = 0; c < sym[s]; ++c) for (int v = 0; v < vol[s]; ++v)
                    r.push_back({n, e, l++, s - offs[n], v, 0});
            }
            return r;
        }
        std::array<unsigned, 6> sh{};
        int nc = k == Vec ? dim : int(ch.size());
        for (int c = 0; c < nc; ++c) {
            auto& q = k == Vec ? ch[0] : ch[c];
            for (auto d : q->list()) { d.leid += sh[d.num]; d.part = c; r.push_back(d); }
            auto cc = q->counts(); for (int i = 0; i < 6; ++i) sh[i] += cc[i];
        }
        return r;
    }
    std::string str() const {
        std::string s;
        if (k == Unite) { s = has_sym ? "S(" : "U("; if (has_sym) for (auto x : sym) s += std::to_string(x); else for (auto x : cnt) s += std::to_string(x); return s + ")"; }
        if (k == Vec) return "V" + std::to_string(dim) + "[" + ch[0]->str() + "]";
        s = "C["; for (auto& c : ch) s += c->str() + ","; return s + "]";
    }
    int nchild() const { return k == Vec ? dim : k == Cpx ? (int)ch.size() : 0; }
    P child(int i) const { return k == Vec ? ch[0] : ch[i]; }
};
inline P mkSym(std::array<unsigned, 16> s) {
    static const int vol[16] = {1, 1, 2, 1, 2, 1, 3, 6, 1, 3, 6, 1, 4, 6, 12, 24};
    static const int offs[7] = {0, 1, 3, 5, 8, 11, 16};
    auto p = std::make_shared<Node>(); p->has_sym = true; p->sym = s;
    for (int n = 0; n < 6; ++n) for (int i = offs[n]; i < offs[n+1]; ++i) p->cnt[n] += s[i] * vol[i];
    return p;
}
inline P mkCnt(std::array<unsigned, 6> c) { auto p = std::make_shared<Node>(); p->cnt = c; return p; }
inline P mkVec(int d, P b) { auto p = std::make_shared<Node>(); p->k = Node::Vec; p->dim = d; p->ch = {b}; return p; }
inline P mkCpx(std::vector<P> c) { auto p = std::make_shared<Node>(); p->k = Node::Cpx; p->ch = c; return p; }

inline std::array<unsigned, 16> predefined_sym(int i) {
    switch (i) {
        case 0: return {0,0,0,0,0,0,0,0,0,0,0,1};        // P0
        case 1: return {1};                              // P1
        case 2: return {1,1};                            // P2
        case 3: return {1,0,1,0,0,1};                    // P3
        case 4: return {0,0,0,1};                        // ND0
        case 5: return {0,0,0,0,0,0,0,0,1};              // RT0
        case 6: return {0,0,0,0,0,1};                    // CR1
        case 7: return {0,1};                            // B2
        default: return {0,0,0,0,0,0,0,0,0,0,0,1};       // B4
    }
}
inline P randUnite(Rng& r, bool allow_unsym = true) {
    int t = r.range(0, 9);
    if (t < 4) return mkSym(predefined_sym(r.range(0, 8)));
    if (t < 7 || !allow_unsym) {
        std::array<unsigned, 16> s{}; int n = r.range(1, 5);
        for (int i = 0; i < n; ++i) { int q = r.range(0, 15); if (q == 15 && !r.coin(1, 3)) q = r.range(0, 13); s[q] += r.range(1, 2); }
        return mkSym(s);
    }
    std::array<unsigned, 6> c{}; int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) c[r.range(0, 5)] += r.range(1, 3);
    return mkCnt(c);
}
inline P randNode(Rng& r, int depth) {
    if (depth == 0 || r.coin(1, 4)) return randUnite(r);
    if (r.coin()) return mkVec(r.range(1, 4), randNode(r, depth - 1));
    std::vector<P> c; int n = r.range(1, 4); for (int i = 0; i < n; ++i) c.push_back(i && r.coin(1, 3) ? c.back() : randNode(r, depth - 1));
    return mkCpx(c);
}
inline UniteDofMap makeUnite(const Node& n) {
    if (n.has_sym) { auto& s = n.sym;
        return UniteDofMap(DofSymmetries({s[0]}, {s[1], s[2]}, {s[3], s[4]}, {s[5], s[6], s[7]}, {s[8], s[9], s[10]}, {s[11], s[12], s[13], s[14], s[15]})); }
    return UniteDofMap(n.cnt);
}
inline std::shared_ptr<BaseDofMap> make(const Node& n, Rng& r) {
    if (n.k == Node::Unite) return std::make_shared<UniteDofMap>(makeUnite(n));
    if (n.k == Node::Vec) return std::make_shared<VectorDofMap>(n.dim, make(*n.ch[0], r));
    std::vector<std::shared_ptr<BaseDofMap>> v; for (auto& c : n.ch) v.push_back(make(*c, r));
    if (r.coin()) return std::make_shared<ComplexDofMap>(v);
    auto c = std::make_shared<ComplexDofMap>(); for (auto& x : v) c->PushBack(x); return c;
}
// the same layout through the composition operators (with simplifications)
inline DofMap makeOps(const Node& n, Rng& r) {
    if (n.k == Node::Unite) return DofMap(makeUnite(n));
    if (n.k == Node::Vec) { auto b = makeOps(*n.ch[0], r); return r.coin() ? (b ^ (unsigned)n.dim) : pow(b, n.dim); }
    std::vector<DofMap> v; for (auto& c : n.ch) v.push_back(makeOps(*c, r));
    switch (r.range(0, 2)) {
        case 0: return merge(v);
        case 1: return merge_with_simplifications(v);
        default: { DofMap q = v[0]; for (size_t i = 1; i < v.size(); ++i) q = q * v[i]; return q; }
    }
}
inline bool sel(int mask, int num, int nelem) { // mask: 4 node bits, 6 edge bits, 4 face bits, 1 cell bit
    int d = DIMOF[num]; int sh[4] = {0, 4, 10, 14}; return mask >> (sh[d] + nelem) & 1;
}
inline TetGeomSparsity mkSp(int mask) {
    TetGeomSparsity s;
    for (int i = 0; i < 4; ++i) if (mask >> i & 1) s.setNode(i);
    for (int i = 0; i < 6; ++i) if (mask >> (4 + i) & 1) s.setEdge(i);
    for (int i = 0; i < 4; ++i) if (mask >> (10 + i) & 1) s.setFace(i);
    if (mask >> 14 & 1) s.setCell();
    return s;
}
inline int readSp(const TetGeomSparsity& s) {
    int m = 0, sh[4] = {0, 4, 10, 14};
    for (int d = 0; d < 4; ++d) { auto q = s.getElemsIds(d); for (int i = 0; i < q.second; ++i) m |= 1 << (sh[d] + q.first[i]); }
    return m;
}
// compile-time layouts over run-time content; Build<T>::go(model-out, rng) creates random content and the matching model
template<class T> struct Build;
template<> struct Build<UniteDofMap> { static UniteDofMap go(P& m, Rng& r) { m = randUnite(r); return makeUnite(*m); } };
template<class B> struct Build<VectorDofMapC<B>> { static VectorDofMapC<B> go(P& m, Rng& r) { P b; auto q = Build<B>::go(b, r); int d = r.range(1, 4); m = mkVec(d, b); return VectorDofMapC<B>(d, q); } };
template<class... B> struct Build<ComplexDofMapC<B...>> {
    static ComplexDofMapC<B...> go(P& m, Rng& r) {
        std::vector<P> ms(sizeof...(B)); int i = 0;
        std::tuple<B...> t{Build<B>::go(ms[i++], r)...};
        m = mkCpx(ms);
        return std::apply([](auto&... a) { return ComplexDofMapC<B...>(a...); }, t);
    }
};
} // namespace dm
