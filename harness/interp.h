// Model of degree-of-freedom functionals of composed spaces (sums use the dual combination of their parts' functionals)
#pragma once
#include "space.h"
namespace orc {
inline std::pair<int,int> dofLoc(const Sp& s, int d) { // (dimension of the entity, its number)
    if (s.k == Sp::Unit) switch (s.fam) {
        case P0: case B4: return {3, 0}; case P1: return {0, d}; case P2: return d < 4 ? std::pair<int,int>{0, d} : std::pair<int,int>{1, d-4};
        case P3: return d < 4 ? std::pair<int,int>{0, d} : d < 16 ? std::pair<int,int>{1, (d-4)/2} : std::pair<int,int>{2, d-16};
        case CR1: case RT0: return {2, d}; default: return {1, d}; }
    int nc = s.k == Sp::Vec ? s.n : int(s.ch.size());
    for (int q = 0; q < nc; ++q) { auto& c = *s.ch[s.k == Sp::Vec ? 0 : q]; if (d < c.nf()) return dofLoc(c, d); d -= c.nf(); }
    return {-1, -1};
}
struct Functional { // caches the combination matrices of the sums of a space
    std::map<const Sp*, std::vector<L>> W; L wmax = 1;
    L apply(const Sp& s, const Tet& t, int d, const Fn& f, int dim, int co, int deg) {
        if (s.k == Sp::Unit) return famFunctional(s.fam, t, d, f, dim, co, deg);
        if (s.k == Sp::Uni) { auto& w = mat(s); L r = 0; int nf = s.nf(); for (int j = 0; j < nf; ++j) if (fabsl(w[d+size_t(nf)*j]) > 1e-15L) r += w[d+size_t(nf)*j]*child(s, t, j, f, dim, co, deg); return r; }
        return child(s, t, d, f, dim, co, deg);
    }
    L child(const Sp& s, const Tet& t, int d, const Fn& f, int dim, int co, int deg) {
        int nc = s.k == Sp::Vec ? s.n : int(s.ch.size());
        for (int q = 0; q < nc; ++q) { auto& c = *s.ch[s.k == Sp::Vec ? 0 : q]; if (d < c.nf()) return apply(c, t, d, f, dim, co, deg); d -= c.nf(); if (s.k != Sp::Uni) co += c.dim(); }
        return NAN;
    }
    const std::vector<L>& mat(const Sp& s) {
        auto it = W.find(&s); if (it != W.end()) return it->second;
        int nf = s.nf(), d = s.dim(); std::vector<L> G(size_t(nf)*nf), I(size_t(nf)*nf); Tet t = refTet();
        for (int k = 0; k < nf; ++k) { I[k+size_t(nf)*k] = 1; Fn f = [&](const L* l, L* o) { auto B = basis(s, t, l); for (int c = 0; c < d; ++c) o[c] = B[size_t(k)*d+c].v; };
            for (int i = 0; i < nf; ++i) G[i+size_t(nf)*k] = child(s, t, i, f, d, 0, 5); }
        L rc; auto X = solveDense(G, I, nf, nf, &rc); wmax = std::max(wmax, maxabs(X));
        return W[&s] = X;
    }
};
} // namespace orc
