// D02: filtered iteration and the algebra of geometric selections. Oracles: the explicit DOF list of the model and 15-bit sets.
#include "dofmodel.h"
using namespace dm;
static const int SH[4] = {0, 4, 10, 14}, CNT[4] = {4, 6, 4, 1};
static int closure(int d, int e) { // bits of the entity and its sub-entities
    int v = 0; if (d == 0) v = 1 << e; else if (d == 1) v = 1 << EN[e][0] | 1 << EN[e][1]; else if (d == 2) v = 1 << FN[e][0] | 1 << FN[e][1] | 1 << FN[e][2]; else v = 15;
    int m = 0;
    for (int i = 0; i < 4; ++i) if (v >> i & 1) m |= 1 << i;
    for (int i = 0; i < 6; ++i) if ((v >> EN[i][0] & 1) && (v >> EN[i][1] & 1)) m |= 1 << (4 + i);
    for (int i = 0; i < 4; ++i) if ((v >> FN[i][0] & 1) && (v >> FN[i][1] & 1) && (v >> FN[i][2] & 1)) m |= 1 << (10 + i);
    if (d == 3) m |= 1 << 14;
    return m;
}
static int dimmask(int d) { return ((1 << CNT[d]) - 1) << SH[d]; }
static void walk(Mon& m, const BaseDofMap& map, const std::vector<D>& L, unsigned shift, const std::vector<D>& PL, int mask, bool prefer, const std::string& key) {
    // L: the layout iterated over; PL: the parent's list; the iterator reports parent indices
    auto sp = mkSp(mask);
    std::vector<char> seen(L.size(), 0); long steps = 0, want = 0, lastpos = -1;
    for (auto& d : L) want += sel(mask, d.num, d.nelem);
    auto e = map.endBySparsity();
    for (auto it = map.beginBySparsity(sp, prefer); it != e; ++it) {
        if (++steps > (long)L.size() + 3) { m.fail(key + "-endless", "selection %#x prefer=%d: more than %zu steps", mask, prefer, L.size()); return; }
        auto lo = *it; m.obs("dofs_visited");
        long i = (long)lo.gid - shift;
        if (!m.check(i >= 0 && i < (long)L.size(), key + "-range", "selection %#x prefer=%d: gid %u", mask, prefer, lo.gid)) return;
        auto& d = L[i]; auto& pd = PL[lo.gid];
        m.check(sel(mask, d.num, d.nelem), key + "-foreign", "selection %#x prefer=%d: visits dof %ld of unselected entity (kind %d number %d)", mask, prefer, i, d.num, d.nelem);
        m.check(!seen[i], key + "-twice", "selection %#x prefer=%d: dof %ld visited twice", mask, prefer, i);
        seen[i] = 1;
        m.check(lo.etype == 1 << pd.num && lo.nelem == pd.nelem && lo.leid == pd.leid, key + "-fields", "selection %#x prefer=%d: dof %u reported as (type %d elem %d leid %u) want (%d %d %u)", mask, prefer, lo.gid, lo.etype, lo.nelem, lo.leid, 1 << pd.num, pd.nelem, pd.leid);
        m.check(lo.stype == pd.stype && lo.lsid == pd.lsid, key + "-sym", "selection %#x prefer=%d: dof %u symmetry label (%d,%d) want (%d,%d)", mask, prefer, lo.gid, lo.stype, lo.lsid, pd.stype, pd.lsid);
        if (prefer) {
            long pos = SH[DIMOF[pd.num]] + pd.nelem;
            m.check(pos >= lastpos, key + "-grouping", "selection %#x: entity position %ld after %ld", mask, pos, lastpos);
            lastpos = pos;
        }
    }
    if (steps != want) { std::string miss; for (size_t i = 0; i < L.size() && miss.size() < 200; ++i) if (sel(mask, L[i].num, L[i].nelem) && !seen[i]) miss += fmt(" %zu(kind %d,el %d,leid %u)", i, L[i].num, L[i].nelem, L[i].leid);
        m.check(false, key + "-missing", "selection %#x prefer=%d: %ld of %ld dofs visited, missing%s", mask, prefer, steps, want, miss.c_str()); }
    else m.check(true, key, "ok");
}
static int randmask(Rng& r) {
    switch (r.range(0, 6)) {
        case 0: return r.range(0, 0x7fff);
        case 1: { int d = r.range(0, 3); return 1 << (SH[d] + r.range(0, CNT[d] - 1)); }
        case 2: { int d = r.range(0, 3); return closure(d, r.range(0, CNT[d] - 1)); }
        case 3: return dimmask(r.range(0, 3));
        case 4: { int d = r.range(0, 2); return r.range(0, 0x7fff) & (dimmask(d) | dimmask(d + 1)); }
        case 5: return r.range(0, 0x7fff) & r.range(0, 0x7fff) & r.range(0, 0x7fff);
        default: return r.coin(1, 8) ? 0 : 0x7fff;
    }
}
static void all_walks(Mon& m, const BaseDofMap& map, const Node& mod, Rng& r, const std::string& key, int nm) {
    auto L = mod.list();
    for (int i = 0; i < nm; ++i) { int mask = randmask(r); m.distinct(mod.str() + std::to_string(mask)); for (int p = 0; p < 2; ++p) walk(m, map, L, 0, L, mask, p, key); m.eval(2); }
    // nested components, iterated with parent indices
    const Node* cur = &mod; unsigned shift = 0; std::vector<int> path; P hold;
    while (cur->nchild() > 0 && (path.empty() || r.coin())) {
        int c = r.range(0, cur->nchild() - 1); for (int i = 0; i < c; ++i) shift += cur->child(i)->total();
        path.push_back(c); hold = cur->child(c); cur = hold.get();
    }
    if (!path.empty()) {
        auto nd = map.GetNestedDofMap(path.data(), path.size()); auto nv = map.GetNestedDofMapView(path.data(), path.size());
        auto SL = cur->list();
        for (int i = 0; i < 3; ++i) { int mask = randmask(r); walk(m, nd, SL, shift, L, mask, i & 1, key + "-nested"); walk(m, nv, SL, shift, L, mask, !(i & 1), key + "-nested"); m.eval(2); }
    }
}
SECTION(runtime) {
    run_cases(m, m.cases(400, 4000), [&](long c, Rng& r) {
        P mod = randNode(r, r.range(0, 3)); if (mod->total() > 1200) return;
        m.desc("layout %s", mod->str().c_str()); m.sample(mod->str());
        auto map = make(*mod, r); all_walks(m, *map, *mod, r, "walk", 12);
        DofMap w(map); auto L = mod->list(); int mask = randmask(r); long n = 0, want = 0; for (auto& d : L) want += sel(mask, d.num, d.nelem);
        for (auto it = w.beginBySparsity(mkSp(mask)); it != w.endBySparsity() && n < 5000; ++it) ++n;
        m.check(n == want, "walk-wrapper", "%ld of %ld", n, want);
        // an empty power carries nothing
        VectorDofMap z(0, map); n = 0; for (auto it = z.beginBySparsity(mkSp(0x7fff)); it != z.endBySparsity() && n < 10; ++it) ++n; m.check(n == 0, "walk-empty-power", "%ld dofs visited in a zero power", n);
    });
}
SECTION(pairing) { // trial and test layouts with equal counts per entity are paired entity by entity in the geometry-first order
    run_cases(m, m.cases(150, 2000), [&](long c, Rng& r) {
        std::vector<P> base; int nb = r.range(2, 4); for (int i = 0; i < nb; ++i) base.push_back(randNode(r, r.range(0, 1)));
        auto perm = base; r.shuffle(perm); P a = mkCpx(base), b = mkCpx(perm); if (a->total() > 800) return;
        m.desc("pair %s with %s", a->str().c_str(), b->str().c_str()); m.distinct(a->str() + b->str());
        auto x = make(*a, r), y = make(*b, r); int mask = randmask(r); m.eval(); auto sp = mkSp(mask);
        auto i = x->beginBySparsity(sp, true), j = y->beginBySparsity(sp, true); long n = 0;
        for (; i != x->endBySparsity() && j != y->endBySparsity() && n < 3000; ++i, ++j, ++n) m.check(GeomTypeDim(i->etype) == GeomTypeDim(j->etype) && i->nelem == j->nelem, "pairing", "selection %#x step %ld pairs (type %d, %d) with (type %d, %d)", mask, n, i->etype, i->nelem, j->etype, j->nelem);
        m.check(i == x->endBySparsity() && j == y->endBySparsity(), "pairing", "selection %#x: one layout ends before the other after %ld", mask, n);
    });
}
template<class T> static void ct(Mon& m, Rng& r, const char* nm) {
    P mod; T t = Build<T>::go(mod, r); if (mod->total() > 1200) return;
    m.desc("compile-time %s %s", nm, mod->str().c_str()); m.sample(std::string(nm) + mod->str());
    all_walks(m, t, *mod, r, "static-walk", 10);
}
using U = UniteDofMap;
SECTION(compile_time) {
    run_cases(m, m.cases(250, 2500), [&](long c, Rng& r) {
        switch (c % 10) {
            case 0: ct<VectorDofMapC<U>>(m, r, "V<U>"); break;
            case 1: ct<ComplexDofMapC<U, U>>(m, r, "C<U,U>"); break;
            case 2: ct<ComplexDofMapC<U, VectorDofMapC<U>>>(m, r, "C<U,V<U>>"); break;
            case 3: ct<VectorDofMapC<ComplexDofMapC<U, U>>>(m, r, "V<C<U,U>>"); break;
            case 4: ct<ComplexDofMapC<ComplexDofMapC<U, U>, U>>(m, r, "C<C<U,U>,U>"); break;
            case 5: ct<ComplexDofMapC<U, U, U>>(m, r, "C<U,U,U>"); break;
            case 6: ct<VectorDofMapC<VectorDofMapC<U>>>(m, r, "V<V<U>>"); break;
            case 7: ct<ComplexDofMapC<VectorDofMapC<ComplexDofMapC<U, U>>, U>>(m, r, "C<V<C<U,U>>,U>"); break;
            case 8: ct<ComplexDofMapC<U, U, U, U, U>>(m, r, "C<U,U,U,U,U>"); break;
            default: ct<ComplexDofMapC<U>>(m, r, "C<U>"); break;
        }
    });
}
SECTION(algebra) {
    for (int d = 0; d < 4; ++d) for (int e = 0; e < CNT[d]; ++e) { // closures
        TetGeomSparsity s; s.set(d, e, true); m.check(readSp(s) == closure(d, e), "closure", "closure of (%d,%d): %#x want %#x", d, e, readSp(s), closure(d, e));
        TetGeomSparsity f; for (int k = 0; k < 4; ++k) f.set(k); f.unset(d, e, true); m.check(readSp(f) == (d == 3 ? 0 : 0x7fff & ~closure(d, e)), "closure-unset", "unset (%d,%d) with closure: %#x", d, e, readSp(f)); m.eval();
    }
    run_cases(m, m.cases(3000, 60000), [&](long c, Rng& r) {
        int a = r.range(0, 0x7fff), b = randmask(r); auto A = mkSp(a), B = mkSp(b);
        m.desc("sets %#x %#x", a, b); m.eval(); m.distinct(fmt("%x %x", a, b));
        m.check(readSp(A) == a, "set-bits", "built %#x reads %#x", a, readSp(A));
        m.check(readSp(A & B) == (a & b), "set-and", "%#x", readSp(A & B));
        m.check(readSp(A | B) == (a | b), "set-or", "%#x", readSp(A | B));
        m.check(readSp(A ^ B) == (a ^ b), "set-xor", "%#x", readSp(A ^ B));
        m.check(readSp(~A) == (0x7fff & ~a), "set-not", "%#x", readSp(~A));
        auto C = A; C.set(B); m.check(readSp(C) == (a | b), "set-union", "%#x", readSp(C)); C = A; C.unset(B); m.check(readSp(C) == (a & ~b), "set-minus", "%#x", readSp(C));
        m.check((~A & A).empty() && (A ^ A).empty() && (~(~A) ^ A).empty(), "set-laws", "laws");
        auto F = ~(A | ~A); m.check(F.empty(), "set-not-empty", "complement of the whole tetrahedron is not empty");
        m.check(A.empty() == (a == 0), "set-empty", "empty");
        for (int d = 0; d < 4; ++d) { m.check(A.empty(d) == ((a & dimmask(d)) == 0), "set-empty-dim", "dim %d", d); m.check((~A).empty(d) == ((~a & dimmask(d)) == 0), "set-not-empty-dim", "complement of %#x: emptiness on dimension %d", a, d); }
        // positions enumerate the set in order
        std::vector<int> got; for (auto p = A.beginPos(); p.isValid() && got.size() < 20; p = A.nextPos(p)) got.push_back(SH[p.elem_dim] + p.elem_num);
        std::vector<int> want; for (int i = 0; i < 15; ++i) if (a >> i & 1) want.push_back(i);
        m.check(got == want, "set-positions", "positions of %#x", a);
        auto q = A.nextPos(A.endPos()); m.check(q == A.endPos() && q != TetGeomSparsity::Pos(0, 0), "set-positions", "successor of the end");
        for (int d = 0; d < 4; ++d) { got.clear(); for (auto p = A.beginPos(d); p.isValid() && got.size() < 20; p = A.nextPosOnDim(p)) got.push_back(SH[p.elem_dim] + p.elem_num); want.clear(); for (int i = 0; i < CNT[d]; ++i) if (a >> (SH[d] + i) & 1) want.push_back(SH[d] + i); m.check(got == want, "set-positions-dim", "positions of %#x on dimension %d", a, d); }
        // programs of set operations
        int s = 0; TetGeomSparsity S; std::string prog;
        for (int i = 0, n = r.range(1, 12); i < n; ++i) {
            int d = r.range(0, 3), e = r.range(0, CNT[d] - 1); bool cl = r.coin();
            int what = r.range(0, 13), cb = cl ? closure(d, e) : 1 << (SH[d] + e); prog += fmt(" %d:%d,%d,%d", what, d, e, cl);
            switch (what) {
                case 0: case 1: S.set(d, e, cl); s |= cb; break;
                case 2: S.unset(d, e, cl); s &= ~cb; break;
                case 3: S.set(d); s |= dimmask(d); break;
                case 4: S.unset(d); s &= ~dimmask(d); break;
                case 5: if (d == 0) S.setNode(e), s |= 1 << e; else if (d == 1) S.setEdge(e, cl), s |= cb; else if (d == 2) S.setFace(e, cl), s |= cb; else S.setCell(cl), s |= cb; break;
                case 6: if (d == 0) S.unsetNode(e), s &= ~(1 << e); else if (d == 1) S.unsetEdge(e, cl), s &= ~cb; else if (d == 2) S.unsetFace(e, cl), s &= ~cb; else S.unsetCell(cl), s &= ~cb; break;
                case 7: S.setNodes(); s |= dimmask(0); break;
                case 8: S.setEdges(); s |= dimmask(1); break;
                case 9: S.setFaces(); s |= dimmask(2); break;
                case 10: if (d == 0) S.unsetNodes(), s &= ~dimmask(0); else if (d == 1) S.unsetEdges(), s &= ~dimmask(1); else if (d == 2) S.unsetFaces(), s &= ~dimmask(2); break;
                case 11: S = ~S; s = 0x7fff & ~s; break;
                case 12: S = S ^ A; s ^= a; break;
                default: if (r.coin(1, 4)) { S.clear(); s = 0; } else { S.set(B); s |= b; }
            }
            m.check(readSp(S) == s, "set-program", "after%s: %#x want %#x", prog.c_str(), readSp(S), s); m.obs("set_operations");
        }
        m.check(mon::throws([&] { S.set(4, 0, true); }) && mon::throws([&] { S.unset(5, 0, true); }), "set-bad-dim", "dimension 4 accepted");
    });
}
