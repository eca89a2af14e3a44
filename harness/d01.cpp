// D01: numbering bijection. Oracle: the explicit list of the model (dofmodel.h).
#include "dofmodel.h"
using namespace dm;
static void check_map(Mon& m, const BaseDofMap& map, const Node& mod, const std::string& how) {
    auto L = mod.list(); auto cnt = mod.counts(); unsigned N = L.size();
    std::string k = how + "-";
    m.check(map.NumDofOnTet() == N, k + "total", "NumDofOnTet %u want %u", map.NumDofOnTet(), N);
    auto nd = map.NumDofs(); auto ndt = map.NumDofsOnTet(); unsigned mask = 0;
    for (int n = 0; n < 6; ++n) {
        uchar et = 1 << n;
        m.check(map.NumDof(et) == cnt[n] && nd[n] == cnt[n], k + "count", "kind %d: NumDof %u/%u want %u", n, map.NumDof(et), nd[n], cnt[n]);
        m.check(map.NumDofOnTet(et) == cnt[n] * NEL[n] && ndt[n] == cnt[n] * NEL[n], k + "count-tet", "kind %d: %u/%u want %u", n, map.NumDofOnTet(et), ndt[n], cnt[n] * NEL[n]);
        m.check(map.DefinedOn(et) == (cnt[n] > 0), k + "defined", "kind %d", n);
        if (cnt[n]) mask |= et;
    }
    m.check(map.GetGeomMask() == mask, k + "mask", "mask %u want %u", map.GetGeomMask(), mask);
    if (map.NumDofOnTet() != N) return;
    for (unsigned i = 0; i < N; ++i) {
        auto& d = L[i]; m.obs("indices_translated");
        LocalOrder lo = map.LocalOrderOnTet(TetOrder(i)), lo2 = map[i], lo3 = map.at(TetOrder(i));
        bool ok = lo.gid == i && lo.etype == (1 << d.num) && lo.nelem == d.nelem && lo.leid == d.leid;
        m.check(ok, k + "to-geom", "gid %u -> (type %d elem %d leid %u gid %u) want (type %d elem %d leid %u)", i, lo.etype, lo.nelem, lo.leid, lo.gid, 1 << d.num, d.nelem, d.leid);
        m.check(lo.stype == d.stype && lo.lsid == d.lsid, k + "to-sym", "gid %u -> (stype %d lsid %d) want (%d %d)", i, lo.stype, lo.lsid, d.stype, d.lsid);
        m.check(lo2 == lo && lo3 == lo && lo2.getGeomOrder() == lo.getGeomOrder() && lo3.getGeomOrder() == lo.getGeomOrder(), k + "accessors", "operator[]/at differ at %u", i);
        m.check(map.TypeOnTet(i) == (1u << d.num), k + "type", "TypeOnTet(%u) = %u want %u", i, map.TypeOnTet(i), 1u << d.num);
        LocGeomOrder g(1 << d.num, d.nelem, d.leid);
        unsigned t = map.TetDofID(g); auto e = map.TetDofIDExt(g);
        m.check(t == i && e.first == i, k + "from-geom", "(type %d elem %d leid %u) -> %u / %u want %u", 1 << d.num, d.nelem, d.leid, t, e.first, i);
        m.check(e.second.stype == d.stype && e.second.lsid == d.lsid, k + "from-geom-sym", "leid %u -> stype %d lsid %d want %d %d", d.leid, e.second.stype, e.second.lsid, d.stype, d.lsid);
        LocalOrder g1 = map.LocalOrderOnTet(g), g2 = map[g], g3 = map.at(g);
        m.check(g1.gid == i && g2.gid == i && g3.gid == i && g1.leid == d.leid && g1.stype == d.stype && g1.lsid == d.lsid && g1.nelem == d.nelem && g1.etype == (1 << d.num), k + "geom-order", "index of (type %d elem %d leid %u) -> gid %u leid %u", 1 << d.num, d.nelem, d.leid, g1.gid, g1.leid);
        // validity predicates accept every enumerated index
        m.check(map.isValidIndex(TetOrder(i)) && map.isValidIndex(g) && map.isValidIndex(lo), k + "valid", "index %u reported invalid", i);
        m.check(lo.isValid() && g.isValid() && lo.getTetOrder().isValid(), k + "self-valid", "index object %u (type %d elem %d leid %u) reports itself invalid", i, lo.etype, lo.nelem, lo.leid);
        if (mod.k == Node::Unite && mod.has_sym) {
            m.check(map.isValidIndex(lo, true), k + "valid-sym", "index %u with its symmetry label reported invalid", i);
            LocalOrder bad = lo; bad.stype = 40; m.check(!map.isValidIndex(bad, true), k + "valid-sym", "symmetry label 40 accepted");
            static const int offs[7] = {0, 1, 3, 5, 8, 11, 16};
            for (int s = 0; s < offs[d.num + 1] - offs[d.num]; ++s) if (mod.sym[offs[d.num] + s] == 0) { bad = lo; bad.stype = s; bad.lsid = 0; m.check(!map.isValidIndex(bad, true), k + "valid-sym", "absent symmetry class %d accepted", s); }
        }
    }
    // ... and nothing outside it
    for (unsigned i : {N, N + 1, N + 17, 0x7fffffffu, 0xffffffffu}) {
        m.check(!map.isValidIndex(TetOrder(i)), k + "invalid", "flat index %u of %u accepted", i, N);
        m.check(mon::throws([&] { map.at(TetOrder(i)); }), k + "invalid-at", "at(%u) did not throw", i);
    }
    for (int n = 0; n < 6; ++n) for (int e = 0; e < NEL[n] + 2; ++e) for (unsigned l = (e < NEL[n] ? cnt[n] : 0); l < cnt[n] + 2; ++l) {
        LocGeomOrder g(1 << n, e, l);
        m.check(!map.isValidIndex(g), k + "invalid-geom", "(type %d elem %d leid %u) accepted, %u per entity", 1 << n, e, l, cnt[n]);
        m.check(mon::throws([&] { map.at(g); }), k + "invalid-at", "at(type %d elem %d leid %u) did not throw", 1 << n, e, l);
    }
    m.check(!map.isValidIndex(LocGeomOrder(0, 0, 0)) && !map.isValidIndex(LocGeomOrder(64, 0, 0)), k + "invalid-geom", "bad type accepted");
    // plain iteration
    unsigned c = 0; for (auto it = map.begin(); it != map.end(); ++it, ++c) {
        if (c >= N) break; auto& d = L[c];
        m.check(it->gid == c && it->etype == (1 << d.num) && it->leid == d.leid && it->nelem == d.nelem, k + "iterate", "iteration step %u", c);
    }
    m.check(c == N, k + "iterate", "%u steps of %u", c, N);
    if (N > 2) {
        auto b = map.begin(); unsigned a = N / 2;
        auto it = b + int(a); m.check((*it).gid == a && it - b == int(a) && b[int(a)].leid == L[a].leid, k + "iterate-ra", "random access");
        it -= 1; m.check(it->leid == L[a - 1].leid && it->etype == (1 << L[a-1].num), k + "iterate-ra", "step back"); --it; ++it; it += 1; m.check((*it).leid == L[a].leid && b < it && it > b && it >= b && b <= it && it != b, k + "iterate-ra", "order");
        m.check(map.end() - map.begin() == int(N), k + "iterate-ra", "distance");
    }
    m.check(map.NestedDim() == (unsigned)mod.nchild(), k + "nested-dim", "NestedDim %u want %d", map.NestedDim(), mod.nchild());
    auto cp = map.Copy();
    m.check(*cp == map && map == *cp, k + "copy-eq", "copy differs from the original");
}
static void check_nested(Mon& m, const BaseDofMap& map, const Node& mod, Rng& r, const std::string& how) {
    std::string k = how + "-nested-";
    if (mod.k == Node::Unite) return;
    // random path of random depth
    for (int rep = 0; rep < 4; ++rep) {
        std::vector<int> path; const Node* cur = &mod; unsigned shift = 0; std::array<unsigned, 6> sh{}; P hold;
        while (cur->nchild() > 0 && (path.empty() || r.coin(2, 3))) {
            int c = r.range(0, cur->nchild() - 1);
            for (int i = 0; i < c; ++i) { auto q = cur->child(i); shift += q->total(); auto cc = q->counts(); for (int t = 0; t < 6; ++t) sh[t] += cc[t]; }
            path.push_back(c); hold = cur->child(c); cur = hold.get();
        }
        if (path.empty()) continue;
        auto L = mod.list(); auto SL = cur->list();
        auto chk = [&](const NestedDofMapBase& nm, const char* kind) {
            std::string kk = k + kind;
            if (!m.check(nm.base() != nullptr, kk, "no component for a valid path")) return;
            m.check(nm.NumDofOnTet() == SL.size(), kk, "size %u want %zu", nm.NumDofOnTet(), SL.size());
            if (nm.NumDofOnTet() != SL.size()) return;
            for (unsigned i = 0; i < SL.size(); ++i) {
                auto& d = L[shift + i]; auto& s = SL[i]; m.obs("nested_indices");
                auto lo = nm.LocalOrderOnTet(TetOrder(i));
                m.check(lo.gid == shift + i && lo.etype == (1 << d.num) && lo.nelem == d.nelem && lo.leid == d.leid && lo.stype == d.stype && lo.lsid == d.lsid, kk, "component index %u -> gid %u leid %u, want %u %u", i, lo.gid, lo.leid, shift + i, d.leid);
                LocGeomOrder g(1 << s.num, s.nelem, s.leid);
                auto lg = nm.LocalOrderOnTet(g);
                m.check(lg.gid == shift + i && lg.leid == d.leid, kk, "component locus -> gid %u leid %u, want %u %u", lg.gid, lg.leid, shift + i, d.leid);
                m.check(nm.TetDofID(g) == shift + i && nm.TetDofIDExt(g).first == shift + i, kk, "TetDofID %u want %u", nm.TetDofID(g), shift + i);
                m.check(nm.TypeOnTet(i) == (1u << d.num), kk, "type");
            }
            for (unsigned i = 0; i < L.size(); ++i) {
                bool in = i >= shift && i < shift + SL.size(); auto& d = L[i];
                LocalOrder plo(i, 1 << d.num, d.nelem, d.leid);
                m.check(nm.isValidOutputIndex(TetOrder(i)) == in, kk + "-member", "flat index %u of parent: member %d want %d", i, (int)nm.isValidOutputIndex(TetOrder(i)), in);
                m.check(nm.isValidOutputIndex(plo.getGeomOrder()) == in, kk + "-member", "locus of %u: member want %d", i, in);
                m.check(nm.isValidOutputIndex(plo) == in, kk + "-member", "index %u: member want %d", i, in);
            }
            unsigned c = 0; for (auto it = nm.begin(); it != nm.end(); ++it, ++c) { if (c >= SL.size()) break; m.check(it->leid == L[shift + c].leid && it->etype == (1 << L[shift + c].num), kk + "-iterate", "step %u", c); }
            for (int n = 0; n < 6; ++n) m.check(nm.NumDof(1 << n) == cur->counts()[n], kk, "count of kind %d", n);
        };
        auto a = map.GetNestedDofMap(path.data(), path.size()); chk(a, "map");
        auto b = map.GetNestedDofMapView(path.data(), path.size()); chk(b, "view");
        auto a2 = NestedDofMap(a); m.check(a2 == a, k + "copy", "copy differs");
        auto sub = map.GetSubDofMap(path.data(), path.size());
        if (m.check(sub != nullptr, k + "sub", "no sub map for a valid path")) {
            m.check(sub->NumDofOnTet() == SL.size(), k + "sub", "size");
            if (sub->NumDofOnTet() == SL.size()) for (unsigned i = 0; i < SL.size(); ++i) { auto lo = sub->LocalOrderOnTet(TetOrder(i)); m.check(lo.leid == SL[i].leid && lo.etype == (1 << SL[i].num) && lo.nelem == SL[i].nelem, k + "sub", "index %u", i); }
        }
        // taking a component of a component accumulates the offsets
        if (cur->nchild() > 0) {
            int c2 = r.range(0, cur->nchild() - 1); unsigned s2 = shift; auto h2 = sh;
            for (int i = 0; i < c2; ++i) { auto q = cur->child(i); s2 += q->total(); auto cc = q->counts(); for (int t = 0; t < 6; ++t) h2[t] += cc[t]; }
            int ext[2] = {0, c2};
            auto n2 = b.GetNestedDofMapView(ext, 2); auto n3 = a.GetNestedDofMap(ext, 2);
            auto CL = cur->child(c2)->list();
            for (unsigned i = 0; i < CL.size(); ++i) { auto lo = n2.LocalOrderOnTet(TetOrder(i)), l3 = n3.LocalOrderOnTet(TetOrder(i)); m.check(lo.gid == s2 + i && lo.leid == L[s2 + i].leid && l3.gid == s2 + i && l3.leid == L[s2 + i].leid, k + "component-of-component", "index %u -> %u want %u", i, lo.gid, s2 + i); }
        }
        // a path outside the composition yields an empty view
        std::vector<int> badp = path; badp.back() = 1000; auto bv = map.GetNestedDofMapView(badp.data(), badp.size()); m.check(bv.base() == nullptr, k + "bad-path", "component 1000 exists");
        badp.back() = -1; auto bv2 = map.GetNestedDofMapView(badp.data(), badp.size()); m.check(bv2.base() == nullptr, k + "bad-path", "component -1 exists");
        m.check(map.GetSubDofMap(badp.data(), badp.size()) == nullptr, k + "bad-path", "sub map -1 exists");
    }
}
SECTION(runtime) {
    run_cases(m, m.cases(250, 3000), [&](long c, Rng& r) {
        P mod = randNode(r, r.range(0, 3)); if (mod->total() > 2500) { m.obs("too_big"); return; }
        m.desc("layout %s", mod->str().c_str()); m.eval(); m.distinct(mod->str()); m.sample(mod->str());
        auto map = make(*mod, r); check_map(m, *map, *mod, "runtime"); check_nested(m, *map, *mod, r, "runtime");
        // through the value wrapper
        DofMap w(map); auto L = mod->list(); unsigned N = L.size();
        m.check(w.NumDofOnTet() == N, "wrapper", "size");
        for (unsigned i = 0; i < N; ++i) { auto lo = w[i]; LocGeomOrder g(1 << L[i].num, L[i].nelem, L[i].leid); m.check(lo.leid == L[i].leid && w.TetDofID(g) == i && w.TetDofIDExt(g).first == i && w.TypeOnTet(i) == (1u << L[i].num) && w.at(g).gid == i && w.isValidIndex(g), "wrapper", "index %u", i); }
        // component bookkeeping
        if (mod->k != Node::Unite) {
            std::array<unsigned, 6> seen{};
            unsigned start = 0, part = 0;
            for (unsigned i = 0; i < N; ++i) {
                if (L[i].part != part) { while (part != L[i].part) { start += mod->child(part)->total(); auto cc = mod->child(part)->counts(); for (int t = 0; t < 6; ++t) seen[t] += cc[t]; ++part; } }
                ComponentTetOrder ct; ComponentElemOrder ce; unsigned tid;
                if (mod->k == Node::Vec) { auto v = w.target<VectorDofMap>(); ct = v->ComponentID(TetOrder(i)); ce = v->ComponentID(ElemOrder(1 << L[i].num, L[i].leid)); tid = v->TetDofID(ct.part_id, ct.cgid); }
                else { auto v = w.target<ComplexDofMap>(); ct = v->ComponentID(TetOrder(i)); ce = v->ComponentID(ElemOrder(1 << L[i].num, L[i].leid)); tid = v->TetDofID(ct.part_id, ct.cgid); }
                m.check(ct.part_id == part && ct.cgid.gid == i - start && ct.gid.gid == i && tid == i, "component-id", "flat %u -> part %u index %u, want %u %u", i, ct.part_id, ct.cgid.gid, part, i - start);
                m.check(ce.part_id == part && ce.cgid == L[i].leid - seen[L[i].num] && ce.gid == L[i].leid, "component-id", "entity index %u -> part %u index %u, want %u %u", L[i].leid, ce.part_id, ce.cgid, part, L[i].leid - seen[L[i].num]);
            }
        }
    });
}
SECTION(operators) {
    run_cases(m, m.cases(200, 2500), [&](long c, Rng& r) {
        P mod = randNode(r, r.range(1, 3)); if (mod->total() > 1500) return;
        m.desc("layout by operators %s", mod->str().c_str()); m.eval(); m.distinct(mod->str()); m.sample(mod->str());
        auto w = makeOps(*mod, r);
        // simplification flattens the tree but never changes the enumeration
        auto L = mod->list(); unsigned N = L.size(); auto cnt = mod->counts();
        if (!m.check(w.NumDofOnTet() == N, "ops-size", "size %u want %u", w.NumDofOnTet(), N)) return;
        for (int n = 0; n < 6; ++n) m.check(w.NumDof(1 << n) == cnt[n], "ops-count", "kind %d", n);
        for (unsigned i = 0; i < N; ++i) { auto& d = L[i]; auto lo = w.LocalOrderOnTet(TetOrder(i)); LocGeomOrder g(1 << d.num, d.nelem, d.leid);
            m.check(lo.gid == i && lo.etype == (1 << d.num) && lo.nelem == d.nelem && lo.leid == d.leid, "ops-to-geom", "index %u: type %d elem %d leid %u", i, lo.etype, lo.nelem, lo.leid);
            m.check(lo.stype == d.stype && lo.lsid == d.lsid, "ops-sym", "index %u: stype %d lsid %d want %d %d", i, lo.stype, lo.lsid, d.stype, d.lsid);
            m.check(w.TetDofID(g) == i, "ops-from-geom", "locus of %u -> %u", i, w.TetDofID(g)); m.obs("indices_translated"); }
        auto cm = ComplexDofMap::makeCompressed([&] { std::vector<std::shared_ptr<BaseDofMap>> v; if (mod->k == Node::Cpx) for (auto& q : mod->ch) v.push_back(make(*q, r)); else v.push_back(make(*mod, r)); return v; }());
        m.check(cm.NumDofOnTet() == N, "compressed", "size %u want %u", cm.NumDofOnTet(), N);
        if (cm.NumDofOnTet() == N) for (unsigned i = 0; i < N; ++i) { auto lo = cm.LocalOrderOnTet(TetOrder(i)); m.check(lo.leid == L[i].leid && lo.etype == (1 << L[i].num) && lo.stype == L[i].stype && lo.lsid == L[i].lsid, "compressed", "index %u", i); }
    });
}
template<class T> static void ct(Mon& m, Rng& r, const char* nm) {
    P mod; T t = Build<T>::go(mod, r); if (mod->total() > 1500) return;
    m.desc("compile-time %s %s", nm, mod->str().c_str()); m.eval(); m.distinct(std::string(nm) + mod->str()); m.sample(std::string(nm) + " " + mod->str());
    check_map(m, t, *mod, "static"); check_nested(m, t, *mod, r, "static");
    auto d = make(*mod, r); // same answers as the run-time layout
    for (unsigned i = 0; i < mod->total(); ++i) { auto a = t.LocalOrderOnTet(TetOrder(i)), b = d->LocalOrderOnTet(TetOrder(i)); m.check(a.leid == b.leid && a.etype == b.etype && a.nelem == b.nelem && a.stype == b.stype && a.lsid == b.lsid, "static-vs-runtime", "index %u", i); }
    (void)(t == *d); // comparing layouts of unrelated dynamic types has to be harmless
    UniteDofMap other; m.check(!(static_cast<const BaseDofMap&>(t) == other) || mod->k == Node::Unite, "static-eq", "equal to an empty layout");
}
using U = UniteDofMap;
SECTION(compile_time) {
    run_cases(m, m.cases(120, 1500), [&](long c, Rng& r) {
        switch (c % 9) {
            case 0: ct<VectorDofMapC<U>>(m, r, "V<U>"); break;
            case 1: ct<ComplexDofMapC<U, U>>(m, r, "C<U,U>"); break;
            case 2: ct<ComplexDofMapC<U, VectorDofMapC<U>>>(m, r, "C<U,V<U>>"); break;
            case 3: ct<VectorDofMapC<ComplexDofMapC<U, U>>>(m, r, "V<C<U,U>>"); break;
            case 4: ct<ComplexDofMapC<ComplexDofMapC<U, U>, U>>(m, r, "C<C<U,U>,U>"); break;
            case 5: ct<ComplexDofMapC<U, U, U>>(m, r, "C<U,U,U>"); break;
            case 6: ct<VectorDofMapC<VectorDofMapC<U>>>(m, r, "V<V<U>>"); break;
            case 7: ct<ComplexDofMapC<VectorDofMapC<ComplexDofMapC<U, U>>, U>>(m, r, "C<V<C<U,U>>,U>"); break;
            default: ct<ComplexDofMapC<U>>(m, r, "C<U>"); break;
        }
    });
}
SECTION(static_equality) { // layouts of different compile-time shape are compared without misreading one as the other
    run_cases(m, m.cases(200, 2000), [&](long c, Rng& r) {
        P pa, pb; auto a = Build<ComplexDofMapC<U, U>>::go(pa, r); auto b = Build<ComplexDofMapC<U, VectorDofMapC<U>>>::go(pb, r);
        auto e = Build<ComplexDofMapC<U>>::go(pb, r); P pv; auto v = Build<VectorDofMapC<U>>::go(pv, r); P pw; auto w = Build<VectorDofMapC<ComplexDofMapC<U, U>>>::go(pw, r);
        m.desc("static equality %s vs others", pa->str().c_str()); m.eval(); m.distinct(pa->str() + pw->str());
        m.key("static-equality");
        const BaseDofMap* all[5] = {&a, &b, &e, &v, &w};
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { bool q = *all[i] == *all[j]; m.check(q == (i == j), "static-equality", "maps %d and %d compare %d", i, j, q); m.obs("comparisons"); }
        auto a2 = a; m.check(a2 == static_cast<const BaseDofMap&>(a), "static-equality", "a copy is not equal");
    });
}
SECTION(runtime_equality) { // equal iff the same layout
    run_cases(m, m.cases(300, 3000), [&](long c, Rng& r) {
        P a = randNode(r, r.range(0, 2)), b = r.coin(1, 3) ? a : randNode(r, r.range(0, 2));
        m.desc("equality %s vs %s", a->str().c_str(), b->str().c_str()); m.eval(); m.distinct(a->str() + b->str());
        auto x = make(*a, r), y = make(*b, r);
        if (a == b) m.check(*x == *y && *y == *x, "runtime-equality", "equal layouts compare different");
        if (*x == *y) { auto la = a->list(), lb = b->list(); bool same = la.size() == lb.size(); for (size_t i = 0; same && i < la.size(); ++i) same = la[i].num == lb[i].num && la[i].nelem == lb[i].nelem && la[i].leid == lb[i].leid && la[i].stype == lb[i].stype && la[i].lsid == lb[i].lsid; m.obs("equal_pairs"); m.check(same, "runtime-equality", "different layouts compare equal"); }
    });
}
SECTION(static_set) { // components of a compile-time composition set afterwards, in any order and repeatedly
    run_cases(m, m.cases(150, 1500), [&](long c, Rng& r) {
        using V = VectorDofMapC<U>; using C = ComplexDofMapC<U, V, U>;
        C t; P p[3] = {mkCnt({}), mkCnt({}), mkCnt({})}; int set = 0, n = r.range(3, 6);
        if (r.coin(1, 3)) { P mod; t = Build<C>::go(mod, r); for (int i = 0; i < 3; ++i) p[i] = mod->ch[i]; }
        for (int i = 0; i < n; ++i) { int k = r.range(0, 2); set |= 1 << k;
            if (k == 0) { auto u = Build<U>::go(p[0], r); t.set<0>(u); } else if (k == 1) { auto u = Build<V>::go(p[1], r); t.set<1>(u); } else { auto u = Build<U>::go(p[2], r); t.set<2>(u); } }
        auto mod = mkCpx({p[0], p[1], p[2]});
        m.desc("set %d components of %s", n, mod->str().c_str()); m.eval(); m.distinct(mod->str()); m.key("static-set");
        check_map(m, t, *mod, "set"); check_nested(m, t, *mod, r, "set");
    });
}
