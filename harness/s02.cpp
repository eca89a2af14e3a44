// S02: a space described at compile time and the same space composed at run time agree; spellings of a composition agree; equality is sound.
#include "space.h"
using namespace lib;
using orc::unit; using orc::vec; using orc::cpx; using orc::uni;
static bool sameMap(Mon& m, const std::string& key, const DofT::BaseDofMap& A, const DofT::BaseDofMap& B) {
    bool ok = m.check(A.NumDofOnTet() == B.NumDofOnTet(), key, "NumDofOnTet %d vs %d", (int)A.NumDofOnTet(), (int)B.NumDofOnTet());
    if (!ok) return false;
    auto a = A.NumDofs(), b = B.NumDofs(); m.check(a == b, key, "NumDofs differ");
    for (uint i = 0; i < A.NumDofOnTet(); ++i) {
        auto x = A.LocalOrderOnTet(DofT::TetOrder(i)), y = B.LocalOrderOnTet(DofT::TetOrder(i));
        ok &= m.check(x.etype == y.etype && x.nelem == y.nelem && x.leid == y.leid && x.gid == y.gid && x.stype == y.stype && x.lsid == y.lsid, key, "dof %u: (%d,%d,%d) vs (%d,%d,%d)", i, (int)x.etype, (int)x.nelem, (int)x.leid, (int)y.etype, (int)y.nelem, (int)y.leid);
        if (!ok) return false;
    }
    return ok;
}
static void cmpU(Mon& m, const std::string& key, const std::vector<double>& a, const std::vector<double>& b, double tol) {
    if (!m.check(a.size() == b.size(), key, "sizes %zu %zu", a.size(), b.size())) return;
    for (size_t i = 0; i < a.size(); ++i) if (!m.close(a[i], b[i], tol, key, "value", long(i))) return;
}
#ifdef SHARD
template<int OP, class T> static void ct(Mon& m, Rng& r, const FemSpace& sp, const SP& s, const std::string& fam) {
    typedef Operator<OP, T> O;
    std::string key = std::string("ct-rt:") + orc::opName(OP) + ":" + fam; m.key(key); m.eval(); m.obs(std::string("compared ") + orc::opName(OP));
    auto A = sp.getOP((OperatorType)OP);
    m.check((int)A.Dim() == O::Dim::value && (int)A.Nfa() == O::Nfa::value, key + ":dim", "Dim %d/%d Nfa %d/%d", (int)A.Dim(), O::Dim::value, (int)A.Nfa(), O::Nfa::value);
    m.check((int)A.Order() == O::Order::value, key + ":order", "Order run-time %d compile-time %d", (int)A.Order(), O::Order::value);
    m.check(O::Order::value >= orc::opOrder(OP, *s), key + ":order-low", "Order %d below the degree %d of the values", O::Order::value, orc::opOrder(OP, *s));
    m.check((int)sp.dimOP((OperatorType)OP) == O::Dim::value && sp.orderOP((OperatorType)OP) == A.Order(), key + ":dimOP", "dimOP/orderOP");
    auto own = sp.getOP_own((OperatorType)OP);
    m.check(own.Dim() == A.Dim() && own.Nfa() == A.Nfa() && own.Order() == A.Order(), key + ":own", "owning operator differs");
    int f = r.range(1, 3), q = r.range(1, 3);
    std::vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r));
    Batch B(ts); std::vector<double> X(4*q); for (int n = 0; n < q; ++n) orc::randBary(r, &X[4*n]);
    std::string e1, e2, e3; size_t p1 = 0, p2 = 0, p3 = 0;
    auto U1 = evalOpC<O>(B, X, &e1, &p1), U2 = evalOpX(A, B, X, &e2, &p2), U3 = evalOpX(own, B, X, &e3, &p3);
    m.check(e1.empty() && e2.empty() && e3.empty(), key + ":blocks", "%s | %s | %s", e1.c_str(), e2.c_str(), e3.c_str());
    m.check(p1 == p2 && p2 == p3, key + ":nparts", "blocks: compile-time %zu run-time %zu own %zu", p1, p2, p3);
    double tol = 0; for (auto& t : ts) tol = std::max(tol, opTol(OP, t));
    cmpU(m, key, U1, U2, tol); cmpU(m, key + ":own", U2, U3, 0);
    ApplyOpFromTemplate<OP, T> at; std::string e4; auto U4 = evalOpX(at, B, X, &e4);
    m.check(e4.empty(), key + ":wrapped", "%s", e4.c_str()); cmpU(m, key + ":wrapped", U1, U4, 0);
    m.check((int)at.Dim() == O::Dim::value && (int)at.Nfa() == O::Nfa::value && at.Order() == (uint)O::Order::value, key + ":wrapped", "dims");
}
template<class T, bool DC> struct DivCurl { static void go(Mon&, Rng&, const FemSpace&, const SP&, const std::string&) {} };
template<class T> struct DivCurl<T, true> { static void go(Mon& m, Rng& r, const FemSpace& sp, const SP& s, const std::string& f) { ct<DIV, T>(m, r, sp, s, f); ct<CURL, T>(m, r, sp, s, f); } };
template<class T, bool DC = false> static void type(Mon& m, Rng& r) {
    SP s = M<T>::get(); std::string fam = s->k == Sp::Unit ? orc::famName(s->fam) : s->k == Sp::Vec ? "vector" : s->k == Sp::Cpx ? "product" : "union";
    m.desc("compile-time %s", s->str().c_str()); m.distinct(s->str()); m.sample(s->str());
    FemSpace sp = makeRaw(*s);
    auto cm = DofT::DofMap(Dof<T>::Map());
    sameMap(m, "ct-rt:map:" + fam, *cm.base(), *sp.dofMap().base());
    m.check((int)sp.dim() == Operator<IDEN, T>::Dim::value && (int)sp.order() == Operator<IDEN, T>::Order::value, "ct-rt:dim:" + fam, "dim/order %d %d vs %d %d", (int)sp.dim(), (int)sp.order(), (int)Operator<IDEN, T>::Dim::value, (int)Operator<IDEN, T>::Order::value);
    ct<IDEN, T>(m, r, sp, s, fam); ct<GRAD, T>(m, r, sp, s, fam); ct<DUDX, T>(m, r, sp, s, fam); ct<DUDY, T>(m, r, sp, s, fam); ct<DUDZ, T>(m, r, sp, s, fam);
    DivCurl<T, DC>::go(m, r, sp, s, fam);
}
#define SEC2(a) SECTION(types##a)
#define SEC(a) SEC2(a)
#define NTYPE 4
SEC(SHARD) {
    run_cases(m, m.cases(NTYPE*3, NTYPE*40), [&](long c, Rng& r) {
        switch (c % NTYPE) {
#if SHARD == 0
        case 0: type<FemFix<FEM_P0>>(m, r); break;
        case 1: type<FemFix<FEM_CR1>>(m, r); break;
        case 2: type<FemVec<3, FEM_CR1>, true>(m, r); break;
        case 3: type<FemVecT<2, FemCom<FemFix<FEM_P0>, FemFix<FEM_P3>>>>(m, r); break;
#elif SHARD == 1
        case 0: type<FemFix<FEM_P1>>(m, r); break;
        case 1: type<FemFix<FEM_B2>>(m, r); break;
        case 2: type<FemVecT<2, FemFix<FEM_RT0>>>(m, r); break;
        case 3: type<FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>(m, r); break;
#elif SHARD == 2
        case 0: type<FemFix<FEM_P2>>(m, r); break;
        case 1: type<FemFix<FEM_B4>>(m, r); break;
        case 2: type<FemVecT<2, FemVec<2, FEM_P1>>>(m, r); break;
        case 3: type<FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B2>, FemFix<FEM_B4>>>(m, r); break;
#elif SHARD == 3
        case 0: type<FemFix<FEM_P3>>(m, r); break;
        case 1: type<FemVec<3, FEM_P1>, true>(m, r); break;
        case 2: type<FemCom<FemFix<FEM_P1>, FemFix<FEM_P2>>>(m, r); break;
        case 3: type<FemVecT<3, FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>>(m, r); break;
#elif SHARD == 4
        case 0: type<FemFix<FEM_RT0>, true>(m, r); break;
        case 1: type<FemVec<3, FEM_P2>, true>(m, r); break;
        case 2: type<FemCom<FemVec<3, FEM_P2>, FemFix<FEM_P1>>>(m, r); break;
        case 3: type<FemCom<FemVecT<3, FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>, FemFix<FEM_P1>>>(m, r); break;
#elif SHARD == 5
        case 0: type<FemFix<FEM_ND0>, true>(m, r); break;
        case 1: type<FemVec<2, FEM_P3>>(m, r); break;
        case 2: type<FemCom<FemFix<FEM_RT0>, FemFix<FEM_P0>, FemVec<2, FEM_B4>>>(m, r); break;
        case 3: type<FemUnionT<FemVec<3, FEM_P1>, FemVec<3, FEM_B4>>>(m, r); break;
#endif
        }
    });
}
#else
// ------------------------------------------------------------------ spelling of run-time compositions
// reference: component list after flattening products of products and sums of sums
static SP flat(const SP& s) {
    if (s->k == Sp::Unit) return s;
    if (s->k == Sp::Vec) return vec(s->n, flat(s->ch[0]));
    std::vector<SP> c; for (auto& q : s->ch) { SP f = flat(q); if (f->k == s->k) c.insert(c.end(), f->ch.begin(), f->ch.end()); else c.push_back(f); }
    return s->k == Sp::Cpx ? cpx(c) : uni(c);
}
static bool same(const SP& a, const SP& b) { return a->str() == b->str(); }
static SP randOk(Rng& r, int depth) { for (;;) { SP s = orc::randSpace(r, depth, 48); if (!s->has(Sp::Uni) || orc::unionQuality(*s) > 1e-6L) return s; } }
SECTION(spelling) {
    run_cases(m, m.cases(160, 2500), [&](long, Rng& r) {
        SP s = randOk(r, r.range(1, 3)); m.desc("space %s", s->str().c_str()); m.distinct(s->str());
        FemSpace a = makeAlg(*s), b = makeRaw(*s), f = makeRaw(*flat(s)); m.eval();
        // makeAlg flattens a product inside the first factors; the function space and the numbering stay the same
        for (int k = 0; k < 2; ++k) { FemSpace& o = k ? b : f;
            m.check(a.dim() == o.dim() && a.order() == o.order(), "spelling:dim", "dim/order differ");
            sameMap(m, "spelling:map", *a.dofMap().base(), *o.dofMap().base()); }
        m.check(f == makeRaw(*flat(s)) && b == makeRaw(*s), "equal:self", "space built twice the same way compares different");
        m.check(a == a.copy() && a.copy() == a, "equal:copy", "space differs from its copy");
        std::vector<Tet> ts{orc::randTet(r)}; Batch B(ts); std::vector<double> X(8); orc::randBary(r, &X[0]); orc::randBary(r, &X[4]);
        for (int op : orc::OPS) if (orc::opOk(op, s->dim())) { std::string e, e2, e3; 
            m.key(std::string("spelling:") + orc::opName(op));
            auto Ua = evalOpX(a.getOP((OperatorType)op), B, X, &e), Ub = evalOpX(b.getOP((OperatorType)op), B, X, &e2), Uf = evalOpX(f.getOP((OperatorType)op), B, X, &e3);
            m.check(a.orderOP((OperatorType)op) == b.orderOP((OperatorType)op) && a.dimOP((OperatorType)op) == b.dimOP((OperatorType)op), "spelling:orderOP", "%s order/dim differ", orc::opName(op));
            m.check((int)a.orderOP((OperatorType)op) >= orc::opOrder(op, *s), "spelling:order-low", "%s order %d below degree %d", orc::opName(op), (int)a.orderOP((OperatorType)op), orc::opOrder(op, *s));
            cmpU(m, "spelling:values", Ua, Ub, opTol(op, ts[0])); cmpU(m, "spelling:values", Ua, Uf, opTol(op, ts[0])); }
        // helpers that build from lists
        if (s->k == Sp::Cpx || s->k == Sp::Uni) { std::vector<FemSpace> c; for (auto& q : s->ch) c.push_back(makeRaw(*q));
            FemSpace raw = s->k == Sp::Cpx ? make_complex_raw(c) : make_union_raw(c), sim = s->k == Sp::Cpx ? make_complex_with_simplification(c) : make_union_with_simplification(c);
            m.check(raw == b, "spelling:make-raw", "make_*_raw differs"); sameMap(m, "spelling:make-sim", *sim.dofMap().base(), *b.dofMap().base());
            m.check(sim.dim() == b.dim(), "spelling:make-sim", "dim");
            for (int i = 0; i < (int)s->ch.size(); ++i) m.check(b.subSpace(i) == c[i], "subspace", "component %d differs", i);
            m.check(!b.subSpace((int)s->ch.size()).isValid(), "subspace:range", "component beyond the last exists"); }
        if (s->k == Sp::Vec) { m.check(pow(makeRaw(*s->ch[0]), s->n) == b, "spelling:pow", "pow differs"); for (int i = 0; i < s->n; ++i) m.check(b.subSpace(i) == makeRaw(*s->ch[0]), "subspace", "component %d", i); }
    });
}
SECTION(equality) {
    run_cases(m, m.cases(400, 8000), [&](long, Rng& r) {
        SP a = randOk(r, r.range(0, 2)), b;
        int k = r.range(0, 4);
        if (k == 0) b = randOk(r, r.range(0, 2));
        else if (k == 1) b = vec(r.range(1, 3), a);
        else { // small change of a copy: one leaf or one power
            std::function<SP(const SP&, int&)> mut = [&](const SP& s, int& left) -> SP {
                if (s->k == Sp::Unit) { if (left-- == 0) { for (;;) { int f = orc::FAMS[r.range(0, 8)]; if (f != s->fam && orc::famDim(f) == orc::famDim(s->fam)) return unit(f); } } return s; }
                auto t = std::make_shared<Sp>(*s);
                if (s->k == Sp::Vec && r.coin()) { t->n = s->n % 3 + 1; return t; }
                for (auto& c : t->ch) c = mut(c, left); return t; };
            int left = r.range(0, 3); b = mut(a, left);
            std::function<bool(const Sp&)> okd = [&](const Sp& s) { for (auto& c : s.ch) if (!okd(*c)) return false; if (s.k == Sp::Uni) for (auto& c : s.ch) if (c->dim() != s.ch[0]->dim()) return false; return true; };
            if (!okd(*b) || (b->has(Sp::Uni) && orc::unionQuality(*b) < 1e-6L)) return;
        }
        m.desc("%s vs %s", a->str().c_str(), b->str().c_str()); m.eval();
        FemSpace A = makeRaw(*a), B = makeRaw(*b); bool want = same(a, b), got = A == B;
        if (A.base().get() != B.base().get()) m.obs(want ? "equal pairs" : "different pairs");
        // different structures may describe the same space; only spaces with different values or layouts must differ
        bool differ = a->dim() != b->dim() || a->nf() != b->nf();
        if (!differ && !want) { Tet t = orc::randTet(r, 1); double l[4]; orc::randBary(r, l, true); L ll[4] = {l[0], l[1], l[2], l[3]}; auto x = orc::opVals(IDEN, *a, t, ll), y = orc::opVals(IDEN, *b, t, ll);
            for (size_t i = 0; i < x.size(); ++i) if (fabsl(x[i]-y[i]) > 1e-6L) differ = true; }
        m.distinct(a->str() + "=" + b->str());
        if (want) m.check(got, "equal:same-different", "same spaces compare different");
        else if (differ) m.check(!got, "equal:different-same", "different spaces compare equal");
        m.check(got == (B == A), "equal:symmetric", "== is not symmetric");
        for (int op : {(int)IDEN, (int)GRAD}) for (int op2 : {(int)IDEN, (int)GRAD}) { ApplyOpFromSpace oa(OperatorType(op), A), ob(OperatorType(op2), B); 
            if (want && op == op2) m.check(oa == ob, "equal:op", "operators of equal spaces differ"); if (differ || op != op2) m.check(!(oa == ob), "equal:op-same", "different operators compare equal"); }
    });
}
// a sum whose parts have different value dimensions, a negative power: refused
SECTION(refuse) {
    run_cases(m, m.cases(30, 200), [&](long, Rng& r) {
        SP a = randOk(r, 1), b = randOk(r, 1); if (a->dim() == b->dim()) return; m.eval(); m.distinct(a->str() + "+" + b->str());
        FemSpace A = makeRaw(*a), B = makeRaw(*b);
        m.check(mon::throws([&]{ auto c = A + B; }), "refuse:union-dim", "%s + %s accepted", a->str().c_str(), b->str().c_str());
        m.check(mon::throws([&]{ auto c = A ^ -1; }), "refuse:power", "negative power accepted");
        for (int op : {DIV, CURL}) if (a->dim() != 3) m.check(mon::throws([&]{ A.memOP((OperatorType)op, 1, 1); }), "refuse:divcurl", "%s of %d-dimensional space accepted", orc::opName(op), a->dim());
    });
}
#endif
