// S04: degree-of-freedom functionals are dual to the basis and touch only the dofs asked for.
#include "interp.h"
using namespace lib;
typedef std::function<void(const L* X, L* o)> PFn;     // function of the physical point
// a family of functions under interpolation, with the bookkeeping of how the library called it
struct Ctx {
    std::vector<PFn> fs; int D = 1; long calls = 0, badDim = 0, badUd = 0; void* tag = nullptr;
    int eval(const std::array<double, 3>& X, double* res, unsigned dim) {
        ++calls; if (dim != unsigned(D*int(fs.size()))) { ++badDim; return 0; }
        L x[3] = {X[0], X[1], X[2]}; std::vector<L> o(D);
        for (size_t r = 0; r < fs.size(); ++r) { fs[r](x, o.data()); for (int k = 0; k < D; ++k) res[r*D+k] = double(o[k]); }
        return 0;
    }
};
static int plainEval(const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { return static_cast<Ctx*>(ud)->eval(X, res, dim); }
static std::string famOf(const Sp& s) { return s.k == Sp::Unit ? orc::famName(s.fam) : s.k == Sp::Vec ? "vector" : s.k == Sp::Cpx ? "product" : "union"; }
struct Prob { // space, tetrahedron, functions, expected functional values
    SP s; Tet t; int nf, D, F, order, deg; std::vector<PFn> fs; std::vector<std::vector<L>> coef; std::vector<bool> inSpace; std::vector<L> scale; orc::Functional fun; double tol;
    std::vector<std::vector<L>> want;
    bool moment() const { return s->has(Sp::Uni) && (s->hasFam(orc::RT0) || s->hasFam(orc::ND0)); }
    void make(Rng& r, SP sp, int fusion, int ord = -1) {
        s = sp; t = orc::randTet(r); nf = s->nf(); D = s->dim(); F = fusion;
        order = ord >= 0 ? ord : r.coin() ? 5 : r.range(std::max(4, s->order()), 20);
        deg = 0;
        for (int q = 0; q < F; ++q) {
            bool in = r.coin(2, 3); inSpace.push_back(in); std::vector<L> c; 
            if (in) { for (int i = 0; i < nf; ++i) c.push_back(r.coin(1, 6) ? 0 : r.sym()); SP S = s; Tet T = t; int d = D, n = nf;
                fs.push_back([S, T, c, d, n](const L* X, L* o) { L l[4]; T.bary(X, l); auto B = orc::basis(*S, T, l); for (int k = 0; k < d; ++k) { o[k] = 0; for (int i = 0; i < n; ++i) o[k] += c[i]*B[size_t(i)*d+k].v; } }); deg = std::max(deg, s->order());
            } else { int g = r.range(0, std::min(order, 9)); deg = std::max(deg, g); std::vector<std::array<L,4>> lin; for (int k = 0; k < D*2; ++k) lin.push_back({L(r.sym()), L(r.sym()), L(r.sym()), L(r.sym())}); Tet T = t; int d = D;
                fs.push_back([T, lin, d, g](const L* X, L* o) { for (int k = 0; k < d; ++k) { L a = 1, b = 1; for (int h = 0; h < 2; ++h) { auto& q = lin[2*k+h]; L u = q[3]; for (int m = 0; m < 3; ++m) u += q[m]*(X[m]-T.X[0][m])/T.h; int e = h ? g/2 : g-g/2; for (int i = 0; i < e; ++i) (h ? b : a) *= u; } o[k] = a*b; } }); }
            coef.push_back(c);
        }
        want.assign(F, std::vector<L>(nf)); scale.assign(F, 0);
        for (int q = 0; q < F; ++q) for (int i = 0; i < nf; ++i) want[q][i] = wantOf(q, i);
        double w = double(fun.wmax); L mx = 1; for (auto& v : want) mx = std::max(mx, orc::maxabs(v));
        tol = 60*opTol(IDEN, t)*w*w*nf*double(mx) + (s->has(Sp::Uni) ? 1e-6*w : 0);   // sums drop combination weights below 1e-7
        if (s->has(Sp::Uni) && !s->hasFam(orc::RT0) && !s->hasFam(orc::ND0)) tol = 60*opTol(IDEN, t)*w*w*nf*double(mx) + 1e-9*w;
    }
    orc::Fn bf(int q) { auto f = fs[q]; Tet T = t; return [f, T](const L* l, L* o) { L X[3]; T.point(l, X); f(X, o); }; }
    L wantOf(int q, int i) { return fun.apply(*s, t, i, bf(q), D, 0, std::max(deg, 1)); }
    // compares udofs (nf doubles per function); sel: which were asked for (others must keep the sentinel)
    void compare(Mon& m, const std::string& key, const std::vector<std::vector<double>>& u, const std::vector<bool>& sel, double sentinel, std::function<L(int,int)> w = nullptr) {
        for (int q = 0; q < int(u.size()); ++q) for (int i = 0; i < nf; ++i) {
            double got = u[q][i];
            if (!sel[i]) { if (!m.check(got == sentinel, key + ":untouched", "dof %d was not asked for but changed to %g", i, got)) return; continue; }
            L e = w ? w(q, i) : want[q][i];
            if (!m.close(got, double(e), tol, key, "functional (function, dof)", q, i)) return;
            if (!w && inSpace[q]) {
                if (moment() && fabsl(e - coef[q][i]) > 1e-6L) { m.fail("dual:union-moment-mix", "dof %d of %s: functional gives %.6Lg for a function of the space whose coefficient is %.6Lg", i, s->str().c_str(), e, coef[q][i]); continue; }
                if (!m.close(got, double(coef[q][i]), tol, key + ":dual", "coefficient (function, dof)", q, i)) return;
            }
        }
    }
};
static Tetra<const double> tetra(const Tet& t) { return Tetra<const double>(t.x[0], t.x[1], t.x[2], t.x[3]); }
// output vectors of exactly nf entries on the heap
struct Out {
    std::vector<std::unique_ptr<double[]>> d; std::vector<ArrayView<>> v; int nf; double sentinel;
    Out(int F, int nf, double s): nf(nf), sentinel(s) { for (int i = 0; i < F; ++i) { d.emplace_back(new double[nf]); std::fill(d[i].get(), d[i].get()+nf, s); v.emplace_back(d[i].get(), nf); } }
    std::vector<std::vector<double>> get() const { std::vector<std::vector<double>> r; for (auto& p : d) r.emplace_back(p.get(), p.get()+nf); return r; }
};
struct Sel { bool n[4], e[6], f[4], c; DofT::TetGeomSparsity sp;
    Sel(Rng& r) { int k = r.range(0, 5); for (int i = 0; i < 4; ++i) n[i] = r.coin(k, 5); for (int i = 0; i < 6; ++i) e[i] = r.coin(k, 5); for (int i = 0; i < 4; ++i) f[i] = r.coin(k, 5); c = r.coin(k, 5); mk(); }
    Sel(int dim, int el) { for (int i = 0; i < 4; ++i) n[i] = dim == 0 ? i == el : dim == 3 || (dim == 1 ? orc::EN[el][0] == i || orc::EN[el][1] == i : i != orc::OPP[el]);
        for (int i = 0; i < 6; ++i) e[i] = dim == 1 ? i == el : dim == 3 || (dim == 2 && orc::EN[i][0] != orc::OPP[el] && orc::EN[i][1] != orc::OPP[el]);
        for (int i = 0; i < 4; ++i) f[i] = dim == 3 || (dim == 2 && i == el); c = dim == 3; mk(); }
    void mk() { for (int i = 0; i < 4; ++i) if (n[i]) sp.setNode(i); for (int i = 0; i < 6; ++i) if (e[i]) sp.setEdge(i); for (int i = 0; i < 4; ++i) if (f[i]) sp.setFace(i); if (c) sp.setCell(); }
    bool has(std::pair<int,int> l) const { return l.first == 0 ? n[l.second] : l.first == 1 ? e[l.second] : l.first == 2 ? f[l.second] : c; }
    std::vector<bool> of(const Sp& s) const { std::vector<bool> b(s.nf()); for (int i = 0; i < s.nf(); ++i) b[i] = has(orc::dofLoc(s, i)); return b; } };
static bool admissible(Mon& m, Rng& r, const Sp& s) { if (!s.has(Sp::Uni)) return true; L q = orc::unionQuality(s); return q > 1e-4L; }
static void checkCtx(Mon& m, const Ctx& c, const std::string& key) { m.check(!c.badDim, key + ":dim", "function called with a wrong dimension"); m.check(!c.badUd, key + ":userdata", "function called with foreign user data"); m.obs("functor calls", c.calls); }
// descends a random path of components; returns index path and the range of dofs
static void randPath(Rng& r, const Sp& s, std::vector<int>& path, int& off, const Sp*& sub) {
    sub = &s; off = 0;
    while (sub->k == Sp::Vec || sub->k == Sp::Cpx || sub->k == Sp::Uni) { if (path.size() && r.coin(1, 3)) break; int nc = sub->k == Sp::Vec ? sub->n : int(sub->ch.size()); int q = r.range(0, nc-1); path.push_back(q);
        for (int i = 0; i < q; ++i) off += sub->ch[sub->k == Sp::Vec ? 0 : i]->nf(); sub = sub->ch[sub->k == Sp::Vec ? 0 : q].get(); }
}
static void runCase(Mon& m, Rng& r, SP s, const std::string& fam) {
    m.desc("space %s", s->str().c_str());
    if (!admissible(m, r, *s)) return;
    int F = r.coin() ? 1 : r.range(2, 3); Prob p; p.make(r, s, F); FemSpace sp = makeRaw(*s); auto b = sp.base();
    m.distinct(s->str()); m.sample(s->str());
    auto XYZ = tetra(p.t); DynMem<> wmem; double sen = 1e30 + r.range(0, 1000);
    auto one = [&](int api, int i) { // interpolateOnDOF, every interface
        std::string key = fmt("ondof:%d:", api) + fam; m.key(key); m.desc("interpolateOnDOF api %d dof %d of %s fusion %d order %d tet %s", api, i, s->str().c_str(), F, p.order, p.t.str().c_str());
        bool single = api == 2 || api == 3 || api == 6 || api == 7; int f = single ? 1 : F;
        Ctx c; c.fs = p.fs; c.fs.resize(f); c.D = p.D; Out o(f, p.nf, sen); int tag; 
        auto lam = [&c, &tag](const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if (ud != &tag) ++c.badUd; return c.eval(X, res, dim); };
        BaseFemSpace::EvalFunc pf = plainEval;
        auto view = o.v;
        if (api == 0) { XMem mem(sp.base()->interpolateOnDOF_mem_req(i, f, p.order)); b->interpolateOnDOF(XYZ, pf, o.v.data(), i, f, mem.pm, &c, p.order); }
        else if (api == 1) b->interpolateOnDOF(XYZ, pf, o.v.data(), i, f, wmem, &c, p.order);
        else if (api == 2) { XMem mem(b->interpolateOnDOF_mem_req(i, p.order)); b->interpolateOnDOF(XYZ, pf, o.v[0], i, mem.pm, &c, p.order); }
        else if (api == 3) b->interpolateOnDOF(XYZ, pf, o.v[0], i, wmem, &c, p.order);
        else if (api == 4) { XMem mem(b->interpolateOnDOF_mem_req(i, f, p.order)); b->interpolateOnDOF(XYZ, lam, o.v.data(), i, f, mem.pm, &tag, p.order); }
        else if (api == 5) b->interpolateOnDOF(XYZ, lam, o.v.data(), i, f, wmem, &tag, p.order);
        else if (api == 6) { XMem mem(b->interpolateOnDOF_mem_req(i, p.order)); b->interpolateOnDOF(XYZ, lam, o.v[0], i, mem.pm, &tag, p.order); }
        else b->interpolateOnDOF(XYZ, lam, o.v[0], i, wmem, &tag, p.order);
        for (int q = 0; q < f; ++q) m.check(o.v[q].data == view[q].data && o.v[q].size == view[q].size, key + ":views", "the caller's view was changed");
        std::vector<bool> sel(p.nf); sel[i] = true; m.eval(); m.obs(fmt("interpolateOnDOF interface %d", api)); checkCtx(m, c, key); p.compare(m, key, o.get(), sel, sen);
    };
    if (p.nf <= 12) for (int i = 0; i < p.nf; ++i) one(i % 8 == 0 ? 0 : r.range(0, 7), i);
    else for (int k = 0; k < 12; ++k) one(r.range(0, 7), r.range(0, p.nf-1));
    // by geometric part
    for (int api = 0; api < 4; ++api) for (int k = 0; k < 2; ++k) {
        Sel sel(r); std::string key = fmt("bydofs:%d:", api) + fam; m.key(key); m.desc("interpolateByDOFs api %d of %s order %d", api, s->str().c_str(), p.order);
        Ctx c; c.fs = p.fs; c.fs.resize(1); c.D = p.D; Out o(1, p.nf, sen); int tag;
        auto lam = [&c, &tag](const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if (ud != &tag) ++c.badUd; return c.eval(X, res, dim); };
        // (a vector space evaluates all its components at once, still one value of the function per call)
        BaseFemSpace::EvalFunc pf = plainEval;
        if (api == 0) { XMem mem(b->interpolateByDOFs_mem_req(p.order)); b->interpolateByDOFs(XYZ, pf, o.v[0], sel.sp, mem.pm, &c, p.order); }
        else if (api == 1) b->interpolateByDOFs(XYZ, pf, o.v[0], sel.sp, wmem, &c, p.order);
        else if (api == 2) { XMem mem(b->interpolateByDOFs_mem_req(p.order)); b->interpolateByDOFs(XYZ, lam, o.v[0], sel.sp, mem.pm, &tag, p.order); }
        else b->interpolateByDOFs(XYZ, lam, o.v[0], sel.sp, wmem, &tag, p.order);
        m.eval(); m.obs("interpolateByDOFs"); checkCtx(m, c, key); p.compare(m, key, o.get(), sel.of(*s), sen);
    }
    { // constants
        Sel sel(r); Out o(1, p.nf, sen); double v = r.sym(); m.key("constant:" + fam); b->interpolateConstant(v, o.v[0], sel.sp); m.eval(); m.obs("interpolateConstant");
        p.compare(m, "constant:" + fam, o.get(), sel.of(*s), sen, [v](int, int) { return L(v); });
    }
    if (s->k != Sp::Unit) for (int k = 0; k < 2; ++k) { // nested component
        std::vector<int> path; int off; const Sp* sub; randPath(r, *s, path, off, sub); Sel sel(r);
        std::string key = "nested:" + fam; m.key(key); std::string ps; for (int x : path) ps += fmt("/%d", x); m.desc("nested component %s of %s order %d", ps.c_str(), s->str().c_str(), p.order);
        std::vector<bool> want(p.nf); for (int i = 0; i < sub->nf(); ++i) want[off+i] = sel.has(orc::dofLoc(*sub, i));
        auto view = b->dofMap().GetNestedDofMapView(path.data(), int(path.size()));
        Ctx c; c.fs = p.fs; c.fs.resize(1); c.D = p.D; Out o(1, p.nf, sen), o2(1, p.nf, sen); int tag; double v = r.sym();
        auto lam = [&c, &tag](const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if (ud != &tag) ++c.badUd; return c.eval(X, res, dim); };
        if (k) b->interpolateByDOFs(XYZ, lam, o.v[0], sel.sp, view, wmem, &tag, p.order);
        else { XMem mem(b->interpolateByDOFs_mem_req(p.order)); b->interpolateByDOFs(XYZ, lam, o.v[0], sel.sp, view, mem.pm, &tag, p.order); }
        b->interpolateConstant(v, o2.v[0], sel.sp, view);
        m.eval(2); m.obs("nested component interpolated"); checkCtx(m, c, key); p.compare(m, key, o.get(), want, sen); p.compare(m, key + ":constant", o2.get(), want, sen, [v](int, int) { return L(v); });
        // and the component as a space on its own
        auto ss = b->subSpace(path.data(), int(path.size()));
        if (m.check(!!ss && (int)ss->dofMap().NumDofOnTet() == sub->nf() && (int)ss->dim() == sub->dim(), key + ":subspace", "component has another size")) { FemSpace A(ss), B = makeRaw(*sub); m.check(A == B, key + ":subspace", "component compares different from the space it was made of"); }
    }
}
#ifndef SHARD
SECTION(units) { run_cases(m, m.cases(9*14, 9*200), [&](long c, Rng& r) { SP s = orc::unit(orc::FAMS[c%9]); runCase(m, r, s, famOf(*s)); }); }
SECTION(composed) { run_cases(m, m.cases(110, 2000), [&](long, Rng& r) { SP s = orc::randSpace(r, r.range(1, 3), 40); runCase(m, r, s, famOf(*s)); }); }
SECTION(sums) { // sums whose parts can be told apart
    run_cases(m, m.cases(60, 1000), [&](long c, Rng& r) { using namespace orc; SP s;
        auto mini = [&] { int k = r.range(0, 4); return k == 0 ? orc::uni({unit(P1), unit(B4)}) : k == 1 ? orc::uni({unit(P1), unit(B2)}) : k == 2 ? orc::uni({unit(P2), unit(B4)}) : k == 3 ? orc::uni({unit(P1), unit(B2), unit(B4)}) : orc::uni({unit(B4), unit(P2), unit(P0)}); };
        switch (c % 5) { case 0: s = mini(); break; case 1: s = vec(r.range(1, 3), mini()); break; case 2: s = cpx({mini(), unit(P0), vec(2, mini())}); break;
            case 3: s = orc::uni({vec(3, unit(P1)), vec(3, unit(B4))}); break; default: s = orc::uni({vec(3, unit(r.coin() ? B4 : B2)), unit(r.coin() ? RT0 : ND0)}); }
        runCase(m, r, s, famOf(*s)); });
}
SECTION(region) { // least squares on an edge, face or cell restricted to the dofs of its closure; at a vertex the functionals
    run_cases(m, m.cases(260, 3000), [&](long c, Rng& r) {
        SP s = c % 2 ? orc::unit(orc::FAMS[(c/2)%9]) : orc::randSpace(r, r.range(0, 2), 30); if (!admissible(m, r, *s)) return;
        Prob p; int o = s->order(); p.make(r, s, 1, std::min(20, std::max(2*o, 4) + r.range(0, 2))); if (p.deg + o > p.order) return;
        int dim = r.range(0, 3), el = r.range(0, dim == 1 ? 5 : dim == 3 ? 0 : 3), nf = p.nf, D = p.D; Sel sel(dim, el); auto want = sel.of(*s);
        static const unsigned char ET[4] = {DofT::NODE, DofT::EDGE, DofT::FACE, DofT::CELL}; static const char* N[4] = {"node", "edge", "face", "cell"};
        static const unsigned char ET2[4] = {DofT::NODE, DofT::EDGE_ORIENT, DofT::FACE_ORIENT, DofT::CELL}, ET3[4] = {DofT::NODE, DofT::EDGE_UNORIENT, DofT::FACE_UNORIENT, DofT::CELL};
        unsigned char et = r.coin() ? ET[dim] : r.coin() ? ET2[dim] : ET3[dim];
        std::string key = std::string("region:") + N[dim]; m.key(key); m.desc("interpolateOnRegion %s %d of %s order %d tet %s", N[dim], el, s->str().c_str(), p.order, p.t.str().c_str());
        std::vector<int> ids; for (int i = 0; i < nf; ++i) if (want[i]) ids.push_back(i); int n = int(ids.size());
        std::vector<L> u(nf); double tol = p.tol;
        if (dim > 0 && n) {
            std::vector<L> A(size_t(n)*n), R(n), fv(D); auto vs = dim == 1 ? orc::edgeV(el) : dim == 2 ? orc::faceV(el) : orc::allV(); auto f = p.bf(0);
            for (auto& q : orc::quad(p.order + o, vs)) { auto B = orc::basis(*s, p.t, q.l); f(q.l, fv.data());
                for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) { L bi = q.w*B[size_t(ids[i])*D+k].v; R[i] += bi*fv[k]; for (int j = 0; j < n; ++j) A[i+size_t(n)*j] += bi*B[size_t(ids[j])*D+k].v; } }
            L rc; auto X = orc::solveDense(A, R, n, 1, &rc); if (X.empty() || rc < 1e-6L) { m.obs("region systems without unique solution skipped"); return; }
            for (int i = 0; i < n; ++i) u[ids[i]] = X[i];
            tol = 100*opTol(IDEN, p.t)*n/double(rc)*std::max(1.0, double(orc::maxabs(X)));
        }
        double sen = 1e30; FemSpace sp = makeRaw(*s); Ctx cx; cx.fs = p.fs; cx.D = D; Out o_(1, nf, sen); int tag;
        BaseFemSpace::EvalFunctor fn = [&](const std::array<double, 3>& X, double* res, unsigned dm, void* ud) { if (ud != &tag) ++cx.badUd; return cx.eval(X, res, dm); };
        XMem mem(sp.base()->interpolateOnRegion_mem_req(et, p.order)); sp.base()->interpolateOnRegion(tetra(p.t), fn, o_.v[0], et, el, mem.pm, &tag, p.order);
        m.eval(); m.distinct(key + s->str() + fmt("/%d", el)); m.obs(key); checkCtx(m, cx, key);
        if (dim == 0) p.compare(m, key, o_.get(), want, sen); else { p.tol = tol; p.compare(m, key, o_.get(), want, sen, [&](int, int i) { return u[i]; }); }
    });
}
#endif
#ifdef SHARD
template<class T, unsigned F> static void ctF(Mon& m, Rng& r, const char* name) {
    SP s = M<T>::get(); Prob p; p.make(r, s, F); double sen = 1e30; auto XYZ = tetra(p.t);
    for (int k = 0; k < std::min(p.nf, 14); ++k) { int i = p.nf <= 14 ? k : r.range(0, p.nf-1);
        std::string key = std::string("ct:") + name; m.key(key); m.desc("Dof<%s>::interpolate<%u> dof %d order %d tet %s", s->str().c_str(), F, i, p.order, p.t.str().c_str());
        Ctx c; c.fs = p.fs; c.D = p.D; Out o(F, p.nf, sen); int tag; auto lam = [&c, &tag](const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if (ud != &tag) ++c.badUd; return c.eval(X, res, dim); };
        std::array<ArrayView<>, F> a; for (unsigned q = 0; q < F; ++q) a[q] = o.v[q];
        if (F == 1 && r.coin()) Dof<T>::interpolate(XYZ, lam, a[0], i, &tag, p.order); else Dof<T>::template interpolate<F>(XYZ, lam, a, i, &tag, p.order);
        std::vector<bool> sel(p.nf); sel[i] = true; m.eval(); m.obs("compile-time functional"); m.distinct(key + fmt("/%u", F)); checkCtx(m, c, key); p.compare(m, key, o.get(), sel, sen); }
    if (F == 1) for (int k = 0; k < 3; ++k) { Sel sel(r); std::string key = std::string("ct-bydofs:") + name; m.key(key);
        Ctx c; c.fs = p.fs; c.D = p.D; Out o(1, p.nf, sen), o2(1, p.nf, sen); int tag; auto lam = [&c, &tag](const std::array<double, 3>& X, double* res, unsigned dim, void* ud) { if (ud != &tag) ++c.badUd; return c.eval(X, res, dim); };
        interpolateByDOFs<T>(XYZ, lam, o.v[0], sel.sp, &tag, p.order); double v = r.sym(); interpolateConstant<T>(v, o2.v[0], sel.sp);
        m.eval(2); m.obs("compile-time interpolateByDOFs"); checkCtx(m, c, key); p.compare(m, key, o.get(), sel.of(*s), sen); p.compare(m, key + ":constant", o2.get(), sel.of(*s), sen, [v](int, int) { return L(v); }); }
}
template<class T> static void ctRegion(Mon& m, Rng& r, const char* name) {
    SP s = M<T>::get(); for (int k = 0; k < 4; ++k) { Prob p; int o = s->order(); p.make(r, s, 1, std::min(20, std::max(2*o, 4) + r.range(0, 2))); if (p.deg + o > p.order) continue;
        int dim = r.range(0, 3), el = r.range(0, dim == 1 ? 5 : dim == 3 ? 0 : 3), nf = p.nf, D = p.D; Sel sel(dim, el); auto want = sel.of(*s);
        static const unsigned char ET[4] = {DofT::NODE, DofT::EDGE, DofT::FACE, DofT::CELL};
        std::string key = fmt("ct-region:%d:", dim) + name; m.key(key); m.desc("interpolateByRegion<%s> dim %d el %d order %d tet %s", s->str().c_str(), dim, el, p.order, p.t.str().c_str());
        std::vector<int> ids; for (int i = 0; i < nf; ++i) if (want[i]) ids.push_back(i); int n = int(ids.size()); std::vector<L> u(nf); double tol = p.tol;
        if (dim > 0 && n) {
            std::vector<L> A(size_t(n)*n), R(n), fv(D); auto vs = dim == 1 ? orc::edgeV(el) : dim == 2 ? orc::faceV(el) : orc::allV(); auto f = p.bf(0);
            for (auto& q : orc::quad(p.order + o, vs)) { auto B = orc::basis(*s, p.t, q.l); f(q.l, fv.data());
                for (int i = 0; i < n; ++i) for (int c = 0; c < D; ++c) { L bi = q.w*B[size_t(ids[i])*D+c].v; R[i] += bi*fv[c]; for (int j = 0; j < n; ++j) A[i+size_t(n)*j] += bi*B[size_t(ids[j])*D+c].v; } }
            L rc; auto X = orc::solveDense(A, R, n, 1, &rc); if (X.empty() || rc < 1e-6L) continue;
            for (int i = 0; i < n; ++i) u[ids[i]] = X[i]; tol = 100*opTol(IDEN, p.t)*n/double(rc)*std::max(1.0, double(orc::maxabs(X)));
        }
        double sen = 1e30; Ctx cx; cx.fs = p.fs; cx.D = D; Out o_(1, nf, sen); int tag; auto XYZ = tetra(p.t);
        auto lam = [&](const std::array<double, 3>& X, double* res, unsigned dm, void* ud) { if (ud != &tag) ++cx.badUd; return cx.eval(X, res, dm); };
        if (r.coin()) { PMem mem(interpolateByRegion_memory_requirements<T>(ET[dim], p.order)); interpolateByRegion<T>(XYZ, lam, o_.v[0], ET[dim], el, mem.pm, &tag, p.order); }
        else interpolateByRegion<T>(XYZ, lam, o_.v[0], ET[dim], el, &tag, p.order);
        m.eval(); m.obs("compile-time region"); m.distinct(key); checkCtx(m, cx, key);
        if (dim == 0) p.compare(m, key, o_.get(), want, sen); else { p.tol = tol; p.compare(m, key, o_.get(), want, sen, [&](int, int i) { return u[i]; }); } }
}
// position of a nodal dof: the value of the coordinate functions' functional
template<class T> static void coord(Mon& m, Rng& r, const char* name) {
    SP s = M<T>::get(); Tet t = orc::randTet(r); std::string key = std::string("coord:") + name; m.key(key); m.distinct(key);
    for (int i = 0; i < s->nf(); ++i) { double c[3] = {NAN, NAN, NAN}; DOF_coord<T>::at(i, &t.x[0][0], c); m.eval(); m.obs("dof position"); m.desc("DOF_coord<%s>::at(%d)", s->str().c_str(), i);
        for (int k = 0; k < 3; ++k) { const Sp* q = s.get(); int d = i; while (q->k != Sp::Unit) { int nc = q->k == Sp::Vec ? q->n : int(q->ch.size()); for (int j = 0; j < nc; ++j) { auto& ch = *q->ch[q->k == Sp::Vec ? 0 : j]; if (d < ch.nf()) { q = &ch; break; } d -= ch.nf(); } }
            L w = orc::famFunctional(q->fam, t, d, [&](const L* l, L* o) { L X[3]; t.point(l, X); o[0] = X[k]; }, 1, 0, 2);
            if (!m.close(c[k], double(w), 1e-13*double(t.shift + t.h), key, "coordinate (dof, axis)", i, k)) return; } }
}
template<class T> static void ct(Mon& m, Rng& r, const char* n) { ctF<T, 1>(m, r, n); ctF<T, 2>(m, r, n); ctF<T, 3>(m, r, n); }
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
#define X(F) FemFix<F>
SEC(SHARD) {
    run_cases(m, m.cases(4*6, 4*80), [&](long c, Rng& r) {
        switch (c % 4) {
#if SHARD == 0
        case 0: ct<X(FEM_P0)>(m, r, "P0"); ct<X(FEM_P1)>(m, r, "P1"); coord<X(FEM_P0)>(m, r, "P0"); coord<X(FEM_P1)>(m, r, "P1"); break;
        case 1: ct<X(FEM_P2)>(m, r, "P2"); ct<X(FEM_P3)>(m, r, "P3"); coord<X(FEM_P2)>(m, r, "P2"); coord<X(FEM_P3)>(m, r, "P3"); break;
        case 2: ct<X(FEM_RT0)>(m, r, "RT0"); ct<X(FEM_ND0)>(m, r, "ND0"); break;
        case 3: ct<X(FEM_CR1)>(m, r, "CR1"); ct<X(FEM_B2)>(m, r, "B2"); ct<X(FEM_B4)>(m, r, "B4"); coord<X(FEM_CR1)>(m, r, "CR1"); coord<X(FEM_B2)>(m, r, "B2"); break;
#elif SHARD == 1
        case 0: ct<FemVec<3, FEM_P2>>(m, r, "P2^3"); ct<FemVec<2, FEM_ND0>>(m, r, "ND0^2"); coord<FemVec<3, FEM_P2>>(m, r, "P2^3"); break;
        case 1: ct<FemCom<FemVec<3, FEM_P2>, X(FEM_P1), X(FEM_RT0)>>(m, r, "com"); break;
        case 2: ct<FemVecT<2, FemCom<X(FEM_P1), X(FEM_RT0)>>>(m, r, "vt"); coord<FemVecT<2, FemVec<2, FEM_P3>>>(m, r, "vtP3"); break;
        case 3: ct<FemCom<X(FEM_P0), FemCom<FemVec<2, FEM_CR1>, X(FEM_P3)>>>(m, r, "com2"); break;
#elif SHARD == 2
        case 0: ct<FemUnionT<X(FEM_P1), X(FEM_B4)>>(m, r, "mini"); ct<FemVecT<3, FemUnionT<X(FEM_P1), X(FEM_B4)>>>(m, r, "mini3"); break;
        case 1: ct<FemUnionT<X(FEM_P1), X(FEM_B2), X(FEM_B4)>>(m, r, "u3"); break;
        case 2: ct<FemCom<FemUnionT<X(FEM_P1), X(FEM_B4)>, FemVec<2, FEM_P2>, X(FEM_RT0)>>(m, r, "comu"); break;
        case 3: ct<FemUnionT<FemVec<3, FEM_B4>, X(FEM_ND0)>>(m, r, "umix"); break;
#elif SHARD == 3
        case 0: ctRegion<X(FEM_P1)>(m, r, "P1"); ctRegion<X(FEM_P2)>(m, r, "P2"); break;
        case 1: ctRegion<X(FEM_P3)>(m, r, "P3"); ctRegion<X(FEM_P0)>(m, r, "P0"); ctRegion<X(FEM_CR1)>(m, r, "CR1"); break;
        case 2: ctRegion<FemVec<3, FEM_P1>>(m, r, "P1^3"); ctRegion<X(FEM_RT0)>(m, r, "RT0"); ctRegion<X(FEM_ND0)>(m, r, "ND0"); break;
        case 3: coord<FemCom<FemVec<3, FEM_P2>, X(FEM_P1)>>(m, r, "com"); coord<FemUnionT<X(FEM_P1), X(FEM_B2)>>(m, r, "union"); break;
#endif
        } });
}
#endif
