// N06: utilities of finite element functions on a mesh: evaluation, integrals, projection, diffusion problems, storage. The utilities themselves are compiled in n06lib.cpp
#include "ufun.h"
// values of functions given by stored degrees of freedom
SECTION(evaluate) {
    run_cases(m, m.cases(200, 3000), [&](long cs, Rng& r) {
        Glob S(r, 1, 5); Mesh& M = *S.M[0]; M.AssignGlobalID(15);
        int nv = r.range(1, 3); std::vector<SP> sp; std::vector<Ani::FemSpace> F; Vars c; std::string nm;
        for (int q = 0; q < nv; ++q) { SP s; Ani::FemSpace f; for (;;) { s = orc::randSpace(r, r.range(0, 2), 40); if (s->has(Sp::Uni) && orc::unionQuality(*s) < 1e-9L) continue; break; } f = lib::makeRaw(*s); sp.push_back(s); F.push_back(f); V x; x.mod = lay(*s); c.v.push_back(x); nm += s->str() + " "; }
        c.finish(); m.desc("%zu cells, %s", S.g.T.size(), nm.c_str()); m.distinct(nm); if (cs < 3) m.sample(m.cur_desc);
        Tag A; std::vector<Tag> E; std::map<std::tuple<HandleType, int>, double> val; data(m, M, c, r, A, E, val);
        ::Assembler as(&M); { FemExprDescr fed; for (int q = 0; q < nv; ++q) { fed.PushTrialFunc(GenerateHelper(*F[q].base()), "u" + std::to_string(q)); fed.PushTestFunc(GenerateHelper(*F[q].base()), "v" + std::to_string(q)); } as.SetProbDescr(std::move(fed)); { std::function<void(const double**, double*, double*, double*, long*, void*, DynMem<double, long>*)> none = [](const double**, double*, double*, double*, long*, void*, DynMem<double, long>*) {}; as.SetMatRHSFunc(GenerateElemMatRhs(none, c.n(), c.n(), 0, 0)); } as.PrepareProblem(); }
        DynMem<> mem;
        for (auto& cv : cellViews(M, S.g, true)) { INMOST::Cell cell(&M, cv.h); Tet t = tetOf(M, cv); std::vector<double> all; for (auto& d : c.loc) { Pos p = place(cv, d); all.push_back(p.sign * val.at(std::make_tuple(p.h, int(posOf(c, d, p))))); }
            for (int q = 0; q < nv; ++q) { const Sp* s = sp[q].get(); size_t beg = c.beg[q]; Ani::FemSpace f = F[q]; int comp[3] = {q}; unsigned nc = 1;
                for (int lv = 0; lv < 2 && r.coin() && (s->k == Sp::Vec || s->k == Sp::Cpx); ++lv) { int j = r.range(0, int(s->k == Sp::Vec ? s->n : s->ch.size()) - 1); for (int i = 0; i < j; ++i) beg += s->ch[s->k == Sp::Vec ? 0 : i]->nf(); s = s->ch[s->k == Sp::Vec ? 0 : j].get(); f = lib::makeRaw(*s); comp[nc++] = j; }
                std::vector<int> ops; for (int o : orc::OPS) if (orc::opOk(o, s->dim())) ops.push_back(o); int o = ops[r.range(0, int(ops.size()) - 1)]; auto op = f.getOP(OperatorType(o)); int D = orc::dimOp(o, s->dim()); std::string key = std::string(orc::opName(o)) + (nc > 1 ? ":component" : "");
                int np = r.range(1, 4); std::vector<double> X(4 * np); for (int n = 0; n < np; ++n) orc::randBary(r, &X[4 * n]);
                std::vector<L> want(size_t(D) * np, 0), mag(size_t(D) * np, 0); for (int n = 0; n < np; ++n) { L l[4]; for (int i = 0; i < 4; ++i) l[i] = X[4 * n + i]; auto O = orc::opVals(o, *s, t, l); for (int i = 0; i < s->nf(); ++i) for (int k = 0; k < D; ++k) { want[n * D + k] += O[size_t(i) * D + k] * all[beg + i]; mag[n * D + k] += fabsl(O[size_t(i) * D + k]); } }
                double tol = 50 * lib::opTol(o, t); m.eval(); m.obs(nc > 1 ? "functions of a component" : "functions"); m.obs("values", long(want.size()));
                auto cmp = [&](const char* how, const double* got, int n0, int n1) { for (int n = n0; n < n1; ++n) for (int k = 0; k < D; ++k) if (!m.close(got[(n - n0) * D + k], double(want[n * D + k]), tol + 1e-12 * double(mag[n * D + k]), std::string(how) + ":" + key, "value (point, row)", n, k)) return; };
                { L y[3], l[4]; for (int i = 0; i < 4; ++i) l[i] = X[i]; t.point(l, y); std::array<double, 3> x{double(y[0]), double(y[1]), double(y[2])}; m.key("point:" + key); std::unique_ptr<double[]> out(new double[D]); eval_op_var_at_point(out.get(), cell, x, op, as, A, comp, nc); cmp("point", out.get(), 0, 1);
                    if (D <= 30) { auto a = eval_op_var_at_point<30>(cell, x, op, as, A, comp, nc); cmp("point", a.data(), 0, 1); if (nc == 1) { auto b = eval_op_var_at_point<30>(cell, x, op, as, A, {q}); cmp("point:list", b.data(), 0, 1); } if (nv == 1 && nc == 1) { auto b = eval_op_var_at_point<30>(cell, x, op, as, A, nullptr, 0); cmp("point:all", b.data(), 0, 1); } } }
                { m.key("points:" + key); std::unique_ptr<double[]> out(new double[size_t(D) * np]); std::fill(out.get(), out.get() + D * np, 77.); std::unique_ptr<double[]> xx(new double[4 * np]); std::copy(X.begin(), X.end(), xx.get()); auto dmp = F[q].dofMap(); eval_op_var_by_barycentric_points(DenseMatrix<>(out.get(), D, np), mem, cell, DenseMatrix<const double>(xx.get(), 4, np), op, *dmp.m_invoker, E[q], comp + 1, nc - 1); cmp("points", out.get(), 0, np); m.check(std::equal(X.begin(), X.end(), xx.get()), "points:arguments", "the points were changed"); }
            } mem.defragment(); } });
}
// integrals over the whole mesh
SECTION(integrate) {
    run_cases(m, m.cases(150, 2500), [&](long cs, Rng& r) {
        int np = randNp(r); Glob S(r, np, 12); int deg = r.range(0, 6), order = r.range(std::max(deg, 1), 8), dim = r.range(1, 4), how = int(cs % 4); if (how == 0) dim = 1; if (how == 1) dim = 3; bool nopar = r.coin(); Poly f(r, deg, dim); m.desc("%zu cells on %d processes, degree %d, order %d, dimension %d, call %d", S.g.T.size(), np, deg, order, dim, how); m.distinct(fmt("%d %d %d %d %zu %016llx", how, deg, order, dim, S.g.T.size(), (unsigned long long)r.next())); if (cs < 3) m.sample(m.cur_desc); m.key(fmt("call%d", how));
        std::vector<L> want(dim, 0), mag(dim, 0); for (size_t i = 0; i < S.g.T.size(); ++i) { Tet t; for (int a = 0; a < 4; ++a) for (int k = 0; k < 3; ++k) t.x[a][k] = S.g.X[S.g.T[i][a]][k]; t.init(); for (auto& q : orc::quad(deg, orc::allV())) { L y[3]; t.point(q.l, y); for (int k = 0; k < dim; ++k) { L v = f.val(y, k) * L(1 + i % 3) * q.w * t.V; want[k] += v; mag[k] += fabsl(v); } } }
        std::vector<std::vector<double>> res(np, std::vector<double>(dim, 55)); std::vector<std::map<long, long>> calls(np); std::mutex mx;
        im::parallel(S.w, [&](int k) { Mesh& M = *S.M[k]; double vol = 0; (void)vol; std::map<long, Tet> T; for (auto& cv : cellViews(M, S.g, true)) T[cv.key] = tetOf(M, cv);
            auto fun = [&](INMOST::Cell c, const double* x, double* out) { long key = M.el(c.GetHandle()).key; { std::lock_guard<std::mutex> g(mx); ++calls[k][key]; } CK(c.GetMeshLink() == &M && inside(T.at(key), x, 1e-10), "integrate:points", "point (%g, %g, %g) outside cell %ld", x[0], x[1], x[2], key); L y[3]; xl(x, y); for (int q = 0; q < dim; ++q) out[q] = double(f.val(y, q)) * double(1 + key % 3); };
            if (how == 0) res[k][0] = integrate_scalar_func(&M, [&](const INMOST::Cell& c, const std::array<double, 3>& x) { double v; fun(c, x.data(), &v); return v; }, order);
            else if (how == 1) { auto a = integrate_vector_func<3>(&M, [&](const INMOST::Cell& c, const std::array<double, 3>& x) { std::array<double, 3> v; fun(c, x.data(), v.data()); return v; }, order); std::copy(a.begin(), a.end(), res[k].begin()); }
            else integrate_vector_func(res[k].data(), unsigned(dim), &M, [&](INMOST::Cell c, DenseMatrix<const double> XYL, DenseMatrix<const double> X, DenseMatrix<> out, DynMem<>& mem) { auto pm = mem.alloc(7, 3, 0); auto q = pm.getPlainMemory(); for (int i = 0; i < 7; ++i) q.ddata[i] = 1e300; bool ok = XYL.nRow == 4 && X.nRow == 3 && out.nRow == size_t(dim) && XYL.nCol == X.nCol && out.nCol == X.nCol; CK(ok, "integrate:sizes", "%zux%zu", size_t(out.nRow), size_t(out.nCol)); const Tet& t = T.at(M.el(c.GetHandle()).key); auto nd = c.getNodes();
                    for (size_t n = 0; n < X.nCol; ++n) { double e = 0, sum = 0; for (int i = 0; i < 4; ++i) sum += XYL(i, n); for (int a = 0; a < 3; ++a) { double x = 0; for (int i = 0; i < 4; ++i) x += XYL(i, n) * M.el(M.HighConn(c.GetHandle())[i]).x[a]; e = std::max(e, std::fabs(x - X(a, n))); } CK(e < 1e-11 && std::fabs(sum - 1) < 1e-12, "integrate:barycentric", "points and barycentric coordinates differ by %g", e); fun(c, &X(0, n), &out(0, n)); } (void)t; }, order, nopar); });
        m.eval(); for (int k = 0; k < np; ++k) for (int q = 0; q < dim; ++q) m.close(res[k][q], double(want[q]), 1e-11 * double(1 + mag[q]), "integrate:value", "integral (process, component)", k, q);
        auto qf = tetrahedron_quadrature_formulas(order); for (int k = 0; k < np; ++k) { std::map<long, long> w; for (size_t i = 0; i < S.g.T.size(); ++i) if (S.own[i] == k) w[long(i)] = long(qf.GetNumPoints()); m.check(w == calls[k], "integrate:cells", "process %d: cells or numbers of points differ from its own cells", k); } m.obs("values", long(dim) * np); m.obs(fmt("processes=%d", np)); OBS_OMP });
}
// the parts of the run-time composed sums in the order of their summation
template<class T> static void tproj(const std::function<void(INMOST::Cell, std::array<double, 3>, double*)>& f, Mesh* m, Tag t, int o) { make_l2_project<T>(f, m, t, o); }
SECTION(project) {
    run_cases(m, m.cases(120, 1800), [&](long cs, Rng& r) {
        int np = randNp(r), how = r.range(0, 2); SP s; Ani::FemSpace F; int ti = r.range(0, 7); using namespace orc;
        if (how == 2) switch (ti) { case 0: s = unit(orc::P1); break; case 1: s = unit(orc::P2); break; case 2: s = unit(orc::P3); break; case 3: s = unit(RT0); break; case 4: s = unit(ND0); break; case 5: s = vec(3, unit(orc::P1)); break; case 6: s = uni({unit(orc::P1), unit(B4)}); break; default: s = cpx({vec(2, unit(CR1)), unit(orc::P0)}); }
        else { s = baseSpace(r.range(0, 10)); if (r.coin(1, 3)) { if (s->nf() <= 10) s = r.coin() ? vec(r.range(1, 3), s) : cpx({s, baseSpace(r.range(0, 2))}); } }
        F = lib::makeRaw(*s); int big = s->nf() > 15 ? 4 : 7; Glob S(r, np, big); Vars c = one(s); int p = s->order(), D = s->dim(), deg = r.range(0, std::min(p + 1, 4)), order = std::max(2 * p, p + deg); if (order < 1) order = 1; if (r.coin() && order < 8) ++order; Poly f(r, deg, D); bool jump = r.coin();
        m.desc("%s of a polynomial of degree %d, %zu cells on %d processes, order %d, call %d", s->str().c_str(), deg, S.g.T.size(), np, order, how); m.distinct(s->str() + fmt(" %d %d %zu", how, deg, S.g.T.size())); if (cs < 3) m.sample(m.cur_desc); m.key(how == 2 ? "project:template" : how == 1 ? "project:points" : "project:fused");
        std::map<std::array<long, 3>, double> GV; std::vector<std::vector<double>> loc(S.g.T.size()); std::vector<Tag> tags(np); std::vector<int> its(np); for (auto& x : its) x = r.coin() ? r.range(1, 99) : r.range(100, 100000);
        auto fv = [&](long key, const double* x, double* out) { L y[3]; xl(x, y); for (int q = 0; q < D; ++q) out[q] = double(f.val(y, q)) * (jump ? double(1 + key % 3) : 1.); };
        im::parallel(S.w, [&](int k) { Mesh& M = *S.M[k]; M.AssignGlobalID(15); INMOST::Solver::iterations() = its[k]; std::map<long, Tet> T; auto CV = cellViews(M, S.g, true); for (auto& cv : CV) T[cv.key] = tetOf(M, cv);
            Tag t = createFemVarTag(&M, *F.dofMap().m_invoker, "u"); tags[k] = t; for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) for (auto& x : Element(&M, ComposeHandle(d, l)).RealArray(t)) x = 999;
            auto at = [&](INMOST::Cell c, const double* x, double* out) { long key = M.el(c.GetHandle()).key; CK(c.GetMeshLink() == &M && inside(T.at(key), x, 1e-10), "project:points", "point outside the cell"); fv(key, x, out); };
            std::function<void(INMOST::Cell, std::array<double, 3>, double*)> pf = [&](INMOST::Cell c, std::array<double, 3> x, double* o) { at(c, x.data(), o); };
            if (how == 1) make_l2_project(pf, &M, t, F, order);
            else if (how == 0) { std::function<void(INMOST::Cell, DenseMatrix<const double>, DenseMatrix<const double>, DenseMatrix<>, DynMem<>&)> ff = [&](INMOST::Cell c, DenseMatrix<const double> XYL, DenseMatrix<const double> X, DenseMatrix<> out, DynMem<>& mem) { auto pm = mem.alloc(20, 3, 0); auto q = pm.getPlainMemory(); for (int i = 0; i < 20; ++i) q.ddata[i] = 1e300; CK(out.nRow == size_t(D) && out.nCol == X.nCol && XYL.nCol == X.nCol, "project:sizes", "sizes"); const Tet& tt = T.at(M.el(c.GetHandle()).key);
                    for (size_t n = 0; n < X.nCol; ++n) { L l[4], y[3]; for (int i = 0; i < 4; ++i) l[i] = XYL(i, n); tt.point(l, y); double e = 0; for (int a = 0; a < 3; ++a) e = std::max(e, std::fabs(double(y[a]) - X(a, n))); CK(e < 1e-11, "project:barycentric", "points and barycentric coordinates differ by %g", e); at(c, &X(0, n), &out(0, n)); } }; make_l2_project(ff, &M, t, F, order); }
            else switch (ti) { case 0: tproj<FemFix<FEM_P1>>(pf, &M, t, order); break; case 1: tproj<FemFix<FEM_P2>>(pf, &M, t, order); break; case 2: tproj<FemFix<FEM_P3>>(pf, &M, t, order); break; case 3: tproj<FemFix<FEM_RT0>>(pf, &M, t, order); break; case 4: tproj<FemFix<FEM_ND0>>(pf, &M, t, order); break; case 5: tproj<FemVec<3, FEM_P1>>(pf, &M, t, order); break; case 6: tproj<FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>(pf, &M, t, order); break; default: tproj<FemCom<FemVec<2, FEM_CR1>, FemFix<FEM_P0>>>(pf, &M, t, order); }
            INMOST::Solver::iterations() = 1; for (auto& cv : CV) { auto v = local(M, cv, c, t); std::lock_guard<std::mutex> g(MX); if (S.own[cv.key] == k) loc[cv.key] = v; bool ok = true; for (size_t j = 0; j < c.loc.size(); ++j) { Pos ps = place(cv, c.loc[j]); std::array<long, 3> id{HandleNum(ps.h), M.el(ps.h).key, long(posOf(c, c.loc[j], ps))}; double val = ps.sign * v[j]; auto it = GV.find(id); if (it == GV.end()) GV[id] = val; else ok &= it->second == val; } if (!ok) m.check(false, "project:ghosts", "processes hold different values on cell %ld", cv.key); } });
        // the difference is orthogonal to every function of the space
        std::map<std::array<long, 3>, std::pair<L, L>> R; for (size_t i = 0; i < S.g.T.size(); ++i) { int k = S.own[i]; Mesh& M = *S.M[k]; CellV cv = cellView(M, M.byKey[3].at(long(i)), S.g, true, [&](HandleType h) { return M.el(h).gid; }); Tet t = tetOf(M, cv); for (auto& q : orc::quad(p + std::max(p, deg), orc::allV())) { L y[3]; t.point(q.l, y); auto O = orc::opVals(orc::IDEN, *s, t, q.l); std::vector<L> e(D, 0), a(D, 0); for (int x = 0; x < D; ++x) { e[x] = -f.val(y, x) * (jump ? 1 + long(i) % 3 : 1); a[x] = fabsl(e[x]); for (int j = 0; j < s->nf(); ++j) { e[x] += loc[i][j] * O[size_t(j) * D + x]; a[x] += fabsl(loc[i][j] * O[size_t(j) * D + x]); } }
                for (int j = 0; j < s->nf(); ++j) { Pos ps = place(cv, c.loc[j]); auto& z = R[{HandleNum(ps.h), M.el(ps.h).key, long(posOf(c, c.loc[j], ps))}]; for (int x = 0; x < D; ++x) { z.first += ps.sign * q.w * t.V * e[x] * O[size_t(j) * D + x]; z.second += q.w * t.V * a[x] * fabsl(O[size_t(j) * D + x]); } } } }
        m.eval(); for (auto& z : R) if (!m.close(double(z.second.first), 0, 1e-8 * double(z.second.second + 1e-12L), "project:orthogonal", "moment of the difference (dimension, index)", z.first[0], z.first[2])) break; m.obs("moments", long(R.size())); m.obs(fmt("processes=%d", np)); });
}
// stationary diffusion with a polynomial solution of the space
SECTION(diffusion) {
    run_cases(m, m.cases(160, 2400), [&](long cs, Rng& r) {
        int np = randNp(r); static const int B[6] = {1, 2, 3, 4, 7, 8}; int bi = B[r.range(0, 5)]; SP s = baseSpace(bi); if (r.coin(1, 3) && s->nf() <= 11) s = orc::vec(r.range(1, 3), s); int p = bi == 1 || bi == 4 || bi == 7 ? 1 : bi == 3 ? 3 : 2, so = s->order(), D = s->dim(); bool laplace = r.coin(1, 5), vark = bi != 4 && r.coin();
        Ani::FemSpace F = lib::makeRaw(*s); Glob S(r, np, s->nf() > 20 ? 4 : 8); Vars c = one(s); int deg = r.range(0, p); if (laplace) deg = std::min(deg, 1); if (deg > 1 && bi == 4) deg = 1; Poly u(r, deg, D); int order = 2 * so + 1 + r.range(0, 1); if (bi == 1) order = r.range(4, 6);
        // diffusion tensor: constant plus a positive scalar polynomial of degree one; with a nonsymmetric part
        int N = 3 * D, kt = laplace ? 0 : r.range(0, 3); std::vector<double> K(size_t(N) * N, 0); if (kt <= 1) { double a = kt == 0 ? 1 : r.uni(0.5, 2); for (int i = 0; i < N; ++i) K[i + N * i] = a; } else { for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) K[i + N * j] = i == j ? 2 + r.uni() : 0.8 / N * r.sym(); if (kt == 2) for (int j = 0; j < N; ++j) for (int i = 0; i < j; ++i) K[j + N * i] = K[i + N * j]; } if (kt == 0) vark = false; double kl[3] = {0.05 * r.sym(), 0.05 * r.sym(), 0.05 * r.sym()}; auto kf = [&](const L* x) { return vark ? 1 + kl[0] * x[0] + kl[1] * x[1] + kl[2] * x[2] : L(1); };
        auto flux = [&](const L* x, int ci) { L v = 0; for (int q = 0; q < D; ++q) for (int j = 0; j < 3; ++j) if (K[ci + N * (3 * q + j)] != 0) v += K[ci + N * (3 * q + j)] * u.d1(x, q, j); return kf(x) * v; };
        auto rhs = [&](const L* x, int q) { L v = 0; for (int i = 0; i < 3; ++i) { int ci = 3 * q + i; for (int e = 0; e < D; ++e) for (int j = 0; j < 3; ++j) if (K[ci + N * (3 * e + j)] != 0) v -= K[ci + N * (3 * e + j)] * (kf(x) * u.d2(x, e, j, i) + (vark ? kl[i] : 0) * u.d1(x, e, j)); } return v; };
        // Dirichlet faces: at least one in every part connected through faces
        std::set<long> dir; std::map<long, std::vector<int>> fc; long NX = S.cn.N; for (size_t i = 0; i < S.g.T.size(); ++i) for (int a = 0; a < 4; ++a) { auto& t = S.g.T[i]; fc[fk(NX, t[a], t[(a + 1) % 4], t[(a + 2) % 4])].push_back(int(i)); }
        std::vector<int> cl(S.g.T.size()); for (size_t i = 0; i < cl.size(); ++i) cl[i] = int(i); std::function<int(int)> root = [&](int x) { return cl[x] == x ? x : cl[x] = root(cl[x]); }; for (auto& q : fc) if (q.second.size() == 2) cl[root(q.second[0])] = root(q.second[1]); int den = r.range(0, 4); std::set<int> got; std::vector<long> bf; for (auto& q : fc) if (q.second.size() == 1) bf.push_back(q.first); r.shuffle(bf); for (long k : bf) if (!got.count(root(fc[k][0])) || laplace || r.coin(den, 4)) { dir.insert(k); got.insert(root(fc[k][0])); }
        std::set<long> dn, de, dc; for (long k : dir) { long v[3] = {k / NX / NX, k / NX % NX, k % NX}; for (int i = 0; i < 3; ++i) { dn.insert(v[i]); for (int j = i + 1; j < 3; ++j) de.insert(ek(NX, v[i], v[j])); } } if (r.coin(1, 3)) for (size_t i = 0; i < S.g.T.size(); ++i) if (r.coin(1, 4)) dc.insert(long(i));
        bool defaults = !laplace && deg <= 1 && kt == 0 && dir.size() == bf.size() && r.coin();
        m.desc("%s: degree %d, tensor %d%s, %zu cells on %d processes, %zu of %zu boundary faces Dirichlet, order %d%s", s->str().c_str(), deg, kt, vark ? " variable" : "", S.g.T.size(), np, dir.size(), bf.size(), order, laplace ? ", Laplace" : defaults ? ", defaults" : ""); m.distinct(m.cur_desc); if (cs < 3) m.sample(m.cur_desc); std::string key = SPN[bi]; m.key(key);
        std::atomic<long> nd{0}, nn{0}, nk{0}, nr{0}; std::vector<Tag> tags(np); std::vector<int> its(np); for (auto& x : its) x = r.coin() ? r.range(1, 999) : r.range(1000, 100000);
        im::parallel(S.w, [&](int k) { Mesh& M = *S.M[k]; M.AssignGlobalID(15); INMOST::Solver::iterations() = its[k]; std::map<long, Tet> T; auto CV = cellViews(M, S.g, true); for (auto& cv : CV) T[cv.key] = tetOf(M, cv); Tag t = createFemVarTag(&M, *F.dofMap().m_invoker, "u"); tags[k] = t;
            auto isd = [&](const Element& e) { int d = HandleNum(e.GetHandle()); long q = M.el(e.GetHandle()).key; return (d == 0 ? dn : d == 1 ? de : d == 2 ? dir : dc).count(q) > 0; };
            auto onEl = [&](Element e, const double* x) { auto n = e.getNodes(); std::vector<std::array<double, 3>> p; for (size_t i = 0; i < n.size(); ++i) { auto y = n[i].Coords(); p.push_back({y[0], y[1], y[2]}); } // x is a combination of the nodes: distance by projection
                if (p.size() == 4) return inside(T.at(M.el(e.GetHandle()).key), x, 1e-9); double d[3] = {x[0] - p[0][0], x[1] - p[0][1], x[2] - p[0][2]}; auto dot = [](const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }; if (p.size() == 1) return dot(d, d) < 1e-18; double a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = p[1][i] - p[0][i]; b[i] = p.size() > 2 ? p[2][i] - p[0][i] : 0; } double aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), da = dot(d, a), db = dot(d, b), s1, s2 = 0; if (p.size() == 2) s1 = da / aa; else { double D = aa * bb - ab * ab; s1 = (da * bb - db * ab) / D; s2 = (db * aa - da * ab) / D; } double e2 = 0; for (int i = 0; i < 3; ++i) { double z = d[i] - s1 * a[i] - s2 * b[i]; e2 += z * z; } return e2 < 1e-18 && s1 > -1e-9 && s2 > -1e-9 && s1 + s2 < 1 + 1e-9; };
            auto fis = [&](Element e) { CK(e.isValid() && e.GetMeshLink() == &M, "diffusion:elements", "is_dirichlet is asked about an invalid element"); return isd(e); };
            auto fd = [&](Element e, std::array<double, 3> x, ArrayView<> o) { ++nd; CK(isd(e), "diffusion:dirichlet", "Dirichlet value asked on an element without a condition"); CK(onEl(e, x.data()), "diffusion:dirichlet", "point (%g, %g, %g) outside the element", x[0], x[1], x[2]); CK(o.size == size_t(D), "diffusion:dirichlet", "size %zu", size_t(o.size)); L y[3]; xl(x.data(), y); for (int q = 0; q < D; ++q) o[q] = double(u.val(y, q)); };
            auto fn = [&](INMOST::Face f, std::array<double, 3> x, ArrayView<> o) { ++nn; bool b = M.el(f.GetHandle()).bnd; CK(b && !isd(f), "diffusion:neumann", "Neumann value asked on %s", b ? "a Dirichlet face" : "an inner face"); CK(onEl(f, x.data()), "diffusion:neumann", "point outside the face"); CK(o.size == size_t(D), "diffusion:neumann", "size %zu", size_t(o.size)); auto cs = f.getCells(); const Tet& tt = T.at(M.el(cs[0].GetHandle()).key); auto nf = f.getNodes(); L n[3] = {0, 0, 0}; for (int lf = 0; lf < 4; ++lf) { int in = 0; for (int i = 0; i < 3; ++i) for (int a = 0; a < 3; ++a) { auto y = nf[a].Coords(); in += y[0] == tt.x[FN[lf][i]][0] && y[1] == tt.x[FN[lf][i]][1] && y[2] == tt.x[FN[lf][i]][2]; } if (in == 3) tt.normal(lf, n); } L y[3]; xl(x.data(), y); for (int q = 0; q < D; ++q) { L v = 0; for (int i = 0; i < 3; ++i) v += flux(y, 3 * q + i) * n[i]; o[q] = double(v); } };
            auto fk_ = [&](INMOST::Cell ce, std::array<double, 3> x, DenseMatrix<> o) { ++nk; CK(ce.GetMeshLink() == &M && inside(T.at(M.el(ce.GetHandle()).key), x.data(), 1e-9), "diffusion:tensor", "point outside the cell"); CK(o.nRow == size_t(N) && o.nCol == size_t(N), "diffusion:tensor", "sizes %zux%zu", size_t(o.nRow), size_t(o.nCol)); L y[3]; xl(x.data(), y); double kk = double(kf(y)); if (kt == 0) { o.SetEye(1); return Ani::TENSOR_NULL; } if (kt == 1) { o.data[0] = K[0] * kk; return Ani::TENSOR_SCALAR; } for (int i = 0; i < N * N; ++i) o.data[i] = K[i] * kk; return kt == 2 ? Ani::TENSOR_SYMMETRIC : Ani::TENSOR_GENERAL; };
            auto fr = [&](INMOST::Cell ce, std::array<double, 3> x, ArrayView<> o) { ++nr; CK(ce.GetMeshLink() == &M && inside(T.at(M.el(ce.GetHandle()).key), x.data(), 1e-9), "diffusion:source", "point outside the cell"); CK(o.size == size_t(D), "diffusion:source", "size %zu", size_t(o.size)); L y[3]; xl(x.data(), y); for (int q = 0; q < D; ++q) o[q] = double(rhs(y, q)); };
            if (laplace) make_laplace(&M, F, t, fis, fd, order); else if (defaults) solve_stationary_diffusion(&M, F, t, fis, fd); else solve_stationary_diffusion(&M, F, t, fis, fd, fn, fk_, fr, order);
            INMOST::Solver::iterations() = 1; CK(M.markers == 0, "diffusion:markers", "markers left: %x", M.markers); for (auto& e : M.e) for (auto& x : e) CK(x.marks == 0, "diffusion:markers", "an element keeps a marker"); });
        m.eval(); orc::Functional fun; long seen = 0; for (int k = 0; k < np; ++k) { Mesh& M = *S.M[k]; bool bad = false; for (auto& cv : cellViews(M, S.g, true)) { if (bad) break; Tet t = tetOf(M, cv); auto v = local(M, cv, c, tags[k]); orc::Fn f = [&](const L* l, L* o) { L y[3]; t.point(l, y); for (int q = 0; q < D; ++q) o[q] = u.val(y, q); }; for (int j = 0; j < s->nf() && !bad; ++j) { L w = fun.apply(*s, t, j, f, D, 0, 6); ++seen; bad = !m.close(v[j], double(w), 2e-8 * double(1 + fabsl(w)), "diffusion:solution:" + key, "degree of freedom (process, local number)", k, j); } } }
        m.obs("degrees of freedom", seen); m.obs("Dirichlet values", nd); m.obs("Neumann values", nn); m.obs("tensors", nk); m.obs("sources", nr); m.obs(fmt("processes=%d", np)); if (dir.size() < bf.size()) m.obs("with Neumann faces"); });
}
// storage for the degrees of freedom of a variable
SECTION(tags) {
    run_cases(m, m.cases(300, 5000), [&](long cs, Rng& r) {
        Glob S(r, 1, 4); Mesh& M = *S.M[0]; Vars c; for (;;) { c = Vars(); V x; x.mod = symNode(r, r.range(0, 2)); c.v.push_back(x); if (x.mod->total() > 0 && x.mod->total() < 200) break; } c.finish(); DofMap dm(make(*c.v[0].mod, r)); bool fixed = r.coin(); m.desc("%s %s", c.str().c_str(), fixed ? "fixed" : "exact"); m.distinct(m.cur_desc); if (cs < 3) m.sample(m.cur_desc); m.key("tags");
        Tag t = fixed && r.coin() ? createFemVarTag(&M, *dm.m_invoker, "w") : createFemVarTag(&M, *dm.m_invoker, "w", fixed); m.eval(); m.check(t.isValid() && t.GetTagName() == "w" && M.HaveTag("w") && t.GetDataType() == DATA_REAL, "tags:name", "name, type"); unsigned mx = maxOn(c);
        for (int d = 0; d < 4; ++d) { m.check(t.isDefined(1u << d) == c.has(d), "tags:mask", "defined on entities of dimension %d: %d instead of %d", d, int(t.isDefined(1u << d)), int(c.has(d))); if (t.isDefined(1u << d)) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) { auto a = Element(&M, ComposeHandle(d, l)).RealArray(t); if (!m.check(fixed ? a.size() == mx : a.size() == c.on[d].size(), "tags:size", "size %zu on an entity of dimension %d with %zu values", a.size(), d, c.on[d].size())) break; for (double x : a) m.check(x == 0, "tags:zero", "initial value %g", x); } }
        m.key("tags:problem"); bool threw = false; try { create_or_load_problem_tag(&M, *dm.m_invoker, "w", false); } catch (std::exception&) { threw = true; } m.check(threw, "tags:unexpected", "an existing tag was accepted though it must not exist"); auto q = create_or_load_problem_tag(&M, *dm.m_invoker, "w"); m.check(q.second && q.first == t, "tags:load", "existing tag not loaded"); auto n = create_or_load_problem_tag(&M, *dm.m_invoker, "other", r.coin()); m.check(!n.second && n.first != t && M.HaveTag("other") && n.first.GetSize() >= mx, "tags:create", "new tag"); });
}
// names of spaces; report of the linear solver
SECTION(names) {
    static const char* NM[11] = {"P0", "P1", "P2", "P3", "MINI", "MINI1", "MINI2", "MINI3", "CR1", "MINI_CR", "MINI_CR1"}; static const int A[11] = {orc::P0, orc::P1, orc::P2, orc::P3, orc::P1, orc::P1, orc::P2, orc::P3, orc::CR1, orc::CR1, orc::CR1};
    run_cases(m, 11, [&](long c, Rng& r) { m.desc("%s", NM[c]); m.distinct(uint64_t(c)); m.eval(); m.key("names"); auto f = choose_space_from_name(NM[c]); bool b = c >= 4 && c != 8; SP s = b ? orc::uni({orc::unit(A[c]), orc::unit(orc::B4)}) : orc::unit(A[c]); Ani::FemSpace w = lib::makeRaw(*s); m.check(f == w, "names:space", "another space than %s", s->str().c_str());
        Tet t = orc::randTet(r); lib::Batch T({t}); std::vector<double> X(8); orc::randBary(r, &X[0]); orc::randBary(r, &X[4]); std::string e; for (int o : {1, 2}) { auto U = lib::evalOpX(f.getOP(OperatorType(o)), T, X, &e); auto W = lib::wantOp(o, *s, {t}, X); if (!m.check(U.size() == W.v.size(), "names:values", "size")) break; for (size_t i = 0; i < U.size(); ++i) if (!m.close(U[i], double(W.v[i]), lib::opTol(o, t), "names:values", "value", long(i))) break; }
        for (const char* bad : {"", "P4", "p1", "MINI4", "P1 "}) m.check(mon::throws([&] { choose_space_from_name(bad); }), "names:unknown", "name \"%s\" was accepted", bad); });
}
SECTION(report) {
    run_cases(m, m.cases(200, 2000), [&](long, Rng& r) { int its = r.coin(1, 3) ? r.range(0, 9999) : r.range(0, 1) ? r.range(0, 20) : r.range(0, 2000000000); m.desc("%d iterations", its); m.distinct(uint64_t(its)); m.eval(); m.key("report"); Sparse::Matrix A; Sparse::Vector b, x; A.SetInterval(0, 1); b.SetInterval(0, 1); A[0][0] = 2; b[0] = 4; INMOST::Solver::iterations() = its; INMOST::Solver s; s.SetMatrix(A); s.Solve(b, x); INMOST::Solver::iterations() = 1; std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); try { print_linear_solver_status(s, "name of it"); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); std::string z = o.str();
        m.check(z.find("name of it") != std::string::npos, "report:name", "%s", z.c_str()); size_t at = z.find("#lits"); m.check(at != std::string::npos && std::atoi(z.c_str() + at + 5) == its, "report:iterations", "%s", z.c_str()); m.check(z.find("0.125") != std::string::npos, "report:residual", "%s", z.c_str()); });
}
