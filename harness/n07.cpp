// N07: metrics constructed from a function of finite elements. The construction is compiled in n06lib.cpp
#include "ufun.h"
#include "anifem++/utils/adapt_mesh.h"
typedef MetricsConstructTraits Tr;
struct S3 { L a[3][3]; S3() { for (auto& r : a) for (L& v : r) v = 0; } static S3 eye(L c) { S3 s; for (int i = 0; i < 3; ++i) s.a[i][i] = c; return s; } S3& add(const S3& b, L c) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] += c * b.a[i][j]; return *this; } L norm() const { L s = 0; for (auto& r : a) for (L v : r) s = std::max(s, fabsl(v)); return s; } };
struct Ev { L v[3]; L q[3][3]; };   // ascending; columns of q
static Ev eig(S3 s) { Ev e; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e.q[i][j] = i == j;
    for (int it = 0; it < 60; ++it) { L off = 0; for (int p = 0; p < 3; ++p) for (int q = p + 1; q < 3; ++q) { off += fabsl(s.a[p][q]); if (s.a[p][q] == 0) continue; L z = (s.a[q][q] - s.a[p][p]) / (2 * s.a[p][q]), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), c = 1 / sqrtl(1 + t * t), n = t * c; for (int k = 0; k < 3; ++k) { L x = s.a[k][p], y = s.a[k][q]; s.a[k][p] = c * x - n * y; s.a[k][q] = n * x + c * y; } for (int k = 0; k < 3; ++k) { L x = s.a[p][k], y = s.a[q][k]; s.a[p][k] = c * x - n * y; s.a[q][k] = n * x + c * y; } s.a[p][q] = s.a[q][p] = 0; for (int k = 0; k < 3; ++k) { L x = e.q[k][p], y = e.q[k][q]; e.q[k][p] = c * x - n * y; e.q[k][q] = n * x + c * y; } } if (off == 0) break; }
    for (int i = 0; i < 3; ++i) e.v[i] = s.a[i][i]; for (int i = 0; i < 3; ++i) for (int j = i + 1; j < 3; ++j) if (e.v[j] < e.v[i]) { std::swap(e.v[i], e.v[j]); for (int k = 0; k < 3; ++k) std::swap(e.q[k][i], e.q[k][j]); } return e; }
static S3 mk(const Ev& e) { S3 s; for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.a[i][j] += e.q[i][k] * e.v[k] * e.q[j][k]; return s; }
static void clampEv(Ev& e, const Tr& t) { auto cl = [&](L v) { return std::min(L(t.M_lambda_max), std::max(L(t.M_lambda_min), v)); }; for (L& v : e.v) v = cl(v); L R = std::max(t.M_lambda_max_rel, 1.); L mx = std::max(e.v[0], std::max(e.v[1], e.v[2])), mn = std::min(e.v[0], std::min(e.v[1], e.v[2])); if (mx / mn > R * (1 + 1e-10L)) { L g = cbrtl(e.v[0] * e.v[1] * e.v[2]), h = sqrtl(R); for (L& v : e.v) v = cl(g * std::min(h, std::max(1 / h, v / g))); } }
// metric of a Hessian: bounded eigenvalues, then scaled
static S3 metric(const S3& H, const Tr& t) { Ev e = eig(H); clampEv(e, t); L d = powl(e.v[0] * e.v[1] * e.v[2], -0.2L); for (L& v : e.v) v *= d; return mk(e); }
struct CH { S3 A; L s[3] = {0, 0, 0}; bool deg = true, amb = false; L vol = 0, del = 0; };
// Hessian averaged over a cell by the fluxes of the gradient of every basis function
static std::vector<S3> hess(const Sp& s, const Tet& t) { std::vector<S3> r(s.nf()); int p = s.order(); for (int f = 0; f < 4; ++f) { L n[3]; t.normal(f, n); L ar = t.area(f); for (auto& q : orc::quad(std::max(p - 1, 0), orc::faceV(f))) { auto O = orc::opVals(orc::GRAD, s, t, q.l); for (int k = 0; k < s.nf(); ++k) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { L v = q.w * ar / t.V * n[i] * O[size_t(k) * 3 + j] / 2; r[k].a[i][j] += v; r[k].a[j][i] += v; } } } return r; }
static CH cellH(const Sp& s, const Tet& t, std::vector<double> d0, const Tr& tr) {
    CH c; c.vol = t.V; int n = s.nf(); std::vector<L> d(d0.begin(), d0.end()); L sum = 0; for (L v : d) sum += fabsl(v); if (sum == 0) return c; auto G = hess(s, t); std::vector<L> B(size_t(n) * n, 0);
    if (tr.distrib_heuristics) for (auto& q : orc::quad(2 * std::max(s.order() - 1, 0), orc::allV())) { auto O = orc::opVals(orc::GRAD, s, t, q.l); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < 3; ++k) B[size_t(i) * n + j] += q.w * O[size_t(i) * 3 + k] * O[size_t(j) * 3 + k]; }
    L gm = 0; for (auto& g : G) gm = std::max(gm, g.norm());
    auto run = [&](CH& o) { std::vector<L> al(d); L mag = 0, sa = 0; if (tr.distrib_heuristics) { L e = 0, em = 0; for (int i = 0; i < n; ++i) { sa += fabsl(d[i]); for (int j = 0; j < n; ++j) { L z = d[i] * B[size_t(i) * n + j] * d[j]; e += z; em += fabsl(z); } } for (int i = 0; i < n; ++i) al[i] = fabsl(d[i]) * fabsl(e) / sa; mag = em; } else for (L v : d) mag += fabsl(v);
        S3 H; for (int k = 0; k < n; ++k) H.add(G[k], -0.5L * al[k]); L hm = 0; for (int f = 0; f < 4; ++f) hm = std::max(hm, t.area(f)); o.del = 2e-14L * n * t.kappa * t.kappa * mag * std::max(gm, hm / t.V / t.h); if (mag == 0) o.del = 0; Ev e = eig(H); for (L& v : e.v) v = fabsl(v); o.A = mk(e); std::copy(e.v, e.v + 3, o.s); std::sort(o.s, o.s + 3);
        auto dg = [&](L lo, L hi) { return !(lo > 1e-300L) || hi / lo > tr.H_lambda_max_rel; }; o.deg = dg(o.s[0], o.s[2]); bool a = dg(o.s[0] - o.del, o.s[2] + o.del), b = dg(o.s[0] + o.del, std::max(o.s[2] - o.del, L(0))); o.amb = a != b; };
    run(c); if (!c.amb && !c.deg) return c; CH o = c; int im = 0; L sec = 0; for (int k = 1; k < n; ++k) if (fabsl(d[k]) > fabsl(d[im])) im = k; for (int k = 0; k < n; ++k) if (k != im) sec = std::max(sec, fabsl(d[k])); bool tie = sec > fabsl(d[im]) * (1 - 1e-12L) && tr.alpha_boost != 1; d[im] *= tr.alpha_boost; CH b; b.vol = c.vol; run(b);
    if (c.amb) { o.amb = true; return o; } if (tie || b.amb) { o.amb = true; return o; } if (b.deg) return o; return b; }
struct NM { S3 M; bool skip = false; L tol = 0; const char* how = ""; };
static NM nodeM(const std::vector<CH>& P, const Tr& tr, int np) {
    NM r; const L thr = tr.M_lambda_min; int ok = 0; for (auto& c : P) { if (c.amb) { r.skip = true; return r; } ok += !c.deg; } L rel = 1e-12L; auto condOf = [&] { return std::max(L(1), std::min(L(std::max(tr.M_lambda_max_rel, 1.)), L(tr.M_lambda_max) / L(tr.M_lambda_min))); };
    auto vm = [&](L s) { return std::max(s, L(tr.M_lambda_min)); };
    if (P.empty()) { r.how = "no cells"; r.M = S3::eye(tr.isotropic_fallback); }
    else if (ok && tr.vertex_projection_strategy == 0) { r.how = "greatest determinant"; const CH* b = nullptr; auto det = [](const CH& c) { return c.s[0] * c.s[1] * c.s[2]; }; auto er = [](const CH& c) { return 3 * c.del / c.s[0] + 1e-13L; }; for (auto& c : P) if (!c.deg && (!b || det(c) > det(*b))) b = &c; r.M = metric(b->A, tr); rel += b->del / vm(b->s[0]);
        for (auto& c : P) if (&c != b && !c.deg && det(c) * (1 + er(c)) >= det(*b) * (1 - er(*b))) { S3 o = metric(c.A, tr); o.add(r.M, -1); if (o.norm() > 1e-9L * r.M.norm()) r.skip = true; } }
    else if (ok) { r.how = "geometric mean"; S3 s; L e = 0; for (auto& c : P) if (!c.deg) { Ev v = eig(metric(c.A, tr)); for (L& x : v.v) x = logl(x); s.add(mk(v), 1.L / ok); e = std::max(e, c.del / vm(c.s[0])); } Ev v = eig(s); for (L& x : v.v) x = expl(x); r.M = mk(v); rel = (rel + e) * condOf(); }
    else { auto nz = [&](const CH& c) { int n = 0; for (L v : c.s) { n += v > thr; if (fabsl(v - thr) <= c.del + 1e-9L * thr) r.skip = true; } return n; }; auto pr = [&](const CH& c) { L p = 1; bool any = false; for (L v : c.s) if (v > thr) p *= v, any = true; return any ? p : 0; }; const CH* b = nullptr; for (auto& c : P) if (!b || nz(c) > nz(*b) || (nz(c) == nz(*b) && pr(c) > pr(*b))) b = &c; if (r.skip) return r;
        auto lift = [&](const CH& c) { Ev e = eig(c.A); L mn = 0; for (int i = 2; i >= 0; --i) if (e.v[i] > thr) mn = e.v[i]; for (L& v : e.v) if (!(v > thr)) v = mn; rel = std::max(rel, 1e-12L + c.del / mn * 4); return metric(mk(e), tr); };
        if (nz(*b) > 0) { r.how = "lifted"; r.M = lift(*b); for (auto& c : P) if (&c != b && nz(c) == nz(*b)) { L mn = c.s[2]; for (L v : c.s) if (v > thr) mn = std::min(mn, v); if (pr(c) * (1 + 3 * c.del / mn + 1e-12L) >= pr(*b) * (1 - rel)) { S3 o = lift(c); o.add(r.M, -1); if (o.norm() > 1e-9L * r.M.norm()) r.skip = true; } } }
        else { r.how = "vanishing"; L w = 0, cs = 0; for (auto& c : P) if (c.s[2] > 1e-300L) { w += c.vol; cs += c.vol * c.s[2]; if (np > 1) r.skip = true; } else if (c.del > 0) r.skip = true; r.M = S3::eye(w > 0 ? cs / w : L(tr.isotropic_fallback)); } }
    Ev e = eig(r.M); clampEv(e, tr); r.M = mk(e); r.tol = 20 * rel * r.M.norm(); if (rel > 1e-4L) r.skip = true; return r; }
static SP scalar(Rng& r) { using namespace orc; static const int W[12] = {2, 2, 2, 3, 3, 9, 9, 8, 7, 10, 1, 0}; int i = W[r.range(0, 11)]; if (r.coin(1, 8)) return uni({unit(orc::P2), unit(B4)}); if (r.coin(1, 8)) return cpx({baseSpace(i)}); return baseSpace(i); }
SECTION(metrics) {
    run_cases(m, m.cases(500, 8000), [&](long cs, Rng& r) {
        int np = randNp(r); SP s = scalar(r); Ani::FemSpace F = lib::makeRaw(*s); Glob S(r, np, r.coin(1, 3) ? 2 : 12); Vars c = one(s); Tr tr; static const double LM[5] = {1e-12, 1e-12, 1e-6, 1e-2, 0.5}, LX[4] = {1e12, 1e12, 1e3, 2}, RR[6] = {100, 100, 10, 1.5, 1, 1e4}, HR[5] = {1e7, 1e7, 1e3, 5, 1}, BO[4] = {1.01, 1.01, 1.5, 1}, FB[4] = {1, 0.3, 1e-5, 1e5};
        if (!r.coin(1, 4)) { tr.M_lambda_min = LM[r.range(0, 4)]; tr.M_lambda_max = LX[r.range(0, 3)]; tr.M_lambda_max_rel = RR[r.range(0, 5)]; tr.H_lambda_max_rel = HR[r.range(0, 4)]; tr.alpha_boost = BO[r.range(0, 3)]; tr.isotropic_fallback = FB[r.range(0, 3)]; } tr.distrib_heuristics = r.coin(); tr.vertex_projection_strategy = r.range(0, 1); int need = std::max(1, tr.distrib_heuristics ? 2 * (s->order() - 1) : s->order() - 1); tr.max_quad_order = std::max(need, r.coin() ? 5 : r.range(-1, 6)); tr.verbosity = r.coin(1, 5); if (need == 1 && r.coin()) tr.max_quad_order = r.range(-2, 1);
        int mode = r.range(0, 4); double scale = r.coin() ? 1 : std::pow(10., r.range(-6, 6)); int rank = r.range(1, 3); L dir[3][3], wt[3]; for (int k = 0; k < 3; ++k) { for (L& x : dir[k]) x = r.sym(); wt[k] = k < rank ? r.sym() * scale : 0; } Poly lin(r, 1, 1); uint64_t salt = r.next(); int tagMode = r.range(0, 3); bool fixed = r.coin();
        m.desc("%s, %zu cells on %d processes, values %d (rank %d, scale %g), tag %d, lambda %g..%g rel %g, H rel %g, boost %g, fallback %g, %s, strategy %d, order %d", s->str().c_str(), S.g.T.size(), np, mode, rank, scale, tagMode, tr.M_lambda_min, tr.M_lambda_max, tr.M_lambda_max_rel, tr.H_lambda_max_rel, tr.alpha_boost, tr.isotropic_fallback, tr.distrib_heuristics ? "distributed" : "raw", tr.vertex_projection_strategy, tr.max_quad_order); m.distinct(m.cur_desc); if (cs < 3) m.sample(m.cur_desc); m.key("metrics");
        std::vector<CH> H(S.g.T.size()); std::vector<std::map<long, std::array<double, 6>>> got(np); orc::Functional fun; std::string out; std::mutex fm;
        im::parallel(S.w, [&](int k) { Mesh& M = *S.M[k]; M.AssignGlobalID(15); auto CV = cellViews(M, S.g, true); Tag t = createFemVarTag(&M, *F.dofMap().m_invoker, "u", fixed);
            for (auto& cv : CV) { Tet tt = tetOf(M, cv); for (int j = 0; j < int(c.loc.size()); ++j) { Pos p = place(cv, c.loc[j]); int at = int(posOf(c, c.loc[j], p)); double v = 0; uint64_t h = (salt ^ (uint64_t(M.el(p.h).key) * 0x9E3779B97F4A7C15ull)) + uint64_t(HandleNum(p.h) * 64 + at) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31; h *= 0x94D049BB133111EBull; h ^= h >> 29;
                    double u = double(h >> 11) / double(1ull << 53) * 2 - 1; if (mode == 0) v = u * scale; else if (mode == 1) v = (h & 3) ? 0 : u * scale; else if (mode == 2) v = 0; else { std::lock_guard<std::mutex> g(fm); orc::Fn f = [&](const L* l, L* o) { L y[3]; tt.point(l, y); o[0] = lin.val(y, 0) * scale; for (int q = 0; q < 3; ++q) { L z = 0; for (int a = 0; a < 3; ++a) z += dir[q][a] * y[a]; o[0] += wt[q] * z * z; } }; v = double(p.sign * fun.apply(*s, tt, j, f, 1, 0, 4)); if (mode == 4) v *= 1 + 0.2 * u; } Element(&M, p.h).RealArray(t)[at] = v; } }
            for (auto& cv : CV) if (S.own[cv.key] == k) H[cv.key] = cellH(*s, tetOf(M, cv), local(M, cv, c, t), tr);
            std::vector<double> before; auto dump = [&] { std::vector<double> v; for (int d = 0; d < 4; ++d) if (t.isDefined(1u << d)) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) for (double x : Element(&M, ComposeHandle(d, l)).RealArray(t)) v.push_back(x); return v; }; before = dump();
            Tag mt = tagMode == 0 ? M.CreateTag("metric", DATA_REAL, INMOST::NODE, NONE, 6) : tagMode == 1 ? M.CreateTag("metric", DATA_REAL, INMOST::NODE, NONE, 8) : tagMode == 2 ? M.CreateTag("metric", DATA_REAL, INMOST::NODE | INMOST::CELL, NONE, ENUMUNDEF) : M.CreateTag("metric", DATA_REAL, INMOST::CELL, NONE, 6); if (tagMode == 1) for (int l = 0; l < int(M.e[0].size()); ++l) if (M.e[0][l].alive) for (double& x : Element(&M, ComposeHandle(0, l)).RealArray(mt)) x = 4321; size_t nt = M.tags.size();
            { std::ostringstream o; if (tr.verbosity && np == 1) { auto* old = std::cout.rdbuf(o.rdbuf()); try { construct_metrics(F, t, mt, tr); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); out = o.str(); } else construct_metrics(F, t, mt, tr); }
            CK(before == dump(), "metrics:arguments", "the values of the function were changed"); CK(M.tags.size() == nt && mt.isValid() && mt.GetTagName() == "metric" && mt.isDefined(INMOST::NODE), "metrics:tags", "tags"); for (int l = 0; l < int(M.e[0].size()); ++l) if (M.e[0][l].alive) { auto a = Element(&M, ComposeHandle(0, l)).RealArray(mt); if (!CK(a.size() >= 6, "metrics:size", "%zu values on a node", size_t(a.size()))) return; std::array<double, 6> v; std::copy(a.begin(), a.begin() + 6, v.begin()); got[k][M.e[0][l].key] = v; if (tagMode == 1) CK(a[6] == 4321 && a[7] == 4321, "metrics:size", "values after the six were changed"); } });
        std::map<long, std::vector<CH>> patch; for (size_t i = 0; i < S.g.T.size(); ++i) for (long v : S.g.T[i]) patch[v].push_back(H[i]); long dg = 0; bool amb = false; for (auto& h : H) dg += h.deg, amb |= h.amb;
        for (auto& q : patch) { NM w = nodeM(q.second, tr, np); m.eval(); bool shown = false; m.obs(w.skip ? "nodes at a threshold" : "nodes compared"); if (!w.skip) m.obs(std::string("nodes:") + w.how); const std::array<double, 6>* first = nullptr;
            for (int k = 0; k < np; ++k) { auto it = got[k].find(q.first); if (it == got[k].end()) continue; auto& g = it->second; if (!first) first = &g; else m.check(*first == g, "metrics:ghosts", "node %ld: processes hold different metrics", q.first); S3 M; static const int I[6] = {0, 1, 2, 0, 1, 0}, J[6] = {0, 1, 2, 1, 2, 2}; bool fin = true; for (int i = 0; i < 6; ++i) { M.a[I[i]][J[i]] = M.a[J[i]][I[i]] = g[i]; fin &= std::isfinite(g[i]); } if (!m.check(fin, "metrics:finite", "node %ld: not finite", q.first)) continue;
                Ev e = eig(M); L R = std::max(tr.M_lambda_max_rel, 1.), ep = 4e-15L * e.v[2]; m.check(e.v[0] >= tr.M_lambda_min * (1 - 1e-12L) - ep, "metrics:bounds", "node %ld: eigenvalue %Lg below %g", q.first, e.v[0], tr.M_lambda_min); m.check(e.v[2] <= tr.M_lambda_max * (1 + 1e-12L), "metrics:bounds", "node %ld: eigenvalue %Lg above %g", q.first, e.v[2], tr.M_lambda_max); m.check(e.v[2] <= R * (e.v[0] + ep) * (1 + 2e-10L), "metrics:bounds", "node %ld: anisotropy %Lg above %Lg", q.first, e.v[2] / e.v[0], R);
                if (!w.skip && !shown) for (int i = 0; i < 6; ++i) if (!m.close(g[i], double(w.M.a[I[i]][J[i]]), double(w.tol), std::string("metrics:value:") + w.how, "node, component", q.first, i)) { shown = true; break; } } }
        if (out.size() && !amb) { long n[3] = {-1, -1, -1}; const char* K[3] = {"cells=", "nodes=", "degenerate_|H|="}; for (int i = 0; i < 3; ++i) { size_t at = out.find(K[i]); if (at != std::string::npos) n[i] = std::atol(out.c_str() + at + std::strlen(K[i])); } m.check(n[0] == long(S.g.T.size()) && n[1] == long(patch.size()) && n[2] == dg, "metrics:statistics", "cells %ld nodes %ld degenerate %ld instead of %zu %zu %ld", n[0], n[1], n[2], S.g.T.size(), patch.size(), dg); }
        m.obs(fmt("processes=%d", np)); m.obs("degenerate cells", dg); OBS_OMP });
}
SECTION(arguments) {
    run_cases(m, m.cases(40, 200), [&](long cs, Rng& r) { Glob S(r, 1, 3); Mesh& M = *S.M[0]; M.AssignGlobalID(15); INMOST::Here::get() = {&S.w, 0}; SP s = orc::unit(orc::P2); Ani::FemSpace F = lib::makeRaw(*s), V3 = lib::makeRaw(*orc::vec(r.range(2, 3), s)); Tag t = createFemVarTag(&M, *F.dofMap().m_invoker, "u"), t3 = createFemVarTag(&M, *V3.dofMap().m_invoker, "v"), mt = M.CreateTag("metric", DATA_REAL, INMOST::NODE, NONE, 6), ms = M.CreateTag("small", DATA_REAL, INMOST::NODE, NONE, r.range(1, 5)), bad; m.desc("wrong arguments"); m.distinct(uint64_t(cs)); m.eval(); m.key("arguments");
        auto none = [&](const char* what, Ani::FemSpace f, Tag a, Tag b, Tr tr) { bool threw = false; try { construct_metrics(f, a, b, tr); } catch (std::exception&) { threw = true; } m.check(threw, "arguments", "%s: accepted", what); }; none("no function", F, bad, mt, Tr()); none("no metrics", F, t, bad, Tr()); none("vector function", V3, t3, mt, Tr()); Tr q; q.vertex_projection_strategy = r.coin() ? 2 : -1; none("unknown strategy", F, t, mt, q); { bool threw = false; try { construct_metrics(F, t, ms, Tr()); } catch (std::exception&) { threw = true; } m.check(threw || (ms.isValid() && ms.isDefined(INMOST::NODE) && ms.GetSize() >= 6), "arguments", "a tag of less than six values was accepted"); } for (int l = 0; l < int(M.e[0].size()); ++l) if (M.e[0][l].alive) for (double x : Element(&M, ComposeHandle(0, l)).RealArray(mt)) m.check(x == 0, "arguments", "metrics were changed"); });
}
