// N04 (cells): connectivity, order and orientation of the entities of a cell, values gathered from tags, conformity of finite element functions, renumbering of stored data
#include "nasm.h"
static std::string hs(const HandleType* a, int n) { std::string s; for (int i = 0; i < n; ++i) s += std::to_string(HandleID(a[i])) + " "; return s; }
// nodes, edges and faces of a cell in the documented order
SECTION(connect) {
    run_cases(m, m.cases(250, 4000), [&](long, Rng& r) {
        Scene S(r, 1, 12); Mesh& M = *S.M[0]; M.AssignGlobalID(15); m.desc("%zu cells", S.g.T.size()); m.distinct(fmt("%zu %016llx", S.g.T.size(), (unsigned long long)r.next())); m.sample(m.cur_desc);
        for (int l = 0; l < int(M.e[3].size()); ++l) if (M.e[3][l].alive) for (int mode = 0; mode < 2; ++mode) { bool re = mode; CellV c = cellView(M, l, S.g, re, [&](HandleType h) { return M.el(h).gid; }); INMOST::Cell cell(&M, c.h); m.eval();
            auto chk = [&](const char* how, const HandleType* n, const HandleType* e, const HandleType* f) { std::string k = how; m.key(k); bool ok = m.check(std::equal(n, n + 4, c.nd), k + ":nodes", "nodes %sinstead of %s", hs(n, 4).c_str(), hs(c.nd, 4).c_str()); if (!e || !ok) return; m.check(std::equal(e, e + 6, c.ed), k + ":edges", "edges %sinstead of %s", hs(e, 6).c_str(), hs(c.ed, 6).c_str()); m.check(std::equal(f, f + 4, c.fc), k + ":faces", "faces %sinstead of %s", hs(f, 4).c_str(), hs(c.fc, 4).c_str()); };
            { HandleType n[4], e[6], f[4]; collectConnectivityInfo(cell, n, e, f, re, true); chk("handles", n, e, f); HandleType n2[4]; collectConnectivityInfo(cell, n2, (HandleType*)nullptr, (HandleType*)nullptr, re, false); chk("handles", n2, nullptr, nullptr); }
            { INMOST::ElementArray<INMOST::Node> n(&M, 4); INMOST::ElementArray<INMOST::Edge> e(&M, 6); INMOST::ElementArray<INMOST::Face> f(&M, 4); collectConnectivityInfo(cell, n, e, f, re, true); chk("arrays", n.data(), e.data(), f.data()); }
            { INMOST::Node n[4]; INMOST::Edge e[6]; INMOST::Face f[4]; collectConnectivityInfo(cell, n, e, f, re, true); HandleType hn[4], he[6], hf[4]; for (int i = 0; i < 4; ++i) hn[i] = n[i].GetHandle(), hf[i] = f[i].GetHandle(); for (int i = 0; i < 6; ++i) he[i] = e[i].GetHandle(); chk("elements", hn, he, hf); }
            { INMOST::ElementArray<INMOST::Node> n(&M, 4); for (int i = 0; i < 4; ++i) n.data()[i] = M.e[3][l].high[i]; CellV cc = cellView(M, l, S.g, true, [&](HandleType h) { return M.el(h).gid; }); reorderNodesOnTetrahedron(n); m.check(std::equal(cc.nd, cc.nd + 4, n.data()), "reorder:nodes", "nodes %s", hs(n.data(), 4).c_str()); } } });
}
// order of four numbers and orientation of entities: all orders
SECTION(order) {
    run_cases(m, 24, [&](long c, Rng& r) { std::array<int, 4> p{0, 1, 2, 3}; for (long i = 0; i < c; ++i) std::next_permutation(p.begin(), p.end()); m.desc("order %d%d%d%d", p[0], p[1], p[2], p[3]); m.distinct(uint64_t(c));
        for (int rep = 0; rep < 20; ++rep) { std::vector<long> v; while (v.size() < 4) { long x = rep < 10 ? r.range(0, 9) : long(r.next() >> 2) - (1L << 61); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); } std::sort(v.begin(), v.end()); long g[4]; int gi[4]; for (int i = 0; i < 4; ++i) { g[i] = v[p[i]]; gi[i] = 10 * p[i] - 7; } auto q = createOrderPermutation(g); auto q2 = createOrderPermutation(gi); m.eval(); bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && q[i] == p[i] && q2[i] == p[i]; m.check(ok, "permutation", "%d%d%d%d", q[0], q[1], q[2], q[3]); }
        unsigned char u[4]; for (int i = 0; i < 4; ++i) u[i] = (unsigned char)p[i];
        for (int e = 0; e < 6; ++e) for (int et : {int(DofT::EDGE_ORIENT), int(DofT::EDGE_UNORIENT)}) m.check(isPositivePermutationOrient(et, e, u) == (orient(2, e, p.data()) > 0), "orientation:edge", "edge %d", e);
        for (int f = 0; f < 4; ++f) for (int et : {int(DofT::FACE_ORIENT), int(DofT::FACE_UNORIENT)}) m.check(isPositivePermutationOrient(et, f, u) == (orient(4, f, p.data()) > 0), "orientation:face", "face %d", f); for (int n = 0; n < 4; ++n) m.check(isPositivePermutationOrient(DofT::NODE, n, u), "orientation:node", "node %d", n); });
}
// values of the degrees of freedom of a cell
SECTION(gather) {
    run_cases(m, m.cases(300, 5000), [&](long cs, Rng& r) {
        Scene S(r, 1, 6); Mesh& M = *S.M[0]; M.AssignGlobalID(15); Vars c = randVars(r, 160); FemVarContainer F; push(F, c, r); m.desc("%zu cells, %s", S.g.T.size(), c.str().c_str()); m.distinct(c.str()); if (cs < 3) m.sample(m.cur_desc); Tag A; std::vector<Tag> E; std::map<std::tuple<HandleType, int>, double> val; data(m, M, c, r, A, E, val);
        for (auto& cv : cellViews(M, S.g, true)) { m.eval(); INMOST::Cell cell(&M, cv.h); INMOST::ElementArray<INMOST::Node> n(&M, 4); INMOST::ElementArray<INMOST::Edge> e(&M, 6); INMOST::ElementArray<INMOST::Face> f(&M, 4); collectConnectivityInfo(cell, n, e, f, true, true); unsigned char lab[4]; for (int i = 0; i < 4; ++i) lab[i] = (unsigned char)cv.lab[i];
            std::vector<double> want; for (auto& d : c.loc) { Pos p = place(cv, d); want.push_back(p.sign * val.at({p.h, int(c.at.at({d.var, d.num, int(p.c)})[0])})); }
            auto cmp = [&](const char* how, const std::vector<double>& got, size_t b, size_t z) { for (size_t i = 0; i < z; ++i) if (!m.check(got[i] == want[b + i], how, "%s: degree of freedom %zu of variable %d (kind %d on entity %d, group %d index %d): %g instead of %g", how, b + i, c.loc[b + i].var, c.loc[b + i].num, c.loc[b + i].nelem, c.loc[b + i].stype, c.loc[b + i].lsid, got[i], want[b + i])) break; };
            std::vector<double> g(c.n(), 99); GatherDataOnElement(A, F, cell, f, e, n, lab, g.begin(), nullptr, 0); cmp("gather:all", g, 0, c.n());
            std::fill(g.begin(), g.end(), 99); GatherDataOnElement(E.data(), E.size(), F, cell, f, e, n, lab, g.begin(), nullptr, 0); cmp("gather:each", g, 0, c.n());
            for (size_t q = 0; q < c.v.size(); ++q) { int comp[1] = {int(q)}; size_t z = c.beg[q + 1] - c.beg[q]; std::vector<double> o(z, 99); m.key("gather:component"); GatherDataOnElement(A, F, cell, f, e, n, lab, o.data(), comp, 1); cmp("gather:component", o, c.beg[q], z); std::fill(o.begin(), o.end(), 99); m.key("gather:each-component"); std::unique_ptr<double[]> w(new double[z]); std::fill(w.get(), w.get() + z, 99.); GatherDataOnElement(E.data(), E.size(), F, cell, f, e, n, lab, w.get(), comp, 1); cmp("gather:each-component", std::vector<double>(w.get(), w.get() + z), c.beg[q], z);
                if (c.v[q].mod->nchild() > 0) { int j = r.range(0, c.v[q].mod->nchild() - 1); int cc[2] = {int(q), j}; std::vector<size_t> idx; auto L = c.v[q].mod->list(); for (size_t i = 0; i < L.size(); ++i) if (int(L[i].part) == j) idx.push_back(i); if (!idx.empty()) { bool contig = idx.back() - idx.front() + 1 == idx.size(); if (contig) { for (int tags = 0; tags < 2; ++tags) { std::unique_ptr<double[]> o2(new double[idx.size()]); std::fill(o2.get(), o2.get() + idx.size(), 99.); m.key(tags ? "gather:each-nested" : "gather:nested"); if (tags) GatherDataOnElement(E.data(), E.size(), F, cell, f, e, n, lab, o2.get(), cc, 2); else GatherDataOnElement(A, F, cell, f, e, n, lab, o2.get(), cc, 2); cmp(tags ? "gather:each-nested" : "gather:nested", std::vector<double>(o2.get(), o2.get() + idx.size()), c.beg[q] + idx[0], idx.size()); } } } } }
            m.key("locus"); for (size_t q = 0; q < c.v.size(); ++q) { DofMap dm(make(*c.v[q].mod, r)); size_t i = c.beg[q]; for (auto it = dm.begin(); it != dm.end(); ++it, ++i) { auto lo = *it; Pos p = place(cv, c.loc[i]); auto L = getDOFLocus(*dm.m_invoker, lo, cell, f, e, n, lab); unsigned pos = c.at.at({int(q), c.loc[i].num, int(p.c)})[1]; bool ok = L.elem.GetHandle() == p.h && L.sign == p.sign && L.elem_data_index == pos; if (!m.check(ok, "locus", "degree of freedom %zu of variable %zu: entity %d, index %u, sign %d instead of %d, %u, %d", i - c.beg[q], q, HandleID(L.elem.GetHandle()), L.elem_data_index, L.sign, HandleID(p.h), pos, p.sign)) break;
                m.check(takeElementDOF(E[q], *dm.m_invoker, lo, cell, f, e, n, lab) == want[i], "take", "degree of freedom %zu", i); auto t = takeElementDOFifAvailable(E[q], *dm.m_invoker, lo, cell, f, e, n, lab); m.check(t.second && t.first == want[i], "take", "degree of freedom %zu if available", i); } }
            m.obs("gathered_values", long(2 * c.n())); } });
}
// a vector of unknowns is one function: its traces on a common face agree
SECTION(conform) {
    static const int FM[7] = {orc::P1, orc::P2, orc::P3, orc::CR1, orc::RT0, orc::ND0, orc::P0}; static const int PS[7] = {1, 2, 3, 6, 5, 4, 0};
    run_cases(m, m.cases(300, 5000), [&](long cs, Rng& r) {
        int k = int(cs % 6); Scene S(r, 1, 9); Mesh& M = *S.M[0]; M.AssignGlobalID(15); Vars c; V x; x.mod = mkSym(predefined_sym(PS[k])); c.v.push_back(x); c.finish(); FemVarContainer F; push(F, c, r); m.desc("%s, %zu cells", orc::famName(FM[k]), S.g.T.size()); m.distinct(fmt("%d %ld", k, cs)); Tag A; std::vector<Tag> E; std::map<std::tuple<HandleType, int>, double> val; data(m, M, c, r, A, E, val);
        struct Side { orc::Tet t; std::vector<double> u; std::array<long, 4> key; }; std::vector<Side> sd; std::map<HandleType, std::vector<std::pair<int, int>>> by;
        for (auto& cv : cellViews(M, S.g, true)) { INMOST::Cell cell(&M, cv.h); INMOST::ElementArray<INMOST::Node> n(&M, 4); INMOST::ElementArray<INMOST::Edge> e(&M, 6); INMOST::ElementArray<INMOST::Face> f(&M, 4); collectConnectivityInfo(cell, n, e, f, true, true); long gn[4]; for (int i = 0; i < 4; ++i) gn[i] = M.el(n.data()[i]).gid; auto lab = createOrderPermutation(gn); Side s; s.u.resize(c.n()); GatherDataOnElement(A, F, cell, f, e, n, lab.data(), s.u.begin(), nullptr, 0); for (int i = 0; i < 4; ++i) { s.key[i] = M.el(n.data()[i]).key; for (int a = 0; a < 3; ++a) s.t.x[i][a] = S.g.X[s.key[i]][a]; } s.t.init(); for (int i = 0; i < 4; ++i) by[f.data()[i]].push_back({int(sd.size()), i}); sd.push_back(s); }
        auto spp = orc::unit(FM[k]); auto& sp = *spp; long shared = 0;
        for (auto& q : by) if (q.second.size() == 2) { ++shared; m.eval(); for (int rep = 0; rep < 3; ++rep) { std::map<long, double> w; double sw = 0; auto& s0 = sd[q.second[0].first]; int f0 = q.second[0].second; for (int i = 0; i < 3; ++i) { double v = FM[k] == orc::CR1 ? 1 : r.uni(0.05, 1); w[s0.key[FN[f0][i]]] = v; sw += v; }
            orc::L out[2][3] = {}; orc::L scale = 0; for (int side = 0; side < 2; ++side) { auto& s = sd[q.second[side].first]; orc::L l[4]; for (int i = 0; i < 4; ++i) l[i] = w.count(s.key[i]) ? w[s.key[i]] / sw : 0; auto B = orc::opVals(orc::IDEN, sp, s.t, l); int d = sp.dim(); for (size_t i = 0; i < s.u.size(); ++i) for (int a = 0; a < d; ++a) { out[side][a] += s.u[i] * B[i * d + a]; scale = std::max(scale, fabsl(B[i * d + a])); } }
            std::string key = fmt("conform:%s", orc::famName(FM[k])); orc::L tol = 1e-11L * (scale + 1);
            if (sp.dim() == 1) m.check(fabsl(out[0][0] - out[1][0]) <= tol, key, "values %Lg and %Lg", out[0][0], out[1][0]);
            else { orc::L n[3]; s0.t.normal(f0, n); orc::L nn = 0, dn = 0, df[3]; for (int a = 0; a < 3; ++a) { df[a] = out[0][a] - out[1][a]; nn += n[a] * n[a]; dn += n[a] * df[a]; } if (FM[k] == orc::RT0) m.check(fabsl(dn) <= tol * sqrtl(nn) * 10, key, "jump of the normal component %Lg", dn / sqrtl(nn)); else { orc::L tj = 0; for (int a = 0; a < 3; ++a) { orc::L v = df[a] - dn / nn * n[a]; tj += v * v; } m.check(sqrtl(tj) <= tol * 10, key, "jump of the tangential component %Lg", sqrtl(tj)); } } } }
        m.obs("common_faces", shared); });
}
// values stored on the entities follow a change of the numbers of the nodes
SECTION(reorder) {
    run_cases(m, m.cases(400, 6000), [&](long cs, Rng& r) {
        Scene S(r, 1, 6); Mesh& M = *S.M[0]; M.AssignGlobalID(15); Vars c; V x; do { x.mod = symNode(r, r.range(0, 2)); } while (x.mod->total() == 0 || x.mod->total() > 160); c.v.push_back(x); c.finish(); DofMap dm(make(*x.mod, r));
        int how = int(cs % 4); bool ones = how >= 2; bool variable = r.coin(); size_t bs = ones ? 1 : size_t(r.range(1, 3)); std::array<size_t, 4> sh{}; if (!ones && r.coin()) for (auto& s : sh) s = size_t(r.range(0, 4)); bool compressed = !ones && variable && r.coin();
        m.desc("%s, %zu cells, block %zu, shifts %zu %zu %zu %zu, %s size%s", c.str().c_str(), S.g.T.size(), bs, sh[0], sh[1], sh[2], sh[3], variable ? "variable" : "fixed", compressed ? ", compressed" : ""); m.distinct(c.str() + std::to_string(how)); if (cs < 3) m.sample(m.cur_desc); m.key(how == 0 ? "reorder:data" : how == 1 ? "reorder:several" : how == 2 ? "reorder:vars" : "reorder:vars-id");
        size_t N = M.e[0].size(); std::vector<int> a(N), b(N); std::set<int> ua, ub; for (size_t i = 0; i < N; ++i) { do a[i] = r.range(-5, int(3 * N)); while (!ua.insert(a[i]).second); do b[i] = r.range(-5, int(3 * N)); while (!ub.insert(b[i]).second); } Tag to = M.CreateTag("old", INMOST::DATA_INTEGER, INMOST::NODE, NONE, 1), tn = M.CreateTag("new", INMOST::DATA_INTEGER, INMOST::NODE, NONE, 1);
        for (size_t l = 0; l < N; ++l) if (M.e[0][l].alive) { Element nd(&M, ComposeHandle(0, int(l))); if (how == 3) b[l] = int(M.el(nd.GetHandle()).gid); nd.Integer(to) = a[l]; nd.Integer(tn) = b[l]; }
        size_t mx = 1; for (int d = 0; d < 4; ++d) mx = std::max(mx, sh[d] + bs * c.on[d].size() + size_t(r.range(0, 2))); std::vector<Tag> T; int nt = how == 1 ? 2 : 1; for (int i = 0; i < nt; ++i) T.push_back(variable ? M.CreateTag("t" + std::to_string(i), DATA_REAL, 15, NONE) : M.CreateTag("t" + std::to_string(i), DATA_REAL, 15, NONE, unsigned(mx)));
        std::map<std::pair<HandleType, int>, std::vector<double>> was;
        for (int d = 0; d < 4; ++d) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) for (int t = 0; t < nt; ++t) { HandleType h = ComposeHandle(d, l); auto A = Element(&M, h).RealArray(T[t]); if (variable) { size_t z = sh[d] + bs * c.on[d].size(); if (compressed && r.coin(1, 3)) z = sh[d] + bs; A.resize(unsigned(z)); } std::vector<double> v(A.size()); for (size_t i = 0; i < v.size(); ++i) A[i] = v[i] = r.sym(); was[{h, t}] = v; }
        if (how <= 1) reorder_mesh_function_data(T, *dm.m_invoker, to, tn, bs, sh, compressed); else if (how == 2) reorder_fem_vars_data(T, *dm.m_invoker, to, tn); else reorder_fem_vars_data(T, *dm.m_invoker, to);
        long moved = 0, turned = 0, kept = 0; m.eval();
        for (auto& q : was) { int d = HandleNum(q.first.first); auto want = q.second; auto A = Element(&M, q.first.first).RealArray(T[q.first.second]);
            if (!(compressed && want.size() < sh[d] + 2 * bs)) { auto n = Element(&M, q.first.first).getNodes(); std::vector<int> ix; for (size_t i = 0; i < n.size(); ++i) ix.push_back(HandleID(n[i].GetHandle())); std::sort(ix.begin(), ix.end(), [&](int p, int w) { return b[p] < b[w]; }); int lab[4] = {9, 9, 9, 9}; for (size_t i = 0; i < ix.size(); ++i) { lab[i] = 0; for (int w : ix) lab[i] += a[w] < a[ix[i]]; }
                for (auto& L : c.loc) if (DIMOF[L.num] == d && L.nelem == 0) { unsigned to_ = c.at.at({0, L.num, int(L.leid)})[1], from = c.at.at({0, L.num, int(L.leid) - L.lsid + canonCached(L.num, 0, L.stype, L.lsid, lab)})[1]; int s = orient(L.num, 0, lab); if (to_ != from) ++moved; if (s < 0) ++turned; for (size_t k = 0; k < bs; ++k) want[sh[d] + bs * to_ + k] = s * q.second[sh[d] + bs * from + k]; } } else ++kept;
            bool ok = A.size() == want.size(); for (size_t i = 0; ok && i < want.size(); ++i) if (A[i] != want[i]) { ok = false; m.check(false, "reorder", "entity of dimension %d: value %zu is %g instead of %g", d, i, A[i], want[i]); } m.check(ok, "reorder", "size"); }
        m.obs("moved", moved); m.obs("turned", turned); m.obs("kept", kept); });
}
// values which are not stored are left alone
SECTION(available) {
    run_cases(m, m.cases(200, 3000), [&](long cs, Rng& r) {
        Scene S(r, 1, 5); Mesh& M = *S.M[0]; M.AssignGlobalID(15); Vars c = randVars(r, 160); FemVarContainer F; push(F, c, r); m.desc("%zu cells, %s", S.g.T.size(), c.str().c_str()); m.distinct(c.str()); if (cs < 3) m.sample(m.cur_desc);
        Tag A = M.CreateTag("all", DATA_REAL, 15, r.coin() ? NONE : 15u); std::vector<Tag> E; for (size_t q = 0; q < c.v.size(); ++q) E.push_back(M.CreateTag("one" + std::to_string(q), DATA_REAL, 15, r.coin() ? NONE : 15u)); std::map<std::tuple<HandleType, int, int>, double> val;   // (entity, tag, index)
        for (int d = 0; d < 4; ++d) for (int l = 0; l < int(M.e[d].size()); ++l) if (M.e[d][l].alive) { HandleType h = ComposeHandle(d, l); for (int t = -1; t < int(E.size()); ++t) { size_t z = 0; for (auto& q : c.on[d]) z += t < 0 || q.var == t; if (r.coin(1, 4)) continue; if (r.coin(1, 3)) z = size_t(r.range(0, int(z))); Tag T = t < 0 ? A : E[t]; auto a = Element(&M, h).RealArray(T); a.resize(unsigned(z)); for (size_t i = 0; i < z; ++i) val[std::make_tuple(h, t, int(i))] = a[i] = r.sym(); } }
        long have = 0, lack = 0;
        for (auto& cv : cellViews(M, S.g, true)) { m.eval(); INMOST::Cell cell(&M, cv.h); INMOST::ElementArray<INMOST::Node> n(&M, 4); INMOST::ElementArray<INMOST::Edge> e(&M, 6); INMOST::ElementArray<INMOST::Face> f(&M, 4); collectConnectivityInfo(cell, n, e, f, true, true); unsigned char lab[4]; for (int i = 0; i < 4; ++i) lab[i] = (unsigned char)cv.lab[i];
            std::vector<double> w1, w2; for (auto& d : c.loc) { Pos p = place(cv, d); auto at = c.at.at({d.var, d.num, int(p.c)}); auto i1 = val.find(std::make_tuple(p.h, -1, int(at[0]))), i2 = val.find(std::make_tuple(p.h, d.var, int(at[1]))); w1.push_back(i1 == val.end() ? 99 : p.sign * i1->second); w2.push_back(i2 == val.end() ? 99 : p.sign * i2->second); ++(i1 == val.end() ? lack : have); }
            std::vector<double> g(c.n(), 99); m.key("available:all"); GatherDataOnElement<true>(A, F, cell, f, e, n, lab, g.begin(), nullptr, 0); for (size_t i = 0; i < c.n(); ++i) if (!m.check(g[i] == w1[i], "available:all", "value %zu: %g instead of %g", i, g[i], w1[i])) break;
            std::fill(g.begin(), g.end(), 99); m.key("available:each"); GatherDataOnElement<true>(E.data(), E.size(), F, cell, f, e, n, lab, g.begin(), nullptr, 0); for (size_t i = 0; i < c.n(); ++i) if (!m.check(g[i] == w2[i], "available:each", "value %zu: %g instead of %g", i, g[i], w2[i])) break;
            int q = r.range(0, int(c.v.size()) - 1), comp[1] = {q}; size_t z = c.beg[q + 1] - c.beg[q]; std::vector<double> o(z, 99); m.key("available:component"); GatherDataOnElement<true>(A, F, cell, f, e, n, lab, o.begin(), comp, 1); bool ok = std::equal(o.begin(), o.end(), w1.begin() + long(c.beg[q])); std::fill(o.begin(), o.end(), 99); GatherDataOnElement<true>(E.data(), E.size(), F, cell, f, e, n, lab, o.begin(), comp, 1); m.check(ok && std::equal(o.begin(), o.end(), w2.begin() + long(c.beg[q])), "available:component", "variable %d", q); }
        m.obs("stored", have); m.obs("missing", lack); });
}
