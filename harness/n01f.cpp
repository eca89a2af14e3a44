// N05 (local functions): the wrappers of elemental functions deliver exactly the arguments, buffers, sparsity and memory they were declared with.
#include "mon.h"
#include <iostream>
#include "anifem++/inmost_interface/func_wrap.h"
using namespace Ani; using mon::Rng;
using Int = long; using Sp = MatSparsity<Int>; using SpV = MatSparsityView<Int>;
struct Pat { Int n, m; bool dense; std::vector<std::pair<Int, Int>> at; std::vector<Int> col, row; };   // positions in column-major order
static Pat randPat(Rng& r) { Pat p; p.n = r.range(1, 9); p.m = r.coin(1, 4) ? 1 : r.range(1, 9); p.dense = r.coin(1, 3); int den = r.range(0, 6); p.col.push_back(0);
    for (Int j = 0; j < p.m; ++j) { for (Int i = 0; i < p.n; ++i) if (p.dense || (den == 6 ? true : r.coin(den, 6))) { p.at.push_back({i, j}); p.row.push_back(i); } p.col.push_back(Int(p.row.size())); } return p; }
static Sp make(const Pat& p) { return p.dense ? Sp::make_as_dense(p.n, p.m) : Sp::make_as_sparse(Int(p.row.size()), p.n, p.m, p.col, p.row); }
static SpV view(const Pat& p) { return p.dense ? SpV::make_as_dense(p.n, p.m) : SpV::make_as_sparse(Int(p.row.size()), p.n, p.m, p.col.data(), p.row.data()); }
SECTION(sparsity) {
    run_cases(m, m.cases(4000, 60000), [&](long, Rng& r) {
        Pat p = randPat(r); size_t nnz = p.at.size(), N = size_t(p.n * p.m); m.desc("%ld x %ld %s pattern with %zu entries", p.n, p.m, p.dense ? "dense" : "sparse", nnz); m.eval(); m.distinct(mon::fmt("%ld %ld %zu %llx", p.n, p.m, nnz, (unsigned long long)std::hash<std::string>()(std::string((char*)p.row.data(), p.row.size() * sizeof(Int)))));
        std::vector<double> v(nnz); for (auto& x : v) x = r.sym(); double fill = r.coin() ? 0. : r.sym(); std::vector<double> want(N, fill), mask(N, 0); for (size_t q = 0; q < nnz; ++q) { want[p.at[q].second * p.n + p.at[q].first] = v[q]; mask[p.at[q].second * p.n + p.at[q].first] = 1; }
        auto run = [&](auto sp, const char* w) { std::string k = w; m.key(w);
            m.check(sp.m_nnz == Int(nnz) && sp.m_sz1 == p.n && sp.m_sz2 == p.m, k + ":sizes", "%ld entries of %ld x %ld", sp.m_nnz, sp.m_sz1, sp.m_sz2);
            { std::unique_ptr<double[]> a(new double[nnz]), b(new double[N]); std::copy(v.begin(), v.end(), a.get()); sp.template densify<double>(a.get(), b.get(), fill); m.check(std::equal(want.begin(), want.end(), b.get()), k + ":densify", "wrong dense matrix");
              std::unique_ptr<double[]> c(new double[nnz]); sp.template sparsify<double>(b.get(), c.get()); m.check(std::equal(v.begin(), v.end(), c.get()), k + ":sparsify", "wrong sparse values"); }
            { std::unique_ptr<double[]> b(new double[N]); std::fill(b.get(), b.get() + N, 77.); std::copy(v.begin(), v.end(), b.get()); sp.template densify<double>(b.get()); bool ok = true; for (size_t q = 0; q < N; ++q) ok = ok && b[q] == (mask[q] ? want[q] : 0.); m.check(ok, k + ":densify-inplace", "wrong dense matrix in place");
              sp.template sparsify<double>(b.get()); m.check(std::equal(v.begin(), v.end(), b.get()), k + ":sparsify-inplace", "wrong sparse values in place"); }
            { std::unique_ptr<int[]> c(new int[p.m + 1]), w2(new int[nnz]); sp.template copyCSC<int>(c.get(), w2.get()); m.check(std::equal(p.col.begin(), p.col.end(), c.get()) && std::equal(p.row.begin(), p.row.end(), w2.get()), k + ":csc", "wrong column or row indices"); }
            { std::vector<bool> t(N, r.coin()); sp.fillTemplate(t.begin()); bool ok = true; for (size_t q = 0; q < N; ++q) ok = ok && t[q] == (mask[q] != 0); std::unique_ptr<char[]> t2(new char[N]); sp.template fillTemplate<char*, char>(t2.get()); for (size_t q = 0; q < N; ++q) ok = ok && t2[q] == char(mask[q]); m.check(ok, k + ":template", "wrong template"); } };
        run(make(p), "owning"); run(view(p), "view"); run(make(p).getView(), "view"); auto keep = make(p); SparsedData<double, Int> sd(keep.getView(), v.data()); std::unique_ptr<double[]> b(new double[N]); sd.densify(b.get(), fill); m.check(std::equal(want.begin(), want.end(), b.get()), "data:densify", "wrong dense matrix");
    });

}
using MB = MatFuncWrap<double, Int>; static int callMem(const MB& f, MB::Memory M) { return f(M); } template<ThreadPar::Type PT> static int callMem(const MatFuncWrapHolder<PT, double, Int>& f, MB::Memory M) { return f(M); }
// every way to move a function around keeps its declaration, its behaviour and its memory
template<ThreadPar::Type PT> static void wrapCase(Mon& m, Rng& r) {
    using F = MatFuncWrapDynamic<PT, double, Int>; using H = MatFuncWrapHolder<PT, double, Int>;
    std::vector<Pat> in, out; for (int k = r.range(0, 5); k--;) in.push_back(randPat(r)); for (int k = r.range(1, 3); k--;) out.push_back(randPat(r)); size_t nw = r.range(0, 20), niw = r.range(0, 20); bool ud = r.coin(), dm = r.coin(); double tag = r.sym();
    std::vector<Sp> sin, sout; for (auto& p : in) sin.push_back(make(p)); for (auto& p : out) sout.push_back(make(p)); int ret = r.coin(1, 4) ? -r.range(1, 9) : 0;
    struct Log { const double** a; double** res; double* w; Int* iw; void* u; bool mem; long calls = 0; }; auto L = std::make_shared<Log>();
    auto fn = [L, nw, niw, ret, tag, out](const double** a, double** res, double* w, Int* iw, void* u, DynMem<double, Int>* d) { L->a = a; L->res = res; L->w = w; L->iw = iw; L->u = u; L->mem = d != nullptr; ++L->calls; for (size_t i = 0; i < nw; ++i) w[i] = double(i); for (size_t i = 0; i < niw; ++i) iw[i] = Int(i); for (size_t k = 0; k < out.size(); ++k) for (size_t q = 0; q < out[k].at.size(); ++q) res[k][q] = tag + double(k) + 0.01 * double(q); if (d) { auto x = d->alloc(5 + nw, 3, 2); x.getPlainMemory(); } return ret; };
    m.desc("%zu inputs, %zu outputs, %zu reals, %zu integers, %s%s", in.size(), out.size(), nw, niw, ud ? "user data " : "", dm ? "own memory" : ""); m.eval(); m.distinct(mon::fmt("%zu %zu %zu %zu %d %d", in.size(), out.size(), nw, niw, ud, dm));
    auto probe = [&](auto& f, const char* how) { std::string k = how; m.key(how); size_t a = 9, b = 9, c = 9, d = 9; f.working_sizes(a, b, c, d);
        m.check(a == in.size() && b == out.size() && c == nw && d == niw && f.n_in() == in.size() && f.n_out() == out.size() && f.is_user_data_required() == ud && f.isValid() && bool(f), k + ":declaration", "%s: sizes %zu %zu %zu %zu instead of %zu %zu %zu %zu", how, a, b, c, d, in.size(), out.size(), nw, niw);
        if (a != in.size() || b != out.size() || c != nw || d != niw) return;
        auto sp = [&](const Pat& p, SpV v, Int nnz, Int s1, Int s2, const std::vector<Int>& col, const std::vector<Int>& row) { m.check(v.m_nnz == nnz && nnz == Int(p.at.size()) && s1 == p.n && s2 == p.m && v.m_sz1 == s1 && v.m_sz2 == s2 && col == p.col && row == p.row, k + ":pattern", "%s: pattern of %ld x %ld with %ld entries", how, s1, s2, nnz); };
        for (size_t i = 0; i < in.size(); ++i) { std::vector<Int> col(in[i].m + 1), row(in[i].at.size()); f.in_csc(i, col.data(), row.data()); sp(in[i], f.in_sparsity(i), f.in_nnz(i), f.in_size1(i), f.in_size2(i), col, row); }
        for (size_t i = 0; i < out.size(); ++i) { std::vector<Int> col(out[i].m + 1), row(out[i].at.size()); f.out_csc(i, col.data(), row.data()); sp(out[i], f.out_sparsity(i), f.out_nnz(i), f.out_size1(i), f.out_size2(i), col, row); }
        std::vector<const double*> args(a + 1); std::vector<std::unique_ptr<double[]>> buf; std::vector<double*> res; for (auto& p : out) { buf.emplace_back(new double[p.at.size()]); res.push_back(buf.back().get()); } std::unique_ptr<double[]> w(new double[nw]); std::unique_ptr<Int[]> iw(new Int[niw]); int u = 0; bool viaMem = r.coin();
        bool range = r.coin(); std::pair<Int, Int> rg; Int id = -1; int nt = r.range(1, 4); if (range) { rg = f.setup_and_alloc_memory_range(nt); m.check(rg.second - rg.first == nt, k + ":memory-range", "%s: [%ld,%ld) for %d threads", how, rg.first, rg.second, nt); id = rg.first + r.range(0, nt - 1); } else id = f.setup_and_alloc_memory();
        for (int rep = 0; rep < 3; ++rep) { long was = L->calls; typename MatFuncWrap<double, Int>::Memory M; M.m_iw = iw.get(); M.m_w = w.get(); M.m_args = args.data(); M.m_res = res.data(); M.user_data = &u; M.mem_id = id; int q = viaMem ? callMem(f, M) : f(args.data(), res.data(), w.get(), iw.get(), &u, id);
            m.check(q == ret && L->calls == was + 1 && L->a == args.data() && L->res == res.data() && L->w == w.get() && L->iw == iw.get() && L->u == &u && L->mem == (dm && id >= 0), k + ":call", "%s: returned %d instead of %d after %ld calls, memory %d", how, q, ret, L->calls - was, int(L->mem));
            bool ok = true; for (size_t i = 0; i < out.size(); ++i) for (size_t e = 0; e < out[i].at.size(); ++e) ok = ok && buf[i][e] == tag + double(i) + 0.01 * double(e); m.check(ok, k + ":values", "%s: wrong results", how); if (rep == 1) f.defragment_memory(id); }
        std::ostringstream o; f.print_signature(o); m.check(o.str().find("MatFuncWrap: (") == 0 && o.str().find(")->(") != std::string::npos && (o.str().find("user_data") != std::string::npos) == ud, k + ":signature", "%s: %s", how, o.str().c_str());
        if (range) f.release_memory_range(rg); else f.release_memory(id); if (r.coin()) f.release_all_memory(); if (r.coin()) f.clear_memory(); m.obs("calls", 3); };
    F f(fn, sin, sout, nw, niw, ud, dm); probe(f, "direct"); F g(f); probe(g, "copied"); F other([](const double**, double**, double*, Int*, void*, DynMem<double, Int>*) { return 1; }, {}, {Sp::make_as_dense(1, 1)}, 3, 5, !ud, !dm); other = f; probe(other, "assigned"); auto& self = other; other = self; probe(other, "assigned to itself"); F mv(std::move(g)); probe(mv, "moved"); F e; m.check(!e.isValid(), "empty", "an empty function is valid"); e = std::move(mv); probe(e, "move-assigned");
    H h{F(f)}; probe(h, "held"); H h2(h); probe(h2, "held copy"); H h3(std::make_shared<F>(f)); probe(h3, "held pointer"); H h4; m.check(!h4.isValid(), "empty", "an empty holder is valid"); h4 = h3; probe(h4, "held assigned"); h4 = std::make_shared<F>(f); probe(h4, "held assigned pointer"); H h5{F(fn, sin, sout, nw, niw, ud, dm)}; probe(h5, "held temporary"); H h6; h6 = F(f); probe(h6, "held assigned temporary"); H h7(std::move(h6)); probe(h7, "held moved"); m.sample(m.cur_desc);
}
SECTION(wrap) { run_cases(m, m.cases(400, 6000), [&](long c, Rng& r) { if (c % 2) wrapCase<ThreadPar::Type::STD>(m, r); else wrapCase<ThreadPar::Type::NONE>(m, r); }); }
// the generators of elemental functions of every signature
SECTION(generate) {
    using F = MatFuncWrapDynamic<>; using IO = F::IOData; using DM = DynMem<double, Int>;
    run_cases(m, m.cases(400, 6000), [&](long, Rng& r) {
        size_t n = r.range(1, 8), q = r.range(1, 8), nw = r.range(0, 9), niw = r.range(0, 9); m.desc("%zu rows, %zu columns, %zu reals, %zu integers", n, q, nw, niw); m.eval(); m.distinct(mon::fmt("%zu %zu %zu %zu", n, q, nw, niw)); double tag = r.sym(); bool cu = r.coin(), cd = r.coin(); int u = 0, calls = 0;
        auto mat = [&](const double** X, double* A) { ++calls; for (size_t i = 0; i < n * q; ++i) A[i] = tag + double(i) + X[0][0] + 2 * X[1][1] + 3 * X[2][2] + 4 * X[3][0]; }; auto rhs = [&](const double** X, double* R) { for (size_t i = 0; i < n; ++i) R[i] = -tag - double(i) + X[3][2]; };
        auto work = [&](double* w, Int* iw) { for (size_t i = 0; i < nw; ++i) w[i] = 1; for (size_t i = 0; i < niw; ++i) iw[i] = 1; }; void* gu = nullptr; DM* gd = nullptr;
        auto probe = [&](const F& f0, const char* how, int kind, bool ww, bool wu, bool wd) { F f(f0); std::string k = how; m.key(how); size_t a, b, c, d; f.working_sizes(a, b, c, d); size_t no = kind == 2 ? 2 : 1;
            m.check(a == 4 && b == no && f.n_in() == 4 && f.n_out() == no && c == (ww ? nw : 0) && d == (ww ? niw : 0) && f.is_user_data_required() == wu && f.m_dyn_mem_required == wd, k + ":declaration", "%s: sizes %zu %zu %zu %zu, user data %d, own memory %d", how, a, b, c, d, int(f.is_user_data_required()), int(f.m_dyn_mem_required));
            bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && f.in_size1(i) == 3 && f.in_size2(i) == 1 && f.in_nnz(i) == 3; if (kind != 1) ok = ok && f.out_size1(0) == Int(n) && f.out_size2(0) == Int(q) && f.out_nnz(0) == Int(n * q); if (kind != 0) { int o = kind == 2; ok = ok && f.out_size1(o) == Int(n) && f.out_size2(o) == 1 && f.out_nnz(o) == Int(n); } m.check(ok, k + ":pattern", "%s: wrong sizes of arguments", how); if (!ok) return;
            double X[4][3]; for (auto& x : X) for (auto& y : x) y = r.sym(); const double* args[4] = {X[0], X[1], X[2], X[3]}; std::unique_ptr<double[]> A(new double[n * q]), R(new double[n]), w(new double[nw]); std::unique_ptr<Int[]> iw(new Int[niw]); double* res[2] = {kind == 1 ? R.get() : A.get(), R.get()}; Int id = f.setup_and_alloc_memory(); gu = nullptr; gd = nullptr; calls = 0;
            int ret = f(args, res, ww ? w.get() : nullptr, ww ? iw.get() : nullptr, &u, id); m.check(ret == 0 && calls == 1, k + ":call", "%s: returned %d after %d calls", how, ret, calls); ok = (!wu || gu == &u) && (!wd || gd != nullptr); m.check(ok, k + ":memory", "%s: user data or memory lost", how);
            ok = true; if (kind != 1) for (size_t i = 0; i < n * q; ++i) ok = ok && A[i] == tag + double(i) + X[0][0] + 2 * X[1][1] + 3 * X[2][2] + 4 * X[3][0]; if (kind != 0) for (size_t i = 0; i < n; ++i) ok = ok && R[i] == -tag - double(i) + X[3][2]; m.check(ok, k + ":values", "%s: wrong results", how); f.release_memory(id); };
        auto take = [&](void* x, DM* d) { gu = x; gd = d; };
        using G = std::function<void(IO)>; using S0 = std::function<void(const double**, double*)>; using S1 = std::function<void(const double**, double*, void*)>; using S2 = std::function<void(const double**, double*, double*, Int*, void*)>; using S3 = std::function<void(const double**, double*, double*, Int*)>; using S4 = std::function<void(const double**, double*, double*, Int*, void*, DM*)>;
        using D0 = std::function<void(const double**, double*, double*)>; using D1 = std::function<void(const double**, double*, double*, void*)>; using D2 = std::function<void(const double**, double*, double*, double*, Int*, void*)>; using D3 = std::function<void(const double**, double*, double*, double*, Int*)>; using D4 = std::function<void(const double**, double*, double*, double*, Int*, void*, DM*)>;
        probe(GenerateElemMat(G([&](IO x) { mat(x.args, x.res[0]); work(x.w, x.iw); take(x.user_data, x.allocator); }), n, q, nw, niw, cu, cd), "matrix io", 0, true, cu, cd);
        probe(GenerateElemMat(S0([&](const double** X, double* A) { mat(X, A); }), n, q), "matrix", 0, false, false, false);
        probe(GenerateElemMat(S1([&](const double** X, double* A, void* x) { mat(X, A); take(x, nullptr); }), n, q), "matrix user", 0, false, true, false);
        probe(GenerateElemMat(S2([&](const double** X, double* A, double* w, Int* iw, void* x) { mat(X, A); work(w, iw); take(x, nullptr); }), n, q, nw, niw), "matrix work user", 0, true, true, false);
        probe(GenerateElemMat(S3([&](const double** X, double* A, double* w, Int* iw) { mat(X, A); work(w, iw); }), n, q, nw, niw), "matrix work", 0, true, false, false);
        probe(GenerateElemMat(S4([&](const double** X, double* A, double* w, Int* iw, void* x, DM* d) { mat(X, A); work(w, iw); take(x, d); }), n, q, nw, niw), "matrix all", 0, true, true, true);
        auto rh = [&](const double** X, double* R) { ++calls; rhs(X, R); };
        probe(GenerateElemRhs(G([&](IO x) { rh(x.args, x.res[0]); work(x.w, x.iw); take(x.user_data, x.allocator); }), n, nw, niw, cu, cd), "vector io", 1, true, cu, cd);
        probe(GenerateElemRhs(S0([&](const double** X, double* A) { rh(X, A); }), n), "vector", 1, false, false, false);
        probe(GenerateElemRhs(S1([&](const double** X, double* A, void* x) { rh(X, A); take(x, nullptr); }), n), "vector user", 1, false, true, false);
        probe(GenerateElemRhs(S2([&](const double** X, double* A, double* w, Int* iw, void* x) { rh(X, A); work(w, iw); take(x, nullptr); }), n, nw, niw), "vector work user", 1, true, true, false);
        probe(GenerateElemRhs(S3([&](const double** X, double* A, double* w, Int* iw) { rh(X, A); work(w, iw); }), n, nw, niw), "vector work", 1, true, false, false);
        probe(GenerateElemRhs(S4([&](const double** X, double* A, double* w, Int* iw, void* x, DM* d) { rh(X, A); work(w, iw); take(x, d); }), n, nw, niw), "vector all", 1, true, true, true);
        probe(GenerateElemMatRhs(G([&](IO x) { mat(x.args, x.res[0]); rhs(x.args, x.res[1]); work(x.w, x.iw); take(x.user_data, x.allocator); }), n, q, nw, niw, cu, cd), "both io", 2, true, cu, cd);
        probe(GenerateElemMatRhs(D0([&](const double** X, double* A, double* R) { mat(X, A); rhs(X, R); }), n, q), "both", 2, false, false, false);
        probe(GenerateElemMatRhs(D1([&](const double** X, double* A, double* R, void* x) { mat(X, A); rhs(X, R); take(x, nullptr); }), n, q), "both user", 2, false, true, false);
        probe(GenerateElemMatRhs(D2([&](const double** X, double* A, double* R, double* w, Int* iw, void* x) { mat(X, A); rhs(X, R); work(w, iw); take(x, nullptr); }), n, q, nw, niw), "both work user", 2, true, true, false);
        probe(GenerateElemMatRhs(D3([&](const double** X, double* A, double* R, double* w, Int* iw) { mat(X, A); rhs(X, R); work(w, iw); }), n, q, nw, niw), "both work", 2, true, false, false);
        probe(GenerateElemMatRhs(D4([&](const double** X, double* A, double* R, double* w, Int* iw, void* x, DM* d) { mat(X, A); rhs(X, R); work(w, iw); take(x, d); }), n, q, nw, niw), "both all", 2, true, true, true);
        m.obs("generated_functions", 18); m.sample(m.cur_desc);
    });

}
