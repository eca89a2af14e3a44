// A02: face matrices integrate over the chosen face; the normal variant contracts with the outward unit normal; the divergence theorem holds.
#include "aform.h"
using namespace af;
#ifndef SHARD
SECTION(units) {
    run_cases(m, m.cases(81*6, 81*40), [&](long c, Rng& r) { runtimeForm(m, r, c/81%2 ? FACE : FACEN, orc::unit(orc::FAMS[c%9]), orc::unit(orc::FAMS[(c/9)%9])); });
}
SECTION(composed) {
    run_cases(m, m.cases(400, 8000), [&](long c, Rng& r) { SP a = orc::randSpace(r, r.range(1, 3), 30), b = orc::randSpace(r, r.range(0, 2), 30); if (r.coin()) std::swap(a, b); runtimeForm(m, r, c%2 ? FACE : FACEN, a, b); });
}
SECTION(sameOperator) {
    run_cases(m, m.cases(120, 2000), [&](long c, Rng& r) { SP a = orc::randSpace(r, r.range(0, 2), 30); runtimeForm(m, r, c%2 ? FACE : FACEN, a, a, true); });
}
// independent of the model: sum over faces of the normal flux equals the volume terms, all by the library
SECTION(divergenceTheorem) {
    run_cases(m, m.cases(240, 5000), [&](long c, Rng& r) {
        SP sa = orc::randSpace(r, r.range(0, 1), 20), sb = orc::randSpace(r, r.range(0, 1), 20);
        if (c % 4 == 3) sa = r.coin() ? orc::unit(r.coin() ? orc::RT0 : orc::ND0) : orc::vec(3, sa->dim() == 1 ? sa : orc::unit(orc::P2));
        if (orc::unionQuality(*sa) < 1e-4L || orc::unionQuality(*sb) < 1e-4L) return;
        vector<Tet> ts; int f = r.range(1, 3); for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r)); Batch B(ts);
        FemSpace A = makeRaw(*sa), V = makeRaw(*sb); int nfa = sa->nf(), nfb = sb->nf(), da = sa->dim(), db = sb->dim();
        m.eval(); m.obs("divergence theorem"); m.distinct("div" + sa->str() + "|" + sb->str() + fmt("/%d", f)); m.key("divthm"); m.desc("divergence theorem %s x %s f=%d tet0 %s", sa->str().c_str(), sb->str().c_str(), f, ts[0].str().c_str());
        // D maps u (da comps) to 3*db fluxes, constant: int_dT (D u . n) v = int_T (D:grad u) v + (D u) . grad v
        vector<double> D(size_t(3*db)*da); for (double& v : D) v = r.sym(); int order = std::min(20, 2*std::max(sa->order(), sb->order()) + 1);
        vector<double> L_(size_t(nfa)*nfb*f, 0), R_(L_), sc(f, 0);
        auto fl = [&](const std::array<double, 3>&, double* d, TensorDims, void*, int) { std::copy(D.begin(), D.end(), d); return TENSOR_GENERAL; }; // 3db x da
        auto vg = [&](const std::array<double, 3>&, double* d, TensorDims t, void*, int) { for (int k = 0; k < db; ++k) for (int l = 0; l < da; ++l) for (int s = 0; s < 3; ++s) d[k + t.first*(3*l+s)] = D[s+3*k + size_t(3*db)*l]; return TENSOR_GENERAL; }; // db x 3da
        auto uI = A.getOP(IDEN), uG = A.getOP(GRAD), vI = V.getOP(IDEN), vG = V.getOP(GRAD);
        vector<double> mem(L_.size()); DenseMatrix<> M(mem.data(), 0, 0, mem.size());
        auto scale = [&](vector<double>& T) { for (size_t i = 0; i < T.size(); ++i) { T[i] += mem[i]; sc[i/(size_t(nfa)*nfb)] = std::max(sc[i/(size_t(nfa)*nfb)], std::fabs(mem[i])); } };
        for (int k = 0; k < 4; ++k) { std::fill(mem.begin(), mem.end(), NAN); fem3DfaceN(B.T, k, uI, vI, fl, M, pool(), order); scale(L_); }
        std::fill(mem.begin(), mem.end(), NAN); fem3Dtet(B.T, uG, vI, vg, M, pool(), order); scale(R_);
        std::fill(mem.begin(), mem.end(), NAN); fem3Dtet(B.T, uI, vG, fl, M, pool(), order); scale(R_);
        for (int q = 0; q < f; ++q) for (size_t i = 0; i < size_t(nfa)*nfb; ++i) { size_t p = i + size_t(nfa)*nfb*q;
            double k = double(ts[q].kappa), sh = std::max(1.0, double(ts[q].shift/ts[q].h));
            if (!m.close(L_[p], R_[p], (sc[q] + double(ts[q].V/ts[q].h))*1e-12*k*k*(1+0.02*sh), "divthm", "flux(i,j)", long(i%nfb), long(i/nfb))) return; }
        if (sa->dim() == 3 && db == 1) { // normal flux of a vector space against its divergence
            m.eval(); m.obs("divergence theorem with DIV"); auto uD = A.getOP(DIV);
            auto id = [](const std::array<double, 3>&, double*, TensorDims, void*, int) { return TENSOR_NULL; };
            std::fill(L_.begin(), L_.end(), 0); std::fill(R_.begin(), R_.end(), 0); std::fill(sc.begin(), sc.end(), 0);
            for (int k = 0; k < 4; ++k) { std::fill(mem.begin(), mem.end(), NAN); fem3DfaceN(B.T, k, uI, vI, id, M, pool(), order); scale(L_); }
            std::fill(mem.begin(), mem.end(), NAN); fem3Dtet(B.T, uD, vI, id, M, pool(), order); scale(R_);
            std::fill(mem.begin(), mem.end(), NAN); fem3Dtet(B.T, uI, vG, id, M, pool(), order); scale(R_);
            for (int q = 0; q < f; ++q) for (size_t i = 0; i < size_t(nfa)*nfb; ++i) { size_t p = i + size_t(nfa)*nfb*q; double k = double(ts[q].kappa), sh = std::max(1.0, double(ts[q].shift/ts[q].h));
                if (!m.close(L_[p], R_[p], (sc[q] + double(ts[q].V/ts[q].h))*1e-12*k*k*(1+0.02*sh), "divthm:DIV", "flux(i,j)", long(i%nfb), long(i/nfb))) return; }
        }
    });
}
#endif
#ifdef SHARD
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P3> P3_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_; typedef FemFix<FEM_CR1> CR_; typedef FemFix<FEM_B2> B2_; typedef FemFix<FEM_B4> B4_;
#define BOTH(...) do { ctForm<__VA_ARGS__>(m, r, FACE); ctForm<__VA_ARGS__>(m, r, FACEN); } while (0)
SEC(SHARD) {
    run_cases(m, m.cases(2*25, 2*300), [&](long c, Rng& r) { switch (c % 2) {
#if SHARD == 0
        case 0: BOTH(IDEN, P1_, IDEN, P1_); break;
        case 1: BOTH(GRAD, FemVec<3, FEM_P2>, IDEN, FemVec<3, FEM_P2>); break;
#elif SHARD == 1
        case 0: BOTH(IDEN, RT_, IDEN, FemCom<P0_, P1_>); break;
        case 1: BOTH(GRAD, P3_, IDEN, P2_); break;
#elif SHARD == 2
        case 0: BOTH(CURL, ND_, IDEN, ND_); break;
        case 1: BOTH(DUDY, FemUnionT<P1_, B2_>, IDEN, CR_); break;
#elif SHARD == 3
        case 0: BOTH(DIV, FemVec<3, FEM_P1>, GRAD, P2_); break;
        case 1: BOTH(IDEN, FemCom<FemVec<2, FEM_P1>, RT_>, IDEN, FemVecT<2, FemCom<P0_, CR_>>); break;
#endif
    } });
}
#endif
