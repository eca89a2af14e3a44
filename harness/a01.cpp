// A01: elemental tetrahedron matrices equal the exact integrals of the bilinear form through every interface.
#include "aform.h"
using namespace af;
#ifndef SHARD
SECTION(units) { // all pairs of predefined families
    run_cases(m, m.cases(81*5, 81*40), [&](long c, Rng& r) { runtimeForm(m, r, TET, orc::unit(orc::FAMS[c%9]), orc::unit(orc::FAMS[(c/9)%9])); });
}
SECTION(composed) {
    run_cases(m, m.cases(500, 6000), [&](long, Rng& r) { SP a = orc::randSpace(r, r.range(1, 3), 36), b = orc::randSpace(r, r.range(0, 2), 30); if (r.coin()) std::swap(a, b); runtimeForm(m, r, TET, a, b); });
}
SECTION(vector3) { // every way to have a vector space with div and curl, in both roles
    run_cases(m, m.cases(200, 3000), [&](long, Rng& r) {
        static const int F[7] = {orc::P0, orc::P1, orc::P2, orc::P3, orc::CR1, orc::B2, orc::B4};
        auto sc = [&] { return orc::unit(F[r.range(0, 6)]); };
        auto mk = [&]() -> SP { switch (r.range(0, 6)) { case 0: return orc::vec(3, sc()); case 1: return orc::cpx({sc(), sc(), sc()}); case 2: return orc::cpx({sc(), orc::vec(2, sc())}); case 3: return orc::cpx({orc::vec(2, sc()), sc()});
            case 4: return orc::unit(r.coin() ? orc::RT0 : orc::ND0); case 5: return orc::vec(3, orc::uni({orc::unit(orc::P1), orc::unit(orc::B4)})); default: return orc::vec(1, orc::unit(r.coin() ? orc::RT0 : orc::ND0)); } };
        runtimeForm(m, r, TET, mk(), mk()); });
}
SECTION(sameOperator) { // trial and test operator are the same object
    run_cases(m, m.cases(150, 2000), [&](long, Rng& r) { SP a = orc::randSpace(r, r.range(0, 2), 36); runtimeForm(m, r, TET, a, a, true); });
}
#ifdef WITH_EIGEN
template<int oa, class TA, int ob, class TB> static void eig(Mon& m, Rng& r) {
    typedef Operator<oa, TA> OA; typedef Operator<ob, TB> OB; SP sa = lib::M<TA>::get(), sb = lib::M<TB>::get();
    int da = orc::dimOp(oa, sa->dim()), db = orc::dimOp(ob, sb->dim()), st = tensorStruct(r, db, da), base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb), deg = std::max(0, std::min(6-base, r.range(0, 2)));
    Form F = randForm(r, TET, base + deg, 1); F.order = std::min(F.order, 6); Coef D = Coef::rand(r, db, da, st, deg, false, F.ts);
    m.eval(); m.obs("Eigen interface"); std::string key = "ct:tet:eigen"; m.key(key); m.desc("Eigen %s.%s x %s.%s %s", sa->str().c_str(), orc::opName(oa), sb->str().c_str(), orc::opName(ob), F.str().c_str());
    m.distinct("eig" + sa->str() + sb->str() + orc::opName(oa) + orc::opName(ob));
    Model M = model(F, *sa, oa, *sb, ob, D); int ud = 1; Log log; Fun fn{&D, &log, &ud, st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0};
    Eigen::Vector3d X[4]; for (int v = 0; v < 4; ++v) X[v] = Eigen::Vector3d(F.ts[0].x[v][0], F.ts[0].x[v][1], F.ts[0].x[v][2]);
    Eigen::MatrixXd A(M.nfb, M.nfa); A.setConstant(NAN);
    fem3Dtet<OA, OB>(X[0], X[1], X[2], X[3], [&](const std::array<double, 3>& x, double* d, std::pair<uint, uint> dm, void* u, int it) { return fn(x, d, TensorDims(dm.first, dm.second), u, it); }, A, F.order, &ud);
    DenseMatrix<> W(A.data(), A.rows(), A.cols(), A.size()); compare(m, key, M, F, W); checkLog(m, key, log);
    Eigen::Matrix<double, OB::Nfa::value, OA::Nfa::value> S; S.setConstant(NAN); log = Log();
    fem3Dtet<OA, OB>(X[0], X[1], X[2], X[3], [&](const std::array<double, 3>& x, double* d, std::pair<uint, uint> dm, void* u, int it) { return fn(x, d, TensorDims(dm.first, dm.second), u, it); }, S, F.order, &ud);
    m.check((S.array() == A.array()).all() || !(A.array() == A.array()).all(), key, "fixed-size and dynamic Eigen outputs differ");
    Eigen::MatrixXd bad(M.nfb + 1, M.nfa); m.check(mon::throws([&]{ fem3Dtet<OA, OB>(X[0], X[1], X[2], X[3], [&](const std::array<double, 3>& x, double* d, std::pair<uint, uint> dm, void* u, int it) { return fn(x, d, TensorDims(dm.first, dm.second), u, it); }, bad, F.order, &ud); }), key + ":refuse", "an output of wrong shape was accepted");
}
SECTION(eigenInterface) {
    run_cases(m, m.cases(120, 1200), [&](long c, Rng& r) { switch (c % 4) {
        case 0: eig<GRAD, FemFix<FEM_P1>, GRAD, FemFix<FEM_P2>>(m, r); break;
        case 1: eig<DIV, FemVec<3, FEM_P2>, IDEN, FemFix<FEM_P1>>(m, r); break;
        case 2: eig<IDEN, FemVec<3, FEM_P1>, IDEN, FemFix<FEM_RT0>>(m, r); break;
        case 3: eig<CURL, FemFix<FEM_ND0>, IDEN, FemVec<3, FEM_CR1>>(m, r); break;
    } });
}
#endif
#endif
#ifdef SHARD
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P3> P3_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_; typedef FemFix<FEM_CR1> CR_; typedef FemFix<FEM_B2> B2_; typedef FemFix<FEM_B4> B4_;
SEC(SHARD) {
    run_cases(m, m.cases(3*40, 3*400), [&](long c, Rng& r) { switch (c % 3) {
#if SHARD == 0
        case 0: ctForm<GRAD, P1_, GRAD, P1_>(m, r, TET); break;
        case 1: ctForm<GRAD, FemVec<3, FEM_P2>, GRAD, FemVec<3, FEM_P2>>(m, r, TET); break;
        case 2: ctForm<IDEN, RT_, GRAD, P2_>(m, r, TET); break;
#elif SHARD == 1
        case 0: ctForm<DIV, FemVec<3, FEM_P2>, IDEN, P1_>(m, r, TET); break;
        case 1: ctForm<IDEN, P1_, DIV, FemVec<3, FEM_P1>>(m, r, TET); break;
        case 2: ctForm<CURL, ND_, CURL, ND_>(m, r, TET); break;
#elif SHARD == 2
        case 0: ctForm<IDEN, P3_, DUDX, P3_>(m, r, TET); break;
        case 1: ctForm<GRAD, FemVec<2, FEM_CR1>, IDEN, FemCom<P1_, RT_>>(m, r, TET); break;
        case 2: ctForm<IDEN, ND_, IDEN, ND_>(m, r, TET); break;
#elif SHARD == 3
        case 0: ctForm<GRAD, FemVecT<3, FemUnionT<P1_, B4_>>, GRAD, FemVecT<3, FemUnionT<P1_, B4_>>>(m, r, TET); break;
        case 1: ctForm<IDEN, FemCom<P1_, FemVec<2, FEM_P0>>, IDEN, FemCom<ND_, P0_>>(m, r, TET); break;
        case 2: ctForm<DUDZ, B2_, IDEN, B4_>(m, r, TET); break;
#endif
    } });
}
#endif
