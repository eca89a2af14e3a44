// A03: edge, node and point matrices match line integrals, vertex values and weighted sums over points.
#include "aform.h"
using namespace af;
static Dom DOMS[4] = {EDGE, NODE, PNTL, PNTX};
#ifndef SHARD
SECTION(units) {
    run_cases(m, m.cases(81*8, 81*48), [&](long c, Rng& r) { runtimeForm(m, r, DOMS[c/81%4], orc::unit(orc::FAMS[c%9]), orc::unit(orc::FAMS[(c/9)%9])); });
}
SECTION(composed) {
    run_cases(m, m.cases(480, 8000), [&](long c, Rng& r) { SP a = orc::randSpace(r, r.range(1, 3), 30), b = orc::randSpace(r, r.range(0, 2), 30); if (r.coin()) std::swap(a, b); runtimeForm(m, r, DOMS[c%4], a, b); });
}
SECTION(sameOperator) {
    run_cases(m, m.cases(160, 2000), [&](long c, Rng& r) { SP a = orc::randSpace(r, r.range(0, 2), 30); runtimeForm(m, r, DOMS[c%4], a, a, true); });
}
#endif
#ifdef SHARD
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P3> P3_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_; typedef FemFix<FEM_CR1> CR_; typedef FemFix<FEM_B2> B2_; typedef FemFix<FEM_B4> B4_;
#define ALL(...) do { for (Dom d : DOMS) ctForm<__VA_ARGS__>(m, r, d); } while (0)
SEC(SHARD) {
    run_cases(m, m.cases(2*16, 2*200), [&](long c, Rng& r) { switch (c % 2) {
#if SHARD == 0
        case 0: ALL(IDEN, P1_, GRAD, P2_); break;
        case 1: ALL(GRAD, FemVec<3, FEM_P2>, IDEN, FemVec<3, FEM_P1>); break;
#elif SHARD == 1
        case 0: ALL(IDEN, RT_, IDEN, FemCom<P0_, P1_>); break;
        case 1: ALL(GRAD, P3_, IDEN, P3_); break;
#elif SHARD == 2
        case 0: ALL(CURL, ND_, IDEN, ND_); break;
        case 1: ALL(DUDY, FemUnionT<P1_, B2_>, IDEN, CR_); break;
#elif SHARD == 3
        case 0: ALL(DIV, FemVec<3, FEM_P1>, IDEN, B4_); break;
        case 1: ALL(IDEN, FemCom<FemVec<2, FEM_P1>, RT_>, IDEN, FemVecT<2, FemCom<P0_, CR_>>); break;
#endif
    } });
}
#endif
