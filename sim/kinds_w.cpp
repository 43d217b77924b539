#include "doms.h"
using namespace run;
using namespace dom;
namespace {
#if SIM_MEMBITS
using B_p_firstb = PlainKind<tiny::optional<FirstB, &FirstB::b>, DFirstB>;
SIM_KIND(p_firstb, KF_MEMPTR, B_p_firstb)
using B_p_lastf = PlainKind<tiny::optional<LastF, &LastF::f>, DLastF>;
SIM_KIND(p_lastf, KF_MEMPTR, B_p_lastf)
using B_p_onlyd = PlainKind<tiny::optional<OnlyD, &OnlyD::d>, DOnlyD>;
SIM_KIND(p_onlyd, KF_MEMPTR, B_p_onlyd)
#endif
using B_p_neststd = PlainKind<tiny::optional<std::optional<int>>, DNested<std::optional<int>>>;
SIM_KIND_X(p_neststd, 0, B_p_neststd, static constexpr bool braces = false;)
using B_p_nest3 = PlainKind<tiny::optional<tiny::optional<tiny::optional<int>>>, DNest3>;
SIM_KIND_X(p_nest3, 0, B_p_nest3, static constexpr bool braces = false;)
}
