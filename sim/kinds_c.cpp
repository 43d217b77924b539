#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_t_swapnoasg = TrackedKind<tiny::optional<TSwapNoAsg>, TSwapNoAsg>; SIM_KIND(t_swapnoasg, KF_TRACKED, B_t_swapnoasg)
using B_t_ntctormv = TrackedKind<tiny::optional<TNtCtorMv>, TNtCtorMv>; SIM_KIND(t_ntctormv, KF_TRACKED, B_t_ntctormv)
using B_t_moveonlynt = TrackedKind<tiny::optional<TMoveOnlyNt>, TMoveOnlyNt>; SIM_KIND(t_moveonlynt, KF_TRACKED, B_t_moveonlynt)
using B_t_const = TrackedKind<tiny::optional<TConst const>, TConst>; SIM_KIND(t_const, KF_TRACKED, B_t_const)
using B_t_asgonlymv = TrackedKind<tiny::optional<TAsgOnlyMv>, TAsgOnlyMv>; SIM_KIND(t_asgonlymv, KF_TRACKED, B_t_asgonlymv)
}
