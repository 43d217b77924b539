#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_t_nodef = TrackedKind<tiny::optional<TNoDef>, TNoDef>; SIM_KIND(t_nodef, KF_TRACKED, B_t_nodef)
using B_t_ntconv = TrackedKind<tiny::optional<TNtConv>, TNtConv>; SIM_KIND(t_ntconv, KF_TRACKED, B_t_ntconv)
using B_t_ntcopy = TrackedKind<tiny::optional<TNtCopy>, TNtCopy>; SIM_KIND(t_ntcopy, KF_TRACKED, B_t_ntcopy)
using B_t_ntswap = TrackedKind<tiny::optional<TNtSwap>, TNtSwap>; SIM_KIND(t_ntswap, KF_TRACKED, B_t_ntswap)
}
