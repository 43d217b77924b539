#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_c_nodef = TrackedKind<tiny::optional<PNoDef>, PNoDef>;
SIM_KIND_X(c_nodef, KF_TRACKED | KF_MANIP, B_c_nodef, static constexpr bool manip = true;)
using B_c_ntconv = TrackedKind<tiny::optional<PNtConv>, PNtConv>;
SIM_KIND_X(c_ntconv, KF_TRACKED | KF_MANIP, B_c_ntconv, static constexpr bool manip = true;)
using B_c_moveonly = TrackedKind<tiny::optional_inplace<PMoveOnly, PartialManip<PMoveOnly>>, PMoveOnly>;
SIM_KIND_X(c_moveonly, KF_TRACKED | KF_MANIP, B_c_moveonly, static constexpr bool manip = true;)
}
