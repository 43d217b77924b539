#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_t_throw = TrackedKind<tiny::optional<TThrow>, TThrow>; SIM_KIND(t_throw, KF_TRACKED, B_t_throw)
using B_t_nmove = TrackedKind<tiny::optional<TNMove>, TNMove>; SIM_KIND(t_nmove, KF_TRACKED, B_t_nmove)
using B_t_moveonly = TrackedKind<tiny::optional<TMoveOnly>, TMoveOnly>; SIM_KIND(t_moveonly, KF_TRACKED, B_t_moveonly)
using B_t_copyonly = TrackedKind<tiny::optional<TCopyOnly>, TCopyOnly>; SIM_KIND(t_copyonly, KF_TRACKED, B_t_copyonly)
}
