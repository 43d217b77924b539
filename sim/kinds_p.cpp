#include "runner.h"
using namespace run;
using namespace pl;
namespace {
using B_t_explicit = TrackedKind<tiny::optional<TExplicit>, TExplicit>; SIM_KIND(t_explicit, KF_TRACKED, B_t_explicit)
using B_t_greedy = TrackedKind<tiny::optional<TGreedy>, TGreedy>; SIM_KIND_X(t_greedy, KF_TRACKED, B_t_greedy, static constexpr bool braces = false;)
using B_t_poly = TrackedKind<tiny::optional<TPoly>, TPoly>; SIM_KIND(t_poly, KF_TRACKED, B_t_poly)
using B_t_big = TrackedKind<tiny::optional<TBig>, TBig>; SIM_KIND(t_big, KF_TRACKED, B_t_big)
using B_t_copynomove = TrackedKind<tiny::optional<TCopyNoMove>, TCopyNoMove>; SIM_KIND(t_copynomove, KF_TRACKED, B_t_copynomove)
}
