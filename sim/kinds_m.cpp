#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_shared = PlainKind<tiny::optional<std::shared_ptr<int>>, DShared>;
SIM_KIND(p_shared, KF_HEAP, B_p_shared)
using BB_p_nested = PlainKind<tiny::optional<tiny::optional<int>>, DNested<tiny::optional<int>>>;
SIM_KIND_X(p_nested, 0, BB_p_nested, static constexpr bool braces = false;)
using BB_p_nestedd = PlainKind<tiny::optional<tiny::optional<double>>, DNested<tiny::optional<double>>>;
SIM_KIND_X(p_nestedd, 0, BB_p_nestedd, static constexpr bool braces = false;)
struct SLS { static constexpr LS value = {7, 8, 9}; };
using B_p_literal = PlainKind<tiny::optional_sentinel_via_type<LS, SLS>, DLS>;
SIM_KIND(p_literal, KF_RESERVED, B_p_literal)
struct SLSPad { static constexpr LSPad value = {7, 8, 9}; };
using B_p_litpad = PlainKind<tiny::optional_sentinel_via_type<LSPad, SLSPad>, DLSPad>;
SIM_KIND(p_litpad, KF_RESERVED, B_p_litpad)
}
