#include "doms.h"
using namespace run;
using namespace dom;
namespace {
using B_p_variant = PlainKind<tiny::optional<Variant>, DVariant>;
SIM_KIND(p_variant, KF_HEAP, B_p_variant)
using B_p_pair = PlainKind<tiny::optional<std::pair<std::string, int>>, DPair>;
SIM_KIND(p_pair, KF_HEAP, B_p_pair)
using B_p_func = PlainKind<tiny::optional<std::function<int(int)>>, DFunc>;
SIM_KIND(p_func, KF_HEAP, B_p_func)
using B_p_deque = PlainKind<tiny::optional<std::deque<int>>, DDeque>;
SIM_KIND(p_deque, KF_HEAP, B_p_deque)
}
