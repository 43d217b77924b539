#include "doms.h"
using namespace run;
using namespace pl;
using namespace dom;
namespace {
using B_c_triv = PlainKind<tiny::optional_inplace<TrivM, PartialPlainManip<TrivM>>, DTrivM>;
SIM_KIND_X(c_triv, KF_MANIP, B_c_triv, static constexpr bool manip = true;)
using B_c_trivself = PlainKind<tiny::optional_inplace<MFlag, PlainFlagManip>, DMFlag>;
SIM_KIND_X(c_trivself, KF_MANIP, B_c_trivself, static constexpr bool manip = true;)
}
