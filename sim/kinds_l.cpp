#include "doms.h"
using namespace run;
using namespace dom;
namespace {
struct SNull { static constexpr int *value = nullptr; };
using B_p_intp_null = PlainKind<tiny::optional_sentinel_via_type<int *, SNull>, DPtrNonNull>;
SIM_KIND(p_intp_null, KF_RESERVED, B_p_intp_null)
using B_p_memptr = PlainKind<tiny::optional<int MP::*>, DMemPtr>;
SIM_KIND(p_memptr, 0, B_p_memptr)
using B_p_string = PlainKind<tiny::optional<std::string>, DString>;
SIM_KIND(p_string, KF_HEAP, B_p_string)
using BB_p_vector = PlainKind<tiny::optional<std::vector<int>>, DVector>;
SIM_KIND_X(p_vector, KF_HEAP, BB_p_vector, static constexpr bool ilist = true; using IL = int; static uint64_t ilfp(int i) { return (2u * 131 + (unsigned)(i + 1)) * 131 + 7; })
using B_p_unique = PlainKind<tiny::optional<std::unique_ptr<int>>, DUnique>;
SIM_KIND(p_unique, KF_HEAP, B_p_unique)
}
