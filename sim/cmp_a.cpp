#include "cmp.h"
#include <climits>
using namespace cmp;
namespace {
struct SM1 { static constexpr int value = -1; };
struct GInt {
  using Types = std::tuple<tiny::optional<int>, tiny::optional<int, -1>, tiny::optional_aip<int>, tiny::optional<long long, -1>, tiny::optional_aip<short>,
                           tiny::optional_sentinel_via_type<int, SM1>, std::optional<int>, std::optional<long long>, tiny::optional<int const>>;
  static constexpr int N = 13;
  static constexpr bool alloc_ok = false, three = true;
  static int v(int i) {
    static const int t[] = {0, 1, 2, -5, 100, 7, -1, INT_MIN, INT_MAX, SHRT_MIN, SHRT_MAX, -2, INT_MIN + 1}; // several are somebody's sentinel
    return t[i];
  }
  // can an optional of type O hold the i-th value?
  template <class O> static bool fits(int i) {
    using P = std::remove_const_t<typename O::value_type>;
    if (v(i) < (long long)std::numeric_limits<P>::min() || v(i) > (long long)std::numeric_limits<P>::max()) return false;
    if (std::is_same_v<O, tiny::optional<int, -1>> || std::is_same_v<O, tiny::optional<long long, -1>> || std::is_same_v<O, tiny::optional_sentinel_via_type<int, SM1>>) return v(i) != -1;
    if (std::is_same_v<O, tiny::optional_aip<int>> || std::is_same_v<O, tiny::optional_aip<short>>) return v(i) != (int)std::numeric_limits<P>::min();
    return true;
  }
  template <class P> static bool same(P const &p, int i) { return p == (P)v(i); }
  template <class O> static void store(O &o, int i) { o.emplace((typename O::value_type)v(i)); }
  static uint64_t compares() { return 0; }
  template <class A, class B> static bool relval(int w, int a, int b) { return cmp::rel(w, (A)v(a), (B)v(b)); }
#if defined(__cpp_lib_three_way_comparison)
  template <class A, class B> static int ordval(int a, int b) { return ord((A)v(a) <=> (B)v(b)); }
#endif
  template <class F> static void with_value(int how, int i, F &&f) {
    if (how & 1) f((long long)v(i));
    else f((int)v(i));
  }
};
Reg r1{CmpRunner<GInt>::desc("x_int")};
} // namespace
