#include "cmp.h"
#include <string_view>
using namespace cmp;
// Payloads whose comparison and hash can fail, and which know an incomparable value (like NaN).
namespace cmpp {
static uint64_t ncompares;
inline bool cval(int w, int a, int b) {
  if (a == 999 || b == 999) return w == 1;
  if (a == -5 || b == -5) return (0x2d97c5a3u >> ((w * 7 + (a == -5 ? 3 : a) * 2 + (b == -5 ? 3 : b)) & 31)) & 1; // six unrelated operators
  return cmp::rel(w, a, b);
}
inline bool usercmp(int w, int a, int b) {
  ncompares++;
  point(P_COMPARE);
  if (fault(P_COMPARE)) throw_fired();
  return cval(w, a, b);
}
struct CA {
  int val;
};
struct CB {
  bool flag;
  int val;
};
#define OPS(A, B)                                                                            \
  inline bool operator==(A const &a, B const &b) { return usercmp(0, a.val, b.val); }        \
  inline bool operator!=(A const &a, B const &b) { return usercmp(1, a.val, b.val); }        \
  inline bool operator<(A const &a, B const &b) { return usercmp(2, a.val, b.val); }         \
  inline bool operator<=(A const &a, B const &b) { return usercmp(3, a.val, b.val); }        \
  inline bool operator>(A const &a, B const &b) { return usercmp(4, a.val, b.val); }         \
  inline bool operator>=(A const &a, B const &b) { return usercmp(5, a.val, b.val); }
OPS(CA, CA)
OPS(CA, CB)
OPS(CB, CA)
OPS(CB, CB)
} // namespace cmpp
using namespace cmpp;
template <> struct std::hash<CA> {
  size_t operator()(CA const &x) const {
    point(P_HASHFN);
    if (fault(P_HASHFN)) throw_fired();
    return (size_t)x.val * 31 + 5;
  }
};
namespace {
struct CAManip {
  static bool is_empty(CA const &c) noexcept { return c.val == -12345; }
  static void init_empty_flag(CA &c) noexcept { ::new ((void *)&c) CA{-12345}; }
  static void invalidate_empty_flag(CA &) noexcept {}
};
#if SIM_MEMBITS
using CBOpt = tiny::optional<CB, &CB::flag>;
#else
using CBOpt = tiny::optional<CB>;
#endif
struct GUser {
  using Types = std::tuple<tiny::optional<CA>, CBOpt, tiny::optional_inplace<CA, CAManip>, std::optional<CA>, std::optional<CB>, tiny::optional<CA const>>;
  static constexpr int N = 5;
  static constexpr bool alloc_ok = false, three = false;
  static int v(int i) {
    static const int t[] = {0, 1, 2, 999, -5};
    return t[i];
  }
  static bool same(CA const &p, int i) { return p.val == v(i); }
  static bool same(CB const &p, int i) { return p.val == v(i) && p.flag == (i & 1); }
  template <class O> static void store(O &o, int i) {
    using PV = std::remove_const_t<typename O::value_type>;
    if constexpr (std::is_same_v<PV, CA>) o.emplace(CA{v(i)});
    else o.emplace(CB{bool(i & 1), v(i)});
  }
  template <class> static bool fits(int) { return true; }
  static uint64_t compares() { return ncompares; }
  template <class A, class B> static int ordval(int, int) { return 0; }
  template <class A, class B> static bool relval(int w, int a, int b) { return cval(w, v(a), v(b)); }
  template <class F> static void with_value(int how, int i, F &&f) {
    if (how & 1) f(CB{bool(i & 1), v(i)});
    else f(CA{v(i)});
  }
};
Reg r1{CmpRunner<GUser>::desc("x_user")};

// The same with payloads of several machine words.
struct CF {
  int val;
  int more[8];
};
#define FOPS(OP, W) inline bool operator OP(CF const &a, CF const &b) { return usercmp(W, a.val, b.val); }
FOPS(==, 0) FOPS(!=, 1) FOPS(<, 2) FOPS(<=, 3) FOPS(>, 4) FOPS(>=, 5)
struct CFManip {
  static bool is_empty(CF const &c) noexcept { return c.more[7] == -12345; }
  static void init_empty_flag(CF &c) noexcept { ::new ((void *)&c.more[7]) int(-12345); }
  static void invalidate_empty_flag(CF &) noexcept {}
};
} // namespace
template <> struct std::hash<CF> {
  size_t operator()(CF const &x) const {
    point(P_HASHFN);
    if (fault(P_HASHFN)) throw_fired();
    return (size_t)x.val * 31 + (size_t)x.more[3];
  }
};
namespace {
struct GFat {
  using Types = std::tuple<tiny::optional<CF>, tiny::optional_inplace<CF, CFManip>, std::optional<CF>, tiny::optional<CF const>>;
  static constexpr int N = 5;
  static constexpr bool alloc_ok = false, three = false;
  static int v(int i) {
    static const int t[] = {0, 1, 2, 999, -5};
    return t[i];
  }
  static CF mk(int i) { return CF{v(i), {i, 2 * i, 3, i * i, 5, 6, 7, 8}}; }
  static bool same(CF const &p, int i) {
    CF x = mk(i);
    return memcmp(&p, &x, sizeof x) == 0;
  }
  template <class O> static void store(O &o, int i) { o.emplace(mk(i)); }
  template <class> static bool fits(int) { return true; }
  static uint64_t compares() { return ncompares; }
  template <class A, class B> static int ordval(int, int) { return 0; }
  template <class A, class B> static bool relval(int w, int a, int b) { return cval(w, v(a), v(b)); }
  template <class F> static void with_value(int, int i, F &&f) { f(mk(i)); }
};
Reg r5{CmpRunner<GFat>::desc("x_fat")};

// Payload with a three-way operator of its own, which can fail and knows unordered values.
struct CT {
  int val;
#if defined(__cpp_lib_three_way_comparison)
  friend std::partial_ordering operator<=>(CT const &a, CT const &b) {
    ncompares++;
    point(P_COMPARE);
    if (fault(P_COMPARE)) throw_fired();
    return order(a.val, b.val);
  }
  static std::partial_ordering order(int a, int b) {
    if (a == 999 || b == 999) return std::partial_ordering::unordered;
    if (a == -5 && b == 1) return std::partial_ordering::greater; // both orders: greater
    if (a == 1 && b == -5) return std::partial_ordering::greater;
    return a <=> b;
  }
  friend bool operator==(CT const &a, CT const &b) { return usercmp(0, a.val, b.val); }
#endif
};
#if defined(__cpp_lib_three_way_comparison)
struct CTManip {
  static bool is_empty(CT const &c) noexcept { return c.val == -12345; }
  static void init_empty_flag(CT &c) noexcept { ::new ((void *)&c) CT{-12345}; }
  static void invalidate_empty_flag(CT &) noexcept {}
};
struct GThree {
  using Types = std::tuple<tiny::optional<CT>, tiny::optional_inplace<CT, CTManip>, std::optional<CT>, tiny::optional<CT const>>;
  static constexpr int N = 5;
  static constexpr bool alloc_ok = false, three = true;
  static int v(int i) {
    static const int t[] = {0, 1, 2, 999, -5};
    return t[i];
  }
  static bool same(CT const &p, int i) { return p.val == v(i); }
  template <class O> static void store(O &o, int i) { o.emplace(CT{v(i)}); }
  template <class> static bool fits(int) { return true; }
  static uint64_t compares() { return ncompares; }
  template <class A, class B> static int ordval(int a, int b) { return ord(CT::order(v(a), v(b))); }
  template <class A, class B> static bool relval(int w, int a, int b) {
    if (w < 2) return cval(0, v(a), v(b)) != (w == 1);
    auto c = CT::order(v(a), v(b));
    return w == 2 ? c < 0 : w == 3 ? c <= 0 : w == 4 ? c > 0 : c >= 0;
  }
  template <class F> static void with_value(int, int i, F &&f) { f(CT{v(i)}); }
};
Reg r4{CmpRunner<GThree>::desc("x_three")};
#endif

#ifndef __FAST_MATH__
struct S425 { static constexpr double value = 42.5; };
struct GDouble {
  using Types = std::tuple<tiny::optional<double>, tiny::optional<float>, tiny::optional_sentinel_via_type<double, S425>, std::optional<double>, std::optional<float>, tiny::optional<int>>;
  static constexpr int N = 9;
  static constexpr bool alloc_ok = false, three = true;
  static double v(int i) {
    static const double t[] = {0.0, 1.5, -0.0, -3.0, 1.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 42.5, bits<double>((uint64_t)0x7ff8fedcba987654ull)};
    return t[i];
  }
  template <class P> static P pv(int i) {
    if (std::is_same_v<P, int>) return (P)(i - 2);
    return (P)v(i);
  }
  template <class P> static bool same(P const &p, int i) {
    P x = pv<P>(i);
    return memcmp(&p, &x, sizeof p) == 0;
  }
  template <class O> static void store(O &o, int i) { o.emplace(pv<typename O::value_type>(i)); }
  template <class O> static bool fits(int i) {
    if (i == 7) return !std::is_same_v<O, tiny::optional_sentinel_via_type<double, S425>>;
    if (i == 8) return !SIM_BITS || !std::is_same_v<O, tiny::optional<double>>;
    return true;
  }
  static uint64_t compares() { return 0; }
  template <class A, class B> static bool relval(int w, int a, int b) { return cmp::rel(w, pv<A>(a), pv<B>(b)); }
#if defined(__cpp_lib_three_way_comparison)
  template <class A, class B> static int ordval(int a, int b) { return ord(pv<A>(a) <=> pv<B>(b)); }
#endif
  template <class F> static void with_value(int how, int i, F &&f) {
    if (how & 1) f(pv<float>(i));
    else f(pv<double>(i));
  }
};
Reg r2{CmpRunner<GDouble>::desc("x_double")};
#endif

struct GStr {
  using Types = std::tuple<tiny::optional<std::string>, std::optional<std::string>, tiny::optional<std::string_view>, tiny::optional<std::string const>>;
  static constexpr int N = 4;
  static constexpr bool alloc_ok = true, three = true;
  static const char *v(int i) {
    static const char *t[] = {"", "a", "b", "a string that does not fit into the small buffer"};
    return t[i];
  }
  template <class P> static bool same(P const &p, int i) { return std::string_view(p) == v(i); }
  template <class O> static void store(O &o, int i) { o.emplace(v(i)); }
  template <class> static bool fits(int) { return true; }
  static uint64_t compares() { return 0; }
  template <class A, class B> static bool relval(int w, int a, int b) { return cmp::rel(w, std::string_view(v(a)), std::string_view(v(b))); }
#if defined(__cpp_lib_three_way_comparison)
  template <class A, class B> static int ordval(int a, int b) { return ord(std::string_view(v(a)) <=> std::string_view(v(b))); }
#endif
  template <class F> static void with_value(int how, int i, F &&f) {
    if (how & 1) f(std::string_view(v(i)));
    else {
      std::string s(v(i));
      f(s);
    }
  }
};
Reg r3{CmpRunner<GStr>::desc("x_str")};
} // namespace
