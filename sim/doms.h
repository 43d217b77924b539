// Value domains of payloads without tracking of their own (scalars, standard library types, small structs).
#pragma once
#include "runner.h"
#include <array>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <variant>
#include <vector>
namespace dom {
using namespace run;
using pl::bits;
using pl::uix;

template <class T> constexpr T int_val(int i) {
  switch (i) {
  case 0: return T(0);
  case 1: return T(1);
  case 2: return std::numeric_limits<T>::min();
  case 3: return std::numeric_limits<T>::max();
  case 4: return T(std::numeric_limits<T>::max() - 1);
  case 5: return T(std::numeric_limits<T>::min() + 1);
  case 6: return T(-1);
  case 7: return T(42);
  case 8: return T(0x7f);
  case 9: return T(std::numeric_limits<T>::max() / 2);
  case 10: return T(41);
  case 11: return T(43);
  case 12: return T(std::numeric_limits<T>::max() - 255);
  case 13: return T((unsigned long long)T(42) + (1ull << (sizeof(T) * 4)));
  case 14: return T(0xfe);
  default: return T(2);
  }
}
// Every value of an integer type except (if HAS) the sentinel SENT.
template <class T, bool HAS = false, T SENT = T(0)> struct DInt : DomBase<DInt<T, HAS, SENT>, T> {
  static constexpr int N = 24;
  static T make(int i) {
    using UT = std::make_unsigned_t<T>;
    constexpr int bits = sizeof(T) * 8;
    T t;
    switch (i) { // close relatives of the sentinel: one bit, one half or one byte differs
    case 16: t = T(UT(SENT) ^ UT(1)); break;
    case 17: t = T(UT(SENT) ^ UT(UT(1) << (bits - 1))); break;
    case 18: t = T(UT(SENT) ^ UT(UT(1) << (bits / 2))); break;
    case 19: t = T(UT(SENT) ^ UT(UT(1) << (bits / 2 - 1))); break;
    case 20: t = T(UT(SENT) ^ UT(UT(0xff) << (bits - 8))); break;
    case 21: t = T(UT(SENT) ^ UT(0xff)); break;
    case 22: t = T(~UT(SENT)); break;
    case 23: t = T(UT(0) - UT(SENT)); break;
    default: t = int_val<T>(i);
    }
    if (HAS && t == SENT) t = T(SENT + 3);
    return t;
  }
  static constexpr bool has_bad = HAS;
  static T bad() { return SENT; }
  static constexpr bool dflt = !(HAS && SENT == T(0));
};
struct DBool : DomBase<DBool, bool> {
  static constexpr int N = 2;
  static bool make(int i) { return i & 1; }
};
struct DBoolTrue : DomBase<DBoolTrue, bool> { // false is the sentinel
  static constexpr int N = 1;
  static bool make(int) { return true; }
  static constexpr bool has_bad = true;
  static bool bad() { return false; }
  static constexpr bool dflt = false;
};
#ifdef __FAST_MATH__
static constexpr bool fp_cmp = false;
#else
static constexpr bool fp_cmp = true;
#endif
struct DDouble : DomBase<DDouble, double> {
  static constexpr int N = COUNTOF(pl::dbl_pats);
  static double make(int i) { return bits<double>(pl::dbl_pats[i]); }
  static constexpr bool has_bad = SIM_BITS;
  static double bad() { return bits<double>((uint64_t)0x7ff8fedcba987654ull); }
  static constexpr bool comparable = fp_cmp, hashable = fp_cmp;
};
struct DFloat : DomBase<DFloat, float> {
  static constexpr int N = COUNTOF(pl::flt_pats);
  static float make(int i) { return bits<float>(pl::flt_pats[i]); }
  static constexpr bool has_bad = SIM_BITS;
  static float bad() { return bits<float>((uint32_t)0x7fedcba9u); }
  static constexpr bool comparable = fp_cmp, hashable = fp_cmp;
};
struct DDoubleSent : DomBase<DDoubleSent, double> { // sentinel 42.5, no NaN needed
  static constexpr int N = 8;
  static double make(int i) {
    static const double t[] = {0.0, -0.0, 42.25, -42.5, 43.5, 1e300, -1e-300, 85.0};
    return t[i];
  }
  static constexpr bool has_bad = true;
  static double bad() { return 42.5; }
  static constexpr bool comparable = fp_cmp, hashable = fp_cmp;
};
struct DLongDouble : DomBase<DLongDouble, long double> {
  static constexpr int N = 6;
  static long double make(int i) {
    static const long double t[] = {0.0L, 1.0L, -1.0L, 1e30L, 2.5L, -7.0L};
    return t[i];
  }
  static constexpr bool comparable = fp_cmp, hashable = fp_cmp;
};
template <class T> struct DPtr : DomBase<DPtr<T>, T> {
  static constexpr int N = COUNTOF(pl::ptr_pats);
  static T make(int i) { return (T)pl::ptr_pats[i]; }
  static constexpr bool has_bad = SIM_BITS;
  static T bad() { return (T)(sizeof(void *) == 8 ? (uintptr_t)0xffff7fffffffffffull : (uintptr_t)0xfffffff7u); }
};
struct DPtrNonNull : DomBase<DPtrNonNull, int *> { // nullptr is the sentinel
  static constexpr int N = COUNTOF(pl::ptr_pats) - 1;
  static int *make(int i) { return (int *)pl::ptr_pats[i + 1]; }
  static constexpr bool has_bad = true;
  static int *bad() { return nullptr; }
  static constexpr bool dflt = false;
};
struct MP {
  int a, b, c;
};
struct DMemPtr : DomBase<DMemPtr, int MP::*> {
  static constexpr int N = 4;
  static int MP::*make(int i) {
    switch (i) {
    case 0: return &MP::a;
    case 1: return &MP::b;
    case 2: return &MP::c;
    default: return nullptr;
    }
  }
  static constexpr bool comparable = false, hashable = false;
};
enum class E1 : int { a, b, c, d, none = -1 };
enum class E2 : unsigned char { a, b, c, d, none = 0xff };
enum class E3 : short { a = 100, b, c = -1, d, none = 7 };
template <class E> struct DEnum : DomBase<DEnum<E>, E> {
  static constexpr int N = 4;
  static E make(int i) {
    static const E t[] = {E::a, E::b, E::c, E::d};
    return t[i];
  }
  static constexpr bool has_bad = true;
  static E bad() { return E::none; }
};
struct DString : DomBase<DString, std::string> {
  static constexpr int N = 6;
  static constexpr bool alloc_ok = true;
  static constexpr int moved = M_UNKNOWN;
  static std::string make(int i) {
    InPayload ip;
    return i == 0 ? std::string() : std::string(i % 2 ? i : i * 20, (char)('a' + i));
  }
  static uint64_t fp(std::string const &s) {
    uint64_t h = s.size();
    for (char c : s) h = h * 131 + (unsigned char)c;
    return h;
  }
};
struct DVector : DomBase<DVector, std::vector<int>> {
  static constexpr int N = 5;
  static constexpr bool alloc_ok = true, hashable = false;
  static constexpr int moved = M_UNKNOWN;
  static std::vector<int> make(int i) { return std::vector<int>((size_t)i, i * 3); }
  static uint64_t fp(std::vector<int> const &s) {
    uint64_t h = s.size();
    for (int c : s) h = h * 131 + (unsigned)c;
    return h;
  }
};
struct DUnique : DomBase<DUnique, std::unique_ptr<int>> {
  static constexpr int N = 5;
  static constexpr bool alloc_ok = true, hashable = false, comparable = false;
  static constexpr int moved = M_MARK;
  static uint64_t movedfp() { return 77777; }
  static std::unique_ptr<int> make(int i) { return i == 4 ? nullptr : std::make_unique<int>(i * 5); }
  static uint64_t fp(std::unique_ptr<int> const &s) { return s ? (uint64_t)*s : 77777; }
};
struct DShared : DomBase<DShared, std::shared_ptr<int>> {
  static constexpr int N = 5;
  static constexpr bool alloc_ok = true, hashable = false, comparable = false;
  static constexpr int moved = M_MARK;
  static uint64_t movedfp() { return 77777; }
  static std::shared_ptr<int> make(int i) { return i == 4 ? nullptr : std::make_shared<int>(i * 5); }
  static uint64_t fp(std::shared_ptr<int> const &s) { return s ? (uint64_t)*s : 77777; }
};
template <class Inner> struct DNested : DomBase<DNested<Inner>, Inner> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  using V = typename Inner::value_type;
  static Inner make(int i) {
    if (i == 0) return Inner();
    return Inner(std::in_place, V(i));
  }
  static uint64_t fp(Inner const &s) {
    if (!s.has_value()) return 0xeeee;
    return (uint64_t)(int64_t)(*s * 16);
  }
};
struct LS {
  int a;
  short b;
  char c;
  friend constexpr bool operator==(LS const &x, LS const &y) noexcept { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
struct DLS : DomBase<DLS, LS> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static LS make(int i) { // neighbours of the sentinel {7, 8, 9} and others
    static const LS t[] = {{0, 0, 0}, {7, 8, 0}, {7, 0, 9}, {0, 8, 9}, {-1, -1, -1}, {7, 8, 10}};
    return t[i];
  }
  static constexpr bool has_bad = true;
  static LS bad() { return LS{7, 8, 9}; }
  static uint64_t fp(LS const &s) { return (uint64_t)(unsigned)s.a << 32 ^ (uint64_t)(unsigned short)s.b << 8 ^ (unsigned char)s.c; }
};
// the same, but copying leaves the padding alone
struct LSPad {
  char c;
  int a;
  short b;
  constexpr LSPad(int x = 0, short y = 0, char z = 0) noexcept : c(z), a(x), b(y) {}
  constexpr LSPad(LSPad const &o) noexcept : c(o.c), a(o.a), b(o.b) {}
  constexpr LSPad &operator=(LSPad const &o) noexcept {
    c = o.c;
    a = o.a;
    b = o.b;
    return *this;
  }
  friend constexpr bool operator==(LSPad const &x, LSPad const &y) noexcept { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
struct DLSPad : DomBase<DLSPad, LSPad> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static LSPad make(int i) {
    LS l = DLS::make(i);
    return LSPad(l.a, l.b, l.c);
  }
  static constexpr bool has_bad = true;
  static LSPad bad() { return LSPad{7, 8, 9}; }
  static uint64_t fp(LSPad const &s) { return DLS::fp(LS{s.a, s.b, s.c}); }
};
// Trivial payloads whose emptiness flag is an object with a lifetime.
struct TrivM {
  int v;
  pl::MFlag f;
};
struct DTrivM : DomBase<DTrivM, TrivM> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static TrivM make(int i) { return TrivM{i * 3, {i * 100 - 200}}; }
  static uint64_t fp(TrivM const &t) { return (uint64_t)(unsigned)t.v << 32 ^ (unsigned)t.f.x; }
};
struct DMFlag : DomBase<DMFlag, pl::MFlag> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static pl::MFlag make(int i) { return pl::MFlag{i * 100 - 200}; }
  static uint64_t fp(pl::MFlag const &t) { return (unsigned)t.x; }
};
struct TS {
  int a;
  double d;
  bool b;
  int e;
  void *p;
};
template <int FL = 0> struct DTS : DomBase<DTS<FL>, TS> { // FL: 1 = d reserved, 2 = e reserved, 3 = p reserved
  static constexpr bool has_bad = SIM_MEMFLAG && (FL == 2 || (FL && SIM_BITS));
  static TS bad() {
    TS t = make(3);
    if (FL == 1) t.d = bits<double>((uint64_t)0x7ff8fedcba987654ull);
    if (FL == 2) t.e = 42;
    if (FL == 3) t.p = (void *)(sizeof(void *) == 8 ? (uintptr_t)0xffff7fffffffffffull : (uintptr_t)0xfffffff7u);
    return t;
  }
  static constexpr int N = 24;
  static constexpr bool comparable = false, hashable = false;
  static TS make(int i) {
    return TS{i - 2, bits<double>(pl::dbl_pats[i % COUNTOF(pl::dbl_pats)]), i % 2 == 1, i + 100, (void *)pl::ptr_pats[i % COUNTOF(pl::ptr_pats)]};
  }
  static uint64_t fp(TS const &s) {
    return (uint64_t)(unsigned)s.a * 1000003 ^ bits<uint64_t>(s.d) * 31 ^ (uint64_t)s.b << 60 ^ (uint64_t)(unsigned)s.e << 20 ^ (uint64_t)(uintptr_t)s.p * 7919;
  }
};
struct EmptyS {};
struct DEmptyS : DomBase<DEmptyS, EmptyS> {
  static constexpr int N = 1;
  static constexpr bool comparable = false, hashable = false;
  static EmptyS make(int) { return EmptyS(); }
  static uint64_t fp(EmptyS const &) { return 1; }
};
// address-of operator taken away from the library
struct AddrOv {
  int v;
  void *p;
  AddrOv *operator&() { return (AddrOv *)16; }
  AddrOv const *operator&() const { return (AddrOv const *)16; }
};
struct DAddrOv : DomBase<DAddrOv, AddrOv> {
  static constexpr int N = COUNTOF(pl::ptr_pats);
  static constexpr bool comparable = false, hashable = false;
  static AddrOv make(int i) { return AddrOv{i, (void *)pl::ptr_pats[i]}; }
  static uint64_t fp(AddrOv const &s) { return (uint64_t)s.v * 31 ^ (uint64_t)(uintptr_t)s.p; }
};
struct DLongDoubleSent : DomBase<DLongDoubleSent, long double> { // sentinel -2.5L
  static constexpr int N = 6;
  static long double make(int i) {
    static const long double t[] = {0.0L, 2.5L, -2.25L, 1e3000L, -1e-3000L, -7.0L};
    return t[i];
  }
  static constexpr bool has_bad = true;
  static long double bad() { return -2.5L; }
  static constexpr bool comparable = fp_cmp, hashable = fp_cmp;
  static uint64_t fp(long double const &d) {
    uint64_t a = 0;
    uint16_t b = 0;
    memcpy(&a, &d, 8);
    memcpy(&b, (char const *)&d + 8, 2);
    return a ^ (uint64_t)b << 40;
  }
};
// Not a bare std::string: libstdc++ declares a variant of strings "never valueless", and its copy constructor then runs into
// __builtin_unreachable when copying the string throws (the visitation in the storage's destructor with index npos).
struct VText : std::string {
  using std::string::string;
  VText(std::string s) : std::string(std::move(s)) {}
};
using Variant = std::variant<int, VText, double>;
struct DVariant : DomBase<DVariant, Variant> {
  using T = Variant;
  static constexpr int N = 6;
  static constexpr bool alloc_ok = true, hashable = false;
  static constexpr int moved = M_UNKNOWN;
  static T make(int i) {
    switch (i) {
    case 0: return T(0);
    case 1: return T(VText(30, 'v'));
    case 2: return T(VText("x"));
    case 3: return T(2.5);
    case 4: return T(-1);
    default: return T(VText());
    }
  }
  static uint64_t fp(T const &t) {
    if (t.valueless_by_exception()) return 0xdeadull;
    if (t.index() == 0) return (uint64_t)(unsigned)std::get<0>(t);
    if (t.index() == 2) return bits<uint64_t>(std::get<2>(t));
    return 0x1234 + DString::fp(std::get<1>(t));
  }
};
struct DPair : DomBase<DPair, std::pair<std::string, int>> {
  using T = std::pair<std::string, int>;
  static constexpr int N = 5;
  static constexpr bool alloc_ok = true, hashable = false;
  static constexpr int moved = M_UNKNOWN;
  static T make(int i) { return T(std::string((size_t)(i * 11), (char)('p' + i)), i - 1); }
  static uint64_t fp(T const &t) { return DString::fp(t.first) * 31 + (unsigned)t.second; }
};
struct DFunc : DomBase<DFunc, std::function<int(int)>> {
  using T = std::function<int(int)>;
  static constexpr int N = 4;
  static constexpr bool alloc_ok = true, hashable = false, comparable = false;
  static constexpr int moved = M_UNKNOWN;
  static T make(int i) {
    struct Big {
      int a[12];
    };
    Big b{};
    b.a[11] = i;
    switch (i) {
    case 0: return T();
    case 1: return T([](int x) { return x + 1; });
    case 2: return T([b](int x) { return x * 3 + b.a[11]; });
    default: return T([i](int x) { return x * 5 + i; });
    }
  }
  static uint64_t fp(T const &t) { return t ? (uint64_t)(unsigned)t(7) : 0xf00f; }
};
struct DArray : DomBase<DArray, std::array<double, 3>> {
  using T = std::array<double, 3>;
  static constexpr int N = COUNTOF(pl::dbl_pats);
  static constexpr bool comparable = false, hashable = false;
  static T make(int i) { return T{bits<double>(pl::dbl_pats[i]), 1.5, bits<double>(pl::dbl_pats[(i + 1) % N])}; }
  static uint64_t fp(T const &t) { return bits<uint64_t>(t[0]) * 31 + bits<uint64_t>(t[1]) * 7 + bits<uint64_t>(t[2]); }
};
struct DDeque : DomBase<DDeque, std::deque<int>> {
  static constexpr int N = 4;
  static constexpr bool alloc_ok = true, hashable = false;
  static constexpr int moved = M_UNKNOWN;
  static std::deque<int> make(int i) { return std::deque<int>((size_t)i * 3, i + 1); }
  static uint64_t fp(std::deque<int> const &s) {
    uint64_t h = s.size();
    for (int c : s) h = h * 131 + (unsigned)c;
    return h;
  }
};
struct Big {
  uint64_t a[24];
};
struct DBig : DomBase<DBig, Big> {
  static constexpr int N = 5;
  static constexpr bool comparable = false, hashable = false;
  static Big make(int i) {
    Big b;
    for (int k = 0; k < 24; k++) b.a[k] = (uint64_t)i * 0x9e3779b97f4a7c15ull * (k + 1);
    return b;
  }
  static uint64_t fp(Big const &b) {
    uint64_t h = 0;
    for (uint64_t x : b.a) h = h * 1000003 + x;
    return h;
  }
};
// the flag is the first, the last, the only member
struct FirstB {
  bool b;
  char rest[7];
};
struct LastF {
  char rest[12];
  float f;
};
struct OnlyD {
  double d;
};
struct DFirstB : DomBase<DFirstB, FirstB> {
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static FirstB make(int i) { return FirstB{i % 2 == 1, {(char)i, (char)-1, (char)-2, (char)(i * 40), 0, 1, 2}}; }
  static uint64_t fp(FirstB const &b) {
    uint64_t h = b.b;
    for (char c : b.rest) h = h * 257 + (unsigned char)c;
    return h;
  }
};
struct DLastF : DomBase<DLastF, LastF> {
  static constexpr int N = COUNTOF(pl::flt_pats);
  static constexpr bool comparable = false, hashable = false;
  static constexpr bool has_bad = SIM_MEMFLAG && SIM_BITS;
  static LastF mk(float f, int i) {
    LastF l;
    for (int k = 0; k < 12; k++) l.rest[k] = (char)(i * 17 + k);
    l.f = f;
    return l;
  }
  static LastF make(int i) { return mk(bits<float>(pl::flt_pats[i]), i); }
  static LastF bad() { return mk(bits<float>((uint32_t)0x7fedcba9u), 3); }
  static uint64_t fp(LastF const &b) {
    uint64_t h = bits<uint32_t>(b.f);
    for (char c : b.rest) h = h * 257 + (unsigned char)c;
    return h;
  }
};
struct DOnlyD : DomBase<DOnlyD, OnlyD> {
  static constexpr int N = COUNTOF(pl::dbl_pats);
  static constexpr bool comparable = false, hashable = false;
  static constexpr bool has_bad = SIM_MEMFLAG && SIM_BITS;
  static OnlyD make(int i) { return OnlyD{bits<double>(pl::dbl_pats[i])}; }
  static OnlyD bad() { return OnlyD{bits<double>((uint64_t)0x7ff8fedcba987654ull)}; }
  static uint64_t fp(OnlyD const &b) { return bits<uint64_t>(b.d); }
};
struct DNest3 : DomBase<DNest3, tiny::optional<tiny::optional<int>>> {
  using I2 = tiny::optional<tiny::optional<int>>;
  using I1 = tiny::optional<int>;
  static constexpr int N = 6;
  static constexpr bool comparable = false, hashable = false;
  static I2 make(int i) {
    if (i == 0) return I2();
    if (i == 1) return I2(std::in_place);
    return I2(std::in_place, std::in_place, i);
  }
  static uint64_t fp(I2 const &s) {
    if (!s.has_value()) return 0xeeee;
    if (!s->has_value()) return 0xdddd;
    return (uint64_t)**s;
  }
};
} // namespace dom
