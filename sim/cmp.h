// Heterogeneous comparisons: a group of optional types with mutually comparable payloads, two optionals of
// each type, driven through a history; every comparison is judged against std::optional with the same contents.
#pragma once
#include "runner.h"
#include "doms.h"
#include <tuple>
#if defined(__cpp_lib_three_way_comparison)
#include <compare>
#endif
namespace cmp {
using namespace run;
using namespace dom;

template <class O> struct IsStd : std::false_type {};
template <class T> struct IsStd<std::optional<T>> : std::true_type {};

template <class X, class Y> bool rel(int w, X const &x, Y const &y) {
  switch (w) {
  case 0: return x == y;
  case 1: return x != y;
  case 2: return x < y;
  case 3: return x <= y;
  case 4: return x > y;
  default: return x >= y;
  }
}
#if defined(__cpp_lib_three_way_comparison)
template <class C> int ord(C c) { return c == 0 ? 0 : c < 0 ? 1 : c > 0 ? 2 : 3; }
#endif

// G: types (tuple of optional types), V (common value type, index -> value), payload construction.
template <class G> struct CmpRunner {
  using Types = typename G::Types;
  static constexpr int NT = std::tuple_size_v<Types>;
  static constexpr int NS = 2 * NT;
  template <int T> using O = std::tuple_element_t<T, Types>;
  enum { CELL = 128 };
  alignas(64) static inline char mem[NS][CELL];
  static inline char snap[NS][CELL];
  static inline bool eng[NS];
  static inline int val[NS];
  static inline size_t eh[NT];
  static inline bool ehset[NT];

  template <int T> static O<T> &at(int s) { return *std::launder(reinterpret_cast<O<T> *>(mem[s])); }
  template <class F> static void with(int t, F &&f) { with_impl<0>(t, f); }
  template <int I, class F> static void with_impl(int t, F &f) {
    if constexpr (I < NT) {
      if (t == I) f(std::integral_constant<int, I>{});
      else with_impl<I + 1>(t, f);
    }
  }
  static void resnap() { memcpy(snap, mem, sizeof mem); }
  static void check_state(int a, int b) {
    for (int s = 0; s < NS; s++) {
      if (s == a || s == b) continue;
      if (memcmp(snap[s], mem[s], CELL)) violate(V_CONSTWRITE, "optional #%d changed by a comparison or another operation", s);
    }
    Pause pz;
    for (int s = 0; s < NS; s++)
      with(s % NT, [&](auto T) {
        auto const &o = at<T.value>(s);
        if (o.has_value() != eng[s]) violate(V_ENGAGED, "optional #%d: engagement changed", s);
        if (eng[s] && !G::same(*o, val[s])) violate(V_VALUE, "optional #%d: value changed", s);
        ev(0x51, s, eng[s] ? val[s] + 1 : 0);
      });
  }
  static void prepare(Plan &) {
    W.alloc_ok = G::alloc_ok;
    for (int s = 0; s < NS; s++)
      with(s % NT, [&](auto T) {
        static_assert(sizeof(O<T.value>) <= CELL, "");
        fill_bytes(mem[s], CELL, 0);
        ::new ((void *)mem[s]) O<T.value>();
        eng[s] = false;
        val[s] = 0;
        ehset[T.value] = false;
      });
    resnap();
  }
  static void finish(Plan &) {
    check_state(-1, -1);
    for (int s = 0; s < NS; s++)
      with(s % NT, [&](auto T) {
        using OT = O<T.value>;
        at<T.value>(s).~OT();
      });
    if (W.nlive) violate(V_LEAK, "%u value(s) left at the end", W.nlive);
    if (W.heap_live) violate(V_HEAP_LEAK, "%ld heap blocks left at the end", W.heap_live);
  }
  __attribute__((noinline)) static int attempt(Plan &p, Op const &op, bool faults, FnRef f) {
    poison_stack();
    Ctx &c = C();
    c.fired = Fired();
    c.fcount = 0;
    c.nth = op.f;
    c.late = false;
    c.armed = faults && op.f && (p.mask & CAT_OBSERVE);
    c.etype = (op.env >> ENV_EXC_SHIFT) % ENV_EXC_N;
    Caught k = call_lib(op.env, f);
    c.armed = false;
    ev(0x30, op.code, k.r);
    if (c.fired.on) {
      S->opfault[op.code]++;
      if (k.r == 0) violate(V_EXC_SWALLOWED, "%s: the exception thrown inside was swallowed", op_name[op.code]);
      if (k.r != (c.fired.kind == P_ALLOC ? 2 : 1) || (k.r == 1 && (k.serial != c.fired.serial || k.etype != c.fired.etype))) violate(V_EXC_WRONG, "%s: a different exception arrived", op_name[op.code]);
      return R_FAULT;
    }
    if (k.r) violate(V_EXC_UNEXPECTED, "%s threw although nothing failed", op_name[op.code]);
    return R_OK;
  }
  static void no_strays() {
    for (uint32_t i = 0; i < W.nlive; i++)
      if (W.live[i].p < mem[0] || W.live[i].p >= mem[0] + sizeof mem) violate(V_LEAK, "temporary value left behind");
  }

  static void exec(Plan &p, int idx) {
    Op const &op = p.ops[idx];
    C().opidx = idx;
    int a = op.a % NS, b = op.b % NS;
    const int w = op.var % 6;
    tracef("[%d] %s a=#%d(%s) b=#%d(%s) v=%d var=%u f=%u", idx, op_name[op.code], a, eng[a] ? "engaged" : "empty", b, eng[b] ? "engaged" : "empty", op.v, op.var, op.f);
    ev(0x20, op.code, a * 64 + b);
    bool did = true;
    int ma = -1, mb = -1;
    switch (op.code) {
    case O_X_STORE: {
      int v = (int)(uix(op.v) % G::N);
      with(a % NT, [&](auto T) {
        if (!G::template fits<O<T.value>>(v)) v = 0;
      });
      with(a % NT, [&](auto T) { attempt(p, op, false, [&] { G::store(at<T.value>(a), v); }); });
      eng[a] = true;
      val[a] = v;
      ma = a;
      break;
    }
    case O_X_EMPTY:
      with(a % NT, [&](auto T) { attempt(p, op, false, [&] { at<T.value>(a).reset(); }); });
      eng[a] = false;
      ma = a;
      break;
    case O_X_COPY:
    case O_X_SWAP: {
      int c = (a + NT) % NS; // the other one of the same type
      with(a % NT, [&](auto T) {
        if constexpr (std::is_copy_assignable_v<O<T.value>>)
          attempt(p, op, false, [&] {
            if (op.code == O_X_COPY) at<T.value>(c) = static_cast<O<T.value> const &>(at<T.value>(a));
            else at<T.value>(c).swap(at<T.value>(a));
          });
        else
          did = false;
      });
      if (!did) break;
      if (op.code == O_X_COPY) eng[c] = eng[a], val[c] = val[a];
      else std::swap(eng[c], eng[a]), std::swap(val[c], val[a]);
      ma = a;
      mb = c;
      break;
    }
    case O_X_CMP:
      with(a % NT, [&](auto T1) {
        with(b % NT, [&](auto T2) {
          if constexpr (!(IsStd<O<T1.value>>::value && IsStd<O<T2.value>>::value)) {
            auto const &x = at<T1.value>(a);
            auto const &y = at<T2.value>(b);
            bool got = false;
            uint64_t before = G::compares();
            int r = attempt(p, op, true, [&] { got = rel(w, x, y); });
            if (!(eng[a] && eng[b]) && G::compares() != before) violate(V_COMPARE, "values compared although not both sides hold one");
            if (r == R_OK) {
              bool want;
              if (eng[a] && eng[b]) want = G::template relval<typename O<T1.value>::value_type, typename O<T2.value>::value_type>(w, val[a], val[b]);
              else want = rel(w, eng[a], eng[b]);
              if (got != want) violate(V_COMPARE, "comparison #%d of optionals of type %d and %d: got %d", w, (int)T1.value, (int)T2.value, got);
            }
          } else
            did = false;
        });
      });
      break;
    case O_X_CMP3:
#if defined(__cpp_lib_three_way_comparison)
      with(a % NT, [&](auto T1) {
        with(b % NT, [&](auto T2) {
          using A = O<T1.value>;
          using B = O<T2.value>;
          if constexpr (!(IsStd<A>::value && IsStd<B>::value) && G::three) {
            auto const &x = at<T1.value>(a);
            auto const &y = at<T2.value>(b);
            int got = -1, got2 = -1;
            uint64_t before = G::compares();
            int r = attempt(p, op, true, [&] { got = ord(x <=> y); });
            if (!(eng[a] && eng[b]) && G::compares() != before) violate(V_COMPARE, "values compared although not both sides hold one");
            if constexpr (!IsStd<A>::value) attempt(p, op, false, [&] {
                got2 = ord(x <=> std::nullopt);
                int g = ord(std::nullopt <=> x);
                if (got2 != (g == 1 ? 2 : g == 2 ? 1 : g)) got2 = -2;
              });
            Pause pz;
            int want = eng[a] && eng[b] ? G::template ordval<typename A::value_type, typename B::value_type>(val[a], val[b]) : ord(eng[a] <=> eng[b]);
            if (r == R_OK && got != want) violate(V_COMPARE, "three-way comparison of optionals of type %d and %d: got %d, expected %d", (int)T1.value, (int)T2.value, got, want);
            if (!IsStd<A>::value && got2 != ord(eng[a] <=> false)) violate(V_COMPARE, "three-way comparison with nullopt wrong");
          } else
            did = false;
        });
      });
#else
      did = false;
#endif
      break;
    case O_X_CMPVAL:
      with(a % NT, [&](auto T) {
        if constexpr (!IsStd<O<T.value>>::value) {
          auto const &x = at<T.value>(a);
          int v = (int)(uix(op.v) % G::N);
          G::with_value(op.w, v, [&](auto const &y) {
            bool got = false, got2 = false;
            uint64_t before = G::compares();
            int r = attempt(p, op, true, [&] { got = rel(w, x, y); });
            int r2 = attempt(p, op, true, [&] { got2 = rel(w, y, x); });
            if (!eng[a] && G::compares() != before) violate(V_COMPARE, "values compared although the optional is empty");
            Pause pz;
            using PV = typename O<T.value>::value_type;
            using YV = rcvref<decltype(y)>;
            bool want = eng[a] ? G::template relval<PV, YV>(w, val[a], v) : rel(w, 0, 1);
            bool want2 = eng[a] ? G::template relval<YV, PV>(w, v, val[a]) : rel(w, 1, 0);
            if (r == R_OK && got != want) violate(V_COMPARE, "comparison #%d of optional with a value: got %d", w, got);
            if (r2 == R_OK && got2 != want2) violate(V_COMPARE, "comparison #%d of a value with an optional: got %d", w, got2);
#if defined(__cpp_lib_three_way_comparison)
            if constexpr (G::three) {
              if (op.var & 8) {
                int g3 = -1, r3;
                {
                  C().pause--;
                  r3 = attempt(p, op, true, [&] { g3 = ord(x <=> y); });
                  C().pause++;
                }
                int w3 = eng[a] ? G::template ordval<PV, YV>(val[a], v) : 1;
                int g4 = -1, r4;
                {
                  C().pause--;
                  r4 = attempt(p, op, true, [&] { g4 = ord(y <=> x); });
                  C().pause++;
                }
                int fw = eng[a] ? G::template ordval<PV, YV>(val[a], v) : 1; // y <=> x is rewritten as 0 <=> (x <=> y)
                int w4 = fw == 1 ? 2 : fw == 2 ? 1 : fw;
                if (r4 == R_OK && g4 != w4) violate(V_COMPARE, "three-way comparison of a value with an optional: got %d, expected %d", g4, w4);
                if (r3 == R_OK && g3 != w3) violate(V_COMPARE, "three-way comparison with a value: got %d, expected %d", g3, w3);
              }
            }
#endif
          });
        } else
          did = false;
      });
      break;
    case O_X_CMPNULL:
      with(a % NT, [&](auto T) {
        if constexpr (!IsStd<O<T.value>>::value) {
          auto const &x = at<T.value>(a);
          bool got = false, got2 = false;
          attempt(p, op, false, [&] {
            got = rel(w, x, std::nullopt);
            got2 = rel(w, std::nullopt, x);
          });
          int e = eng[a];
          if (got != rel(w, e, 0)) violate(V_COMPARE, "comparison #%d with nullopt wrong", w);
          if (got2 != rel(w, 0, e)) violate(V_COMPARE, "comparison #%d of nullopt wrong", w);
        } else
          did = false;
      });
      break;
    case O_X_HASH:
      with(a % NT, [&](auto T) {
        using A = O<T.value>;
        using PV = std::remove_const_t<typename A::value_type>;
        if constexpr (!IsStd<A>::value && std::is_default_constructible_v<std::hash<PV>>) {
          size_t h = 0;
          int r = attempt(p, op, true, [&] { h = std::hash<A>{}(static_cast<A const &>(at<T.value>(a))); });
          if (r == R_OK) {
            Pause pz;
            if (eng[a]) {
              if (h != std::hash<PV>{}(*static_cast<A const &>(at<T.value>(a)))) violate(V_HASH, "hash differs from the hash of the value");
            } else {
              if (ehset[T.value] && eh[T.value] != h) violate(V_HASH, "empty optionals have different hashes");
              eh[T.value] = h;
              ehset[T.value] = true;
            }
          }
        } else
          did = false;
      });
      break;
    default: did = false;
    }
    if (!did) {
      S->opskip[op.code]++;
      S->skipped++;
      return;
    }
    S->opcount[op.code]++;
    no_strays();
    check_state(ma, mb);
    resnap();
  }
  static KindDesc desc(const char *name) {
    KindDesc d{};
    d.name = name;
    d.flags = KF_CMP;
    d.prepare = &prepare;
    d.exec = &exec;
    d.finish = &finish;
    d.dom = G::N;
    d.weight = 10;
    return d;
  }
};
} // namespace cmp
