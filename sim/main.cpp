// Driver: seeded search over plans (history + faults + schedule + memory contents), attribution,
// minimisation, replay.
#include "shared.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

#ifndef SIM_RACE
#define SIM_RACE 0
#endif
#ifdef NDEBUG
static const bool kDebug = false;
#else
static const bool kDebug = true;
#endif
enum { NFILL = 7 };

// ------------------------------------------------------------------ properties
enum Prop { C01 = 1, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12 };
static int g_prop = 1;

static bool in(int x, std::initializer_list<int> l) { return std::find(l.begin(), l.end(), x) != l.end(); }
static bool is_construct(int c) { return c >= O_C_DEF && c <= O_C_RET; }
static bool is_monadic(int c) { return in(c, {O_AND_THEN, O_TRANSFORM, O_OR_ELSE}); }
static bool is_cmp(int c) {
  return in(c, {O_CMP, O_CMPVAL, O_CMPNULL, O_CMPSTD, O_HASH, O_X_CMP, O_X_CMP3, O_X_HASH, O_X_CMPVAL, O_X_CMPNULL});
}
static bool is_quiet(int c) { // must never fail
  return in(c, {O_DTOR, O_C_DEF, O_C_NULL, O_RESET, O_A_NULL, O_A_BRACE, O_A_EMPTYTEMP, O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL,
                O_CMPNULL, O_CALM});
}

// ------------------------------------------------------------------ plan generation
struct OpW {
  int code, w;
};
static std::vector<const KindDesc *> kindlist(int prop, uint32_t family) {
  std::vector<const KindDesc *> r;
  for (auto &k : kinds()) {
    bool cmpk = k.flags & KF_CMP, se = k.flags & KF_SELFEMPTY;
    if (family == FAM_CMP) {
      if (cmpk) r.push_back(&k);
      continue;
    }
    if (family == FAM_MISUSE) {
      if (se) r.push_back(&k);
      continue;
    }
    if (cmpk || se) continue;
    if (prop == C07 && !(k.flags & KF_MANIP)) continue;
    if (in(prop, {C04, C06, C08, C09, C12, C07}) && (k.flags & KF_STD)) continue;
    r.push_back(&k);
  }
  std::sort(r.begin(), r.end(), [](auto *a, auto *b) { return strcmp(a->name, b->name) < 0; });
  return r;
}
static int kweight(const KindDesc *k, int prop) {
  int w = k->weight;
  if (prop == C11 && !strcmp(k->name, "x_user")) w *= 3;
  if (k->flags & KF_STD) return w / 3;
  if (k->flags & KF_TRACKED) {
    if (in(prop, {C01, C02, C03, C04, C10})) w *= 4;
    else w *= 2;
  }
  return w;
}

static void base_weights(int prop, std::map<int, int> &w) {
  for (int c = O_C_DEF; c <= O_C_RET; c++) w[c] = 10;
  w[O_C_NULL] = 4;
  w[O_DTOR] = 14;
  w[O_RESET] = 14;
  w[O_A_NULL] = 8;
  w[O_A_BRACE] = 5;
  w[O_A_EMPTYTEMP] = 4;
  for (int c : {O_A_VALL, O_A_VALR, O_A_SRC, O_A_SRCR, O_A_COPY, O_A_MOVE}) w[c] = 12;
  for (int c : {O_A_CMOVE, O_A_SELFVAL, O_A_SELFMOVE, O_A_BRACEVAL, O_A_TEMP, O_A_TEMPSRC, O_A_FROMVAL, O_A_FROMMOVEVAL}) w[c] = 6;
  for (int c : {O_E_SRC, O_E_VAL}) w[c] = 12;
  for (int c : {O_E_0, O_E_ILIST, O_E_2, O_E_3}) w[c] = 6;
  w[O_ROTATE] = 3;
  w[O_VOR_SELF] = 2;
  w[O_SWAP_M] = 12;
  w[O_SWAP_F] = 8;
  w[O_SWAP_STD] = 5;
  w[O_MUT] = 6;
  for (int c : {O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL, O_TAKE, O_VOR_C, O_VOR_CSRC, O_VOR_R, O_VOR_RSRC}) w[c] = 4;
  for (int c : {O_AND_THEN, O_TRANSFORM, O_OR_ELSE}) w[c] = 6;
  for (int c : {O_CMP, O_CMPVAL, O_CMPNULL, O_CMPSTD, O_HASH}) w[c] = 3;
  auto boost = [&](std::initializer_list<int> l, int f) {
    for (int c : l) w[c] *= f;
  };
  switch (prop) {
  case C02:
    for (int c = O_C_VALL; c <= O_C_RET; c++) w[c] *= 2;
    boost({O_E_SRC, O_E_VAL, O_E_0, O_E_ILIST, O_E_2, O_E_3, O_A_VALL, O_A_VALR, O_A_SRC, O_A_SRCR, O_A_COPY, O_A_MOVE, O_RESET, O_DTOR}, 2);
    break;
  case C03:
    boost({O_A_VALL, O_A_VALR, O_A_SRC, O_A_SRCR, O_A_COPY, O_A_MOVE, O_A_CMOVE, O_A_SELFVAL, O_A_SELFMOVE, O_A_BRACEVAL, O_A_FROMVAL, O_A_FROMMOVEVAL}, 3);
    boost({O_SWAP_M, O_SWAP_F}, 5);
    break;
  case C04: boost({O_AND_THEN, O_TRANSFORM, O_OR_ELSE}, 14); break;
  case C10: boost({O_RESET, O_A_NULL, O_A_BRACE, O_DTOR, O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL, O_CMPNULL, O_A_EMPTYTEMP}, 2); break;
  case C11: boost({O_CMP, O_CMPVAL, O_CMPNULL, O_CMPSTD, O_HASH}, 14); break;
  case C08:
    boost({O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL, O_VOR_C, O_VOR_CSRC, O_AND_THEN, O_TRANSFORM, O_OR_ELSE, O_CMP, O_CMPVAL, O_CMPNULL,
           O_CMPSTD, O_HASH},
          6);
    boost({O_C_COPY, O_A_COPY, O_A_CMOVE, O_C_CMOVE, O_A_FROMVAL}, 3);
    break;
  default: break;
  }
  if (prop == C12)
    for (int c : {O_M_CV, O_M_INPL, O_M_EMPLACE, O_M_ASSIGN, O_M_CONVASSIGN, O_M_MAKE, O_M_TRANSFORM, O_M_DEREF, O_M_CDEREF, O_M_RDEREF,
                  O_M_CRDEREF, O_M_ARROW, O_M_CARROW})
      w[c] = 8;
}

static uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b);
  r.next();
  return r.next();
}
static uint64_t g_seed = 1, g_stream = 0;

static Plan gen(int prop, uint64_t idx) {
  Rng r(mix(mix(mix(g_seed, 0x51a1 + prop), g_stream), idx));
  Plan p;
  p.fill = r.below(NFILL);
  p.fillseed = 1 + r.below(1000000);
  p.schedseed = r.next();
  p.family = FAM_HIST;
  if (prop == C08) p.family = FAM_SHARED;
  if (prop == C11 && r.chance(3, 5)) p.family = FAM_CMP;
  if (prop == C12 && r.chance(1, 6)) p.family = FAM_MISUSE;
  auto kl = kindlist(prop, p.family);
  if (kl.empty()) {
    p.family = FAM_HIST;
    kl = kindlist(prop, p.family);
  }
  uint32_t tot = 0;
  for (auto *k : kl) tot += kweight(k, prop);
  uint32_t x = r.below(tot);
  const KindDesc *kd = kl[0];
  for (auto *k : kl) {
    if (x < (uint32_t)kweight(k, prop)) {
      kd = k;
      break;
    }
    x -= kweight(k, prop);
  }
  p.kind = kd->name;
  // tasks
  p.ntasks = 1;
  if (prop == C08) p.ntasks = 2 + r.below(3);
  else if (prop == C09) p.ntasks = 2 + r.below(3);
  else if (in(prop, {C01, C02, C03, C04, C05, C07, C10}) && r.chance(1, 5)) p.ntasks = 2 + r.below(2);
  if (p.family != FAM_HIST && p.family != FAM_SHARED) p.ntasks = 1;
  if (p.ntasks > 1) {
    static const uint32_t sp[] = {15, 60, 150, 350, 700};
    p.swprob = sp[r.below(5)];
    if (SIM_RACE) p.swprob = p.swprob / 4 + 2;
  }
  p.nslots = 1 + r.below(p.ntasks > 1 ? 3 : 4);
  // faults
  static const uint32_t masks[] = {CAT_ALL, CAT_ALL, CAT_CONSTRUCT, CAT_ASSIGN, CAT_CALLBACK, CAT_OBSERVE};
  switch (prop) {
  case C02: p.mask = CAT_CONSTRUCT; break;
  case C03: p.mask = CAT_ASSIGN; break;
  case C04: p.mask = CAT_CALLBACK; break;
  case C11: p.mask = r.chance(1, 3) ? CAT_ALL : CAT_OBSERVE; break;
  default: p.mask = masks[r.below(6)];
  }
  if (in(prop, {C01, C07, C10}) && r.chance(1, 2)) p.mask |= CAT_QUIET;
  static const uint32_t pf[] = {80, 200, 350, 600};
  uint32_t fprob = pf[r.below(4)];
  if (prop == C05 && r.chance(1, 2)) fprob = 0;
  if (prop == C08 && r.chance(2, 3)) fprob = 0;
  if (prop == C11 && r.chance(1, 4)) fprob = 0;
  if (prop == C12 && r.chance(1, 3)) fprob = 0;
  if (prop == C06 && r.chance(1, 3)) fprob = 0;
  uint32_t maxnth = 1 + r.below(4);

  uint32_t nops;
  switch (r.below(5)) {
  case 0: nops = 2 + r.below(6); break;
  case 4: nops = 30 + r.below(40); break;
  default: nops = 6 + r.below(22);
  }
  if (p.ntasks > 1) nops = nops * 3 / 2;

  std::map<int, int> w;
  if (p.family == FAM_CMP) {
    w = {{O_X_STORE, 30}, {O_X_EMPTY, 12}, {O_X_COPY, 6}, {O_X_SWAP, 6}, {O_X_CMP, 40}, {O_X_CMP3, 25}, {O_X_HASH, 12}, {O_X_CMPVAL, 25}, {O_X_CMPNULL, 12}};
    nops += 6;
  } else if (p.family == FAM_MISUSE) {
    w = {{O_C_DEF, 8}, {O_C_INPL, 12}, {O_E_SRC, 12}, {O_A_VALL, 6}, {O_A_VALR, 6}, {O_RESET, 6}, {O_A_NULL, 4}, {O_DTOR, 6},
         {O_C_COPY, 6}, {O_A_COPY, 6}, {O_C_MOVE, 5}, {O_A_MOVE, 5}, {O_M_MOVEC, 12}, {O_M_MOVEA, 12}};
  } else {
    base_weights(prop, w);
    if (p.family == FAM_SHARED) {
      std::map<int, int> w2;
      for (auto &kv : w)
        if (in(kv.first, {O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL, O_VOR_C, O_VOR_CSRC, O_AND_THEN, O_TRANSFORM, O_OR_ELSE, O_CMP,
                          O_CMPVAL, O_CMPNULL, O_CMPSTD, O_HASH, O_C_COPY, O_A_COPY, O_A_CMOVE, O_C_CMOVE, O_A_FROMVAL, O_DTOR, O_RESET, O_C_DEF}))
          w2[kv.first] = kv.second;
      w = w2;
    }
  }
  // swarm: drop a random subset of the operations
  if (r.chance(2, 3))
    for (auto &kv : w)
      if (r.chance(2, 5) && !in(kv.first, {O_DTOR, O_X_CMP, O_X_STORE})) kv.second = 0;
  std::vector<OpW> all, cons, rest;
  for (auto &kv : w)
    if (kv.second > 0) {
      all.push_back({kv.first, kv.second});
      bool c = is_construct(kv.first) || in(kv.first, {O_M_CV, O_M_INPL, O_M_MAKE, O_M_MOVEC});
      (c ? cons : rest).push_back({kv.first, kv.second});
    }
  if (cons.empty()) cons.push_back({O_C_DEF, 1});
  if (rest.empty()) rest.push_back({O_DTOR, 1});
  auto pick = [&](std::vector<OpW> const &v) {
    uint32_t t = 0;
    for (auto &o : v) t += o.w;
    uint32_t y = r.below(t);
    for (auto &o : v) {
      if (y < (uint32_t)o.w) return o.code;
      y -= o.w;
    }
    return v[0].code;
  };
  // Values: small or wide
  const bool fewvals = r.chance(1, 3);
  const bool unusual = r.chance(1, 2); // unusual surroundings and exception types
  const bool nesting = p.family == FAM_HIST && r.chance(prop == C09 ? 1 : 1, prop == C09 ? 2 : 4);
  if (nesting && p.nslots < 3) p.nslots = 3 + r.below(2);
  bool alive[MAXT][16] = {};
  bool storming[MAXT] = {};
  for (uint32_t i = 0; i < nops; i++) {
    Op o;
    o.task = p.ntasks > 1 ? r.below(p.ntasks) : 0;
    if (p.family == FAM_CMP) {
      o.a = r.below(32);
      o.b = r.below(32);
      o.code = pick(all);
    } else {
      uint32_t ns = p.family == FAM_SHARED ? 1 : p.family == FAM_MISUSE ? 3 : p.nslots;
      o.a = r.below(ns);
      o.b = p.family == FAM_SHARED ? r.below(4) : r.below(ns);
      if (ns > 1 && o.a == o.b && r.chance(3, 4)) o.b = (o.b + 1) % ns;
      bool &al = alive[o.task][o.a];
      if (p.family == FAM_SHARED) {
        o.code = pick(all);
        if (in(o.code, {O_G_VALUE, O_G_DEREF, O_G_ARROW, O_G_BOOL, O_VOR_C, O_VOR_CSRC, O_AND_THEN, O_TRANSFORM, O_OR_ELSE, O_CMP, O_CMPVAL,
                        O_CMPNULL, O_CMPSTD, O_HASH}))
          o.a = r.below(4);
      } else {
        bool wantcons = al ? r.chance(1, 25) : !r.chance(1, 25);
        o.code = pick(wantcons ? cons : rest);
        if (is_construct(o.code) || o.code == O_M_MOVEC) al = true;
        if (o.code == O_DTOR) al = false;
        if (in(o.code, {O_M_CV, O_M_INPL, O_M_MAKE, O_M_MOVEC, O_M_EMPLACE, O_M_ASSIGN, O_M_CONVASSIGN, O_M_MOVEA})) al = false;
        if (prop == C10 && p.family == FAM_HIST && r.chance(1, 9)) {
          o.code = storming[o.task] ? O_CALM : O_STORM;
          storming[o.task] = !storming[o.task];
        }
      }
    }
    o.var = r.below(32);
    if (p.family == FAM_SHARED && !in(o.code, {O_CMP, O_CMPVAL, O_CMPNULL, O_CMPSTD})) o.var |= 1; // const overloads
    o.v = fewvals ? (int)r.below(3) : (int)r.below(997);
    o.w = r.below(64);
    if (fprob && r.below(1000) < fprob) {
      o.f = 1 + r.below(maxnth);
      o.late = r.chance(1, 3);
      if (is_construct(o.code) && o.f == 1 && (p.mask & CAT_CONSTRUCT) && p.family == FAM_HIST) alive[o.task][o.a] = false;
    }
    if (unusual) {
      if (r.chance(1, 6)) o.env = ENV_UNWIND;
      else if (r.chance(1, 8)) o.env = ENV_HANDLER;
      if (o.f && r.chance(1, 2)) o.env |= r.below(ENV_EXC_N) << ENV_EXC_SHIFT;
    }
    if (nesting && r.chance(1, 4)) {
      o.nest = 1 + r.below(r.chance(1, 2) ? 2 : 6);
      o.nk = r.below(8);
    }
    p.ops.push_back(o);
  }
  return p;
}

// ------------------------------------------------------------------ replay file
static std::string plan_text(Plan const &p) {
  std::string s;
  char b[256];
  auto add = [&](const char *f, auto... a) {
    snprintf(b, sizeof b, f, a...);
    s += b;
  };
  add("kind %s\n", p.kind.c_str());
  add("memory fill=%u fillseed=%llu\n", p.fill, (unsigned long long)p.fillseed);
  add("world nslots=%u ntasks=%u mask=%u family=%u\n", p.nslots, p.ntasks, p.mask, p.family);
  if (p.randsched) add("sched random %llu %u\n", (unsigned long long)p.schedseed, p.swprob);
  else add("sched list 0 0\n");
  for (auto &o : p.ops)
    add("op task=%u %s a=%u b=%u var=%u v=%d w=%d fault=%u late=%u env=%u nest=%u how=%u\n", o.task, op_name[o.code], o.a, o.b, o.var, o.v, o.w, o.f, o.late, o.env, o.nest, o.nk);
  if (!p.randsched)
    for (auto &q : p.sw) add("switch point=%u task=%u\n", q.first, q.second);
  return s;
}
static bool parse_plan(const char *file, std::vector<Plan> &before, Plan &p, std::string &prop, std::string &expcls, uint64_t &exphash) {
  FILE *f = fopen(file, "r");
  if (!f) return false;
  char line[512], s[128];
  while (fgets(line, sizeof line, f)) {
    unsigned a, b, c, d;
    unsigned long long u;
    if (sscanf(line, "prop %63s", s) == 1) prop = s;
    else if (sscanf(line, "expect %63s %llx", s, &u) == 2) {
      expcls = s;
      exphash = u;
    } else if (sscanf(line, "kind %100s", s) == 1) {
      if (!p.kind.empty()) {
        before.push_back(p);
        p = Plan();
      }
      p.kind = s;
    }
    else if (sscanf(line, "memory fill=%u fillseed=%llu", &a, &u) == 2) {
      p.fill = a;
      p.fillseed = u;
    } else if (sscanf(line, "world nslots=%u ntasks=%u mask=%u family=%u", &a, &b, &c, &d) == 4) {
      p.nslots = a;
      p.ntasks = b;
      p.mask = c;
      p.family = d;
    } else if (sscanf(line, "sched %100s %llu %u", s, &u, &a) == 3) {
      p.randsched = !strcmp(s, "random");
      p.schedseed = u;
      p.swprob = a;
    } else if (!strncmp(line, "op ", 3)) {
      unsigned t, va, fa, la, en, ne, nk;
      int v, w;
      if (sscanf(line, "op task=%u %100s a=%u b=%u var=%u v=%d w=%d fault=%u late=%u env=%u nest=%u how=%u", &t, s, &a, &b, &va, &v, &w, &fa, &la, &en, &ne, &nk) != 12) {
        fclose(f);
        return false;
      }
      Op o;
      o.task = t;
      o.code = 255;
      for (int i = 0; i < O_COUNT; i++)
        if (!strcmp(op_name[i], s)) o.code = i;
      o.a = a;
      o.b = b;
      o.var = va;
      o.v = v;
      o.w = w;
      o.f = fa;
      o.late = la;
      o.env = en;
      o.nest = ne;
      o.nk = nk;
      p.ops.push_back(o);
    } else if (sscanf(line, "switch point=%u task=%u", &a, &b) == 2)
      p.sw.push_back({a, (uint8_t)b});
  }
  fclose(f);
  return true;
}
static const KindDesc *find_kind(std::string const &n) {
  for (auto &k : kinds())
    if (n == k.name) return &k;
  return nullptr;
}

// ------------------------------------------------------------------ execution
struct Outcome {
  int cls = V_NONE;
  int opidx = -1;
  uint64_t hash = 0;
  uint32_t nfired = 0;
  std::string msg;
  std::vector<std::pair<uint32_t, uint8_t>> sw;
  bool swoverflow = false;
  bool same(Outcome const &o) const { return cls == o.cls && hash == o.hash; }
};
static void arm_timer(bool on) {
  itimerval it{};
  it.it_value.tv_sec = on ? 5 : 0;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static SharedSlot *g_forkslot;
static uint64_t g_forks;
// Runs executed in the same process before the run under judgement. Normally empty: every run starts from
// a fresh world. Needed only to reproduce a failure that depends on state the library kept between runs.
static std::vector<Plan> g_prelude;
static Outcome exec_one(Plan p, bool trace = false) {
  Outcome r;
  const KindDesc *k = find_kind(p.kind);
  if (!k) {
    r.cls = V_HARNESS;
    r.msg = "unknown kind";
    return r;
  }
  g_forks++;
  memset((void *)g_forkslot, 0, sizeof *g_forkslot);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    SH = g_forkslot;
    static Stats scratch;
    S = &scratch;
    W.trace = trace;
    install_handlers();
    for (auto &q : g_prelude) {
      arm_timer(true);
      SH->stage = 2;
      if (const KindDesc *kq = find_kind(q.kind)) run_plan(q, *kq);
    }
    SH->stage = 0;
    arm_timer(true);
    run_plan(p, *k);
    SH->hash = W.hash;
    SH->nfired = W.nfired;
    SH->nsw = 0;
    for (auto &s : W.rec)
      if (SH->nsw < SharedSlot::MAXSW) SH->sw[SH->nsw++] = s;
    SH->stage = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  SharedSlot *s = g_forkslot;
  if (s->stage == 2) { // an earlier run failed: not what is being judged
    r.cls = V_NONE;
    return r;
  }
  if (s->cls == V_NONE && s->stage != 1) {
    r.cls = V_CRASH;
    r.msg = "process died";
    return r;
  }
  r.cls = s->cls;
  r.hash = s->hash;
  r.opidx = s->opidx;
  r.nfired = s->nfired;
  r.msg = s->msg;
  r.sw.assign(s->sw, s->sw + s->nsw);
  r.swoverflow = s->swoverflow;
  return r;
}
// What one run means for the property under check.
static bool stale_read(Outcome const &o) { return o.cls == V_PROTOCOL && o.msg.find("is_empty asked") != std::string::npos; }
static Outcome judge(int prop, Plan const &p, bool trace = false) {
  if (prop != C06) return exec_one(p, trace);
  Outcome first, bad;
  uint64_t h = 0;
  for (int f = 0; f < NFILL; f++) {
    Plan q = p;
    q.fill = f;
    if (trace) fprintf(stderr, "--- memory contents #%d\n", f);
    Outcome o = exec_one(q, trace);
    h = h * 31 + o.hash + o.cls;
    if (f == 0) first = o;
    else if (!o.same(first) && bad.cls == V_NONE) {
      bad = o;
      bad.cls = V_DIVERGE;
      bad.msg = "observations depend on the previous memory contents (contents #0: " + std::string(cls_name[first.cls]) + " " + first.msg +
                "; contents #" + std::to_string(f) + ": " + cls_name[o.cls] + " " + o.msg + ")";
      if (o.opidx < 0) bad.opidx = first.opidx;
    }
  }
  if (bad.cls == V_DIVERGE) {
    bad.hash = h;
    return bad;
  }
  // Asking memory in which neither flag nor value exists is a dependence on stale bytes, whatever came out of it.
  if (stale_read(first)) return first;
  first.cls = V_NONE; // violates something else, or nothing
  return first;
}
static Plan strip_faults(Plan p) {
  for (auto &o : p.ops) {
    o.f = 0;
    if (o.code == O_STORM) o.code = O_G_BOOL;
  }
  return p;
}
static Plan strip_switches(Plan p) {
  p.swprob = 0;
  p.sw.clear();
  return p;
}
static Plan strip_nested(Plan p) {
  for (auto &o : p.ops) o.nest = 0;
  return p;
}
static int opcode_of(Plan const &p, Outcome const &o) {
  if (o.opidx >= 0 && o.opidx < (int)p.ops.size()) return p.ops[o.opidx].code;
  return -1;
}
static bool attributed(int prop, Plan const &p, Outcome const &o) {
  if (o.cls == V_NONE || o.cls == V_HARNESS) return false;
  const KindDesc *k = find_kind(p.kind);
  int oc = opcode_of(p, o);
  if (prop == C09 && !g_prelude.empty()) return true; // depends on optionals that no longer exist
  auto needs_faults = [&] { return exec_one(strip_faults(p)).cls == V_NONE; };
  auto needs_switches = [&] { return exec_one(strip_switches(p)).cls == V_NONE; };
  auto needs_nested = [&] { return exec_one(strip_nested(p)).cls == V_NONE; };
  switch (prop) {
  case C01:
    return in(o.cls, {V_DOUBLE_CTOR, V_BAD_DTOR, V_USE_DEAD, V_LEAK, V_HEAP_LEAK, V_HEAP_BADFREE, V_TERMINATE, V_CRASH});
  case C02:
  case C03: return needs_faults();
  case C04: return is_monadic(oc) || needs_faults();
  case C05: return !in(o.cls, {V_PROTOCOL, V_RACE, V_FOREIGN, V_LEAK, V_HEAP_LEAK, V_DOUBLE_CTOR, V_BAD_DTOR});
  case C06: return o.cls == V_DIVERGE || stale_read(o);
  case C07:
    return (k->flags & KF_MANIP) && in(o.cls, {V_PROTOCOL, V_LEAK, V_DOUBLE_CTOR, V_BAD_DTOR, V_USE_DEAD, V_ENGAGED, V_CRASH, V_TERMINATE, V_ASSERTION});
  case C08: return in(o.cls, {V_CONSTWRITE, V_RACE, V_FOREIGN}) || needs_switches();
  case C09: return in(o.cls, {V_NEIGHBOUR, V_GUARD, V_RACE, V_FOREIGN}) || needs_switches() || needs_nested();
  case C10: return (oc >= 0 && is_quiet(oc)) || o.cls == V_PROGRESS || needs_faults();
  case C11: return o.cls == V_COMPARE || o.cls == V_HASH || (oc >= 0 && is_cmp(oc));
  case C12: return in(o.cls, {V_ASSERTION, V_NOASSERT});
  }
  return false;
}

// ------------------------------------------------------------------ minimisation
static Plan minimise(int prop, Plan p, Outcome const &o0, Outcome &res) {
  uint64_t start = g_forks;
  const int budget = 2500;
  int cls = o0.cls;
  res = o0;
  auto budget_left = [&] { return g_forks - start < (uint64_t)budget; };
  auto ok = [&](Plan const &q, Outcome &o) {
    if (!budget_left()) return false;
    o = judge(prop, q);
    if (o.cls != cls) return false;
    return attributed(prop, q, o);
  };
  auto attempt = [&](Plan const &q) {
    Outcome o;
    if (!ok(q, o)) return false;
    p = q;
    res = o;
    return true;
  };
  if (prop != C06 && p.randsched && !o0.swoverflow) { // freeze the schedule
    Plan q = p;
    q.randsched = false;
    q.sw = o0.sw;
    attempt(q);
  }
  if (p.randsched && p.swprob) {
    Plan q = p;
    q.swprob = 0;
    attempt(q);
  }
  if (res.opidx >= 0 && res.opidx + 1 < (int)p.ops.size() && p.ntasks == 1) {
    Plan q = p;
    q.ops.resize(res.opidx + 1);
    attempt(q);
  }
  bool progress = true;
  for (int round = 0; round < 4 && progress && budget_left(); round++) {
    progress = false;
    for (size_t n = std::max<size_t>(1, p.ops.size() / 2);; n /= 2) {
      for (size_t i = 0; i < p.ops.size() && p.ops.size() > 1;) {
        Plan q = p;
        size_t e = std::min(i + n, q.ops.size());
        q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
        if (q.ops.empty()) break;
        if (attempt(q)) progress = true;
        else i += n;
        if (!budget_left()) break;
      }
      if (n <= 1 || !budget_left()) break;
    }
    for (size_t n = std::max<size_t>(1, p.sw.size());; n /= 2) {
      for (size_t i = 0; i < p.sw.size();) {
        Plan q = p;
        size_t e = std::min(i + n, q.sw.size());
        q.sw.erase(q.sw.begin() + i, q.sw.begin() + e);
        if (attempt(q)) progress = true;
        else i += n;
        if (!budget_left()) break;
      }
      if (n <= 1 || !budget_left()) break;
    }
    for (size_t i = 0; i < p.ops.size(); i++) {
      if (p.ops[i].f) {
        Plan q = p;
        q.ops[i].f = 0;
        q.ops[i].late = 0;
        if (attempt(q)) progress = true;
      }
      if (p.ops[i].f && p.ops[i].late) {
        Plan q = p;
        q.ops[i].late = 0;
        if (attempt(q)) progress = true;
      }
    }
    while (p.ntasks > 1) {
      Plan q = p;
      q.ntasks--;
      if (!attempt(q)) break;
      progress = true;
    }
    while (p.nslots > 1) {
      Plan q = p;
      q.nslots--;
      if (!attempt(q)) break;
      progress = true;
    }
  }
  if (prop != C06 && p.fill) {
    Plan q = p;
    q.fill = 0;
    attempt(q);
  }
  for (size_t i = 0; i < p.ops.size(); i++) {
    auto simplify = [&](auto mem, int to) {
      if (p.ops[i].*mem == to) return;
      Plan q = p;
      q.ops[i].*mem = to;
      attempt(q);
    };
    simplify(&Op::nest, 0);
    if (!p.ops[i].nest) simplify(&Op::nk, 0);
    simplify(&Op::env, 0);
    simplify(&Op::v, 0);
    simplify(&Op::w, 0);
    simplify(&Op::var, 0);
    if (p.ntasks == 1) simplify(&Op::task, 0);
    simplify(&Op::b, 0);
    simplify(&Op::a, 0);
  }
  return p;
}

// A run failed in a worker but not alone: find the earlier runs of that worker it depends on.
static bool find_prelude(int prop, Plan const &p, uint64_t from, uint64_t idx, uint64_t stride, Outcome &o) {
  auto t0 = std::chrono::steady_clock::now();
  auto late = [&](double s) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > s; };
  std::vector<uint64_t> all;
  for (uint64_t i = from; i < idx; i += stride) all.push_back(i);
  auto fails = [&](std::vector<uint64_t> const &v) {
    g_prelude.clear();
    for (uint64_t i : v) g_prelude.push_back(gen(prop, i));
    o = exec_one(p);
    return o.cls != V_NONE;
  };
  std::vector<uint64_t> cur;
  bool found = false;
  for (size_t n = 1;; n *= 4) {
    if (n > all.size()) n = all.size();
    cur.assign(all.end() - n, all.end());
    if (n && fails(cur)) {
      found = true;
      break;
    }
    if (n >= all.size() || late(200)) break;
  }
  if (!found) {
    g_prelude.clear();
    return false;
  }
  for (size_t n = std::max<size_t>(1, cur.size() / 2);; n /= 2) {
    for (size_t i = 0; i < cur.size() && cur.size() > 1 && !late(120);) {
      auto v = cur;
      v.erase(v.begin() + i, v.begin() + std::min(i + n, v.size()));
      if (!v.empty() && fails(v)) cur = v;
      else i += n;
    }
    if (n <= 1 || late(120)) break;
  }
  return fails(cur);
}
static void minimise_prelude(int prop, Plan const &p, Outcome &res) {
  auto t0 = std::chrono::steady_clock::now();
  auto late = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 60; };
  int cls = res.cls;
  auto ok = [&] {
    Outcome o = exec_one(p);
    if (o.cls != cls) return false;
    res = o;
    return true;
  };
  for (size_t k = 0; k < g_prelude.size(); k++)
    for (size_t n = std::max<size_t>(1, g_prelude[k].ops.size() / 2);; n /= 2) {
      for (size_t i = 0; i < g_prelude[k].ops.size() && !late();) {
        Plan keep = g_prelude[k];
        auto &v = g_prelude[k].ops;
        v.erase(v.begin() + i, v.begin() + std::min(i + n, v.size()));
        if (!ok()) {
          g_prelude[k] = keep;
          i += n;
        }
      }
      if (n <= 1 || late()) break;
    }
}

// ------------------------------------------------------------------ search
static std::atomic<uint64_t> *g_bitmap;
static const uint64_t BITS = 1ull << 28;
static bool mark_distinct(uint64_t h) {
  uint64_t b = (h ^ (h >> 33)) & (BITS - 1);
  uint64_t m = 1ull << (b & 63);
  return !(g_bitmap[b >> 6].fetch_or(m, std::memory_order_relaxed) & m);
}
template <class T> static T *shmem(size_t n) {
  void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (T *)p;
}
static std::vector<int> g_kidx;
static void worker(int prop, int j, int jobs, uint64_t from, uint64_t runs, FILE *hashlog) {
  install_handlers();
  for (uint64_t i = from; i < runs; i += jobs) {
    SH->cur = i;
    Plan p = gen(prop, i);
    const KindDesc *k = find_kind(p.kind);
    arm_timer(true);
    S->runs++;
    S->kind_runs[(k - &kinds()[0]) & 127]++;
    uint32_t skipped0 = (uint32_t)S->skipped;
    uint64_t asserts0 = S->asserts_expected;
    if (prop == C06) {
      uint64_t h0 = 0;
      for (int f = 0; f < NFILL; f++) {
        p.fill = f;
        S->fillruns++;
        run_plan(p, *k);
        if (f == 0) h0 = W.hash;
        else if (W.hash != h0) violate(V_DIVERGE, "observations depend on the previous memory contents");
      }
    } else
      run_plan(p, *k);
    arm_timer(false);
    if (W.nfired) S->faulted_runs++;
    if (W.nswitch) S->switched_runs++;
    bool nontrivial = W.nfired || W.nswitch || S->asserts_expected != asserts0 || prop == C06;
    if (p.ops.size() - (S->skipped - skipped0) / (prop == C06 ? NFILL : 1) < 2) nontrivial = false;
    if (hashlog) fprintf(hashlog, "%llu %016llx %u\n", (unsigned long long)i, (unsigned long long)W.hash, W.npoints);
    if (mark_distinct(W.hash)) {
      S->distinct++;
      if (nontrivial) S->nontrivial_distinct++;
    }
  }
  if (hashlog) fclose(hashlog);
  _exit(0);
}
struct Cand {
  uint64_t idx;
  Plan plan;
  Outcome o;
  std::vector<Plan> prelude;
};
static std::string jesc(std::string const &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += c;
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string prop = "C01", out, replay, rdir = ".", config = "?", hashdir;
  uint64_t runs = 1000;
  int jobs = 8;
  bool trace = false, list = false;
  uint64_t show = ~0ull;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--prop") prop = nxt();
    else if (a == "--seed") g_seed = strtoull(nxt(), 0, 10);
    else if (a == "--stream") g_stream = strtoull(nxt(), 0, 10);
    else if (a == "--runs") runs = strtoull(nxt(), 0, 10);
    else if (a == "--jobs") jobs = atoi(nxt());
    else if (a == "--out") out = nxt();
    else if (a == "--replay") replay = nxt();
    else if (a == "--replaydir") rdir = nxt();
    else if (a == "--config") config = nxt();
    else if (a == "--hashes") hashdir = nxt();
    else if (a == "--trace") trace = true;
    else if (a == "--list") list = true;
    else if (a == "--show") show = strtoull(nxt(), 0, 10);
  }
  std::sort(kinds().begin(), kinds().end(), [](KindDesc const &a, KindDesc const &b) { return strcmp(a.name, b.name) < 0; });
  world_init();
  g_forkslot = shmem<SharedSlot>(1);
  if (list) {
    for (auto &k : kinds()) printf("%s flags=%u\n", k.name, k.flags);
    return 0;
  }
  if (!replay.empty()) {
    Plan p;
    std::string pr, ec;
    uint64_t eh = 0;
    if (!parse_plan(replay.c_str(), g_prelude, p, pr, ec, eh)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 2;
    }
    int P = atoi(pr.c_str() + 1);
    Outcome o = judge(P, p, trace);
    printf("REPLAY class=%s hash=%016llx op=%d %s\n", cls_name[o.cls], (unsigned long long)o.hash, o.opidx, o.msg.c_str());
    if (o.cls == V_NONE) return 0;
    if (cls_name[o.cls] == ec && o.hash == eh) return 1;
    printf("REPLAY differs from the recorded execution (%s %016llx)\n", ec.c_str(), (unsigned long long)eh);
    return 4;
  }
  g_prop = atoi(prop.c_str() + 1);
  if (show != ~0ull) {
    Plan p = gen(g_prop, show);
    printf("prop %s\n%s", prop.c_str(), plan_text(p).c_str());
    Outcome o = judge(g_prop, p, trace);
    printf("expect %s %016llx\n# %s\n", cls_name[o.cls], (unsigned long long)o.hash, o.msg.c_str());
    return 0;
  }
  if (jobs < 1) jobs = 1;
  if (jobs > 64) jobs = 64;
  g_bitmap = shmem<std::atomic<uint64_t>>(BITS / 64);
  Stats *stats = shmem<Stats>(jobs);
  SharedSlot *slots = shmem<SharedSlot>(jobs);
  auto t0 = std::chrono::steady_clock::now();
  std::vector<pid_t> pid(jobs, 0);
  std::vector<int> accepted(jobs, 0), rejected(jobs, 0);
  std::vector<uint64_t> began(jobs, 0);
  std::vector<Cand> cands;
  std::map<std::string, uint64_t> other; // violations that belong to other properties
  bool harness_bad = false, truncated = false;
  int nunexplained = 0;
  std::string harness_msg;
  auto start = [&](int j, uint64_t from) {
    slots[j].cls = V_NONE;
    slots[j].stage = 0;
    began[j] = from;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      SH = &slots[j];
      S = &stats[j];
      FILE *hl = nullptr;
      if (!hashdir.empty()) hl = fopen((hashdir + "/" + std::to_string(j)).c_str(), "a");
      worker(g_prop, j, jobs, from, runs, hl);
    }
    pid[j] = p;
  };
  for (int j = 0; j < jobs; j++) start(j, j);
  int alive = jobs;
  while (alive) {
    int st = 0;
    pid_t p = wait(&st);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    int j = -1;
    for (int q = 0; q < jobs; q++)
      if (pid[q] == p) j = q;
    if (j < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      alive--;
      continue;
    }
    uint64_t idx = slots[j].cur;
    Plan pl = gen(g_prop, idx);
    g_prelude.clear();
    Outcome o = judge(g_prop, pl);
    const KindDesc *k = find_kind(pl.kind);
    if (g_prop != C06 && o.cls == V_NONE && (nunexplained > 1 || !find_prelude(g_prop, pl, began[j], idx, jobs, o))) {
      nunexplained++; // an error only if nothing else is found
      harness_msg = "run " + std::to_string(idx) + " failed in the worker (" + cls_name[slots[j].cls] + ": " + slots[j].msg + ") but not in a fresh process";
    }
    if (o.cls == V_HARNESS || ((k->flags & KF_STD) && o.cls != V_NONE)) {
      harness_bad = true;
      harness_msg = "run " + std::to_string(idx) + " kind " + pl.kind + ": " + cls_name[o.cls] + " " + o.msg;
    } else if (attributed(g_prop, pl, o)) {
      cands.push_back({idx, pl, o, g_prelude});
      accepted[j]++;
    } else {
      other[std::string(cls_name[slots[j].cls])]++;
      rejected[j]++;
    }
    if (accepted[j] >= 2 || rejected[j] >= 400 || harness_bad || nunexplained > 20) {
      truncated = true;
      alive--;
      continue;
    }
    start(j, idx + jobs);
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  Stats T;
  memset(&T, 0, sizeof T);
  for (int j = 0; j < jobs; j++)
    for (size_t i = 0; i < sizeof(Stats) / 8; i++) ((uint64_t *)&T)[i] += ((uint64_t *)&stats[j])[i];
  int rc = 0;
  std::string vtext;
  if (harness_bad || (nunexplained && cands.empty())) {
    fprintf(stderr, "HARNESS ERROR: %s\n", harness_msg.c_str());
    rc = 2;
  } else if (!cands.empty()) {
    std::sort(cands.begin(), cands.end(), [](Cand const &a, Cand const &b) {
      return a.prelude.empty() != b.prelude.empty() ? a.prelude.empty() : a.idx < b.idx;
    });
    // the first candidate that passes all gates is reported
    for (size_t ci = 0; ci < cands.size() && ci < 6 && rc != 1; ci++) {
    Cand &c = cands[ci];
    g_prelude = c.prelude;
    // gate: the same execution twice
    Outcome again = judge(g_prop, c.plan);
    if (!again.same(c.o)) {
      fprintf(stderr, "HARNESS ERROR: run %llu is not repeatable (%s/%s)\n", (unsigned long long)c.idx, cls_name[c.o.cls], cls_name[again.cls]);
      rc = 2;
    } else {
      Outcome mo;
      Plan m = minimise(g_prop, c.plan, c.o, mo);
      minimise_prelude(g_prop, m, mo);
      std::string path = rdir + "/" + prop + "-" + config + "-seed" + std::to_string(g_seed) + "-run" + std::to_string(c.idx) + ".replay";
      FILE *f = fopen(path.c_str(), "w");
      if (!f) {
        perror(path.c_str());
        return 2;
      }
      fprintf(f, "# tiny-optional simulation replay\nprop %s\nconfig %s\n# found by seed %llu stream %llu run %llu (%zu operations before minimisation)\n", prop.c_str(), config.c_str(),
              (unsigned long long)g_seed, (unsigned long long)g_stream, (unsigned long long)c.idx, c.plan.ops.size());
      for (auto &q : g_prelude) fprintf(f, "# earlier in the same process:\n%s", plan_text(q).c_str());
      if (!g_prelude.empty()) fprintf(f, "# the failing run:\n");
      fprintf(f, "%sexpect %s %016llx\n# at operation %d: %s\n", plan_text(m).c_str(), cls_name[mo.cls], (unsigned long long)mo.hash, mo.opidx, mo.msg.c_str());
      fclose(f);
      // gate: a fresh process reproduces it from the file
      pid_t q = fork();
      if (q == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        unsetenv("SIM_REEXEC");
        execl("/proc/self/exe", "sim", "--replay", path.c_str(), (char *)nullptr);
        _exit(9);
      }
      int st = 0;
      waitpid(q, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
        fprintf(stderr, "HARNESS ERROR: replay of %s did not reproduce the violation\n", path.c_str());
        rc = 2;
      } else {
        rc = 1;
        printf("FOUND class=%s kind=%s config=%s run=%llu ops=%zu->%zu: %s\n", cls_name[mo.cls], m.kind.c_str(), config.c_str(), (unsigned long long)c.idx, c.plan.ops.size(),
               m.ops.size(), mo.msg.c_str());
        printf("REPLAYFILE %s\n", path.c_str());
        vtext = std::string(cls_name[mo.cls]) + " " + m.kind + " " + mo.msg;
      }
    }
    }
  }
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"rc\":%d,\"config\":\"%s\",\"seed\":%llu,\"jobs\":%d,\"wall_s\":%.3f,\"truncated\":%s,\"violation\":\"%s\",\"candidates\":%zu,\n", rc, config.c_str(), (unsigned long long)g_seed, jobs, wall,
            truncated ? "true" : "false", jesc(vtext).c_str(), cands.size());
    fprintf(f, "\"runs\":%llu,\"executions\":%llu,\"ops\":%llu,\"skipped\":%llu,\"points\":%llu,\"switches\":%llu,\"faulted_runs\":%llu,\"switched_runs\":%llu,\"distinct\":%llu,\"distinct_nontrivial\":%llu,"
               "\"bad_access\":%llu,\"asserts_expected\":%llu,\"fired_late\":%llu,\"reentrant\":%llu,\"unwinding\":%llu,\"in_handler\":%llu,\"nested\":%llu,\"mem_points\":%llu,\n",
            (unsigned long long)T.runs, (unsigned long long)(T.fillruns ? T.fillruns : T.runs), (unsigned long long)T.ops, (unsigned long long)T.skipped, (unsigned long long)T.points, (unsigned long long)T.switches,
            (unsigned long long)T.faulted_runs, (unsigned long long)T.switched_runs, (unsigned long long)T.distinct, (unsigned long long)T.nontrivial_distinct,
            (unsigned long long)T.badaccess, (unsigned long long)T.asserts_expected, (unsigned long long)T.fired_late, (unsigned long long)T.reentrant, (unsigned long long)T.unwinding, (unsigned long long)T.in_handler, (unsigned long long)T.nested, (unsigned long long)T.mem_points);
    static const char *const en[] = {"std::exception", "not a std::exception", "bad_alloc", "bad_optional_access", "bad_cast", "int"};
    fprintf(f, "\"exceptions\":{");
    for (int i = 0; i < ENV_EXC_N; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", en[i], (unsigned long long)T.exc[i]);
    fprintf(f, "},\n\"fired\":{");
    const char *sep = "";
    for (int i = 0; i < P_COUNT; i++)
      if (T.fired[i]) fprintf(f, "%s\"%s\":%llu", sep, pt_name[i], (unsigned long long)T.fired[i]), sep = ",";
    fprintf(f, "},\n\"ops_by_code\":{");
    sep = "";
    for (int i = 0; i < O_COUNT; i++)
      if (T.opcount[i] || T.opskip[i])
        fprintf(f, "%s\"%s\":[%llu,%llu,%llu]", sep, op_name[i], (unsigned long long)T.opcount[i], (unsigned long long)T.opfault[i], (unsigned long long)T.opskip[i]), sep = ",";
    fprintf(f, "},\n\"kinds\":{");
    sep = "";
    for (size_t i = 0; i < kinds().size() && i < 128; i++)
      if (T.kind_runs[i]) fprintf(f, "%s\"%s\":%llu", sep, kinds()[i].name, (unsigned long long)T.kind_runs[i]), sep = ",";
    fprintf(f, "},\n\"other_properties\":{");
    sep = "";
    for (auto &kv : other) fprintf(f, "%s\"%s\":%llu", sep, kv.first.c_str(), (unsigned long long)kv.second), sep = ",";
    fprintf(f, "},\n\"samples\":[");
    sep = "";
    for (uint64_t i : {(uint64_t)0, runs / 2}) {
      fprintf(f, "%s\"%s\"", sep, jesc("run " + std::to_string(i) + ": " + plan_text(gen(g_prop, i))).c_str());
      sep = ",";
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return rc;
}
