// Our own run-time for -fsanitize=thread instrumentation. It is not a race *monitor* of real threads: the tasks
// are simulated, and every instrumented access is a point where the seeded scheduler may switch tasks.
// The simulated tasks never synchronise with each other, so any conflicting pair of accesses is a race.
#include "../shared.h"
#include <algorithm>
#include <cstdio>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;

namespace {
struct Range {
  uintptr_t lo, hi;
};
Range lib_globals[4096];
unsigned nlib;
bool loaded;

// Does the (mangled) name belong to something declared inside the library?
bool is_lib_symbol(const char *n) {
  if (n[0] != '_' || n[1] != 'Z') return false;
  n += 2;
  if (!strncmp(n, "GV", 2)) return false; // guard variables: synchronised by the run-time
  if (!strncmp(n, "TV", 2) || !strncmp(n, "TI", 2) || !strncmp(n, "TS", 2)) return false;
  while (*n && strchr("ZNKVrLRO", *n)) n++;
  for (const char *own : {"3sim", "3run", "2pl", "3dom", "3cmp", "4cmpp", "12_GLOBAL__N_1"})
    if (!strncmp(n, own, strlen(own))) return false;
  if (strstr(n, "4tiny")) return true; // tiny::..., or std::hash<tiny::...> and the like
  return false;
}
void load_symbols() {
  loaded = true;
  int fd = open("/proc/self/exe", O_RDONLY);
  if (fd < 0) return;
  struct stat st;
  fstat(fd, &st);
  char *b = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  if (b == MAP_FAILED) return;
  auto *eh = (ElfW(Ehdr) *)b;
  uintptr_t bias = 0;
  if (eh->e_type == ET_DYN)
    dl_iterate_phdr(
        [](dl_phdr_info *i, size_t, void *d) {
          *(uintptr_t *)d = i->dlpi_addr;
          return 1;
        },
        &bias);
  auto *sh = (ElfW(Shdr) *)(b + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    auto *sy = (ElfW(Sym) *)(b + sh[i].sh_offset);
    size_t n = sh[i].sh_size / sizeof *sy;
    const char *str = b + sh[sh[i].sh_link].sh_offset;
    for (size_t k = 0; k < n; k++) {
      if ((sy[k].st_info & 15) != STT_OBJECT || !sy[k].st_size || !sy[k].st_shndx) continue;
      if (sh[sy[k].st_shndx].sh_flags & SHF_TLS) continue;
      if (!is_lib_symbol(str + sy[k].st_name)) continue;
      if (nlib < 4096) lib_globals[nlib++] = {bias + sy[k].st_value, bias + sy[k].st_value + sy[k].st_size};
    }
  }
  munmap(b, st.st_size);
  std::sort(lib_globals, lib_globals + nlib, [](Range a, Range b) { return a.lo < b.lo; });
}
bool in_lib_globals(uintptr_t a) {
  unsigned lo = 0, hi = nlib;
  while (lo < hi) {
    unsigned m = (lo + hi) / 2;
    if (lib_globals[m].hi <= a) lo = m + 1;
    else hi = m;
  }
  return lo < nlib && a >= lib_globals[lo].lo && a < lib_globals[lo].hi;
}

// shadow memory for everything that is neither an optional of the arena nor a stack
struct Cell {
  uintptr_t granule;
  uint64_t gen;
  uint8_t readers, writers;
};
enum { NCELL = 1 << 14 };
Cell cells[NCELL];
Cell *cell(uintptr_t g, uint64_t gen) {
  unsigned h = (unsigned)((g * 0x9e3779b97f4a7c15ull) >> 50) & (NCELL - 1);
  for (unsigned i = 0; i < 64; i++) {
    Cell &c = cells[(h + i) & (NCELL - 1)];
    if (c.gen != gen) {
      c = Cell{g, gen, 0, 0};
      return &c;
    }
    if (c.granule == g) return &c;
  }
  return nullptr;
}
uint64_t curgen;
int guard_depth[MAXT];

void shadow(uintptr_t a, size_t n, bool w, const char *what) {
  if (guard_depth[W.cur]) return;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    Cell *c = cell(g, curgen);
    if (!c) return;
    uint8_t me = (uint8_t)(1u << W.cur);
    if ((w && ((c->readers | c->writers) & ~me)) || (!w && (c->writers & ~me)))
      violate(V_RACE, "%s of %s conflicts with an unsynchronised access by another task", w ? "write" : "read", what);
    (w ? c->writers : c->readers) |= me;
  }
}

inline void access(const void *p, size_t n, bool w) {
  if (!W.active || !n) return;
  Ctx &c = C();
  if (!c.lib || c.pause || c.done) return;
  const char *a = (const char *)p;
  if (a >= c.slo && a < c.shi) return;
  enum { G = 64 };
  if (W.arena_lo && a + n > W.arena_lo - G && a < W.arena_hi + G) {
    if (a < W.arena_lo || a + n > W.arena_hi) violate(V_FOREIGN, "%s of %zu bytes outside of every optional", w ? "write" : "read", n);
    if (!c.quiet) point(P_MEM);
    S->mem_points++;
    for (size_t o : {(size_t)0, n - 1}) {
      uint32_t s = (uint32_t)((a + o - W.arena_lo) / W.slot_stride);
      if (W.slot_owner[s] == 0xff) {
        if (w) violate(V_CONSTWRITE, "write into a shared optional by an operation that must not modify it");
      } else if (W.slot_owner[s] != W.cur)
        violate(V_FOREIGN, "%s of optional #%u, which belongs to another task", w ? "write" : "read", s);
    }
    return;
  }
  if (W.ntasks < 2) return;
  for (int t = 0; t < W.ntasks; t++)
    if (t != W.cur && a >= W.ctx[t].slo && a < W.ctx[t].shi) violate(V_FOREIGN, "access to the stack of another task");
  if (in_lib_globals((uintptr_t)a)) {
    if (!c.quiet) point(P_MEM);
    S->mem_points++;
    shadow((uintptr_t)a, n, w, "static state of the library");
    return;
  }
}
} // namespace

namespace sim {
void race_new_run() {
  if (!loaded) load_symbols();
  curgen++;
  for (int t = 0; t < MAXT; t++) guard_depth[t] = 0;
}
} // namespace sim

extern "C" {
int __cxa_guard_acquire(long long *) noexcept;
int __real___cxa_guard_acquire(long long *) noexcept;
void __real___cxa_guard_release(long long *) noexcept;
void __real___cxa_guard_abort(long long *) noexcept;
int __wrap___cxa_guard_acquire(long long *g) noexcept {
  int r = __real___cxa_guard_acquire(g);
  if (r && W.active) guard_depth[W.cur]++;
  return r;
}
void __wrap___cxa_guard_release(long long *g) noexcept {
  if (W.active && guard_depth[W.cur]) guard_depth[W.cur]--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(long long *g) noexcept {
  if (W.active && guard_depth[W.cur]) guard_depth[W.cur]--;
  __real___cxa_guard_abort(g);
}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void **p, void *) { access(p, sizeof p, true); }
void __tsan_vptr_read(void **p) { access(p, sizeof p, false); }
#define RW(n)                                                      \
  void __tsan_read##n(void *p) { access(p, n, false); }            \
  void __tsan_write##n(void *p) { access(p, n, true); }            \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }  \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); }  \
  void __tsan_read_write##n(void *p) { access(p, n, true); }       \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }   \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  access(d, n, true);
  return memset(d, c, n);
}
int __real_memcmp(const void *a, const void *b, size_t n);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  access(a, n, false);
  access(b, n, false);
  return __real_memcmp(a, b, n);
}
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return __real_memcpy(d, s, n);
}
// Atomics synchronise; they are only scheduling points.
#define AT(bits, T)                                                                                                 \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }           \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { point(P_MEM); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { point(P_MEM); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { point(P_MEM); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { point(P_MEM); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { point(P_MEM); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }  \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { point(P_MEM); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { point(P_MEM); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) {                                 \
    point(P_MEM);                                                                                                   \
    __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                               \
    return c;                                                                                                       \
  }                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) {                           \
    point(P_MEM);                                                                                                   \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
  }                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) {                             \
    point(P_MEM);                                                                                                   \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
