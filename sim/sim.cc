#include "sim.h"
#include <stdarg.h>
#include <unistd.h>
#include <iostream>
#include <map>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif

#ifdef SIM_ASAN
const bool g_asan = true;
#else
const bool g_asan = false;
#endif
Shared* S;
bool g_verbose = false, g_nontrivial = false;
int g_tier = 0;
const char* g_variant = "";
u64 g_counters[512];
static std::vector<Str>* g_names;
static u64 g_rng_state;
static const u64* g_replay; static size_t g_replay_n; static bool g_is_replay;

int counter_id(const char* name) {
  NoLib nl;
  if (!g_names) g_names = new std::vector<Str>;
  for (size_t i = 0; i < g_names->size(); i++) if ((*g_names)[i] == name) return (int)i;
  if (g_names->size() >= 511) return 511;
  g_names->push_back(name);
  return (int)g_names->size() - 1;
}
const std::vector<Str>& counter_names() { counter_id("runs"); return *g_names; }

void choice_start_seed(u64 seed) { g_is_replay = false; g_rng_state = seed; }
void choice_start_replay(const u64* v, size_t n) { g_is_replay = true; g_replay = v; g_replay_n = n; }

u64 draw(u64 n) {
  if (n <= 1) n = 1;
  u64 v;
  if (g_is_replay) {
    v = S->nchoices < g_replay_n ? g_replay[S->nchoices] : 0;
    if (v >= n) v = n - 1;
  } else {
    v = splitmix(g_rng_state) % n;
  }
  if (S->nchoices < kMaxChoices) S->choices[S->nchoices] = v; else S->overflow++;
  S->nchoices++;
  return v;
}

// Sizes around which length encodings, blocks and buffers change.
static const u32 kEdges[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 19, 31, 32, 33, 34, 47, 48, 63, 64, 65, 127, 128, 129,
  254, 255, 256, 257, 272, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5551, 5552, 5553, 8191, 8192, 16383, 16384, 16385,
  32767, 32768, 65535, 65536, 65537, 131072, 262144, 1048575, 1048576, 2097151, 2097152, 2097153};
// Integer constants found in the library's source (see check.py).
#ifndef SIM_CONSTS
#define SIM_CONSTS 64
#endif
static const u32 kSrc[] = {SIM_CONSTS};
u32 src_const(u64 k) { return kSrc[k % (sizeof(kSrc) / sizeof(kSrc[0]))]; }
u64 src_const_count() { return sizeof(kSrc) / sizeof(kSrc[0]); }
size_t draw_size(size_t max) {
  size_t r;
  switch (draw(8)) {
    case 0: r = draw(8); break;
    case 1: r = draw(40); break;
    case 2: r = draw(200); break;
    case 3: r = kEdges[draw(sizeof(kEdges) / sizeof(kEdges[0]))]; break;
    case 4: if (draw(2)) { r = src_const(draw(src_const_count())); u64 k = draw(8); r = r * (k == 7 ? 2 + draw(3) : 1) + draw(3) - 1; } else r = draw(1000); break;
    case 5: { u64 b = draw(22); r = draw((u64)1 << b); break; }
    case 6: r = kEdges[draw(36)] + draw(5); break;
    default: r = 16 + draw(600); break;
  }
  return r > max ? (max ? r % (max + 1) : 0) : r;
}

void ev(u64 v) { S->event_hash = mix(S->event_hash ^ v, 0x51); S->nevents++; }
void evs(const char* p, size_t n) {
  u64 h = 0xcbf29ce484222325ull ^ n;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { u64 w; memcpy(&w, p + i, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  u64 w = 0; if (n > i) memcpy(&w, p + i, n - i);
  h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  ev(h);
}
void say(const char* fmt, ...) {
  if (!g_verbose) return;
  NoLib nl;
  // straight to descriptor 1: scenarios may have replaced stdout
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
  b[n++] = '\n'; if (write(1, b, (size_t)n) < 0) return;
}
Str hex(const Str& s, size_t max) {
  static const char* d = "0123456789abcdef"; Str r;
  for (size_t i = 0; i < s.size() && i < max; i++) { r += d[(u8)s[i] >> 4]; r += d[s[i] & 15]; }
  if (s.size() > max) r += "...";
  return r;
}

void record_violation(const char* cls, const char* msg) {
  if (S->failed) return;
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  snprintf(S->msg, sizeof S->msg, "%s", msg);
  S->failed = 1;
}
void violate(const char* cls, const char* fmt, ...) {
  E.depth = 0; E.fail_in = -1;
  char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  record_violation(cls, buf);
  throw SimFail();
}
void harness_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stdout, "HARNESS-ERROR "); vfprintf(stdout, fmt, ap); va_end(ap);
  fprintf(stdout, " (index %llu)\n", (unsigned long long)S->index); fflush(stdout);
  _exit(3);
}

// ---------------------------------------------------------------- environment
Env E = {0, 0, 0, 0, 0, 0, -1, false, ~0ull, 0, 0, -1, 0, ~0ull, 0, false, ~(uintptr_t)0};
void env_reset_run() {
  E.depth = 0; E.allocs = 0; E.peak_bytes = E.live_bytes = 0; E.live_blocks = 0; E.max_request = 0;
  E.fail_in = -1; E.fail_sticky = false; E.fail_big = (u64)3 << 30; E.failed_allocs = E.failed_big = 0; E.fill = -1;
  E.steps = E.bulk = 0; E.step_limit = ~0ull; E.stack_low = ~(uintptr_t)0;
}
void budget(u64 steps) { E.step_limit = E.steps + steps; }
static u32 g_epoch = 1;      // blocks of earlier runs are not counted
void env_new_epoch() { g_epoch = (g_epoch + 1) & 0x3fffffff; }

struct Hdr { u64 size; u32 tag; u32 epoch; };   // tag: 'N' new, 'A' new[]; bit 31 of epoch: counted
static void* sim_alloc(size_t n, u32 tag);
extern "C" void sim_sched_point(int kind) __attribute__((weak));
static inline void* raw_alloc(size_t n) {
#ifdef SIM_BUMP
  extern void* sim_bump(size_t);
  return sim_bump(n);
#else
  return malloc(n);
#endif
}
static void* sim_alloc(size_t n, u32 tag) {
  bool counted = E.depth > 0;
  if (sim_sched_point && counted) sim_sched_point(3);
  if (n > E.fail_big || n > ((u64)3 << 30)) { if (counted) { E.failed_big++; E.failed_allocs++; if (n > E.max_request) E.max_request = n; } throw std::bad_alloc(); }
  if (counted) {
    E.allocs++;
    if (n > E.max_request) E.max_request = n;
    if (E.fail_in >= 0) {
      if (E.fail_in == 0) {
        E.failed_allocs++;
        if (!E.fail_sticky) E.fail_in = -1;
        throw std::bad_alloc();
      }
      E.fail_in--;
    }
  }
  Hdr* h = (Hdr*)raw_alloc(n + sizeof(Hdr));
  if (!h) throw std::bad_alloc();
  h->size = n; h->tag = tag; h->epoch = counted ? (g_epoch | 0x80000000u) : 0;
  if (counted) {
    E.live_bytes += n; E.live_blocks++;
    if (E.live_bytes > E.peak_bytes) E.peak_bytes = E.live_bytes;
    if (E.fill >= 0) {
      NoLib nl;
      if (n <= 65536) memset(h + 1, E.fill, n);
      else { memset(h + 1, E.fill, 32768); memset((char*)(h + 1) + n - 32768, E.fill, 32768); }
    }
  }
#ifdef SIM_ASAN
  ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
  return h + 1;
}
static void sim_free(void* p, u32 tag) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
#ifdef SIM_ASAN
  // The header is poisoned, so a foreign or already freed pointer is still reported by free().
  if (!__asan_address_is_poisoned(h)) { free(p); return; }
  ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
#endif
  if (h->tag != tag) {
    record_violation("memory", "block released with the wrong operator delete, or twice, or corrupted header");
    _exit(44);
  }
  if (h->epoch == (g_epoch | 0x80000000u)) { E.live_bytes -= h->size; E.live_blocks--; }
  h->tag = 0xDEADDEAD;
#ifdef SIM_BUMP
  memset(p, 0xDD, h->size < 65536 ? h->size : 65536);
#else
  free(h);
#endif
}
void* operator new(size_t n) { return sim_alloc(n, 'N'); }
void* operator new[](size_t n) { return sim_alloc(n, 'A'); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_alloc(n, 'N'); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_alloc(n, 'A'); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { sim_free(p, 'N'); }
void operator delete[](void* p) noexcept { sim_free(p, 'A'); }
void operator delete(void* p, size_t) noexcept { sim_free(p, 'N'); }
void operator delete[](void* p, size_t) noexcept { sim_free(p, 'A'); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p, 'N'); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p, 'A'); }

// ---------------------------------------------------------------- coverage
u32 g_nguards = 0;
u8 g_edge[1 << 16];
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32* start, u32* stop) {
  if (start == stop || *start) return;
  for (u32* x = start; x < stop; x++) *x = (++g_nguards) & 0xffff;
}
static __attribute__((noinline, noreturn)) void out_of_steps() {
  if (S) record_violation("hang", "a library call exceeded its budget of simulated steps");
  _exit(43);
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32* guard) {
  u8& c = g_edge[*guard];
  if (c != 255) c++;
  if (++E.steps > E.step_limit) out_of_steps();
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (sp < E.stack_low) E.stack_low = sp;
#ifdef SIM_BUMP
  if (E.depth > 0) sim_sched_point(0);
#endif
}
// Moving data in blocks: 16 bytes count as one step.
static inline void bulk(size_t n) {
  if (E.depth <= 0 || n < 64) return;
  E.bulk += n; E.steps += n / 16;
  if (E.steps > E.step_limit) out_of_steps();
}
extern "C" {
void* __real_memcpy(void*, const void*, size_t) __attribute__((weak)); void* __real_memmove(void*, const void*, size_t) __attribute__((weak));
void* __real_memset(void*, int, size_t) __attribute__((weak)); int __real_memcmp(const void*, const void*, size_t) __attribute__((weak));
void* __wrap_memcpy(void* d, const void* s, size_t n) { bulk(n); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { bulk(n); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { bulk(n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { bulk(n); return __real_memcmp(a, b, n); }
}
u64 edge_signature(u32* nedges) {
  u64 h = 1; u32 n = 0;
  u32 m = g_nguards < 65535 ? g_nguards + 1 : 65536;
  for (u32 i = 0; i < m; i++) if (g_edge[i]) {
    u8 c = g_edge[i]; int b = c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : c < 128 ? 7 : 8;
    h = mix(h, (u64)i * 16 + b); n++;
  }
  *nedges = n;
  return h;
}
void edge_clear() { memset(g_edge, 0, g_nguards < 65535 ? g_nguards + 1 : 65536); }

void silence_stderr_logging(bool on) {
  if (on) std::cerr.setstate(std::ios::failbit); else std::cerr.clear();
}
