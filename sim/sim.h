// Core of the deterministic simulator: choice stream, event log, fault
// counters, allocator and step accounting.  Nothing in here or in any scenario
// reads a clock, an address or any other source that differs between runs.
#ifndef SIM_H_
#define SIM_H_
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <new>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::string Str;

// ---------------------------------------------------------------- shared page
// Lives in a MAP_SHARED file, so the driver can read it after a crash.
struct Shared {
  u64 magic;
  u64 index;         // run being executed
  u64 running;       // 1 while a run is in progress
  u64 event_hash;    // hash of everything observable so far
  u64 nevents;
  u64 nchoices;
  u64 overflow;      // choices that did not fit
  u64 runs_done;
  u64 steps;         // simulated time of this run (library edges)
  u64 failed;        // 1: violation recorded
  char cls[64];      // class of the violation
  char msg[1024];
  u64 choices[1];    // [kMaxChoices]
};
static const u64 kMaxChoices = 1u << 21;
extern Shared* S;

// ---------------------------------------------------------------- choices
inline u64 splitmix(u64& x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull + b; return splitmix(x); }

// Bulk data is expanded from one drawn value by this generator.
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { return splitmix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
};

u64 draw(u64 n);                                  // [0,n), 0 = simplest
inline bool chance(u64 num, u64 den) { return draw(den) >= den - num; }
inline u64 draw_range(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }
inline u64 draw_seed() { return draw(1u << 30); }
u32 src_const(u64 k);
u64 src_const_count();
size_t draw_size(size_t max);                     // heavy tailed, boundary biased
template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

// ---------------------------------------------------------------- events
void ev(u64 v);
void evs(const char* p, size_t n);
inline void evs(const Str& s) { evs(s.data(), s.size()); }
extern bool g_verbose;
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace text
Str hex(const Str& s, size_t max = 64);

// ---------------------------------------------------------------- violations
struct SimFail {};
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void record_violation(const char* cls, const char* msg);  // does not throw
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK_PROP(cond, cls, ...) do { if (!(cond)) violate(cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- counters
int counter_id(const char* name);
extern u64 g_counters[512];
#define COUNT(name) do { static int id_ = counter_id(name); g_counters[id_]++; } while (0)
#define COUNTN(name, n) do { static int id_ = counter_id(name); g_counters[id_] += (n); } while (0)
extern bool g_nontrivial;   // the run exercised what it is about

// ---------------------------------------------------------------- environment
// Everything executed between Enter() and Leave() is library code under
// simulation: its allocations are counted and may fail, its steps are counted.
struct Env {
  int depth;
  // allocation accounting (blocks allocated while depth > 0)
  u64 allocs;            // number since reset
  u64 live_bytes, live_blocks, peak_bytes, max_request;
  // fault plan: fail when the countdown reaches zero; then every further one if sticky
  long long fail_in;     // <0: off
  bool fail_sticky;
  u64 fail_big;          // requests above this size always fail
  u64 failed_allocs, failed_big;
  int fill;              // byte for fresh memory, -1 none
  // steps
  u64 steps, step_limit;
  u64 bulk;              // bytes moved, set or compared in blocks by library code (builds that can see it)
  bool want_steps;
  uintptr_t stack_low;   // deepest stack position seen in library code
};
extern Env E;
void env_reset_run();
extern const bool g_asan;   // built with AddressSanitizer
struct Lib { int d; Lib() { d = E.depth++; } ~Lib() { E.depth = d; } };
struct NoLib { int d; NoLib() { d = E.depth; E.depth = 0; } ~NoLib() { E.depth = d; } };
// Give one library call a budget of simulated steps; exceeding it ends the run as a hang.
void budget(u64 steps);

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* id; void (*run)(); };
extern int g_tier;          // 0 quick, 1 thorough
extern const char* g_variant;
void silence_stderr_logging(bool on);
#endif
