// C10: several threads over one shared dictionary, under a scheduler that owns every interleaving.
// The threads are real, but exactly one runs at any time; control can move to another one at every
// control-flow edge, memory access, allocation and lock operation of the library, as decided by the
// choice stream.  Every run is a process of its own, so that first use of the library is first use.
#include "api.h"
#include <algorithm>
#include <map>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern bool g_fork_each;
static bool g_init = (g_fork_each = true);

// ---------------------------------------------------------------- memory at fixed places, never reused
static char* const kArena = (char*)0x200000000000ull;
static const size_t kArenaSize = (size_t)4 << 30, kRunOffset = (size_t)1 << 30;
static char* g_bump; static bool g_bump_ready;
void* sim_bump(size_t n) {
  if (!g_bump_ready) {
    void* p = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != kArena) { fprintf(stderr, "arena\n"); _exit(3); }
    g_bump = kArena; g_bump_ready = true;
  }
  n = (n + 31) & ~(size_t)15;                     // a gap after every block
  if (g_bump + n > kArena + kArenaSize) return 0;
  char* r = g_bump; g_bump += n; return r;
}

// ---------------------------------------------------------------- scheduler
static const int kMaxT = 4;
struct Th { pthread_t t; sem_t sem; bool alive; bool waiting; int depth; void* stack; };
static Th T[kMaxT + 1];
static int g_n, g_cur = -1;            // g_cur: running thread, -1 outside the concurrent phase
static sem_t g_main;
static long long g_quantum; static u64 g_switches, g_conflicts, g_preempt; static bool g_in_sched;
static const u64 kMaxSwitches = 6000, kMaxConflictDraws = 2500;
static u64 g_order;                     // hash of the interleaving
static int g_policy;

static void new_quantum() {
  if (g_switches > kMaxSwitches) { g_quantum = 50000; return; }
  static const int lim[] = {6, 10, 14, 18, 20};
  u64 k = draw(lim[g_policy]); g_quantum = 1 + (long long)draw((u64)1 << k);
}
static void hand_over(int to) {         // called by the running thread; returns when it runs again
  int me = g_cur; if (to == me) return;
  g_switches++; g_order = mix(g_order, ((u64)me << 48) ^ ((u64)to << 40) ^ E.steps);
  T[me].depth = E.depth;
  g_cur = to;
  sem_post(&T[to].sem);
  while (sem_wait(&T[me].sem) != 0) {}
  E.depth = T[me].depth;
}
static int pick_other(int me, bool must) {
  int c[kMaxT], n = 0;
  for (int i = 0; i < g_n; i++) if (T[i].alive && i != me) c[n++] = i;
  if (!n) return me;
  if (must && n == 1) return c[0];
  return c[g_switches > kMaxSwitches ? g_switches % n : draw(n)];
}
static void preempt() {
  g_in_sched = true; int d = E.depth; E.depth = 0;
  g_preempt++;
  int to = pick_other(g_cur, false); new_quantum();
  E.depth = d;
  g_in_sched = false;
  hand_over(to);
}
extern "C" void sim_sched_point(int) {
  if (g_cur < 0 || g_in_sched) return;
  if (--g_quantum > 0) return;
  preempt();
}
// A thread that cannot continue (lock held by another).
static void block_here() {
  g_in_sched = true; int d = E.depth; E.depth = 0;
  T[g_cur].waiting = true; bool any = false;
  for (int i = 0; i < g_n; i++) if (T[i].alive && !T[i].waiting) any = true;
  if (!any) { record_violation("deadlock", "every thread waits for a lock"); _exit(42); }
  COUNT("sched.blocked-on-lock");
  int c[kMaxT], n = 0; for (int i = 0; i < g_n; i++) if (T[i].alive && !T[i].waiting) c[n++] = i;
  int to = c[n == 1 ? 0 : g_switches > kMaxSwitches ? g_switches % n : draw(n)];
  new_quantum(); E.depth = d; g_in_sched = false;
  hand_over(to);
  T[g_cur].waiting = false;
}
static void wake_all() { for (int i = 0; i < g_n; i++) T[i].waiting = false; }

// Memory accesses: addresses touched by several threads, one of them writing, are where order matters.
struct Acc { uintptr_t a; u8 readers, writers; };
static const u32 kAccSize = 1 << 18; static Acc g_acc[kAccSize]; static u32 g_acc_n;
static char* const kStacks = (char*)0x210000000000ull; static const size_t kStackSize = 512 << 10;
static void access(const void* p, bool write) {
  if (g_cur < 0 || g_in_sched || E.depth <= 0) return;
  uintptr_t a = (uintptr_t)p;
  if (a >= (uintptr_t)kStacks && a < (uintptr_t)kStacks + (kMaxT + 1) * kStackSize) return;
  a >>= 2;
  u32 h = (u32)mix(a, 7) & (kAccSize - 1);
  while (g_acc[h].a && g_acc[h].a != a) h = (h + 1) & (kAccSize - 1);
  if (!g_acc[h].a) { if (g_acc_n > kAccSize / 2) return; g_acc_n++; g_acc[h].a = a; }
  Acc& x = g_acc[h]; u8 me = (u8)(1u << g_cur), others = (u8)~me;
  bool conflict = write ? ((x.readers | x.writers) & others) != 0 : (x.writers & others) != 0;
  if (write) x.writers |= me; else x.readers |= me;
  if (conflict) {
    g_conflicts++;
    if (g_conflicts < kMaxConflictDraws) { g_in_sched = true; int d = E.depth; E.depth = 0; bool now = draw(3) == 2; E.depth = d; g_in_sched = false; if (now) { COUNT("sched.preempt-at-conflict"); preempt(); return; } }
  }
  sim_sched_point(1);
}
#define ACC(n) extern "C" void __sanitizer_cov_load##n(const void* p) { access(p, false); } extern "C" void __sanitizer_cov_store##n(const void* p) { access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

// ---------------------------------------------------------------- locks
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __real_pthread_once(pthread_once_t*, void (*)()); extern "C" int __real_sched_yield();
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); extern "C" int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
extern "C" int __real___cxa_guard_acquire(u64*); extern "C" void __real___cxa_guard_release(u64*); extern "C" void __real___cxa_guard_abort(u64*);
static bool sim_on() { return g_cur >= 0 && !g_in_sched; }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!sim_on()) return __real_pthread_mutex_lock(m);
  preempt();
  for (;;) { int r = __real_pthread_mutex_trylock(m); if (r != EBUSY) return r; block_here(); }
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (sim_on()) preempt(); return __real_pthread_mutex_trylock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (sim_on()) { wake_all(); preempt(); } return r; }
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!sim_on()) return __real_pthread_rwlock_rdlock(m);
  preempt();
  for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; block_here(); }
}
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!sim_on()) return __real_pthread_rwlock_wrlock(m);
  preempt();
  for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; block_here(); }
}
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); if (sim_on()) { wake_all(); preempt(); } return r; }
static std::map<void*, int>& once_state() { static std::map<void*, int>* m = new std::map<void*, int>; return *m; }   // 1 running 2 done
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  // also outside the concurrent phase, so that both agree
  if (sim_on()) preempt();
  for (;;) {
    int s; { NoLib nl; bool g = g_in_sched; g_in_sched = true; int& st = once_state()[o]; s = st; if (!s) st = 1; g_in_sched = g; }
    if (s == 2) return 0;
    if (s == 0) break;
    block_here();
  }
  try { f(); } catch (...) { { NoLib nl; once_state()[o] = 0; } wake_all(); throw; }
  { NoLib nl; once_state()[o] = 2; } wake_all();
  return 0;
}
extern "C" int __wrap___cxa_guard_acquire(u64* g) {
  if (!sim_on()) return __real___cxa_guard_acquire(g);
  preempt();
  for (;;) {
    if (*(volatile char*)g) return 0;
    int s; { NoLib nl; bool q = g_in_sched; g_in_sched = true; int& st = once_state()[g]; s = st; if (!s) st = 1; g_in_sched = q; }
    if (s != 1) return 1;
    block_here();
  }
}
extern "C" void __wrap___cxa_guard_release(u64* g) { if (!sim_on()) { __real___cxa_guard_release(g); return; } *(volatile char*)g = 1; { NoLib nl; once_state()[g] = 2; } wake_all(); preempt(); }
extern "C" void __wrap___cxa_guard_abort(u64* g) { if (!sim_on()) { __real___cxa_guard_abort(g); return; } { NoLib nl; once_state()[g] = 0; } wake_all(); }
extern "C" int __wrap_sched_yield() { if (sim_on()) { preempt(); return 0; } return __real_sched_yield(); }

// ---------------------------------------------------------------- programs of the threads
struct Job { int kind; int flags; bool tm; Str dict, data; std::vector<size_t> cuts; bool shared; bool reuse; };
struct Prog { std::vector<Job> jobs; std::vector<Str> results; };
static std::vector<Prog>* P; static const HashedDictionary* g_shared;

static Str run_job(const Job& j, const HashedDictionary* shared) {
  Str out; bool ok = true;
  Lib l;
  switch (j.kind) {
    case 0: {   // streaming encoder
      HashedDictionary* own = 0; const HashedDictionary* h = shared;
      if (!j.shared) { own = new HashedDictionary(j.dict.data(), j.dict.size()); ok = own->Init(); h = own; }
      {
        VCDiffStreamingEncoder e(h, (open_vcdiff::VCDiffFormatExtensionFlags)j.flags, j.tm);
        for (int k = 0; k < (j.reuse ? 2 : 1); k++) {
          size_t pos = 0; ok = e.StartEncoding(&out) && ok;
          for (size_t i = 0; i < j.cuts.size(); i++) { ok = e.EncodeChunk(j.data.data() + pos, j.cuts[i], &out) && ok; pos += j.cuts[i]; }
          ok = e.FinishEncoding(&out) && ok;
        }
      }
      delete own; break;
    }
    case 1: {   // streaming decoder
      VCDiffStreamingDecoder d; size_t pos = 0; d.StartDecoding(j.dict.data(), j.dict.size());
      for (size_t i = 0; i < j.cuts.size() && ok; i++) { ok = d.DecodeChunk(j.data.data() + pos, j.cuts[i], &out); pos += j.cuts[i]; }
      ok = d.FinishDecoding() && ok; break;
    }
    case 2: { VCDiffEncoder e(j.dict.data(), j.dict.size()); e.SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)j.flags); e.SetTargetMatching(j.tm); ok = e.Encode(j.data.data(), j.data.size(), &out); break; }
    default: { VCDiffDecoder d; ok = d.Decode(j.dict.data(), j.dict.size(), j.data, &out); break; }
  }
  out.push_back(ok ? '1' : '0');
  return out;
}
static void run_prog(Prog* p, const HashedDictionary* shared, std::vector<Str>* res) {
  for (size_t i = 0; i < p->jobs.size(); i++) {
    try { res->push_back(run_job(p->jobs[i], shared)); }
    catch (std::exception& e) { E.depth = 0; res->push_back(Str("exception ") + e.what()); }
  }
}
static void* thread_main(void* arg) {
  int me = (int)(intptr_t)arg;
  while (sem_wait(&T[me].sem) != 0) {}
  E.depth = 0;
  run_prog(&(*P)[me], g_shared, &(*P)[me].results);
  // finished: pass the baton on
  g_in_sched = true; E.depth = 0; T[me].alive = false; wake_all();
  int n = 0; for (int i = 0; i < g_n; i++) n += T[i].alive;
  if (!n) { g_cur = -1; g_in_sched = false; sem_post(&g_main); return 0; }
  int to = pick_other(me, true); new_quantum(); g_switches++; g_order = mix(g_order, ((u64)me << 48) ^ ((u64)to << 40) ^ E.steps);
  g_cur = to; g_in_sched = false;
  sem_post(&T[to].sem);
  return 0;
}

static void c10() {
  g_bump = kArena + kRunOffset;
  default_table();
  E.fill = (int)draw(256);
  g_n = 2 + (int)draw(3); g_policy = (int)draw(5);
  bool ascii = chance(1, 4), warm = chance(1, 3);
  size_t cap = chance(1, 40) ? 30000 : chance(1, 4) ? 3000 : 500;
  Str sdict = draw_dict(cap, ascii); if (sdict.size() < 40 && chance(3, 4)) sdict += gen_bytes(200, 1, draw_seed());
  if (ascii) for (size_t i = 0; i < sdict.size(); i++) sdict[i] &= 0x7f;
  std::vector<Prog> progs(g_n); P = &progs; bool need_shared = false;
  bool same = chance(1, 4);    // all threads do the same
  for (int i = 0; i < g_n; i++) {
    if (i && same) { progs[i].jobs = progs[0].jobs; continue; }
    int nj = 1 + (int)draw(2);
    while (nj--) {
      Job j; j.kind = (int)draw(6); if (j.kind > 3) j.kind = 0;
      j.flags = draw_flags() | (ascii && chance(1, 2) ? 4 : 0); j.tm = chance(1, 2); j.shared = j.kind == 0 && !chance(1, 4); j.reuse = chance(1, 6);
      j.dict = chance(1, 2) || j.shared ? sdict : draw_dict(cap, ascii);
      if (j.kind == 0 || j.kind == 2) { j.data = draw_target(j.dict, cap, ascii); j.cuts = draw_cuts(j.data.size(), 0, true, 6); if (j.shared) need_shared = true; }
      else { BuildOpts o; o.max_target = cap / 2; o.max_windows = 3; Built b = build_delta(j.dict, o); j.data = b.delta; j.cuts = draw_cuts(j.data.size(), &b.marks, true, 12); if (chance(1, 8)) { Str w; j.data = damage(j.data, 0, &w); j.cuts = whole(j.data.size()); } }
      progs[i].jobs.push_back(j);
    }
  }
  static const char* const names[] = {"streaming encoder", "streaming decoder", "one-call encoder", "one-call decoder"};
  if (g_verbose) {
    say("%d threads, shared dictionary %zu bytes, %s start, policy %d", g_n, sdict.size(), warm ? "warm" : "cold", g_policy);
    for (int i = 0; i < g_n; i++) for (size_t k = 0; k < progs[i].jobs.size(); k++) { Job& j = progs[i].jobs[k]; say("thread %d: %s %s%s, %zu bytes as %s", i, names[j.kind], flags_name(j.flags, j.tm).c_str(), j.shared ? ", shared dictionary" : "", j.data.size(), cuts_text(j.cuts).c_str()); }
  }
  // The serial results, from a process of their own.
  std::vector<std::vector<Str> > expect(g_n);
  {
    int fd[2]; if (pipe(fd)) harness_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      HashedDictionary* h = 0; if (need_shared) { Lib l; h = new HashedDictionary(sdict.data(), sdict.size()); h->Init(); }
      Str all;
      for (int i = 0; i < g_n; i++) { std::vector<Str> r; run_prog(&progs[i], h, &r); for (size_t k = 0; k < r.size(); k++) { u64 n = r[k].size(); all.append((char*)&n, 8); all += r[k]; } }
      size_t off = 0; while (off < all.size()) { ssize_t w = write(fd[1], all.data() + off, all.size() - off); if (w <= 0) break; off += (size_t)w; }
      _exit(0);
    }
    close(fd[1]); Str all; char b[65536]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t)n);
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violate("crash", "the serial execution crashed");
    size_t off = 0;
    for (int i = 0; i < g_n; i++) for (size_t k = 0; k < progs[i].jobs.size(); k++) { u64 len; if (off + 8 > all.size()) harness_error("serial result"); memcpy(&len, all.data() + off, 8); off += 8; expect[i].push_back(all.substr(off, len)); off += len; }
  }
  HashedDictionary* h = 0; char *b0 = g_bump, *b1 = g_bump;
  if (need_shared) { Lib l; h = new HashedDictionary(sdict.data(), sdict.size()); b0 = (char*)h; if (!h->Init()) violate("init", "Init failed"); b1 = g_bump; }
  Str image(b0, (size_t)(b1 - b0));
  g_shared = h;
  if (warm) { Job j; j.kind = 0; j.flags = 3; j.tm = true; j.shared = false; j.reuse = false; j.dict = gen_bytes(200, 1, 1); j.data = j.dict + "x"; j.cuts = whole(j.data.size()); run_job(j, 0); COUNT("start.warm"); } else COUNT("start.cold");
  E.step_limit = E.steps + 1000000000ull;
  // concurrent phase
  sem_init(&g_main, 0, 0);
  if (mmap(kStacks, (kMaxT + 1) * kStackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != kStacks) harness_error("stacks");
  g_switches = g_conflicts = g_preempt = 0; g_order = 0; g_in_sched = false;
  for (int i = 0; i < g_n; i++) {
    T[i].alive = true; T[i].waiting = false; T[i].depth = 0; sem_init(&T[i].sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, kStacks + i * kStackSize, kStackSize);
    if (pthread_create(&T[i].t, &at, thread_main, (void*)(intptr_t)i)) harness_error("pthread_create");
  }
  int first = (int)draw(g_n); new_quantum();
  g_cur = first; sem_post(&T[first].sem);
  while (sem_wait(&g_main) != 0) {}
  for (int i = 0; i < g_n; i++) pthread_join(T[i].t, 0);
  E.depth = 0; E.step_limit = ~0ull;
  say("%llu context switches, %llu accesses to words written by another thread", (unsigned long long)g_switches, (unsigned long long)g_conflicts);
  COUNTN("sched.context-switches", g_switches); COUNTN("sched.conflicting-accesses", g_conflicts); COUNTN("sched.preemptions", g_preempt);
  if (g_switches > (u64)g_n) g_nontrivial = true;
  ev(g_order); ev(g_conflicts);
  for (int i = 0; i < g_n; i++) for (size_t k = 0; k < expect[i].size(); k++) {
    evs(progs[i].results[k]);
    CHECK_PROP(progs[i].results[k] == expect[i][k], "not-serial", "thread %d: the result of its %s (job %zu) differs from running alone (%zu bytes instead of %zu; last status %c instead of %c)", i, names[progs[i].jobs[k].kind], k,
               progs[i].results[k].size(), expect[i][k].size(), progs[i].results[k].empty() ? '?' : *progs[i].results[k].rbegin(), *expect[i][k].rbegin());
  }
  CHECK_PROP(memcmp(image.data(), b0, image.size()) == 0, "dictionary-modified", "the shared dictionary was modified");
  if (h) { Lib l; delete h; }
}

Scenario kScenarios[] = {{"C10", c10}, {0, 0}};
void warm_up() {}
