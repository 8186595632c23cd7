// sim <property> run    --seed S --start I --stride K --count N --time SEC --shared F --stats F
// sim <property> replay --file F --shared F [--verbose]
// sim <property> shrink --file F --out F --shared F --time SEC
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

const std::vector<Str>& counter_names();
void choice_start_seed(u64 seed);
void choice_start_replay(const u64* v, size_t n);
void env_new_epoch();
u64 edge_signature(u32* nedges);
void edge_clear();
extern u32 g_nguards;
extern Scenario kScenarios[];
void warm_up();
bool g_check_leaks = false;      // set by scenarios that claim it
bool g_fork_each = false;        // every run in a process of its own (fresh statics)

static const Scenario* find(const char* id) {
  for (Scenario* s = kScenarios; s->id; s++) if (!strcmp(s->id, id)) return s;
  return 0;
}
static void map_shared(const char* path) {
  size_t n = sizeof(Shared) + kMaxChoices * 8;
  int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, n) != 0) { perror(path); exit(3); }
  S = (Shared*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED) { perror("mmap"); exit(3); }
  close(fd);
  S->magic = 0x53494d31;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void begin_run() {
  S->event_hash = 0; S->nevents = 0; S->nchoices = 0; S->overflow = 0; S->steps = 0; S->failed = 0; S->cls[0] = S->msg[0] = 0;
  env_reset_run(); env_new_epoch(); edge_clear(); g_nontrivial = false; g_check_leaks = false;
  S->running = 1;
}
static void scenario_body(const Scenario* sc) {
  try {
    sc->run();
  } catch (SimFail&) {
  } catch (std::bad_alloc&) {
    E.depth = 0; record_violation("exception", "unexpected std::bad_alloc");
  } catch (std::exception& e) {
    E.depth = 0; record_violation("exception", e.what());
  } catch (...) {
    E.depth = 0; record_violation("exception", "unknown exception");
  }
  E.depth = 0; E.fail_in = -1; E.step_limit = ~0ull;
}
static void exec_run(const Scenario* sc) {
  scenario_body(sc);
  if (!S->failed && g_check_leaks && E.live_blocks) {
    // A table that is built once and kept for the life of the process is not a leak: only what leaks again is.
    u64 blocks = E.live_blocks, bytes = E.live_bytes;
    std::vector<u64> ch(S->choices, S->choices + std::min<u64>(S->nchoices, kMaxChoices));
    u64 h = S->event_hash;
    begin_run(); choice_start_replay(ch.data(), ch.size());
    scenario_body(sc);
    if (!S->failed && E.live_blocks) {
      char b[200]; snprintf(b, sizeof b, "%llu blocks (%llu bytes) obtained by the library are still allocated after all objects were destroyed",
                            (unsigned long long)E.live_blocks, (unsigned long long)E.live_bytes);
      record_violation("leak", b);
    }
    (void)blocks; (void)bytes; (void)h;
  }
  S->steps = E.steps;
  S->running = 0;
  ev(S->failed); if (S->failed) evs(S->cls, strlen(S->cls));
}

typedef std::vector<std::vector<u64> > Segments;
static bool read_segments(const char* path, Segments* out) {
  FILE* f = fopen(path, "r"); if (!f) { perror(path); return false; }
  char* line = 0; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (strncmp(line, "run ", 4) != 0 && strcmp(line, "run\n") != 0) continue;
    std::vector<u64> v; char* p = line + 3;
    for (;;) { while (*p == ' ') p++; if (*p < '0' || *p > '9') break; v.push_back(strtoull(p, &p, 10)); }
    out->push_back(v);
  }
  free(line); fclose(f);
  return !out->empty();
}
static void write_segments(FILE* f, const Segments& s) {
  for (size_t i = 0; i < s.size(); i++) { fputs("run", f); for (size_t k = 0; k < s[i].size(); k++) fprintf(f, " %llu", (unsigned long long)s[i][k]); fputc('\n', f); }
}
// Executes the segments in this process; the last one is the run that counts.
static void exec_segments(const Scenario* sc, const Segments& s) {
  for (size_t i = 0; i < s.size(); i++) {
    begin_run(); S->index = i;
    choice_start_replay(s[i].data(), s[i].size());
    if (i + 1 < s.size() && g_fork_each) continue;
    exec_run(sc);
    if (i + 1 < s.size() && S->failed) { return; }
  }
}
// Runs in a child; returns the class of the violation ("" if none).
static Str try_segments(const Scenario* sc, const Segments& s, double limit) {
  S->failed = 0; S->running = 0; S->cls[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    exec_segments(sc, s);
    _exit(S->failed ? 42 : 0);
  }
  double t0 = now(); int st = 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "timeout"; }
    usleep(200);
  }
  if (S->failed) return S->cls;
  if (WIFSIGNALED(st)) return "crash";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return "harness";
  return "crash";
}

static void shrink(const Scenario* sc, Segments s, const char* out, double time_limit) {
  double t0 = now();
  Str cls = try_segments(sc, s, 60);
  u64 tried = 0;
  auto emit = [&](const Segments& x) {
    Str tmp = Str(out) + ".tmp"; FILE* f = fopen(tmp.c_str(), "w"); if (!f) return;
    write_segments(f, x); fclose(f); rename(tmp.c_str(), out);
  };
  if (cls.empty() || cls == "timeout" || cls == "harness") { printf("shrink: input does not fail (%s)\n", cls.c_str()); emit(s); return; }
  auto ok = [&](const Segments& x) { tried++; return try_segments(sc, x, 30) == cls; };
  auto left = [&]() { return now() - t0 < time_limit; };
  // trailing choices beyond what was consumed are irrelevant
  for (size_t k = 0; k + 1 < s.size() && left();) { Segments x = s; x.erase(x.begin() + k); if (ok(x)) s = x; else k++; }
  std::vector<u64>* v = &s.back();
  {
    Segments x = s; while (!x.back().empty() && x.back().back() == 0) x.back().pop_back();
    if (ok(x)) { s = x; } v = &s.back();
  }
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // drop blocks
    for (size_t len = v->size() / 2 ? v->size() / 2 : 1; len >= 1 && left(); len /= 2) {
      for (size_t i = 0; i + len <= v->size() && left();) {
        Segments x = s; x.back().erase(x.back().begin() + i, x.back().begin() + i + len);
        if (ok(x)) { s = x; v = &s.back(); progress = true; } else i += len;
      }
      if (len == 1) break;
    }
    // zero blocks
    for (size_t len = v->size() / 2 ? v->size() / 2 : 1; len >= 1 && left(); len /= 2) {
      for (size_t i = 0; i + len <= v->size() && left(); i += len) {
        bool any = false; for (size_t k = i; k < i + len; k++) if ((*v)[k]) any = true;
        if (!any) continue;
        Segments x = s; for (size_t k = i; k < i + len; k++) x.back()[k] = 0;
        if (ok(x)) { s = x; v = &s.back(); progress = true; }
      }
      if (len == 1) break;
    }
    // smaller values
    for (size_t i = 0; i < v->size() && left(); i++) {
      u64 lo = 0, hi = (*v)[i];
      for (int it = 0; it < 40 && lo < hi && left(); it++) {
        u64 mid = lo + (hi - lo) / 2;
        Segments x = s; x.back()[i] = mid;
        if (ok(x)) { s = x; v = &s.back(); hi = mid; progress = true; } else lo = mid + 1;
      }
    }
    while (!v->empty() && v->back() == 0) { Segments x = s; x.back().pop_back(); if (!ok(x)) break; s = x; v = &s.back(); }
  }
  // Final form must still fail the same way.
  if (try_segments(sc, s, 60) != cls) { printf("shrink: unstable\n"); }
  emit(s);
  printf("shrink: class=%s choices=%zu segments=%zu candidates=%llu\n", cls.c_str(), s.back().size(), s.size(), (unsigned long long)tried);
}

int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage\n"); return 3; }
  const char* id = argv[1]; Str mode = argv[2];
  { Str self = argv[0]; if (self.size() > 5 && self.compare(self.size() - 5, 5, ".fork") == 0) g_fork_each = true; }
  u64 seed = 1, start = 0, stride = 1, count = 1; double tlimit = 1e9; const char *shared = 0, *stats = 0, *file = 0, *out = 0;
  for (int i = 3; i < argc; i++) {
    Str a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") seed = strtoull(v, 0, 10), i++;
    else if (a == "--start") start = strtoull(v, 0, 10), i++;
    else if (a == "--stride") stride = strtoull(v, 0, 10), i++;
    else if (a == "--count") count = strtoull(v, 0, 10), i++;
    else if (a == "--time") tlimit = atof(v), i++;
    else if (a == "--shared") shared = v, i++;
    else if (a == "--stats") stats = v, i++;
    else if (a == "--file") file = v, i++;
    else if (a == "--out") out = v, i++;
    else if (a == "--variant") g_variant = v, i++;
    else if (a == "--tier") g_tier = atoi(v), i++;
    else if (a == "--verbose") g_verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  const Scenario* sc = find(id);
  if (!sc) { fprintf(stderr, "no scenario %s\n", id); return 3; }
  signal(SIGPIPE, SIG_IGN);
  map_shared(shared ? shared : "/tmp/sim-shared");
  silence_stderr_logging(true);
  u64 idh = 0; for (const char* p = id; *p; p++) idh = idh * 131 + (u8)*p;
  env_reset_run();
  if (!g_fork_each) warm_up();

  if (mode == "replay") {
    Segments s; if (!read_segments(file, &s)) return 3;
    exec_segments(sc, s);
    printf("replay hash=%016llx failed=%llu class=%s choices=%llu steps=%llu\n", (unsigned long long)S->event_hash, (unsigned long long)S->failed, S->cls,
           (unsigned long long)S->nchoices, (unsigned long long)S->steps);
    if (S->failed) { printf("violation: %s: %s\n", S->cls, S->msg); return 42; }
    return 0;
  }
  if (mode == "shrink") {
    Segments s; if (!read_segments(file, &s)) return 3;
    shrink(sc, s, out, tlimit);
    return 0;
  }
  // run
  if (g_fork_each) {   // threads that hand over to each other do so faster on one CPU
    cpu_set_t all, one; CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 0) {
      int k = (int)(start % CPU_COUNT(&all)); CPU_ZERO(&one);
      for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_SET(c, &one); break; }
      if (count > 1) sched_setaffinity(0, sizeof one, &one);
    }
  }
  double t0 = now();
  std::unordered_set<u64> sigs, states; u64 done = 0, nontriv = 0, steps = 0, events = 0, choices = 0;
  std::vector<u8> ever(65536, 0);
  extern u8 g_edge[];
  Str hashes; u64 chain = 0; char b[160];
  int rc = 0;
  for (u64 k = 0; k < count; k++) {
    u64 idx = start + k * stride;
    begin_run(); S->index = idx;
    choice_start_seed(mix(mix(seed, idh), idx));
    if (g_fork_each) {
      struct Res { u64 sig, nontriv, steps; u64 counters[512]; u8 edge[65536]; u32 nnames; char names[256][48]; };
      static Res* res = 0;
      if (!res) { res = (Res*)mmap(0, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
      counter_names();
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        exec_run(sc);
        u32 ne; res->sig = edge_signature(&ne); res->nontriv = g_nontrivial; res->steps = E.steps;
        memcpy(res->counters, g_counters, sizeof g_counters); memcpy(res->edge, g_edge, 65536);
        const std::vector<Str>& nm = counter_names(); res->nnames = 0;
        for (size_t i = 0; i < nm.size() && i < 256; i++) { snprintf(res->names[i], 48, "%s", nm[i].c_str()); res->nnames++; }
        _exit(S->failed ? 42 : 0);
      }
      int st = 0; double w0 = now();
      for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - w0 > 120) { kill(pid, SIGKILL); waitpid(pid, &st, 0); if (!S->failed) record_violation("hang", "run did not finish"); break; }
        usleep(100);
      }
      if (WIFSIGNALED(st) && !S->failed) { printf("crash signal=%d\n", WTERMSIG(st)); rc = 45; }
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) rc = 3;
      else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42 && !S->failed) rc = 45;
      if (rc) break;
      for (u32 i = 0; i < res->nnames; i++) counter_id(res->names[i]);
      memcpy(g_counters, res->counters, sizeof g_counters); memcpy(g_edge, res->edge, 65536);
      E.steps = res->steps; g_nontrivial = res->nontriv;
    } else {
      exec_run(sc);
    }
    if (S->overflow) harness_error("choice list overflow");
    u32 ne; u64 sig = edge_signature(&ne);
    for (u32 e = 0; e <= g_nguards && e < 65536; e++) ever[e] |= g_edge[e] != 0;
    done++; steps += E.steps; events += S->nevents; choices += S->nchoices;
    states.insert(S->event_hash);
    if (g_nontrivial) { nontriv++; sigs.insert(sig); }
    chain = mix(chain, S->event_hash);
    if (k < 40) { snprintf(b, sizeof b, "%s[%llu,\"%016llx\"]", hashes.empty() ? "" : ",", (unsigned long long)idx, (unsigned long long)S->event_hash); hashes += b; }
    S->runs_done = done;
    if (S->failed) { printf("violation index=%llu class=%s: %s\n", (unsigned long long)idx, S->cls, S->msg); rc = 42; break; }
    if ((k & 7) == 7 || g_fork_each || E.steps > 1000000) if (now() - t0 > tlimit) break;
  }
  if (stats) {
    FILE* f = fopen(stats, "w");
    if (f) {
      u32 cov = 0; for (u32 e = 0; e < 65536; e++) cov += ever[e];
      fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"events\":%llu,\"choices\":%llu,\"edges\":%u,\"edges_total\":%u,\"chain\":\"%016llx\",\"hashes\":[%s],\"counters\":{",
              (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)events, (unsigned long long)choices,
              cov, g_nguards, (unsigned long long)chain, hashes.c_str());
      const std::vector<Str>& nm = counter_names();
      for (size_t i = 0; i < nm.size(); i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", nm[i].c_str(), (unsigned long long)g_counters[i]);
      fprintf(f, "},\"sigs\":[");
      bool first = true; for (u64 s : sigs) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(s >> 11)); first = false; }
      fprintf(f, "],\"distinct_histories\":%zu}\n", states.size());
      fclose(f);
    }
  }
  printf("done runs=%llu\n", (unsigned long long)done);
  fflush(stdout);
  _exit(rc);
}
