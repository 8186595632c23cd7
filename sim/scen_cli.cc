// C12, C13: the real vcdiff command on a simulated disk and simulated standard streams.
// The command's main() runs unmodified; fopen() and the standard streams lead to streams whose
// reads, writes, seeks and closes are decided here.
#include "api.h"
#include <algorithm>
#include <ctype.h>
#include <errno.h>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>

#include <gflags/gflags.h>

int vcdiff_real_main(int argc, char** argv);
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_remove(const char*);
extern "C" int __real_unlink(const char*);
extern "C" int __real_rename(const char*, const char*);
extern "C" int __real_truncate(const char*, off_t);
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __real__exit(int) __attribute__((noreturn));
extern "C" void __real_abort() __attribute__((noreturn));

namespace {
enum FaultKind { F_OPEN, F_SEEK, F_READ, F_WRITE, F_CLOSE, F_STORE, F_ROT, F_TELL, F_SHRINK };
struct Fault {
  int kind; Str path; u64 at; bool sticky;   // at: nth open / nth seek / byte offset of a read or write
  int err; u64 value; bool fired;
  Fault() : kind(0), at(0), sticky(false), err(EIO), value(0), fired(false) {}
};
struct Handle;
struct Disk {
  std::map<Str, Str> files;
  std::list<std::map<Str, Str>::node_type> gone;   // deleted files
  Str in, out;                    // standard input and output
  std::map<Str, int> opens, seeks, tells;
  std::set<Handle*> open;
  std::vector<Fault> faults;
  int split;                      // how reads are cut: 0 whole, 1 random, 2 one byte, 3 halves
  int bufmode; size_t bufsize;
  Rng rng;
  bool dead;                      // the process died: nothing more reaches the disk
  u64 ops;
  long long arm_alloc;            // allocation that fails, counted from the first file opened
  Str last_read_delta;            // contents of the delta when it was last opened for reading
  Disk() : split(0), bufmode(-1), bufsize(0), rng(1), dead(false), ops(0), arm_alloc(-1) {}
};
Disk* D;
struct Handle { Str path; bool write; u64 pos; FILE* f; Str* data; bool seekable; char* vbuf; };

Fault* hit(int kind, const Str& path, u64 at, u64 len = 0) {
  for (size_t i = 0; i < D->faults.size(); i++) {
    Fault& f = D->faults[i];
    if (f.kind != kind || f.path != path) continue;
    if (f.fired && !f.sticky) continue;
    bool now = (f.fired && f.sticky) || (len ? (f.at >= at && f.at < at + len) || (kind == F_READ && f.at == at) : f.at == at);
    if (!now) continue;
    return &f;
  }
  return 0;
}
void fire(Fault* f) {
  static const char* const names[] = {"fault.open-error", "fault.seek-error", "fault.read-error", "fault.write-error", "fault.close-error", "fault.silent-corruption", "fault.bit-rot", "fault.tell-error", "fault.file-shrinks"};
  if (!f->fired) { g_counters[counter_id(names[f->kind])]++; ev(1000 + f->kind); say("  [disk] %s on %s at %llu", names[f->kind], f->path.c_str(), (unsigned long long)f->at); }
  f->fired = true; errno = f->err;
}
ssize_t c_read(void* c, char* buf, size_t n) {
  NoLib nl; Handle* h = (Handle*)c; D->ops++;
  u64 size = h->data->size(), left = h->pos < size ? size - h->pos : 0;
  u64 want = std::min<u64>(n, left);
  if (want) switch (D->split) {
    case 1: want = 1 + D->rng.below(want); break;
    case 2: want = 1; break;
    case 3: want = (want + 1) / 2; break;
    case 4: if (D->rng.below(2)) want = 1 + D->rng.below(want); break;
  }
  if (want < std::min<u64>(n, left)) COUNT("io.short-read");
  for (size_t i = 0; i < D->faults.size(); i++) if (D->faults[i].kind == F_SHRINK && D->faults[i].path == h->path && h->pos + want > D->faults[i].at) {
    if (h->pos >= D->faults[i].at) { fire(&D->faults[i]); want = 0; } else want = D->faults[i].at - h->pos;   // the end comes sooner than its size said
  }
  if (Fault* f = hit(F_READ, h->path, h->pos, want)) {
    if (f->at > h->pos && !f->fired) want = f->at - h->pos;      // deliver what precedes the bad place first
    else { fire(f); return -1; }
  }
  memcpy(buf, h->data->data() + h->pos, want); h->pos += want;
  return (ssize_t)want;
}
ssize_t c_write(void* c, const char* buf, size_t n) {
  NoLib nl; Handle* h = (Handle*)c; D->ops++;
  if (D->dead) return (ssize_t)n;
  if (!h->write) { errno = EBADF; return 0; }
  Str d(buf, n); size_t take = n; Fault* f = hit(F_WRITE, h->path, h->pos, n);
  if (f) { take = f->fired ? 0 : (size_t)(f->at - h->pos); fire(f); if (take) COUNT("io.torn-write"); }
  if (Fault* g = hit(F_STORE, h->path, h->pos, n)) { if (g->at - h->pos < take) { fire(g); d[g->at - h->pos] ^= (char)(g->value ? g->value : 1); } }
  if (h->data->size() < h->pos) h->data->resize(h->pos);
  h->data->replace(h->pos, std::min<u64>(take, h->data->size() - h->pos), d.data(), take);
  h->pos += take;
  if (f) { errno = f->err; return take ? (ssize_t)take : 0; }   // glibc treats a short count as an error
  return (ssize_t)n;
}
int c_seek(void* c, off64_t* off, int whence) {
  NoLib nl; Handle* h = (Handle*)c; D->ops++;
  if (!h->seekable) { errno = ESPIPE; return -1; }
  if (Fault* f = hit(F_SEEK, h->path, D->seeks[h->path])) { D->seeks[h->path]++; fire(f); return -1; }
  D->seeks[h->path]++;
  long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long long)h->pos : (long long)h->data->size();
  if (base + *off < 0) { errno = EINVAL; return -1; }
  h->pos = (u64)(base + *off); *off = (off64_t)h->pos;
  return 0;
}
int c_close(void* c) {
  NoLib nl; Handle* h = (Handle*)c; D->ops++;
  int r = 0;
  if (!D->dead && h->write) if (Fault* f = hit(F_CLOSE, h->path, 0)) {
    fire(f); r = -1;
    if (f->value && !h->data->empty()) h->data->resize(f->value % h->data->size());   // data that was cached is lost
  }
  D->open.erase(h); delete h;
  return r;
}
FILE* make_stream(const Str& path, Str* data, bool write, bool seekable, bool append, bool both = false) {
  Handle* h = new Handle; h->path = path; h->data = data; h->write = write; h->pos = append ? data->size() : 0; h->seekable = seekable; h->vbuf = 0;
  cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
  FILE* f = fopencookie(h, both ? "r+" : write ? "w" : "r", io);
  if (!f) harness_error("fopencookie");
  h->f = f; D->open.insert(h);
  if (D->bufmode >= 0) setvbuf(f, 0, D->bufmode, D->bufsize);
  return f;
}
FILE* sim_fopen(const char* path, const char* mode) {
  NoLib nl; D->ops++;
  if (D->arm_alloc >= 0) { E.fail_in = D->arm_alloc; D->arm_alloc = -1; }
  Str p(path); bool both = strchr(mode, '+') != 0, write = mode[0] != 'r';
  int nth = D->opens[p]++;
  say("  [disk] open %s %s", path, mode);
  if (Fault* f = hit(F_OPEN, p, (u64)nth)) { fire(f); return 0; }
  if (!write) for (size_t i = 0; i < D->faults.size(); i++) {
    Fault& f = D->faults[i];
    if (f.kind == F_ROT && f.path == p && !f.fired && (u64)nth == f.value >> 32) {
      Str& d = D->files[p];
      fire(&f);
      u32 v = (u32)f.value;
      if (!d.empty()) { if (v & 256) d.resize(v & 128 ? (v & 64 ? 0 : std::min<size_t>(d.size(), 5)) : f.at % d.size()); else if (v & 512) d.push_back((char)v); else d[f.at % d.size()] ^= (char)((v & 255) ? v : 1); } else d = "?";
    }
  }
  if (write) { if (mode[0] == 'w') D->files[p].clear(); }
  else if (!D->files.count(p)) { errno = ENOENT; return 0; }
  if (p == "/sim/delta" && !write) D->last_read_delta = D->files[p];
  return make_stream(p, &D->files[p], write || both, true, mode[0] == 'a', both);
}
struct ExitNow { int status; };
}  // namespace

extern "C" FILE* __wrap_fopen(const char* p, const char* m) { return E.depth > 0 && D ? sim_fopen(p, m) : __real_fopen(p, m); }
extern "C" long __real_ftell(FILE*);
extern "C" long __wrap_ftell(FILE* f) {
  if (E.depth > 0 && D) {
    NoLib nl;
    for (Handle* h : D->open) if (h->f == f) {
      if (!h->seekable) { errno = ESPIPE; return -1; }
      if (Fault* x = hit(F_TELL, h->path, D->tells[h->path]++)) { fire(x); return -1; }
    }
  }
  return __real_ftell(f);
}
extern "C" off_t __wrap_ftello(FILE* f) { return __wrap_ftell(f); }
extern "C" off64_t __wrap_ftello64(FILE* f) { return __wrap_ftell(f); }
// Deleted and replaced files stay readable through handles that are open.
static int sim_remove(const Str& p) {
  NoLib nl; D->ops++;
  auto i = D->files.find(p); if (i == D->files.end()) { errno = ENOENT; return -1; }
  say("  [disk] remove %s", p.c_str()); D->gone.push_back(D->files.extract(i)); return 0;
}
extern "C" int __wrap_remove(const char* p) { return E.depth > 0 && D ? sim_remove(p) : __real_remove(p); }
extern "C" int __wrap_unlink(const char* p) { return E.depth > 0 && D ? sim_remove(p) : __real_unlink(p); }
extern "C" int __wrap_rename(const char* a, const char* b) {
  if (!(E.depth > 0 && D)) return __real_rename(a, b);
  NoLib nl; auto i = D->files.find(a); if (i == D->files.end()) { errno = ENOENT; return -1; }
  say("  [disk] rename %s to %s", a, b); if (!strcmp(a, b)) return 0;
  auto n = D->files.extract(i); if (D->files.count(b)) sim_remove(b);
  n.key() = b; D->files.insert(std::move(n)); return 0;
}
extern "C" int __wrap_truncate(const char* p, off_t n) {
  if (!(E.depth > 0 && D)) return __real_truncate(p, n);
  NoLib nl; auto i = D->files.find(p); if (i == D->files.end()) { errno = ENOENT; return -1; }
  say("  [disk] truncate %s", p); i->second.resize((size_t)n); return 0;
}
extern "C" FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
extern "C" void __wrap_exit(int s) { if (E.depth > 0 && D) throw ExitNow{s & 255}; __real_exit(s); }
extern "C" void __wrap__exit(int s) { if (E.depth > 0 && D) { D->dead = true; throw ExitNow{s & 255}; } __real__exit(s); }
extern "C" void __wrap_abort() { if (E.depth > 0 && D) { D->dead = true; throw ExitNow{134}; } __real_abort(); }

namespace {
struct Opts {
  Str cmd; bool checksum, interleaved, json, tm, stats, allow_target; u64 buf, max_file, max_window; bool in_std, out_std;
  Opts() : checksum(false), interleaved(false), json(false), tm(false), stats(false), allow_target(true), buf(1 << 20), max_file(1 << 26), max_window(1 << 26), in_std(false), out_std(false) {}
};
struct Outcome { int status; Str out; u64 ops; };

int run_args(Disk* disk, std::vector<Str> a, long long fail_alloc);
// What the process says on its standard error (fixed space, so that saying it needs no memory).
struct ErrBuf : std::streambuf {
  char b[16384]; size_t n;
  ErrBuf() : n(0) {}
  int overflow(int c) { if (c != EOF && n < sizeof b) b[n++] = (char)c; return 0; }
  std::streamsize xsputn(const char* p, std::streamsize k) { size_t m = std::min((size_t)k, sizeof b - n); memcpy(b + n, p, m); n += m; return k; }
  // is the number said, standing alone?
  bool says(u64 v) const {
    char t[32]; size_t l = (size_t)snprintf(t, sizeof t, "%llu", (unsigned long long)v);
    for (size_t i = 0; i + l <= n; i++) {
      if (memcmp(b + i, t, l) != 0) continue;
      auto part = [&](size_t k) { return k < n && (isdigit((u8)b[k]) || b[k] == '.'); };
      if (!(i && part(i - 1)) && !(part(i + l) && !(b[i + l] == '.' && (i + l + 1 >= n || !isdigit((u8)b[i + l + 1]))))) return true;
    }
    return false;
  }
};
ErrBuf g_err;
// std::cout of the process is its standard output
struct OutBuf : std::streambuf {
  int overflow(int c) { return c == EOF ? 0 : fputc(c, stdout); }
  std::streamsize xsputn(const char* p, std::streamsize k) { return (std::streamsize)fwrite(p, 1, (size_t)k, stdout); }
  int sync() { return fflush(stdout); }
};
// Runs one process: returns its exit status; what was stored is in the disk afterwards.
// Options that have their documented default value may be left out.
int run_cli(Disk* disk, const Opts& o, long long fail_alloc = -1) {
  std::vector<Str> a; char b[64]; u64 leave_out = chance(1, 2) ? draw(512) : 0; int bit = 0;
  auto flag = [&](const char* n, bool v, bool def) { if ((leave_out >> bit++ & 1) && v == def) return; a.push_back(Str(v ? "--" : "--no") + n); };
  auto num = [&](const char* n, u64 v, u64 def) { if ((leave_out >> bit++ & 1) && v == def) return; snprintf(b, sizeof b, "--%s=%llu", n, (unsigned long long)v); a.push_back(b); };
  bool enc = o.cmd == "encode" || o.cmd == "delta" || o.cmd == "test", tst = o.cmd == "test";
  a.push_back("vcdiff");
  bool first = chance(1, 2);
  if (first) a.push_back(o.cmd);
  a.push_back("--dictionary=/sim/dict");
  bool t_std = !tst && (enc ? o.in_std : o.out_std), d_std = !tst && (enc ? o.out_std : o.in_std);
  if (!t_std) a.push_back("--target=/sim/target"); else if (draw(2)) a.push_back("--target=");
  if (!d_std) a.push_back("--delta=/sim/delta"); else if (draw(2)) a.push_back("--delta=");
  num("buffersize", o.buf, 1 << 20); flag("allow_vcd_target", o.allow_target, true); flag("checksum", o.checksum, false); flag("interleaved", o.interleaved, false);
  flag("json", o.json, false); flag("stats", o.stats, false); flag("target_matches", o.tm, false); num("max_target_file_size", o.max_file, 1 << 26); num("max_target_window_size", o.max_window, 1 << 26);
  if (!first) a.push_back(o.cmd);
  return run_args(disk, a, fail_alloc);
}
int run_args(Disk* disk, std::vector<Str> a, long long fail_alloc) {
  gflags::FlagSaver defaults;             // every process starts from the default values
  std::vector<char*> argv; for (size_t i = 0; i < a.size(); i++) argv.push_back(&a[i][0]); argv.push_back(0);
  int argc = (int)a.size();
  if (g_verbose) { Str l; for (size_t i = 0; i < a.size(); i++) l += a[i] + " "; say("$ %s", l.c_str()); }

  D = disk; D->dead = false;
  FILE *rin = stdin, *rout = stdout;
  FILE *sin = make_stream("stdin", &D->in, false, false, false), *sout = make_stream("stdout", &D->out, true, false, false);
  int status = 0; bool crashed = false; Str what;
  budget(400000000ull);
  {
    OutBuf cout_buf; g_err.n = 0;
    struct Std { FILE *i, *o; std::streambuf *eb, *ob; std::ios::iostate es, os;
      ~Std() { stdin = i; stdout = o; std::cerr.rdbuf(eb); std::cout.rdbuf(ob); std::cerr.clear(es); std::cout.clear(os); } }
      restore = {rin, rout, std::cerr.rdbuf(), std::cout.rdbuf(), std::cerr.rdstate(), std::cout.rdstate()};
    stdin = sin; stdout = sout; std::cerr.rdbuf(&g_err); std::cout.rdbuf(&cout_buf);   // clears their states
    D->arm_alloc = fail_alloc;
    try { Lib l; char** av = argv.data(); status = vcdiff_real_main(argc, av) & 255; }
    catch (ExitNow& e) { status = e.status; }
    catch (std::exception& e) { crashed = true; what = e.what(); }   // the real process would be terminated by SIGABRT
    E.depth = 0; E.fail_in = -1; E.step_limit = ~0ull;
  }
  if (crashed) { D->dead = true; status = 134; }
  // what exit() does: flush and close whatever is still open
  std::vector<FILE*> rest; for (Handle* h : D->open) rest.push_back(h->f);
  std::sort(rest.begin(), rest.end(), [](FILE* x, FILE* y) { return x < y; });
  for (size_t i = 0; i < rest.size(); i++) fclose(rest[i]);
  ev(status); evs(D->out); for (auto& f : D->files) evs(f.second);
  if (g_verbose && g_err.n) say("  stderr: %.*s", (int)std::min<size_t>(g_err.n, 300), g_err.b);
  say("  exit status %d%s%s", status, crashed ? " terminated by exception " : "", what.c_str());
  COUNT("process.runs"); if (status) COUNT("process.nonzero-exit");
  D = 0;
  return status;
}
void draw_io(Disk* d) {
  d->split = (int)draw(5); d->rng = Rng(draw_seed());
  switch (draw(4)) {
    case 0: d->bufmode = -1; break;
    case 1: d->bufmode = _IOFBF; d->bufsize = 1 + draw(64); break;
    case 2: d->bufmode = _IONBF; d->bufsize = 0; break;
    default: d->bufmode = _IOFBF; d->bufsize = (size_t)512 << draw(5); break;
  }
}
u64 draw_buf(u64 n) {
  switch (draw(7)) {
    case 0: return 1 << 20;
    case 1: return 1;
    case 2: return n ? n : 1;
    case 3: return n + 1;
    case 4: return n > 1 ? n - 1 : 1;
    case 5: return 1 + draw(n + 10);
    default: return 1 + draw(40);
  }
}
void draw_format(Opts* o) { o->checksum = chance(1, 2); o->interleaved = chance(1, 2); o->tm = chance(1, 2); o->stats = chance(1, 4); }
const Str kIn = "stdin", kOut = "stdout";

// ------------------------------------------------------------------ C13
struct CliIn { Str dict, target, delta; };
int encode_on(Disk* d, const CliIn& in, Opts o, Str* delta) {
  d->files["/sim/dict"] = in.dict;
  if (o.in_std) d->in = in.target; else d->files["/sim/target"] = in.target;
  if (!o.out_std && chance(1, 2)) d->files["/sim/delta"] = "old contents that must not survive, longer than many deltas are";
  int s = run_cli(d, o);
  *delta = o.out_std ? d->out : d->files["/sim/delta"];
  return s;
}
int decode_on(Disk* d, const CliIn& in, Opts o, Str* target) {
  d->files["/sim/dict"] = in.dict;
  if (o.in_std) d->in = in.delta; else d->files["/sim/delta"] = in.delta;
  if (!o.out_std && chance(1, 2)) d->files["/sim/target"] = "old contents that must not survive, longer than many targets are";
  int s = run_cli(d, o);
  *target = o.out_std ? d->out : d->files["/sim/target"];
  return s;
}
void inputs_untouched(Disk& d, const CliIn& in, bool enc, const Opts& o) {
  CHECK_PROP(d.files["/sim/dict"] == in.dict, "input-modified", "the dictionary file was modified");
  if (enc) { if (!o.in_std) CHECK_PROP(d.files["/sim/target"] == in.target, "input-modified", "the target file was modified"); }
  else if (!o.in_std) CHECK_PROP(d.files["/sim/delta"] == in.delta, "input-modified", "the delta file was modified");
}
void limits(Opts* o, const Str& target, const Ref& r) {
  u64 big = 0; for (size_t i = 0; i < r.wins.size(); i++) big = std::max<u64>(big, r.wins[i].target_len);
  if (chance(1, 3)) { static const int d[] = {0, -1, 1, 100}; long long v = (long long)target.size() + d[draw(4)]; o->max_file = v < 0 ? 0 : (u64)v; COUNT("limit.file"); }
  if (chance(1, 3)) { static const int d[] = {0, -1, 1, 100}; long long v = (long long)big + d[draw(4)]; o->max_window = v < 0 ? 0 : (u64)v; COUNT("limit.window"); }
  if (chance(1, 12)) { o->max_file = draw(3); }
}
RefOpts ropts(const Opts& o) { RefOpts r; r.max_file = o.max_file; r.max_window = o.max_window; r.allow_target = o.allow_target; return r; }

void check_encoded(const Opts& o, const CliIn& in, const Str& delta) {
  if (o.json) {
    std::vector<JsonOp> ops; Str err, got;
    if (in.target.empty()) return;
    CHECK_PROP(json_parse(delta, &ops, &err), "bad-json", "the JSON output is not valid: %s", err.c_str());
    bool self = false;
    for (size_t i = 0; i < ops.size(); i++) {
      if (!ops[i].is_copy) { got += ops[i].data; continue; }
      for (long long k = 0; k < ops[i].len; k++) { u64 p = (u64)(ops[i].off + k); if (p < in.dict.size()) got.push_back(in.dict[p]); else { self = true; p -= in.dict.size(); got.push_back(p < got.size() ? got[p] : '?'); } }
    }
    if (!self || o.buf >= in.target.size()) CHECK_PROP(got == in.target, "wrong-delta", "the JSON output does not restore the target");
    return;
  }
  Ref r = ref_decode(in.dict, delta);
  CHECK_PROP(r.v == Ref::ACCEPT && !delta.empty(), "wrong-delta", "exit status 0, but the stored delta is not well-formed: %s", r.why.c_str());
  CHECK_PROP(r.out == in.target, "wrong-delta", "exit status 0, but the stored delta does not restore the target (%zu bytes instead of %zu)", r.out.size(), in.target.size());
  for (size_t i = 0; i < r.wins.size(); i++) {
    CHECK_PROP(r.wins[i].has_sum == o.checksum, "flag-ignored", "--checksum=%d, but window %zu %s a checksum", o.checksum, i, r.wins[i].has_sum ? "has" : "has not");
    CHECK_PROP(r.wins[i].ninst == 0 || r.wins[i].interleaved == o.interleaved, "flag-ignored", "--interleaved=%d not respected in window %zu", o.interleaved, i);
    CHECK_PROP(o.tm || !r.wins[i].refs_target, "flag-ignored", "--notarget_matches, but window %zu refers to target data", i);
  }
}
CliIn draw_cli_in(size_t cap, bool ascii) {
  CliIn in; in.dict = draw_dict(chance(1, 8) ? 0 : cap, ascii); in.target = chance(1, 10) ? Str() : draw_target(in.dict, cap, ascii);
  if (chance(1, 10)) { in.target.resize(in.target.size() / 64 * 64); }
  return in;
}
// --stats names the two sizes, on standard error
void check_stats(const Opts& o, u64 gate, u64 orig, u64 comp) {
  if (!o.stats || !gate) return;
  COUNT("cli.stats");
  CHECK_PROP(g_err.says(orig) && g_err.says(comp), "wrong-stats", "--stats: original size %llu, compressed size %llu, but the tool says: %.*s", (unsigned long long)orig, (unsigned long long)comp, (int)std::min<size_t>(g_err.n, 200), g_err.b);
}
void says_why(int st) {
  if (st == 0) {
    bool err = false; for (size_t i = 0; i + 5 <= g_err.n; i++) if (memcmp(g_err.b + i, "ERROR", 5) == 0) err = true;
    CHECK_PROP(!err, "false-message", "a run that succeeds reports an error: %.*s", (int)std::min<size_t>(g_err.n, 200), g_err.b);
  }
  if (st && st != 134) CHECK_PROP(g_err.n > 0, "silent-failure", "exit status %d without any message on standard error", st);
}
void c13_roundtrip() {
  bool huge = chance(1, 1500); size_t cap = huge ? 4000000 : chance(1, 8) ? 60000 : 1500; if (huge) COUNT("cli.megabytes");
  Opts o; draw_format(&o); o.json = chance(1, 8);
  CliIn in = draw_cli_in(cap, o.json);
  o.cmd = chance(1, 4) ? "delta" : "encode"; o.in_std = chance(1, 3); o.out_std = chance(1, 3); o.buf = draw_buf(in.target.size()); if (huge && o.buf < in.target.size() / 16) o.buf = (u64)1 << (18 + draw(6));
  // with target matching switched on, a repeated target is found
  size_t twice = o.tm && !o.json && !huge && chance(1, 6) ? 200 + draw(2000) : 0;
  if (twice) { Str x = gen_bytes(twice, 0, draw_seed()); in.target = x + x; o.buf = in.target.size() + draw(1000); COUNT("cli.target-matches"); }
  say("dictionary %zu target %zu", in.dict.size(), in.target.size());
  bool bad = o.json && chance(1, 4) && !in.target.empty();
  if (bad) { in.target[draw(in.target.size())] |= (char)0x80; }
  Disk d; draw_io(&d);
  int s = encode_on(&d, in, o, &in.delta);
  says_why(s);
  if (bad) { CHECK_PROP(s != 0, "exit-status", "encoding non-ASCII data as JSON ended with status 0"); return; }
  CHECK_PROP(s == 0, "exit-status", "fault-free encoding ended with status %d", s);
  check_stats(o, in.target.size(), in.target.size(), in.delta.size());
  inputs_untouched(d, in, true, o);
  check_encoded(o, in, in.delta);
  if (twice) CHECK_PROP(in.delta.size() < twice * 3 / 2 + 60, "flag-ignored", "--target_matches: data of %zu bytes, given twice in one buffer, takes %zu bytes", twice, in.delta.size());
  g_nontrivial = true; COUNT("cli.encode");
  if (o.json) return;
  Ref r = ref_decode(in.dict, in.delta);
  int n = 1 + (int)draw(2);
  while (n--) {
    Opts q; q.cmd = chance(1, 4) ? "patch" : "decode"; q.in_std = chance(1, 3); q.out_std = chance(1, 3); q.stats = chance(1, 4); q.buf = draw_buf(in.delta.size()); if (huge && q.buf < in.delta.size() / 16) q.buf = (u64)1 << (18 + draw(6));
    q.checksum = chance(1, 3); q.interleaved = chance(1, 3); q.allow_target = chance(1, 2);
    limits(&q, in.target, r);
    Ref e = ref_decode(in.dict, in.delta, ropts(q));
    Disk d2; draw_io(&d2); Str got;
    int st = decode_on(&d2, in, q, &got);
    if (e.v == Ref::ACCEPT) {
      CHECK_PROP(st == 0, "exit-status", "decoding a good delta of %zu bytes (limits %llu/%llu, buffer %llu) ended with status %d", in.delta.size(), (unsigned long long)q.max_file, (unsigned long long)q.max_window, (unsigned long long)q.buf, st);
      CHECK_PROP(got == in.target, "wrong-output", "decoded %zu bytes, the target has %zu, or contents differ", got.size(), in.target.size());
      check_stats(q, got.size(), got.size(), in.delta.size());
    } else CHECK_PROP(st != 0, "exit-status", "decoding succeeded although the limits (%llu/%llu) are exceeded", (unsigned long long)q.max_file, (unsigned long long)q.max_window);
    says_why(st);
    inputs_untouched(d2, in, false, q); COUNT("cli.decode");
  }
}
void c13_decode() {
  Stream s = draw_stream(15, chance(1, 6) ? 20000 : 700, chance(1, 2));
  CliIn in; in.dict = s.dict; in.delta = s.delta;
  Ref r0 = ref_decode(in.dict, in.delta);
  Opts q; limits(&q, r0.out, r0); q.allow_target = !chance(1, 3);
  if (chance(1, 12)) q.max_file = (u64)1 << (20 + draw(20));
  Ref e = ref_decode(in.dict, in.delta, ropts(q));
  int runs = 2 + (int)draw(2); int st0 = 0; Str got0; Str kind = s.kind;
  say("%s delta of %zu bytes, dictionary %zu; the reference says %s %s", kind.c_str(), in.delta.size(), in.dict.size(), e.v == Ref::ACCEPT ? "accept" : "reject", e.why.c_str());
  g_nontrivial = true;
  for (int k = 0; k < runs; k++) {
    q.cmd = chance(1, 4) ? "patch" : "decode"; q.in_std = chance(1, 3); q.out_std = chance(1, 3); q.stats = chance(1, 4); q.buf = k == 0 ? 1 << 20 : draw_buf(in.delta.size());
    Disk d; draw_io(&d); Str got; int st = decode_on(&d, in, q, &got);
    inputs_untouched(d, in, false, q); COUNT("cli.decode");
    if (st == 134 && E.failed_big) return;     // sizes no process can allocate
    if (!e.ambiguous) {
      if (e.v == Ref::ACCEPT) { CHECK_PROP(st == 0, "exit-status", "a well-formed delta was not accepted (status %d, buffer %llu)", st, (unsigned long long)q.buf); }
      else CHECK_PROP(st != 0, "exit-status", "a bad delta (%s) was accepted", e.why.c_str());
    }
    says_why(st);
    if (st == 0) check_stats(q, got.size(), got.size(), in.delta.size());
    if (st == 0 && !e.ambiguous) CHECK_PROP(got == e.out, "wrong-output", "decoded %zu bytes instead of %zu, or contents differ", got.size(), e.out.size());
    if (k == 0) { st0 = st; got0 = got; }
    else {
      CHECK_PROP((st == 0) == (st0 == 0), "buffer-dependent", "status %d with buffer %llu, %d with the default", st, (unsigned long long)q.buf, st0);
      if (st == 0) CHECK_PROP(got == got0, "buffer-dependent", "the output differs with buffer %llu", (unsigned long long)q.buf);
      else { size_t n = std::min(got.size(), got0.size()); CHECK_PROP(memcmp(got.data(), got0.data(), n) == 0, "buffer-dependent", "outputs of the failed runs contradict each other"); }
    }
  }
}
void c13_test() {
  size_t cap = chance(1, 8) ? 40000 : 1200;
  Opts o; draw_format(&o); o.json = chance(1, 20); o.cmd = "test"; o.allow_target = chance(1, 2);
  CliIn in = draw_cli_in(cap, o.json); o.buf = draw_buf(in.target.size());
  Disk d; draw_io(&d);
  d.files["/sim/dict"] = in.dict; d.files["/sim/target"] = in.target;
  if (chance(1, 2)) d.files["/sim/delta"] = "old contents that must not survive, longer than many deltas are";
  if (chance(1, 3)) { o.max_file = in.target.size() + draw(3); if (o.max_file && chance(1, 2)) o.max_file--; }
  if (chance(1, 4)) { o.max_window = std::min<u64>(o.buf, in.target.size()) + draw(3); if (o.max_window && chance(1, 2)) o.max_window--; }
  bool rot = chance(1, 2);
  if (rot) {   // contents change between the two phases
    Fault f; f.kind = F_ROT; f.sticky = false; f.at = draw(1u << 20); int w = (int)draw(4);
    f.path = w == 0 ? "/sim/dict" : w == 1 ? "/sim/target" : "/sim/delta"; f.value = ((u64)1 << 32) | draw(1024);
    d.faults.push_back(f);
  }
  g_nontrivial = true; COUNT("cli.test");
  say("test mode, dictionary %zu target %zu", in.dict.size(), in.target.size());
  int st = run_cli(&d, o);
  // judged on what was on the disk during the second phase
  Ref r = ref_decode(d.files["/sim/dict"], d.files["/sim/delta"], ropts(o));
  bool restores = r.v == Ref::ACCEPT && r.out == d.files["/sim/target"];
  if (r.ambiguous || (o.json && d.files["/sim/delta"].empty() )) return;
  says_why(st);
  if (st == 0 && o.stats && !rot && !r.out.empty()) check_stats(o, r.out.size(), r.out.size(), d.files["/sim/delta"].size());
  if (restores) CHECK_PROP(st == 0, "exit-status", "the stored delta restores the original, but test mode ended with status %d", st);
  else CHECK_PROP(st != 0, "exit-status", "test mode ended with status 0, but the stored delta does not restore the original (%s)", r.v == Ref::ACCEPT ? "other contents" : r.why.c_str());
}
// Windows around the default limits of 64 MB, with limits left out or raised.
void c13_big() {
  const u64 def = 1 << 26; u64 size = draw(3) ? def - draw(3) * draw(1 << 25) : def + 1 + draw(2) * draw(1 << 20);
  Opts q; q.cmd = "decode"; q.out_std = chance(1, 2); q.allow_target = chance(1, 2);
  if (chance(1, 3)) q.max_file = (u64)1 << (27 + draw(3));
  if (chance(1, 3)) q.max_window = (u64)1 << (27 + draw(3));
  CliIn in; in.dict = "d";
  Str ins; ins.push_back(0); put_varint(&ins, size);
  Str body; put_varint(&body, size); body.push_back(0); put_varint(&body, 1); put_varint(&body, ins.size()); put_varint(&body, 0); body += 'x'; body += ins;
  in.delta = default_header(0); in.delta.push_back(0); put_varint(&in.delta, body.size()); in.delta += body;
  bool fits = size <= q.max_file && size <= q.max_window;
  say("window of %llu bytes, limits %llu/%llu", (unsigned long long)size, (unsigned long long)q.max_file, (unsigned long long)q.max_window);
  E.fail_big = 600u << 20; g_nontrivial = true; COUNT("cli.big-window");
  Disk d; Str got; int st = decode_on(&d, in, q, &got);
  says_why(st);
  CHECK_PROP((st == 0) == fits, "exit-status", "a window of %llu bytes with limits %llu/%llu ended with status %d", (unsigned long long)size, (unsigned long long)q.max_file, (unsigned long long)q.max_window, st);
  if (fits) { CHECK_PROP(got.size() == size && got.find_first_not_of('x') == Str::npos, "wrong-output", "%zu bytes decoded instead of %llu, or wrong ones", got.size(), (unsigned long long)size); }
  else CHECK_PROP(got.find_first_not_of('x') == Str::npos || got.substr(0, 12) == "old contents", "wrong-output", "wrong output of a refused window");
}
void c13() {
  E.fill = (int)draw(256);
  if (chance(1, 6000)) { c13_big(); return; }
  switch (draw(3)) { case 0: c13_roundtrip(); break; case 1: c13_decode(); break; default: c13_test(); break; }
}

// ------------------------------------------------------------------ C12
void c12() {
  E.fill = (int)draw(256);
  size_t cap = chance(1, 6) ? 50000 : 1500;
  int op = (int)draw(3);   // 0 encode 1 decode 2 test
  Opts o; draw_format(&o); o.json = op == 0 && chance(1, 8);
  CliIn in = draw_cli_in(cap, o.json);
  Str in_name, out_name;
  Ref e;
  if (op == 1) {
    if (chance(1, 3)) { Stream s = draw_stream(7, 800); in.dict = s.dict; in.delta = s.delta; }
    else { int fl = (o.interleaved ? 1 : 0) | (o.checksum ? 2 : 0); in.delta = encode_fresh(in.dict, fl, o.tm, in.target, draw_cuts(in.target.size(), 0, false, 10)); if (chance(1, 6)) { Str w; in.delta = damage(in.delta, 0, &w); } }
    e = ref_decode(in.dict, in.delta, ropts(o)); in.target = e.out;
  }
  o.cmd = op == 0 ? "encode" : op == 1 ? "decode" : "test";
  o.in_std = op != 2 && chance(1, 4); o.out_std = op != 2 && chance(1, 4);
  const Str& input = op == 1 ? in.delta : in.target;
  o.buf = draw_buf(input.size());
  in_name = o.in_std ? kIn : op == 1 ? "/sim/delta" : "/sim/target";
  out_name = o.out_std ? kOut : op == 1 ? "/sim/target" : "/sim/delta";
  auto setup = [&](Disk* d) {
    d->files["/sim/dict"] = in.dict;
    if (o.in_std) d->in = input; else d->files[in_name] = input;
  };
  Disk shape; draw_io(&shape);
  // fault-free run first: it tells how much is written, so that faults land inside the work
  size_t outlen;
  {
    Disk d; setup(&d); d.split = shape.split; d.rng = shape.rng; d.bufmode = shape.bufmode; d.bufsize = shape.bufsize;
    int st = run_cli(&d, o);
    outlen = o.out_std ? d.out.size() : d.files[out_name].size();
    if (op != 1) CHECK_PROP(st == 0, "exit-status", "fault-free %s ended with status %d", o.cmd.c_str(), st);
    else if (!e.ambiguous) CHECK_PROP((st == 0) == (e.v == Ref::ACCEPT), "exit-status", "decoding a %s delta ended with status %d", e.v == Ref::ACCEPT ? "good" : "bad", st);
  }
  Disk d; setup(&d); d.split = shape.split; d.rng = shape.rng; d.bufmode = shape.bufmode; d.bufsize = shape.bufsize;
  int nf = 1 + (int)draw(3); bool rot = false; long long fail_alloc = -1;
  static const int errs[] = {EIO, ENOSPC, EACCES, EDQUOT, ENFILE, EINTR, EFBIG};
  while (nf--) {
    Fault f; f.err = errs[draw(7)]; f.sticky = chance(2, 3);
    std::vector<Str> readers(1, "/sim/dict"); readers.push_back(in_name); if (op == 2) { readers.push_back("/sim/delta"); readers.push_back("/sim/target"); }
    switch (draw(10)) {
      case 0: f.kind = F_OPEN; f.path = chance(1, 2) ? pick(readers) : out_name; f.at = op == 2 ? draw(2) : 0; break;
      case 1: f.kind = F_SEEK; f.path = pick(readers); f.at = draw(5); if (chance(1, 2)) { f.kind = F_TELL; f.err = EOVERFLOW; f.at = draw(3); } break;
      case 2: case 3: { f.kind = F_READ; f.path = pick(readers); size_t n = f.path == "/sim/dict" ? in.dict.size() : f.path == "/sim/delta" && op == 2 ? outlen : input.size(); f.at = chance(1, 5) ? n : draw(n + 1); break; }
      case 4: case 5: f.kind = F_WRITE; f.path = out_name; f.at = chance(1, 4) && outlen ? outlen - 1 : draw(outlen + 1); break;
      case 6: f.kind = F_CLOSE; f.path = out_name; f.value = chance(1, 2) ? 1 + draw(1u << 20) : 0; if (o.out_std) continue; break;
      case 7: if (op == 2) { f.kind = F_STORE; f.path = out_name; f.at = draw(outlen + 1); f.value = 1 + draw(255); f.sticky = false; rot = true; break; }
              fail_alloc = (long long)(chance(1, 2) ? draw(300) : draw(3000)); continue;
      case 8: if (in.dict.empty()) continue; f.kind = F_SHRINK; f.path = "/sim/dict"; f.at = draw(in.dict.size()); f.sticky = true; break;
      default: if (op == 2) { f.kind = F_ROT; f.sticky = false; f.at = draw(1u << 20); int w = (int)draw(4); f.path = w == 0 ? "/sim/dict" : w == 1 ? "/sim/target" : "/sim/delta"; f.value = ((u64)1 << 32) | draw(1024); rot = true; break; }
               continue;
    }
    d.faults.push_back(f);
  }
  say("%s with faults; dictionary %zu input %zu output %zu", o.cmd.c_str(), in.dict.size(), input.size(), outlen);
  u64 before = E.failed_allocs;
  int st = run_cli(&d, o, fail_alloc);
  if (E.failed_allocs != before) COUNT("fault.allocation-failure");
  const Str& stored = o.out_std ? d.out : d.files[out_name];
  bool error = false; Str which; char b[160];
  for (size_t i = 0; i < d.faults.size(); i++) {
    Fault& f = d.faults[i]; if (!f.fired) continue;
    g_nontrivial = true;
    // An error that goes away by itself may be absorbed by stdio; one that persists must be reported.  Seeks that fail only
    // after the size was determined may be part of closing an input.
    bool strict = (f.kind == F_OPEN && f.sticky) || f.kind == F_CLOSE || (f.kind == F_READ && f.sticky) || (f.kind == F_WRITE && f.sticky) || (f.kind == F_SEEK && f.sticky && f.at == 0) || (f.kind == F_TELL && f.sticky) || f.kind == F_SHRINK;
    if (strict) { static const char* const n[] = {"open", "seek", "read", "write", "close", "", "", "tell", "shrink"}; error = true; snprintf(b, sizeof b, " %s(%s)", n[f.kind], f.path.c_str()); which += b; }
  }
  if (st) says_why(st);
  if (st != 0) return;
  CHECK_PROP(!error, "error-not-reported", "exit status 0 in spite of errors:%s", which.c_str());
  if (op == 0) check_encoded(o, in, stored);
  else if (op == 1) {
    if (e.ambiguous) return;
    CHECK_PROP(e.v == Ref::ACCEPT, "exit-status", "exit status 0 for a bad delta: %s", e.why.c_str());
    CHECK_PROP(stored == e.out, "incomplete-output", "exit status 0, but %zu bytes are stored instead of %zu, or contents differ", stored.size(), e.out.size());
  } else {
    Ref r = ref_decode(d.files["/sim/dict"], stored, ropts(o));
    CHECK_PROP(r.ambiguous || (r.v == Ref::ACCEPT && r.out == d.files["/sim/target"]), "test-mode", "test mode ended with status 0, but the stored delta does not restore the original (%s)", r.why.c_str());
    (void)rot;
  }
}

// ------------------------------------------------------------------ C19
// Invocations that cannot be carried out, and files that cannot be opened, sized or (dictionary) read.
void c19() {
  E.fill = (int)draw(256);
  Disk d; draw_io(&d);
  CliIn in = draw_cli_in(600, false); in.delta = encode_fresh(in.dict, draw_flags(), chance(1, 2), in.target, whole(in.target.size()));
  static const char* const cmds[] = {"encode", "delta", "decode", "patch", "test"};
  Str cmd = cmds[draw(5)];
  if ((cmd == "decode" || cmd == "patch") && chance(1, 3)) { in.dict = draw_dict(400); BuildOpts o; o.max_target = 500; o.max_windows = 4; Built x = build_delta(in.dict, o); in.delta = x.delta; in.target = x.target; }
  bool enc = cmd == "encode" || cmd == "delta", tst = cmd == "test";
  bool in_std = !tst && chance(1, 5), out_std = !tst && chance(1, 5);
  Str inf = enc || tst ? "/sim/target" : "/sim/delta", outf = enc || tst ? "/sim/delta" : "/sim/target", inflag = enc || tst ? "target" : "delta", outflag = enc || tst ? "delta" : "target";
  const Str& input = enc || tst ? in.target : in.delta;
  d.files["/sim/dict"] = in.dict; d.files["/sim/bystander"] = "another file"; if (in_std) d.in = input; else d.files[inf] = input;
  bool old = !out_std && chance(2, 3); Str before = gen_bytes(1 + draw(200), 0, draw_seed()); if (old) d.files[outf] = before;
  std::vector<Str> a(1, "vcdiff"), c(1, cmd);
  bool with_dict = true; Str why; char b[64];
  int kind = (int)draw(16); bool late = kind >= 13;
  auto fault = [&](int k, const Str& p) { Fault f; f.kind = k; f.path = p; f.sticky = true; f.at = 0; f.err = draw(2) ? EIO : EACCES; if (k == F_READ) f.at = draw(in.dict.size()); d.faults.push_back(f); };
  std::vector<Str> opt;
  if (chance(1, 2)) { snprintf(b, sizeof b, "--buffersize=%llu", (unsigned long long)draw_buf(input.size())); opt.push_back(b); }
  if (chance(1, 4)) opt.push_back("--checksum"); if (chance(1, 4)) opt.push_back("--interleaved"); if (chance(1, 4)) opt.push_back("--target_matches"); if (chance(1, 4)) opt.push_back("--stats"); if (chance(1, 8)) opt.push_back("--nochecksum");
  switch (kind) {
    case 0: { static const char* const bad[] = {"frobnicate", "", "Encode", "encod", "decode ", "encodes", "tes", "patches", "del"}; c[0] = bad[draw(9)]; why = "unknown command"; break; }
    case 1: c.clear(); why = "no command"; break;
    case 2: c.push_back(draw(2) ? "decode" : "/sim/target"); why = "surplus argument"; break;
    case 3: with_dict = false; why = "no dictionary given"; break;
    case 4: for (size_t i = 0; i < opt.size(); i++) if (opt[i].compare(0, 12, "--buffersize") == 0) opt.erase(opt.begin() + i--); opt.push_back("--buffersize=0"); why = "buffer size 0"; break;
    case 5: d.files.erase("/sim/dict"); why = "dictionary does not exist"; break;
    case 6: fault(draw(2) ? F_OPEN : F_TELL, "/sim/dict"); why = "dictionary cannot be opened or sized"; break;
    case 7: if (in.dict.empty()) { fault(F_OPEN, "/sim/dict"); } else fault(F_READ, "/sim/dict"); why = "dictionary cannot be read"; break;
    case 8: if (in_std) { fault(F_OPEN, "/sim/dict"); } else d.files.erase(inf); why = "input does not exist"; break;
    case 9: if (in_std) { fault(F_OPEN, "/sim/dict"); } else fault(draw(2) ? F_OPEN : F_TELL, inf); why = "input cannot be opened or sized"; break;
    case 10: if (tst) { if (draw(2)) in_std = true; else out_std = true; why = "test mode without both files"; } else { with_dict = false; why = "no dictionary given"; } break;
    default: why = "";
  }
  if (late) {
    // jobs that go wrong on the way: bad delta, limits, failing reads and writes
    Str what;
    switch (draw(4)) {
      case 0: if (!enc && !tst) { Str& s = in_std ? d.in : d.files[inf]; s = draw(2) ? s.substr(0, draw(s.size() + 1)) : damage(s, 0, &what); break; }  // fall through
      case 1: { Fault f; f.kind = draw(2) ? F_WRITE : F_CLOSE; f.path = out_std ? "stdout" : outf; f.sticky = draw(2); f.at = f.kind == F_CLOSE ? 0 : draw(60); f.err = draw(2) ? ENOSPC : EIO; f.value = draw(2) ? 0 : 1 + draw(100); d.faults.push_back(f); break; }
      case 2: { Fault f; f.kind = F_READ; f.path = in_std ? "stdin" : inf; f.sticky = true; f.at = draw(input.size() + 1); d.faults.push_back(f); break; }
      default: snprintf(b, sizeof b, "--max_target_%s_size=%llu", draw(2) ? "file" : "window", (unsigned long long)draw(in.target.size() + 1)); opt.push_back(b);
    }
    COUNT("misuse.late-failures");
  }
  std::vector<std::vector<Str> > parts;
  if (with_dict) parts.push_back(std::vector<Str>(1, "--dictionary=/sim/dict"));
  if (!in_std) parts.push_back(std::vector<Str>(1, "--" + inflag + "=" + inf));
  if (!out_std) parts.push_back(std::vector<Str>(1, "--" + outflag + "=" + outf));
  for (size_t i = 0; i < opt.size(); i++) parts.push_back(std::vector<Str>(1, opt[i]));
  for (size_t i = 0; i < c.size(); i++) parts.push_back(std::vector<Str>(1, c[i]));
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[draw(i)]);
  for (size_t i = 0; i < parts.size(); i++) a.push_back(parts[i][0]);
  std::map<Str, Str> was = d.files; g_nontrivial = true; COUNT("misuse.invocations");
  say("%s; existing output %d", late ? "something goes wrong on the way" : why.empty() ? "a proper invocation" : why.c_str(), old);
  int st = run_args(&d, a, -1);
  if (!late) CHECK_PROP((st == 0) == why.empty(), "exit-status", "%s: exit status %d", why.empty() ? "a proper invocation" : why.c_str(), st);
  if (!why.empty()) {
    CHECK_PROP(d.files == was, "file-touched", "%s: a file was created or changed", why.c_str());
  } else {
    std::map<Str, Str> now = d.files; if (!out_std) { now.erase(outf); was.erase(outf); }
    CHECK_PROP(now == was, "file-touched", "a file other than the output was created or changed");
    if (!late) {
      const Str& got = out_std ? d.out : d.files[outf];
      if (enc || tst) { Ref r = ref_decode(in.dict, got); CHECK_PROP(r.v == Ref::ACCEPT && r.out == in.target, "wrong-output", "a proper invocation stored a delta that does not restore the target"); }
      else CHECK_PROP(got == in.target, "wrong-output", "a proper invocation decoded %zu bytes instead of %zu, or wrong ones", got.size(), in.target.size());
      // options left out have their documented defaults
      Opts o;
      for (size_t i = 1; i < a.size(); i++) {
        if (a[i] == "--checksum") o.checksum = true; else if (a[i] == "--nochecksum") o.checksum = false; else if (a[i] == "--interleaved") o.interleaved = true;
        else if (a[i] == "--target_matches") o.tm = true; else if (a[i] == "--stats") o.stats = true; else if (a[i].compare(0, 13, "--buffersize=") == 0) o.buf = strtoull(a[i].c_str() + 13, 0, 10);
      }
      if (enc || tst) check_encoded(o, in, got);
      if (!o.stats) { bool digits = false; for (size_t i = 0; i < g_err.n; i++) if (isdigit((u8)g_err.b[i])) digits = true; CHECK_PROP(!digits, "unasked-report", "without --stats, a successful run says: %.*s", (int)std::min<size_t>(g_err.n, 200), g_err.b); COUNT("cli.defaults"); }
    }
  }
}
}  // namespace

Scenario kScenarios[] = {{"C12", c12}, {"C13", c13}, {"C19", c19}, {0, 0}};
void warm_up() {
  default_table();
  Disk d; d.files["/sim/dict"] = "abc"; d.files["/sim/target"] = "abcabc"; Opts o; o.cmd = "test";
  silence_stderr_logging(true);
  // the choices this draws belong to no run
  S->nchoices = 0; run_cli(&d, o);
  S->nchoices = 0;
}
