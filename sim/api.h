// Calls into the real library, with the simulator's bookkeeping around them.
#ifndef API_H_
#define API_H_
#include "sim.h"
#include "gen.h"
#include "ref.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "google/format_extension_flags.h"
using open_vcdiff::HashedDictionary;
using open_vcdiff::VCDiffStreamingEncoder;
using open_vcdiff::VCDiffStreamingDecoder;
using open_vcdiff::VCDiffEncoder;
using open_vcdiff::VCDiffDecoder;
using open_vcdiff::OutputStringInterface;

struct Oom {};                         // the library reported an injected allocation failure
static const u64 kStepBudget = 1200000000ull;

// Runs library code; anything it throws other than a reported out-of-memory is a violation.
template <class F> bool lib(F f, u64 steps = kStepBudget) {
  budget(steps);
  int d = E.depth;
  try {
    Lib l;
    bool r = f();
    E.step_limit = ~0ull;
    return r;
  } catch (std::bad_alloc&) {
    E.depth = d; E.step_limit = ~0ull;
    if (E.failed_allocs) throw Oom();
    violate("exception", "std::bad_alloc without an allocation failure");
  } catch (std::exception& e) {
    E.depth = d;
    violate("exception", "library threw %s", e.what());
  }
}
template <class F> void libv(F f) { lib([&] { f(); return true; }); }

// An output object of the caller's; its own memory does not count as the library's.
struct Sink : public OutputStringInterface {
  Str s; size_t reallocs, cap, max_reserve, reserves, appends, cleared;
  Sink() : reallocs(0), cap(0), max_reserve(0), reserves(0), appends(0), cleared(0) {}
  void grow(size_t need) { if (need > cap) { cap = need; reallocs++; } }
  Sink& append(const char* p, size_t n) { NoLib nl; grow(s.size() + n); s.append(p, n); appends++; return *this; }
  void clear() { NoLib nl; s.clear(); cleared++; }
  void push_back(char c) { NoLib nl; grow(s.size() + 1); s.push_back(c); appends++; }
  void ReserveAdditionalBytes(size_t n) { NoLib nl; reserves++; if (n > max_reserve) max_reserve = n; grow(s.size() + n); }
  size_t size() const { return s.size(); }
};

struct DecCfg { bool allow_target; u64 max_file, max_window; bool set_limits; DecCfg() : allow_target(true), max_file(1 << 26), max_window(1 << 26), set_limits(false) {} };
inline RefOpts ref_opts(const DecCfg& c) { RefOpts o; o.allow_target = c.allow_target; o.max_file = c.max_file; o.max_window = c.max_window; return o; }

struct Step { size_t pos; bool ok; size_t outlen; };
struct DecRun { std::vector<Step> steps; bool failed; bool finish_ok; Str out; bool good() const { return !failed && finish_ok; } };

// A decoder with inputs in exact-size buffers that are destroyed right after each call.
struct Dec {
  VCDiffStreamingDecoder* d;
  Dec() : d(0) { libv([&] { d = new VCDiffStreamingDecoder; }); }
  ~Dec() { Lib l; delete d; }
  void config(const DecCfg& c) {
    libv([&] {
      d->SetAllowVcdTarget(c.allow_target);
      if (c.set_limits) { d->SetMaximumTargetFileSize(c.max_file); d->SetMaximumTargetWindowSize(c.max_window); }
    });
  }
  void start(const Buf& dict) { libv([&] { d->StartDecoding(dict.p, dict.n); }); }
  bool chunk(const char* p, size_t n, Str* out, u64 steps = kStepBudget) { Buf b(p, n); bool r = lib([&] { return d->DecodeChunk(b.p, b.n, out); }, steps); if (n && memcmp(b.p, p, n)) violate("input-modified", "DecodeChunk modified its input"); ev(r); ev(out->size()); return r; }
  bool chunk_to(const char* p, size_t n, OutputStringInterface* out, u64 steps = kStepBudget) { Buf b(p, n); bool r = lib([&] { return d->DecodeChunkToInterface(b.p, b.n, out); }, steps); ev(r); ev(out->size()); return r; }
  bool finish() { bool r = lib([&] { return d->FinishDecoding(); }); ev(r); return r; }
 private: Dec(const Dec&); void operator=(const Dec&);
};
// One complete session on a decoder. Stops feeding after a failure.
DecRun decode_session(Dec& d, const Buf& dict, const Str& delta, const std::vector<size_t>& pieces);
DecRun decode_fresh(const DecCfg& c, const Str& dict, const Str& delta, const std::vector<size_t>& pieces);
inline std::vector<size_t> whole(size_t n) { return std::vector<size_t>(1, n); }

struct HDict {
  HashedDictionary* h;
  explicit HDict(const Str& dict) : h(0) {
    Buf b(dict.data(), dict.size());        // destroyed after construction: the dictionary keeps its own copy
    libv([&] { h = new HashedDictionary(b.p, b.n); });
    bool ok = lib([&] { return h->Init(); });
    if (!ok) { { Lib l; delete h; } violate("init", "HashedDictionary::Init failed for a dictionary of %zu bytes", dict.size()); }
  }
  ~HDict() { Lib l; delete h; }
 private: HDict(const HDict&); void operator=(const HDict&);
};
struct Enc {
  VCDiffStreamingEncoder* e;
  Enc(const HashedDictionary* h, int flags, bool tm) : e(0) { libv([&] { e = new VCDiffStreamingEncoder(h, (open_vcdiff::VCDiffFormatExtensionFlags)flags, tm); }); }
  ~Enc() { Lib l; delete e; }
  bool start(Str* out) { bool r = lib([&] { return e->StartEncoding(out); }); ev(r); return r; }
  bool chunk(const char* p, size_t n, Str* out) { Buf b(p, n); bool r = lib([&] { return e->EncodeChunk(b.p, b.n, out); }); if (n && memcmp(b.p, p, n)) violate("input-modified", "EncodeChunk modified its input"); ev(r); ev(out->size()); return r; }
  bool finish(Str* out) { bool r = lib([&] { return e->FinishEncoding(out); }); ev(r); return r; }
 private: Enc(const Enc&); void operator=(const Enc&);
};
int draw_flags();                      // interleaved / checksum combinations
Str flags_name(int flags, bool tm);
// Encodes target cut into chunks; every call must succeed. ends: delta size after each chunk.
Str encode_session(Enc& e, const Str& target, const std::vector<size_t>& chunks, std::vector<size_t>* ends = 0);
Str encode_fresh(const Str& dict, int flags, bool tm, const Str& target, const std::vector<size_t>& chunks, std::vector<size_t>* ends = 0);
Str cuts_text(const std::vector<size_t>& c);

// A delta stream of any kind for decoder scenarios.
struct Stream { Str dict, delta; std::vector<size_t> marks, win_end; Str kind; bool damaged, hostile; };
Stream draw_stream(int allow /*bit0 builder, bit1 encoder, bit2 damaged, bit3 hostile*/, size_t max_target, bool tiny = false);
#endif
