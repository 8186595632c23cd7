// Reference model of VCDIFF (RFC 3284) with the SDCH extensions, written from
// the specification; it shares no code with the library.
#ifndef REF_H_
#define REF_H_
#include "sim.h"

// Bytes owned by someone else.
struct View {
  const char* p; size_t n;
  View() : p(""), n(0) {}
  View(const Str& s) : p(s.data()), n(s.size()) {}
  View(const char* q, size_t m) : p(q), n(m) {}
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  const char* data() const { return p; }
  char operator[](size_t i) const { return p[i]; }
};
// A dictionary of n bytes (up to kVastMax), mapped once per process and never written: its contents repeat with a period
// that is no power of two.  Returns false if this system cannot map it.
static const u64 kVastMax = (1ull << 32) + (1 << 20);
bool vast_dictionary(u64 n, View* v);

enum { I_NOOP = 0, I_ADD = 1, I_RUN = 2, I_COPY = 3 };
struct Table {
  u8 inst1[256], inst2[256], size1[256], size2[256], mode1[256], mode2[256];
  int near_size, same_size;
  Str bytes() const;                       // 1536 bytes in file order
  bool valid() const;
};
const Table& default_table();
u32 ref_adler(const char* p, size_t n);    // Adler-32 starting from 0, as the format extension uses it
inline u32 ref_adler(const Str& s) { return ref_adler(s.data(), s.size()); }

struct RefOpts {
  u64 max_file, max_window;
  bool allow_target;
  RefOpts() : max_file(1 << 26), max_window(1 << 26), allow_target(true) {}
};
struct RefWin {
  size_t start, end;                       // in the delta
  u8 ind; u64 seg_len, seg_pos, delta_len, target_len, data_len, inst_len, addr_len;
  bool has_sum; u32 sum; bool interleaved;
  size_t out_start;
  u32 ninst; bool refs_target;             // any COPY touching the window's own target
  u64 max_ref;                             // highest address referenced + 1
};
struct RefRelease { size_t pos; size_t out; };   // with `pos` bytes delivered, at least `out` bytes are determined
struct Ref {
  enum V { ACCEPT, REJECT, INCOMPLETE } v;
  bool ambiguous;                          // the specification does not settle the verdict
  Str out;                                 // output of complete windows (and complete interleaved instructions)
  std::vector<RefWin> wins;
  std::vector<RefRelease> rel;
  size_t header_end;
  Str why;
  bool used_target;                        // a window with VCD_TARGET
  bool limit_hit;                          // rejected because of a size limit
  u8 version; bool custom;
  bool last_interleaved;                   // the window that failed or is incomplete is known to be interleaved
  size_t good_out() const { return wins.empty() ? 0 : wins.back().out_start + (size_t)wins.back().target_len; }   // output of complete, good windows
  Table table;
};
Ref ref_decode(const View& dict, const Str& delta, const RefOpts& o = RefOpts(), const Table* preset = 0);

// ---------------------------------------------------------------- delta builder
struct Inst { int type; size_t size; u64 addr; Str data; };   // data: ADD bytes / RUN byte
struct WinSpec {
  int source;            // 0 none, 1 dictionary, 2 target
  u64 seg_pos, seg_len;
  bool checksum, interleaved;
  std::vector<Inst> insts;
};
struct Built {
  Str delta, target;
  std::vector<size_t> win_end;             // window end positions in the delta
  std::vector<size_t> win_out;             // output size after each window
  std::vector<size_t> marks;               // interesting positions (field and instruction boundaries)
  std::vector<size_t> varints;             // positions of numbers in window headers
  size_t header_end; bool custom; u8 version; int nwin;
  bool uses_target;
};
struct BuildOpts {
  size_t max_target;      // rough bound of the total target
  int max_windows;
  bool allow_target, allow_custom, allow_interleaved, allow_checksum;
  int force_version;      // -1 any, 0, 'S'
  bool tiny;              // prefer very small windows
  bool burst;             // now and then thousands of no-ops in a row
  BuildOpts() : max_target(20000), max_windows(5), allow_target(true), allow_custom(true), allow_interleaved(true),
                allow_checksum(true), force_version(-1), tiny(false), burst(false) {}
};
Built build_delta(const View& dict, const BuildOpts& o);
struct LongOpts { size_t windows, window, total; bool allow_target, literal; };
Built build_long(const View& dict, const LongOpts& o);
LongOpts draw_long(bool allow_target);
void put_varint(Str* s, u64 v);
Table draw_table();
// Serialise one window.  lies: which header field is replaced by which value.
Str serialise_instructions(const WinSpec& w, const Table& t, u64 here0, const Str& win_src, Str* target_out,
                           std::vector<size_t>* marks, Str* data, Str* addr);
Str default_header(u8 version);

// Damage that keeps the framing: a window is taken apart, one of its parts changed, and put together again with
// lengths that fit the changed parts.  Needs a delta whose windows parse; returns it unchanged otherwise.
Str restructure(const View& dict, const Str& delta, Str* what);

// A hostile stream: valid parts with lies in their fields.
Str build_hostile(const View& dict);

// ---------------------------------------------------------------- JSON
// Parses text as one JSON array of strings and offset,length pairs.  Returns false if it is not valid JSON of that form.
struct JsonOp { bool is_copy; Str data; long long off, len; };
bool json_parse(const Str& text, std::vector<JsonOp>* ops, Str* err);
#endif
