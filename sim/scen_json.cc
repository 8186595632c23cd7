// C14: JSON output.
#include "api.h"
#include "google/jsonwriter.h"
#include <algorithm>
#include <memory>
#include <locale>

// Applies parsed commands; `chunks` are the lengths of the encoded chunks, in order.
static bool json_apply(const Str& dict, const std::vector<JsonOp>& ops, const std::vector<size_t>& chunks, Str* out, Str* err) {
  size_t ci = 0, cstart = 0;
  auto sync = [&]() { while (ci < chunks.size() && out->size() >= cstart + chunks[ci] ) { if (out->size() == cstart + chunks[ci] && ci + 1 >= chunks.size()) break; cstart += chunks[ci]; ci++; } };
  for (size_t i = 0; i < ops.size(); i++) {
    sync();
    if (!ops[i].is_copy) { out->append(ops[i].data); continue; }
    for (long long k = 0; k < ops[i].len; k++) {
      u64 p = (u64)(ops[i].off + k);
      if (p < dict.size()) out->push_back(dict[p]);
      else { u64 q = cstart + (p - dict.size()); if (q >= out->size()) { *err = "copy refers to data that does not exist"; return false; } out->push_back((*out)[q]); }
    }
  }
  return true;
}
static Str ascii_target(const Str& dict, size_t max) {
  Str t = draw_target(dict, max, true);
  if (chance(1, 4)) { // characters that need escapes
    static const char esc[] = {'"', '\\', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, '/', 0x0b, ' '};
    int n = 1 + (int)draw(12); while (n--) t.insert(draw(t.size() + 1), 1, esc[draw(sizeof esc)]);
  }
  return t;
}
static void check_json(const char* what, const Str& text, const Str& dict, const Str& target, const std::vector<size_t>& chunks) {
  std::vector<JsonOp> ops; Str err, got;
  CHECK_PROP(json_parse(text, &ops, &err), "invalid-json", "%s: not a valid JSON array of commands: %s: %.200s", what, err.c_str(), text.c_str());
  CHECK_PROP(json_apply(dict, ops, chunks, &got, &err), "wrong-json", "%s: %s", what, err.c_str());
  CHECK_PROP(got == target, "wrong-json", "%s: applying the commands gives %zu bytes, the target has %zu, or contents differ", what, got.size(), target.size());
}
static void direct() {
  COUNT("json.direct-writer");
  open_vcdiff::JSONCodeTableWriter* w = 0; libv([&] { w = new open_vcdiff::JSONCodeTableWriter; });
  struct Del { open_vcdiff::JSONCodeTableWriter* w; ~Del() { Lib l; delete w; } } del = {w};
  int sessions = 1 + (int)draw(3);
  say("JSON writer driven directly, %d sessions", sessions);
  while (sessions--) {
    Str dict = draw_dict(300, true), out, tgt; open_vcdiff::OutputString<Str> os(&out);
    CHECK_PROP(lib([&] { return w->Init(dict.size()); }), "init", "Init failed");
    libv([&] { w->WriteHeader(&os, open_vcdiff::VCD_FORMAT_JSON); });
    int nwin = 1 + (int)draw(3); std::vector<size_t> chunks;
    while (nwin--) {
      Str c; int n = 1 + (int)draw(8);
      while (n--) {
        switch (draw(3)) {
          case 0: { Str d = ascii_target("", 60); if (d.empty()) d = "x"; libv([&] { w->Add(d.data(), d.size()); }); c += d; break; }
          case 1: { size_t l = 1 + draw(30); u8 b = (u8)draw(128); libv([&] { w->Run(l, b); }); c.append(l, (char)b); break; }
          default: { u64 here = dict.size() + c.size(); if (!here) break; u64 a = draw(here); size_t l = 1 + draw(40); if (a < dict.size() && a + l > dict.size()) l = dict.size() - a; libv([&] { w->Copy((int32_t)a, l); });
            for (size_t q = 0; q < l; q++) { u64 p = a + q; c.push_back(p < dict.size() ? dict[p] : c[p - dict.size()]); } }
        }
      }
      if (c.empty()) { libv([&] { w->Add("y", 1); }); c = "y"; }
      if (chance(1, 3)) libv([&] { w->AddChecksum(12345); });
      libv([&] { w->Output(&os); });
      tgt += c; chunks.push_back(c.size());
    }
    libv([&] { w->FinishEncoding(&os); });
    check_json("direct use", out, dict, tgt, chunks);
    evs(out); g_nontrivial = true;
  }
}
// Offsets and lengths of up to eight digits.
static void large() {
  COUNT("json.megabytes");
  size_t n = (size_t)100000 + (draw(6) == 5 ? draw(24u << 20) : draw(3u << 20));
  Str dict = gen_bytes(n, 1, draw_seed()); for (size_t i = 0; i < n; i++) dict[i] &= 0x7f;
  int fl = 4 | draw_flags(); bool tm = chance(1, 2);
  HDict h(dict); Enc e(h.h, fl, tm);
  Str out, all; std::vector<size_t> given; int nch = 1 + (int)draw(3);
  say("JSON %s, dictionary of %zu random ASCII characters, %d chunks", flags_name(fl, tm).c_str(), n, nch);
  CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
  while (nch--) {
    Str c; int k = 1 + (int)draw(4);
    while (k--) {
      size_t off = draw(2) ? draw(n) : n - 1 - draw(n / 10), len = draw(2) ? 1 + draw(n) : 1 + draw(2000);
      if (off + len > n) len = n - off;
      c.append(dict, off, len);
      if (chance(1, 2)) c += ascii_target(dict, 300);
      if (tm && chance(1, 2)) { size_t o = draw(c.size()), l = 1 + draw(c.size() - o); c += c.substr(o, l); }
    }
    CHECK_PROP(e.chunk(c.data(), c.size(), &out), "encode-failed", "EncodeChunk failed");
    all += c; given.push_back(c.size());
  }
  CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
  check_json("large", out, dict, all, given); evs(out); g_nontrivial = true;
}
// The process may run in any locale: digit grouping as in many languages.
struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const { return sep; } std::string do_grouping() const { return g; } char do_decimal_point() const { return ','; }
  char sep; std::string g; Grouping(char s, const char* x) : sep(s), g(x) {}
};
struct LocaleFault {
  std::locale old; bool on;
  LocaleFault() : on(false) {}
  void arm() { on = true; static const char seps[] = {',', '.', ' ', '\''}; char c = seps[draw(4)]; old = std::locale::global(std::locale(std::locale::classic(), new Grouping(c, draw(3) ? "\3" : "\1"))); say("locale groups digits with '%c'", c); COUNT("fault.locale"); }
  ~LocaleFault() { if (on) std::locale::global(old); }
};
void c14() {
  E.fill = (int)draw(256);
  LocaleFault lf; if (chance(1, 8)) lf.arm();
  if (chance(1, 4)) { direct(); return; }
  if (chance(1, 4000)) { large(); return; }
  size_t cap = chance(1, 8) ? 60000 : 2000;
  Str dict = draw_dict(cap, true);
  int fl = 4 | draw_flags(); bool tm = chance(1, 2);
  bool bad_dict = chance(1, 10) && !dict.empty();
  if (bad_dict) { dict[draw(dict.size())] |= (char)0x80; COUNT("fault.non-ascii-dictionary"); }
  HDict h(dict); Enc e(h.h, fl, tm);
  int sessions = 1 + (int)draw(3);
  say("JSON %s, dictionary %zu%s, %d sessions", flags_name(fl, tm).c_str(), dict.size(), bad_dict ? " (not ASCII)" : "", sessions);
  while (sessions--) {
    Str out("prefix"), t = ascii_target(dict, cap);
    if (bad_dict) {
      bool r = e.start(&out); CHECK_PROP(!r && out == "prefix", "non-ascii-accepted", "a non-ASCII dictionary was %s", r ? "accepted" : "refused, but output was added");
      r = e.chunk("abc", 3, &out); CHECK_PROP(!r && out == "prefix", "non-ascii-accepted", "a chunk was accepted after the dictionary had been refused");
      g_nontrivial = true; continue;
    }
    bool abandon = sessions && chance(1, 5);
    out.clear();
    bool many = chance(1, 500);
    if (many) { t.clear(); Str x = ascii_target(dict, 300); if (x.empty()) x = "q"; Rng g(draw_seed()); size_t n = 3000 + draw(12000); while (t.size() < n) { size_t o = g.below(x.size()); t += x.substr(o, 1 + g.below(60)); } COUNT("session.thousands-of-chunks"); }
    std::vector<size_t> ch = many ? std::vector<size_t>() : draw_cuts(t.size(), 0, true, 30); size_t pos = 0; Str done;
    if (many) { size_t each = 1 + draw(6); for (size_t p = 0; p < t.size(); p += each) ch.push_back(std::min(each, t.size() - p)); }
    std::vector<size_t> given;
    CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
    say("target %zu in %s", t.size(), cuts_text(ch).c_str());
    for (size_t i = 0; i < ch.size(); i++) {
      if (chance(1, many ? 3000 : 12)) {
        Str b = gen_bytes(1 + draw(50), 0, 3); b[draw(b.size())] = (char)(0x80 + draw(128)); Str before = out;
        bool r = e.chunk(b.data(), b.size(), &out); COUNT("fault.non-ascii-chunk");
        CHECK_PROP(!r && out == before, "non-ascii-accepted", "a non-ASCII chunk was %s", r ? "accepted" : "refused, but output was added");
      }
      CHECK_PROP(e.chunk(t.data() + pos, ch[i], &out), "encode-failed", "EncodeChunk failed");
      done += t.substr(pos, ch[i]); pos += ch[i]; if (ch[i]) given.push_back(ch[i]);
      if (abandon && chance(1, 2)) break;
    }
    if (abandon) { COUNT("session.abandoned"); continue; }
    CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
    evs(out);
    if (done.empty()) {
      std::vector<JsonOp> ops; Str err;
      CHECK_PROP(out.empty() || (json_parse(out, &ops, &err) && ops.empty()), "invalid-json", "the output for an empty target is neither empty nor an empty array: %.100s", out.c_str());
      COUNT("session.empty-target"); continue;
    }
    check_json("session", out, dict, done, given);
    g_nontrivial = true; COUNT("session.completed");
  }
  if (!bad_dict && chance(1, 6)) {
    Str t = ascii_target(dict, 500); if (t.empty()) t = "z"; Str o = "old";
    VCDiffEncoder* oe = 0; libv([&] { oe = new VCDiffEncoder(dict.data(), dict.size()); oe->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)fl); oe->SetTargetMatching(tm); });
    struct Del { VCDiffEncoder* h; ~Del() { Lib l; delete h; } } del = {oe};
    int n = 1 + (int)draw(2);
    while (n--) { bool r = lib([&] { return oe->Encode(t.data(), t.size(), &o); }); CHECK_PROP(r, "encode-failed", "Encode failed"); check_json("one-call", o, dict, t, whole(t.size())); }
  }
}
