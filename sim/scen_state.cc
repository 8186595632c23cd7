// C06 C07 C08 C09 C11 C15: hostile input, limits, histories, misuse, allocation failure, buffers.
#include "api.h"
#include <algorithm>
#include <memory>
extern bool g_check_leaks;

// ------------------------------------------------------------------ C06
// Hostile and damaged streams against a dictionary of which a stretch behind its end cannot be read, and nothing written.
u64 draw_vast_size();
DecRun decode_vast(const DecCfg& c, const View& dict, const Str& delta, const std::vector<size_t>& pieces);
static void c06_vast(const View& dict) {
  COUNT("dictionary.vast"); g_nontrivial = true;
  BuildOpts o; o.max_target = 8000; o.max_windows = 3; Str delta, what; std::vector<size_t> marks;
  if (draw(3)) delta = build_hostile(dict);
  else { Built b = build_delta(dict, o); marks = b.marks; delta = chance(1, 2) ? restructure(dict, b.delta, &what) : damage(b.delta, &b.varints, &what); }
  DecCfg c; c.set_limits = true; c.max_file = c.max_window = draw(2) ? 1 << 20 : 1 << 16;
  E.fill = (int)draw(256); E.fail_big = 300u << 20;
  std::vector<size_t> pieces = draw_cuts(delta.size(), &marks, true, 4000);
  say("stream of %zu bytes (%s) %s, dictionary %zu, delivered as %s", delta.size(), hex(delta, 40).c_str(), what.c_str(), dict.size(), cuts_text(pieces).c_str());
  try {
    DecRun r = decode_vast(c, dict, delta, pieces);
    CHECK_PROP(r.out.size() <= c.max_file, "too-much-output", "%zu bytes of output", r.out.size());
  } catch (Oom&) { COUNT("out-of-memory"); }
}
// Thousands of windows, or windows of megabytes: work in proportion to what was received and produced, not to their product.
static const u64 kLongWork = 300;
static void c06_long() {
  COUNT("stream.long"); g_nontrivial = true;
  Str dict = draw_dict(3000), what; Built b = build_long(dict, draw_long(true));
  Str delta = b.delta; if (chance(1, 4)) delta = damage(delta, &b.win_end, &what);
  DecCfg c; c.set_limits = true; c.allow_target = !chance(1, 4); c.max_file = c.max_window = 16 << 20;
  E.fill = (int)draw(256); E.fail_big = 300u << 20;
  std::vector<size_t> pieces = draw_cuts(delta.size(), &b.win_end, true, 6);
  say("%d windows, stream of %zu bytes %s, delivered as %s", b.nwin, delta.size(), what.c_str(), cuts_text(pieces).c_str());
  try {
    Buf db(dict.data(), dict.size()); Dec d; d.config(c); d.start(db); Str out; size_t pos = 0; bool failed = false;
    for (size_t i = 0; i < pieces.size() && !failed; i++) {
      size_t before = out.size(), held = pos; pos += pieces[i];
      u64 t0 = E.steps; failed = !d.chunk(delta.data() + held, pieces[i], &out); u64 used = E.steps - t0;
      u64 bud = 1000000 + kLongWork * ((u64)pieces[i] + (out.size() - before) + (failed ? b.target.size() + pos : 0));
      CHECK_PROP(used <= bud, "work", "a call with %zu bytes of input (%zu before) and %zu of output took %llu steps", pieces[i], held, out.size() - before, (unsigned long long)used);
    }
    bool fin = d.finish(); if (failed) CHECK_PROP(!fin, "finish-after-failure", "FinishDecoding succeeded after DecodeChunk failed");
    evs(out);
  } catch (Oom&) { COUNT("out-of-memory"); }
}
void c06() {
  View vast;
  if (chance(1, 700)) { c06_long(); return; }
  if (chance(1, 15) && vast_dictionary(draw_vast_size(), &vast)) { c06_vast(vast); return; }
  Stream s = draw_stream(13 | 16, chance(1, 5) ? 20000 : 800, chance(1, 2));
  if (chance(1, 10)) { s.delta = Str("\xD6\xC3\xC4", 3) + (chance(1, 2) ? Str("S") : Str(1, '\0')) + gen_bytes(draw(80), draw_style(), draw_seed()); s.kind = "noise"; s.hostile = true; }
  DecCfg c; c.set_limits = true; c.allow_target = !chance(1, 3);
  static const u64 lim[] = {1 << 20, 100, 5000, 1 << 16, 0, 1 << 22}; c.max_file = lim[draw(6)]; c.max_window = lim[draw(6)];
  if (chance(1, 4)) { Str w; s.delta = damage(s.delta, &s.marks, &w); }
  bool defaults = chance(1, 60); if (defaults) { c.set_limits = false; c.max_file = c.max_window = 1 << 26; }
  E.fill = (int)draw(256); E.fail_big = 300u << 20;
  g_nontrivial = s.delta.size() > 5;
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 4000);
  say("%s stream %zu bytes (%s), dictionary %zu, limits %llu/%llu, delivered as %s", s.kind.c_str(), s.delta.size(), hex(s.delta, 40).c_str(), s.dict.size(), (unsigned long long)c.max_file, (unsigned long long)c.max_window, cuts_text(pieces).c_str());
  try {
    Buf db(s.dict.data(), s.dict.size());
    Dec d; d.config(c);
    int sessions = chance(1, 6) ? 2 : 1;
    while (sessions--) {
      d.start(db);
      Str out; size_t pos = 0; bool failed = false;
      u64 outcap = std::min<u64>(c.max_file, 1 << 26);
      for (size_t i = 0; i < pieces.size() && !failed; i++) {
        pos += pieces[i];
        // work bounded by what was delivered so far and by the output permitted
        u64 bud = 400000 + 2000 * (u64)pos + 60 * outcap;
        u64 bulk = E.bulk;
        failed = !d.chunk(s.delta.data() + pos - pieces[i], pieces[i], &out, bud);
        bulk = E.bulk - bulk;
        CHECK_PROP(bulk <= (1 << 18) + 24 * ((u64)pos + outcap), "work", "after %zu bytes of input with at most %llu bytes of output a call moved %llu bytes", pos, (unsigned long long)outcap, (unsigned long long)bulk);
        CHECK_PROP(out.size() <= outcap, "too-much-output", "%zu bytes of output, %llu permitted", out.size(), (unsigned long long)outcap);
      }
      if (failed) COUNT("rejected-early");
      bool fin = d.finish();
      if (failed) CHECK_PROP(!fin, "finish-after-failure", "FinishDecoding succeeded after DecodeChunk failed");
      if (fin) COUNT("accepted"); else COUNT("rejected");
      evs(out);
    }
    if (s.dict.size() && memcmp(db.p, s.dict.data(), s.dict.size())) violate("memory", "dictionary overwritten");
  } catch (Oom&) { COUNT("out-of-memory"); }
  // the stack used is bounded by a constant: a depth that grows with the input overflows a thread's stack sooner or later
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  CHECK_PROP(E.stack_low > here || here - E.stack_low < (g_asan ? 1000000u : 250000u), "stack", "decoding %zu bytes used more than %u kB of stack", s.delta.size(), g_asan ? 1000 : 250);
  if (chance(1, 10)) {
    try { Str out; Buf db(s.dict.data(), s.dict.size()); VCDiffDecoder od; lib([&] { return od.Decode(db.p, db.n, s.delta, &out); }, 400000 + 2000 * (u64)s.delta.size() + 60ull * (1 << 26)); }
    catch (Oom&) { COUNT("out-of-memory"); }
  }
}

// ------------------------------------------------------------------ C07
// Totals beyond 2^31 and 2^32: windows of many megabytes, each a single RUN, with an output object that only counts.
struct Counting : public OutputStringInterface {
  u64 n; char last; Counting() : n(0), last(0) {}
  Counting& append(const char* p, size_t k) { if (k) { n += k; last = p[k - 1]; } return *this; }
  void clear() { n = 0; }
  void push_back(char c) { n++; last = c; }
  void ReserveAdditionalBytes(size_t) {}
  size_t size() const { return (size_t)n; }
};
static void c07_totals() {
  u64 win = (48u << 20) + draw(15u << 20), file = ((u64)1 << (31 + draw(2))) + draw(9) - 4 + (draw(3) ? draw(200u << 20) : 0);
  bool exact = draw(3) == 0; if (exact) file = file / win * win;
  Str w; { Str ins; ins.push_back(0); put_varint(&ins, win); Str in; put_varint(&in, win); in.push_back(0); put_varint(&in, 1); put_varint(&in, ins.size()); put_varint(&in, 0); w.push_back(0); put_varint(&w, in.size() + 1 + ins.size()); w += in; w.push_back('r'); w += ins; }
  say("windows of %llu bytes, file limit %llu", (unsigned long long)win, (unsigned long long)file);
  COUNT("total.gigabytes"); g_nontrivial = true;
  Str dict("d"); Buf db(dict.data(), 1); Dec d; DecCfg c; c.allow_target = false; c.set_limits = true; c.max_file = file; c.max_window = 1 << 26; d.config(c); d.start(db);
  Counting out; Str head = default_header(0);
  CHECK_PROP(d.chunk_to(head.data(), head.size(), &out), "refused", "the header was refused");
  u64 total = 0;
  for (;;) {
    bool fits = total + win <= file, ok = d.chunk_to(w.data(), w.size(), &out);
    if (ok) total += win;
    CHECK_PROP(out.n == total && out.n <= file, "too-much-output", "%llu bytes of output, %llu expected, %llu permitted", (unsigned long long)out.n, (unsigned long long)total, (unsigned long long)file);
    CHECK_PROP(ok == fits, fits ? "refused" : "not-enforced", "a window of %llu bytes after %llu bytes was %s with a limit of %llu", (unsigned long long)win, (unsigned long long)total, ok ? "accepted" : "refused", (unsigned long long)file);
    if (!ok) break;
  }
}
// Limits met somewhere in a long or large stream.
static void c07_long() {
  COUNT("stream.long"); g_nontrivial = true;
  Str dict = draw_dict(2000); Built b = build_long(dict, draw_long(true));
  size_t k = draw(b.win_out.size()), big = 0; for (size_t i = 0; i < b.win_out.size(); i++) big = std::max(big, b.win_out[i] - (i ? b.win_out[i - 1] : 0));
  DecCfg c; c.set_limits = true; c.allow_target = b.uses_target || draw(2); c.max_file = c.max_window = 1 << 26;
  switch (draw(4)) { case 0: c.max_file = b.win_out[k]; break; case 1: c.max_file = b.win_out[k] - 1; break; case 2: c.max_file = b.target.size() - draw(2); break; default: c.max_window = big - draw(2); break; }
  E.fill = (int)draw(256);
  Ref ref = ref_decode(dict, b.delta, ref_opts(c));
  std::vector<size_t> pieces = draw_cuts(b.delta.size(), &b.win_end, true, b.nwin > 50 ? 1000 : 12);
  say("%d windows, target %zu bytes, limits %llu/%llu, delivered as %s", b.nwin, b.target.size(), (unsigned long long)c.max_file, (unsigned long long)c.max_window, cuts_text(pieces).c_str());
  DecRun r = decode_fresh(c, dict, b.delta, pieces);
  CHECK_PROP(r.out.size() <= c.max_file, "limit-exceeded", "%zu bytes of output with a limit of %llu", r.out.size(), (unsigned long long)c.max_file);
  CHECK_PROP(r.good() == (ref.v == Ref::ACCEPT), r.good() ? "limit-exceeded" : "rejected-within-limits", "%d windows, %zu bytes in all, the largest %zu, limits %llu/%llu: %s", b.nwin, b.target.size(), big, (unsigned long long)c.max_file, (unsigned long long)c.max_window, r.good() ? "accepted" : "rejected");
}
void c07() {
  if (chance(1, 700)) { c07_long(); return; }
  if (chance(1, 100000)) { c07_totals(); return; }
  if (chance(1, 3)) {
    // Headers announcing enormous sizes: memory stays bounded by what was received and what is permitted.
    Stream s = draw_stream(13, 500, true);
    DecCfg c; c.set_limits = true; c.allow_target = !chance(1, 3);
    static const u64 lim[] = {0, 1, 100, 5000, 65536, 1000000}; c.max_file = lim[draw(6)]; c.max_window = lim[draw(6)];
    if (chance(1, 6)) { // an embedded code table announcing far more than the 1536 bytes a table has
      u64 n = draw(3) ? (u64)1 << (20 + draw(7)) : 1537 + draw(5000);
      Str in; in.push_back(0); put_varint(&in, n);
      Str body; put_varint(&body, n); body.push_back(0); put_varint(&body, 1); put_varint(&body, in.size()); put_varint(&body, 0); body += 'x'; body += in;
      s.delta = Str("\xD6\xC3\xC4\0\2", 5); put_varint(&s.delta, 4); put_varint(&s.delta, 3); s.delta += default_header(0);
      s.delta.push_back(0); put_varint(&s.delta, body.size()); s.delta += body; s.marks.clear(); s.kind = "huge-code-table"; COUNT("fault.huge-code-table");
    }
    else if (chance(1, 2)) { // one header field replaced by a huge number
      if (!s.marks.empty()) { size_t p = pick(s.marks); if (p < s.delta.size()) { Str big; put_varint(&big, draw(2) ? 0x7fffffff - draw(3) : (u64)1 << (20 + draw(11))); s.delta.replace(p, 1, big); COUNT("fault.huge-field"); } }
    }
    E.fill = (int)draw(256); E.fail_big = 600u << 20;
    std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 2000);
    say("%s stream %zu bytes, limits file %llu window %llu, pieces %s", s.kind.c_str(), s.delta.size(), (unsigned long long)c.max_file, (unsigned long long)c.max_window, cuts_text(pieces).c_str());
    g_nontrivial = s.delta.size() > 5;
    Buf db(s.dict.data(), s.dict.size());
    Dec d; d.config(c); d.start(db);
    Sink out; size_t pos = 0;
    u64 base = E.live_bytes;
    u64 permitted = std::min(c.max_file, c.max_window);
    // an embedded code table takes up to 1536 bytes of its own
    for (size_t i = 0; i < pieces.size(); i++) {
      bool ok; E.peak_bytes = E.live_bytes; E.max_request = 0;
      try { ok = d.chunk_to(s.delta.data() + pos, pieces[i], &out); } catch (Oom&) { ok = false; }
      pos += pieces[i];
      u64 allowed = 1000000 + 8 * (u64)pos + 6 * c.max_file;
      CHECK_PROP(E.peak_bytes <= base + allowed && E.max_request <= allowed, "memory", "the decoder obtained %llu bytes (largest request %llu) after receiving %zu bytes with at most %llu bytes of output permitted",
                 (unsigned long long)(E.peak_bytes - base), (unsigned long long)E.max_request, pos, (unsigned long long)c.max_file);
      CHECK_PROP(out.s.size() <= c.max_file, "limit-exceeded", "%zu bytes of output with a limit of %llu", out.s.size(), (unsigned long long)c.max_file);
      CHECK_PROP(out.max_reserve <= std::max(permitted, c.max_file) + 16, "memory", "asked the output for %zu bytes with a limit of %llu", out.max_reserve, (unsigned long long)c.max_file);
      if (!ok) break;
    }
    return;
  }
  if (chance(1, 40)) {
    // The limits a decoder has when none were set: 64 MB for a window and for the whole.
    bool sf = chance(1, 2), sw = chance(1, 2) && !sf, reuse = chance(1, 3); const u64 def = 1 << 26;
    bool at = draw(8) == 0;                                  // equality: decoding it costs time
    u64 size = at ? def : def + 1 + (draw(2) ? draw(3) : draw(1 << 20)); u64 lim = (u64)1 << (27 + draw(4));
    if (lim > 0x7fffffff) lim = 0x7fffffff;
    say("window of %llu bytes, %s raised", (unsigned long long)size, sf ? "file limit" : sw ? "window limit" : "no limit");
    Str body; put_varint(&body, size); body.push_back(0); put_varint(&body, 1); Str in; in.push_back(0); put_varint(&in, size);
    put_varint(&body, in.size()); put_varint(&body, 0); body += 'x'; body += in;
    Str delta = default_header(0); delta.push_back(0); put_varint(&delta, body.size()); delta += body;
    g_nontrivial = true; E.fail_big = 600u << 20;
    Buf db("", 0); Dec d; 
    libv([&] { if (sf) d.d->SetMaximumTargetFileSize(lim); if (sw) d.d->SetMaximumTargetWindowSize(lim); });
    if (reuse) { d.start(db); d.finish(); }
    d.start(db);
    struct Count : OutputStringInterface { size_t n; bool bad; Count() : n(0), bad(false) {}
      Count& append(const char* p, size_t k) { if (k && (p[0] != 'x' || p[k - 1] != 'x')) bad = true; n += k; return *this; } void clear() { n = 0; } void push_back(char) { n++; } void ReserveAdditionalBytes(size_t) {} size_t size() const { return n; } } out;
    bool ok = d.chunk_to(delta.data(), delta.size(), &out);
    CHECK_PROP(ok == at && (!at || d.finish()), at ? "rejected-within-limits" : "limit-exceeded", "a window of %llu bytes was %s with the default limit of 64 MB for the %s", (unsigned long long)size, ok ? "accepted" : "refused", sf ? "window" : sw ? "file" : "window and the file");
    CHECK_PROP(out.n == (at ? size : 0) && !out.bad, "limit-exceeded", "%zu bytes were output", out.n);
    COUNT("limits.default");
    return;
  }
  // Limits around the real sizes, changed at window boundaries.
  Str dict = draw_dict(1500);
  BuildOpts o; o.max_target = chance(1, 4) ? 30000 : 600; o.max_windows = 6; o.tiny = chance(1, 2);
  Built b = build_delta(dict, o);
  E.fill = (int)draw(256);
  Buf db(dict.data(), dict.size());
  Dec d;
  u64 max_file = 1 << 26, max_win = 1 << 26;
  int sessions = 1 + (int)draw(2);
  while (sessions--) {
    d.start(db);
    bool changed_mid = chance(1, 2), model_ok = true; size_t total = 0, pos = 0; Str out; bool failed = false;
    u64 ever_file = 0;
    size_t nw = b.win_end.size();
    say("session: %zu windows, target %zu", nw, b.target.size());
    for (size_t w = 0; w <= nw && !failed; w++) {
      // new limits at the start, and possibly at every boundary
      size_t wl = w < nw ? b.win_out[w] - total : 0, rest = b.target.size() - total;
      if (w == 0 || changed_mid) {
        int k = (int)draw(8);
        if (k >= 1) {
          u64 f = max_file, m = max_win;
          switch (k) {
            case 1: f = total + wl; break; case 2: f = total + wl ? total + wl - 1 : 0; break; case 3: f = b.target.size(); break;
            case 4: m = wl; break; case 5: m = wl ? wl - 1 : 0; break; case 6: f = draw(b.target.size() + 2); m = draw(rest + 2); break;
            default: f = m = draw(2) ? 1 << 26 : 0x7fffffff; break;
          }
          bool a = lib([&] { return d.d->SetMaximumTargetFileSize(f); }), c = lib([&] { return d.d->SetMaximumTargetWindowSize(m); });
          CHECK_PROP(a && c, "limit-refused", "a valid limit was refused");
          max_file = f; max_win = m; COUNT("limits.changed");
          say("limits before window %zu: file %llu window %llu", w, (unsigned long long)f, (unsigned long long)m);
          // an out-of-range window limit is refused and changes nothing
          if (chance(1, 8)) { bool r = lib([&] { return d.d->SetMaximumTargetWindowSize((size_t)0x80000000ull + draw(100)); }); CHECK_PROP(!r, "limit-accepted", "an out-of-range window limit was accepted"); COUNT("limits.out-of-range"); }
        }
      }
      ever_file = std::max(ever_file, max_file);
      if (w == nw) break;
      model_ok = wl <= max_win && total <= max_file && wl <= max_file - total;
      size_t start = w ? b.win_end[w - 1] : 0, end = b.win_end[w];
      std::vector<size_t> pieces = draw_cuts(end - start, 0, false, 3000);
      pos = start;
      size_t before = out.size();
      for (size_t i = 0; i < pieces.size() && !failed; i++) { failed = !d.chunk(b.delta.data() + pos, pieces[i], &out); pos += pieces[i]; }
      CHECK_PROP(failed == !model_ok, model_ok ? "rejected-within-limits" : "limit-exceeded", "window %zu of %zu bytes after %zu bytes of output with limits file %llu window %llu was %s", w, wl, total, (unsigned long long)max_file,
                 (unsigned long long)max_win, failed ? "rejected" : "accepted");
      if (failed) {
        COUNT("limits.enforced");
        CHECK_PROP(out.size() == before, "output-beyond-limit", "%zu bytes of a window that exceeds a limit were output", out.size() - before);
        break;
      }
      COUNT("limits.within"); g_nontrivial = true;
      total = b.win_out[w];
      CHECK_PROP(out.size() == total && b.target.compare(0, total, out) == 0, "wrong-output", "wrong output after window %zu", w);
    }
    if (nw == 0) { bool k = d.chunk(b.delta.data(), b.delta.size(), &out); CHECK_PROP(k, "rejected-within-limits", "a delta without windows was rejected"); }
    bool fin = d.finish();
    CHECK_PROP(fin == !failed, failed ? "limit-exceeded" : "rejected-within-limits", "final verdict %d", fin);
  }
}

// ------------------------------------------------------------------ C08
static void c08_decoder() {
  Dec one; DecCfg cur; cur.max_file = cur.max_window = 1 << 26;
  int sessions = 2 + (int)draw(4);
  u64 fa = draw(256), fb = draw(256);
  say("decoder reused for %d sessions", sessions);
  for (int k = 0; k < sessions; k++) {
    bool tiny = chance(1, 2);
    Stream s = draw_stream(15, tiny ? 100 : 2500, tiny);
    if (chance(1, 4)) { cur.allow_target = chance(1, 2); Lib l; one.d->SetAllowVcdTarget(cur.allow_target); }
    if (chance(1, 4) || (s.hostile && cur.max_file > (1 << 20))) {
      cur.set_limits = true; cur.max_file = chance(1, 2) ? 1 << 20 : draw(3000); cur.max_window = chance(1, 2) ? 1 << 20 : draw(3000);
      Lib l; one.d->SetMaximumTargetFileSize(cur.max_file); one.d->SetMaximumTargetWindowSize(cur.max_window);
    }
    std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 3000);
    size_t stop = chance(1, 3) ? draw(pieces.size() + 1) : pieces.size();     // abandoned early
    bool finish = true;
    say("session %d: %s, %zu bytes, allow_target %d, pieces %s, delivered %zu", k, s.kind.c_str(), s.delta.size(), cur.allow_target, cuts_text(pieces).c_str(), stop);
    Buf db(s.dict.data(), s.dict.size());
    Dec fresh; fresh.config(cur);
    E.fill = (int)fa; one.start(db); E.fill = (int)fb; fresh.start(db);
    Str o1, o2; size_t pos = 0; bool failed = false;
    for (size_t i = 0; i < stop && !failed; i++) {
      bool r1, r2;
      try { E.fill = (int)fa; r1 = one.chunk(s.delta.data() + pos, pieces[i], &o1); } catch (Oom&) { r1 = false; }
      try { E.fill = (int)fb; r2 = fresh.chunk(s.delta.data() + pos, pieces[i], &o2); } catch (Oom&) { r2 = false; }
      pos += pieces[i];
      CHECK_PROP(r1 == r2, "carry-over", "session %d after %zu bytes: reused decoder %s, fresh decoder %s", k, pos, r1 ? "succeeds" : "fails", r2 ? "succeeds" : "fails");
      CHECK_PROP(o1 == o2, "carry-over", "session %d after %zu bytes: output of the reused decoder differs from a fresh one", k, pos);
      failed = !r1;
    }
    if (failed) { COUNT("session.failed"); if (chance(1, 2)) finish = false; }
    if (finish) {
      bool f1 = one.finish(), f2 = fresh.finish();
      CHECK_PROP(f1 == f2, "carry-over", "session %d: FinishDecoding %d on the reused decoder, %d on a fresh one", k, f1, f2);
      if (f1) COUNT("session.completed"); else if (!failed) COUNT("session.abandoned");
    }
    if (k) g_nontrivial = true;
  }
}
static void c08_encoder() {
  bool json = chance(1, 4);
  Str dict = draw_dict(chance(1, 8) ? 60000 : 2500, json);
  HDict h(dict);
  int nenc = 1 + (int)draw(2);
  std::vector<std::unique_ptr<Enc> > es; std::vector<int> fl; std::vector<bool> tm;
  for (int i = 0; i < nenc; i++) { fl.push_back(draw_flags() | (json ? 4 : 0)); tm.push_back(chance(1, 2)); es.emplace_back(new Enc(h.h, fl[i], tm[i])); }
  u64 fa = draw(256), fb = draw(256);
  int sessions = 2 + (int)draw(4);
  say("%d encoders over one dictionary of %zu bytes, %d sessions", nenc, dict.size(), sessions);
  for (int k = 0; k < sessions; k++) {
    int i = (int)draw(nenc);
    Str t = draw_target(dict, chance(1, 6) ? 20000 : 1500, json);
    std::vector<size_t> ch = draw_cuts(t.size(), 0, true, 40);
    size_t stop = chance(1, 3) ? draw(ch.size() + 1) : ch.size(); bool fin = stop == ch.size() || chance(1, 2);
    say("session %d on encoder %d (%s): target %zu in %s, %zu chunks given, finished %d", k, i, flags_name(fl[i], tm[i]).c_str(), t.size(), cuts_text(ch).c_str(), stop, fin);
    Str o1, o2; size_t pos = 0;
    // A fresh dictionary and encoder, with different memory contents.
    E.fill = (int)fb; HDict h2(dict); Enc fresh(h2.h, fl[i], tm[i]);
    bool s2 = fresh.start(&o2); E.fill = (int)fa; bool s1 = es[i]->start(&o1);
    CHECK_PROP(s1 == s2, "carry-over", "StartEncoding differs");
    for (size_t q = 0; q < stop; q++) {
      E.fill = (int)fa; bool r1 = es[i]->chunk(t.data() + pos, ch[q], &o1);
      E.fill = (int)fb; bool r2 = fresh.chunk(t.data() + pos, ch[q], &o2);
      pos += ch[q];
      CHECK_PROP(r1 == r2 && o1 == o2, "carry-over", "session %d chunk %zu: output of the reused encoder differs from a fresh one", k, q);
    }
    if (fin) { bool r1 = es[i]->finish(&o1), r2 = fresh.finish(&o2); CHECK_PROP(r1 == r2 && o1 == o2, "carry-over", "session %d: FinishEncoding differs", k); COUNT("session.completed"); }
    else COUNT("session.abandoned");
    if (k) g_nontrivial = true;
  }
}
static void c08_onecall() {
  Str dict = draw_dict(2500); int fl = draw_flags(); bool tm = chance(1, 2);
  VCDiffEncoder* e = 0; libv([&] { e = new VCDiffEncoder(dict.data(), dict.size()); e->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)fl); e->SetTargetMatching(tm); });
  VCDiffDecoder* d = 0; libv([&] { d = new VCDiffDecoder; });
  struct Del { VCDiffEncoder* e; VCDiffDecoder* d; ~Del() { Lib l; delete e; delete d; } } del = {e, d};
  int n = 2 + (int)draw(4); say("one-call encoder and decoder used %d times", n);
  while (n--) {
    Str t = draw_target(dict, 2000), delta = "junk", out = "junk";
    bool k = lib([&] { return e->Encode(t.data(), t.size(), &delta); });
    Str want = encode_fresh(dict, fl, tm, t, whole(t.size()));
    CHECK_PROP(k && delta == want, "carry-over", "repeated Encode() gives a different delta than a fresh encoder");
    Stream s; s.dict = dict; s.delta = delta;
    if (chance(1, 2)) s = draw_stream(7, 1500, chance(1, 2));
    Buf db(s.dict.data(), s.dict.size());
    bool r = lib([&] { return d->Decode(db.p, db.n, s.delta, &out); });
    VCDiffDecoder* f = 0; Str o2 = "other"; libv([&] { f = new VCDiffDecoder; });
    bool r2 = lib([&] { return f->Decode(db.p, db.n, s.delta, &o2); }); { Lib l; delete f; }
    CHECK_PROP(r == r2 && out == o2, "carry-over", "repeated Decode(): %d/%zu bytes versus %d/%zu bytes with a fresh decoder", r, out.size(), r2, o2.size());
    ev(r); evs(out); COUNT("session.completed");
  }
  g_nontrivial = true;
}
// Hundreds of sessions on the same objects, with a handful of streams and targets in random order.
static void c08_many() {
  COUNT("session.hundreds"); g_nontrivial = true; E.fill = (int)draw(256);
  int sessions = 100 + (int)draw(500);
  if (draw(2)) {
    struct Job { Stream s; std::vector<size_t> pieces; size_t stop; bool finish; std::vector<bool> ok; Str out; bool fin; };
    DecCfg c; c.set_limits = true; c.max_file = c.max_window = 1 << 20; c.allow_target = draw(2);
    std::vector<Job> jobs(2 + draw(5));
    for (size_t j = 0; j < jobs.size(); j++) {
      Job& x = jobs[j]; x.s = draw_stream(15, 150, true); x.pieces = draw_cuts(x.s.delta.size(), &x.s.marks, true, 12); x.stop = chance(1, 2) ? draw(x.pieces.size() + 1) : x.pieces.size();
      Buf db(x.s.dict.data(), x.s.dict.size()); Dec d; d.config(c); d.start(db); size_t pos = 0; bool ok = true;
      try { for (size_t i = 0; i < x.stop && ok; i++) { ok = d.chunk(x.s.delta.data() + pos, x.pieces[i], &x.out); x.ok.push_back(ok); pos += x.pieces[i]; } } catch (Oom&) { return; }
      x.finish = ok || draw(2); x.fin = x.finish && d.finish();
    }
    say("decoder reused for %d sessions over %zu streams", sessions, jobs.size());
    Rng g(draw_seed()); Dec one; one.config(c);
    for (int k = 0; k < sessions; k++) {
      Job& x = jobs[g.below(jobs.size())]; Buf db(x.s.dict.data(), x.s.dict.size()); one.start(db); Str out; size_t pos = 0;
      for (size_t i = 0; i < x.ok.size(); i++) {
        bool ok = one.chunk(x.s.delta.data() + pos, x.pieces[i], &out); pos += x.pieces[i];
        CHECK_PROP(ok == x.ok[i], "carry-over", "session %d after %zu bytes: reused decoder %s, fresh decoder %s", k, pos, ok ? "succeeds" : "fails", x.ok[i] ? "succeeds" : "fails");
      }
      CHECK_PROP(out == x.out, "carry-over", "session %d: output of the reused decoder differs from a fresh one", k);
      if (x.finish) { bool f = one.finish(); CHECK_PROP(f == x.fin, "carry-over", "session %d: FinishDecoding %d on the reused decoder, %d on a fresh one", k, f, x.fin); }
    }
    return;
  }
  struct Job { Str t, out; std::vector<size_t> ch; size_t stop; bool fin; };
  bool json = chance(1, 4); Str dict = draw_dict(600, json); HDict h(dict); int fl = draw_flags() | (json ? 4 : 0); bool tm = draw(2);
  std::vector<Job> jobs(2 + draw(5));
  for (size_t j = 0; j < jobs.size(); j++) {
    Job& x = jobs[j]; x.t = draw_target(dict, 300, json); x.ch = draw_cuts(x.t.size(), 0, true, 8); x.stop = chance(1, 3) ? draw(x.ch.size() + 1) : x.ch.size(); x.fin = x.stop == x.ch.size() || draw(2);
    Enc e(h.h, fl, tm); size_t pos = 0; bool ok = e.start(&x.out); for (size_t i = 0; i < x.stop; i++) { ok = e.chunk(x.t.data() + pos, x.ch[i], &x.out) && ok; pos += x.ch[i]; }
    if (x.fin) ok = e.finish(&x.out) && ok;
    if (!ok) return;
  }
  say("encoder (%s) reused for %d sessions over %zu targets", flags_name(fl, tm).c_str(), sessions, jobs.size());
  Rng g(draw_seed()); Enc one(h.h, fl, tm);
  for (int k = 0; k < sessions; k++) {
    Job& x = jobs[g.below(jobs.size())]; Str out; size_t pos = 0; bool ok = one.start(&out);
    for (size_t i = 0; i < x.stop; i++) { ok = one.chunk(x.t.data() + pos, x.ch[i], &out) && ok; pos += x.ch[i]; }
    if (x.fin) ok = one.finish(&out) && ok;
    CHECK_PROP(ok && out == x.out, "carry-over", "session %d: output of the reused encoder differs from a fresh one", k);
  }
}
void c08_writer();
void c08() {
  E.fail_big = 512u << 20;
  if (chance(1, 8)) { c08_writer(); g_check_leaks = true; return; }
  if (chance(1, 300)) { c08_many(); g_check_leaks = true; return; }
  switch (draw(5)) { case 0: case 1: c08_decoder(); break; case 2: case 3: c08_encoder(); break; default: c08_onecall(); }
  g_check_leaks = true;
}

// ------------------------------------------------------------------ C09
void c09() {
  E.fill = (int)draw(256);
  if (chance(2, 5)) {
    // encoder
    bool json = chance(1, 5);
    Str dict = draw_dict(1500, json); int fl = draw_flags() | (json ? 4 : 0); bool tm = chance(1, 2);
    bool bad_dict = json && !dict.empty() && chance(1, 3);
    if (bad_dict) dict[draw(dict.size())] |= (char)0x80;
    HDict h(dict); Enc e(h.h, fl, tm);
    if (chance(1, 4)) { bool r = lib([&] { return h.h->Init(); }); COUNT("misuse.init-twice"); CHECK_PROP(!r, "misuse-accepted", "initializing a dictionary twice succeeded"); }
    bool open = false; Str t, out, sofar, want_target; int calls = 4 + (int)draw(14);
    std::unique_ptr<Enc> fresh; Str fo;
    std::unique_ptr<HDict> h2;
    say("encoder: %d calls in any order", calls);
    for (int k = 0; k < calls; k++) {
      Str before = out; 
      switch (draw(3)) {
        case 0: {   // chunk
          Str c = draw_target(dict, 400, json);
          if (open && json && chance(1, 4)) {   // refused, and the session goes on
            Str b = c + "x"; b[draw(b.size())] |= (char)0x80;
            bool r = e.chunk(b.data(), b.size(), &out); COUNT("misuse.non-ascii-chunk");
            CHECK_PROP(!r && out == before, "misuse-accepted", "a chunk that is not ASCII was %s", r ? "accepted" : "refused, but changed the output");
            say("EncodeChunk(non-ASCII) -> %d", r);
          }
          bool r = e.chunk(c.data(), c.size(), &out);
          if (!open) { COUNT("misuse.encode-before-start"); CHECK_PROP(!r && out == before, "misuse-accepted", "EncodeChunk outside a session %s", r ? "succeeded" : "changed the output"); }
          else { bool r2 = fresh->chunk(c.data(), c.size(), &fo); CHECK_PROP(r && r2 && out == fo, "session-disturbed", "a chunk after refused calls gives a different result"); g_nontrivial = true; }
          say("EncodeChunk(%zu) -> %d", c.size(), r); break; }
        case 1: {   // start
          if (open) break;
          if (bad_dict) { bool r = e.start(&out); COUNT("misuse.start-refused"); CHECK_PROP(!r && out == before, "misuse-accepted", "StartEncoding with a refused dictionary %s", r ? "succeeded" : "changed the output"); g_nontrivial = true; say("StartEncoding -> %d", r); break; }
          out.clear(); fo.clear(); bool r = e.start(&out);
          h2.reset(new HDict(dict)); fresh.reset(new Enc(h2->h, fl, tm)); bool r2 = fresh->start(&fo);
          CHECK_PROP(r && r2 && out == fo, "session-disturbed", "StartEncoding after refused calls gives a different result"); open = true; say("StartEncoding -> %d", r); break; }
        default: {  // finish
          bool r = e.finish(&out);
          if (!open) { COUNT("misuse.finish-before-start"); CHECK_PROP(!r && out == before, "misuse-accepted", "FinishEncoding outside a session %s", r ? "succeeded" : "changed the output"); }
          else { bool r2 = fresh->finish(&fo); CHECK_PROP(r && r2 && out == fo, "session-disturbed", "FinishEncoding gives a different result"); open = false; }
          say("FinishEncoding -> %d", r); }
      }
    }
    return;
  }
  // decoder
  Dec d; DecCfg cfg; int sessions = 1 + (int)draw(3);
  u64 maxw = 1 << 26;
  auto misuse_idle = [&](Str* out) {
    int n = (int)draw(3);
    while (n--) {
      Str before = *out;
      switch (draw(3)) {
        case 0: { Str x = gen_bytes(draw(30), draw_style(), draw_seed()); bool r = d.chunk(x.data(), x.size(), out); COUNT("misuse.decode-before-start"); CHECK_PROP(!r && *out == before, "misuse-accepted", "DecodeChunk outside a session %s", r ? "succeeded" : "changed the output"); break; }
        case 1: { bool r = d.finish(); COUNT("misuse.finish-before-start"); CHECK_PROP(!r, "misuse-accepted", "FinishDecoding outside a session succeeded"); break; }
        default: { bool r = lib([&] { return d.d->SetMaximumTargetWindowSize((size_t)0x7fffffff + 1 + draw(1000)); }); COUNT("misuse.limit"); CHECK_PROP(!r, "misuse-accepted", "an out-of-range limit was accepted"); }
      }
    }
  };
  for (int k = 0; k < sessions; k++) {
    bool tiny = chance(1, 2);
    Stream s = draw_stream(7, tiny ? 100 : 1500, tiny);
    Str out("seed"), junk("junk");
    misuse_idle(&junk);
    if (chance(1, 3)) { cfg.allow_target = chance(1, 2); Lib l; d.d->SetAllowVcdTarget(cfg.allow_target); }
    if (chance(1, 4)) { cfg.set_limits = true; maxw = chance(1, 2) ? 1 << 26 : draw(2000); cfg.max_window = maxw; Lib l; d.d->SetMaximumTargetWindowSize(maxw); }
    std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 500);
    say("session %d: %s %zu bytes, pieces %s", k, s.kind.c_str(), s.delta.size(), cuts_text(pieces).c_str());
    Buf db(s.dict.data(), s.dict.size()); Dec fresh; fresh.config(cfg);
    d.start(db); fresh.start(db);
    Str o2("seed"); size_t pos = 0; bool failed = false;
    for (size_t i = 0; i < pieces.size() && !failed; i++) {
      if (i < 40 || i + 1 == pieces.size()) { int n = (int)draw(3); while (n-- > 0) switch (draw(3)) {   // refused calls in the middle of the session
        case 0: { Str other = gen_bytes(draw(50), draw_style(), draw_seed()); Buf ob(other.data(), other.size()); d.start(ob); COUNT("misuse.start-twice"); say("StartDecoding again"); break; }
        case 1: { bool a = chance(1, 2); libv([&] { d.d->SetAllowVcdTarget(a); }); COUNT("misuse.setting-mid-session"); say("SetAllowVcdTarget(%d) in the session", a); break; }
        default: { bool r = lib([&] { return d.d->SetMaximumTargetWindowSize(~(size_t)0 - draw(5)); }); COUNT("misuse.limit"); CHECK_PROP(!r, "misuse-accepted", "an out-of-range limit was accepted"); break; }
      } }
      bool r1 = d.chunk(s.delta.data() + pos, pieces[i], &out), r2 = fresh.chunk(s.delta.data() + pos, pieces[i], &o2);
      pos += pieces[i];
      CHECK_PROP(r1 == r2 && out == o2, "session-disturbed", "after %zu bytes: with refused calls in between %d/%zu bytes, without %d/%zu bytes", pos, r1, out.size(), r2, o2.size());
      failed = !r1;
    }
    if (failed) {
      COUNT("session.failed");
      // ready for a new session at once; until then every call is refused
      if (chance(1, 2)) { Str before = out; Str x = chance(1, 2) ? s.delta : gen_bytes(draw(30), 1, draw_seed()); bool r = d.chunk(x.data(), x.size(), &out); COUNT("misuse.decode-after-failure"); CHECK_PROP(!r && out == before, "misuse-accepted", "DecodeChunk after a failure %s", r ? "succeeded" : "changed the output"); }
      if (chance(1, 2)) { bool r = d.finish(); COUNT("misuse.finish-after-failure"); CHECK_PROP(!r, "misuse-accepted", "FinishDecoding after a failure succeeded"); }
    } else {
      bool f1 = d.finish(), f2 = fresh.finish();
      CHECK_PROP(f1 == f2, "session-disturbed", "FinishDecoding %d with refused calls in between, %d without", f1, f2);
      if (f1) { COUNT("session.completed"); g_nontrivial = true; }
    }
    misuse_idle(&junk);
    CHECK_PROP(junk == "junk", "misuse-accepted", "a refused call changed an output");
  }
}

// ------------------------------------------------------------------ C11
static bool arm(u64 n_allocs, const char** how) {
  if (n_allocs == 0) return false;
  E.failed_allocs = 0;
  E.fail_in = (long long)draw(n_allocs);
  E.fail_sticky = chance(1, 4); *how = E.fail_sticky ? "from then on" : "once";
  return true;
}
static void disarm() { E.fail_in = -1; E.fail_sticky = false; }
static void note_fault() { if (E.failed_allocs) { COUNT("fault.alloc-failure"); g_nontrivial = true; } E.failed_allocs = 0; }
extern bool g_fork_each;
// The process has not used the library yet: memory fails while it is used for the first time.
static void c11_first() {
  const char* how = ""; COUNT("first-use");
  Str dict = draw_dict(1500), t = draw_target(dict, 800); int fl = draw_flags(); bool tm = chance(1, 2), json = chance(1, 6);
  if (json) { fl |= 4; for (size_t i = 0; i < dict.size(); i++) dict[i] &= 0x7f; for (size_t i = 0; i < t.size(); i++) t[i] &= 0x7f; }
  std::vector<size_t> ch = draw_cuts(t.size(), 0, true, 6);
  Stream s = draw_stream(1, 1500, chance(1, 2));
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 100);
  Ref ref = ref_decode(s.dict, s.delta);
  int rounds = 1 + (int)draw(3);
  while (rounds--) {
    int kind = (int)draw(3); arm(kind == 2 ? 12 : 45, &how);
    say("first use: %s, allocation %lld fails %s", kind == 0 ? "encoder" : kind == 1 ? "one-call encoder" : "decoder", E.fail_in, how);
    HashedDictionary* h = 0; VCDiffStreamingEncoder* e = 0; VCDiffEncoder* oe = 0; VCDiffStreamingDecoder* d = 0; Str out; bool done = false; size_t pos = 0;
    try {
      if (kind == 0) {
        libv([&] { h = new HashedDictionary(dict.data(), dict.size()); });
        bool ok = lib([&] { return h->Init(); });
        if (ok) { libv([&] { e = new VCDiffStreamingEncoder(h, (open_vcdiff::VCDiffFormatExtensionFlags)fl, tm); }); ok = lib([&] { return e->StartEncoding(&out); }); }
        for (size_t i = 0; ok && i < ch.size(); i++) { ok = lib([&] { return e->EncodeChunk(t.data() + pos, ch[i], &out); }); pos += ch[i]; }
        if (ok) done = lib([&] { return e->FinishEncoding(&out); });
      } else if (kind == 1) {
        libv([&] { oe = new VCDiffEncoder(dict.data(), dict.size()); oe->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)fl); oe->SetTargetMatching(tm); });
        done = lib([&] { return oe->Encode(t.data(), t.size(), &out); });
      } else {
        libv([&] { d = new VCDiffStreamingDecoder; d->StartDecoding(s.dict.data(), s.dict.size()); });
        bool ok = true;
        for (size_t i = 0; ok && i < pieces.size(); i++) { ok = lib([&] { return d->DecodeChunk(s.delta.data() + pos, pieces[i], &out); }); pos += pieces[i]; }
        if (ok) done = lib([&] { return d->FinishDecoding(); });
      }
    } catch (Oom&) { say("reported"); }
    disarm(); note_fault();
    if (kind == 2) { CHECK_PROP(out.size() <= ref.out.size() && ref.out.compare(0, out.size(), out) == 0 && (!done || out == ref.out), "wrong-data", "wrong output"); }
    else if (done && !json) { Ref r = ref_decode(dict, out); CHECK_PROP(r.v == Ref::ACCEPT && r.out == t, "wrong-data", "success reported with a wrong delta: %s", r.why.c_str()); }
    { Lib l; delete d; delete e; delete oe; delete h; }
  }
  // memory is available again
  Str a = encode_fresh(dict, fl, tm, t, ch), b = encode_fresh(dict, fl, tm, t, ch);
  CHECK_PROP(a == b, "not-restartable", "encoding twice gives different results");
  if (!json) { Ref r = ref_decode(dict, a); CHECK_PROP(r.v == Ref::ACCEPT && r.out == t, "not-restartable", "after allocation failures during first use the encoder produces a wrong delta: %s", r.why.c_str()); }
  DecRun g = decode_fresh(DecCfg(), s.dict, s.delta, pieces);
  CHECK_PROP(g.good() == (ref.v == Ref::ACCEPT) && g.out == ref.out, "not-restartable", "after allocation failures during first use the decoder misbehaves");
  COUNT("restart.new-object");
}
void c11() {
  E.fill = (int)draw(256); const char* how = "";
  if (g_fork_each) { c11_first(); return; }
  int kind = (int)draw(4);
  if (kind == 0 || kind == 1) {
    // encoder
    Str dict = draw_dict(chance(1, 8) ? 40000 : 2000, false); int fl = draw_flags(); bool json = chance(1, 6), tm = chance(1, 2);
    if (json) for (size_t i = 0; i < dict.size(); i++) dict[i] &= 0x7f;
    if (json) fl |= 4;
    Str t = draw_target(dict, chance(1, 8) ? 30000 : 1500, json);
    std::vector<size_t> ch = draw_cuts(t.size(), 0, true, 12);
    HDict h(dict); 
    u64 a0 = E.allocs; Str good; { Enc e(h.h, fl, tm); good = encode_session(e, t, ch); }
    u64 n = E.allocs - a0;
    say("encoder %s: dictionary %zu, target %zu in %s; %llu allocations", flags_name(fl, tm).c_str(), dict.size(), t.size(), cuts_text(ch).c_str(), (unsigned long long)n);
    // failure while encoding
    Str out; std::unique_ptr<Enc> e; bool complete = false; size_t pos = 0; const char* at = "constructor";
    int rounds = 1 + (int)draw(2);
    while (rounds--) {
      out.clear(); Str().swap(out); pos = 0; complete = false;
      arm(n, &how); say("allocation %lld fails %s", E.fail_in, how);
      try {
        if (!e) { at = "constructor"; e.reset(new Enc(h.h, fl, tm)); }
        at = "StartEncoding"; bool ok = e->start(&out);
        for (size_t i = 0; ok && i < ch.size(); i++) { at = "EncodeChunk"; size_t b = out.size(); ok = e->chunk(t.data() + pos, ch[i], &out); pos += ch[i];
          if (ok && ch[i] && !json) CHECK_PROP(out.size() > b, "silent-loss", "EncodeChunk reported success without output after an allocation failure"); }
        at = "FinishEncoding"; if (ok) complete = e->finish(&out);
      } catch (Oom&) { say("reported by %s", at); }
      disarm(); note_fault();
      CHECK_PROP(out.size() <= good.size() && good.compare(0, out.size(), out) == 0, "wrong-data", "output after an allocation failure is not a part of the correct delta (%zu bytes, failure in %s)", out.size(), at);
      if (complete) CHECK_PROP(out == good, "wrong-data", "all calls succeeded but the delta is incomplete");
      // the same object again, with memory available
      if (e) { Str again = encode_session(*e, t, ch); CHECK_PROP(again == good, "not-restartable", "restarting the same encoder after an allocation failure in %s gives a different delta", at); COUNT("restart.same-object"); }
      // the shared dictionary with a new encoder
      { Enc f(h.h, fl, tm); CHECK_PROP(encode_session(f, t, ch) == good, "dictionary-damaged", "the shared dictionary gives different results after an allocation failure"); COUNT("restart.new-object"); }
    }
    return;
  }
  if (kind == 2) {
    // preparing a dictionary, and the one-call interfaces
    Str dict = draw_dict(5000), t = draw_target(dict, 1500); int fl = draw_flags(); bool tm = chance(1, 2);
    Str good = encode_fresh(dict, fl, tm, t, whole(t.size()));
    u64 a0 = E.allocs; { VCDiffEncoder e(dict.data(), dict.size()); Str o; Lib l; (void)e; } 
    u64 n = 24;
    (void)a0;
    say("one-call encoder/decoder and dictionary preparation, dictionary %zu target %zu", dict.size(), t.size());
    arm(n, &how);
    Str out; bool ok = false;
    HashedDictionary* hd = 0; VCDiffEncoder* e = 0;
    bool prep = chance(1, 2);
    try {
      if (prep) {
        lib([&] { hd = new HashedDictionary(dict.data(), dict.size()); return true; });
        bool i = lib([&] { return hd->Init(); });
        if (i) { disarm(); note_fault(); Enc f(hd, fl, tm); CHECK_PROP(encode_session(f, t, whole(t.size())) == good, "wrong-data", "a dictionary whose preparation reported success gives a wrong delta"); }
      } else {
        lib([&] { e = new VCDiffEncoder(dict.data(), dict.size()); e->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)fl); e->SetTargetMatching(tm); return true; });
        ok = lib([&] { return e->Encode(t.data(), t.size(), &out); });
      }
    } catch (Oom&) { say("reported"); }
    disarm(); note_fault();
    if (ok) CHECK_PROP(out == good, "wrong-data", "Encode reported success with a wrong delta");
    { Lib l; delete hd; delete e; }
    { Str g2 = encode_fresh(dict, fl, tm, t, whole(t.size())); CHECK_PROP(g2 == good, "not-restartable", "a new encoder after an allocation failure gives a different delta"); COUNT("restart.new-object"); }
    // one-call decoder
    VCDiffDecoder* d = 0; Str o; bool r = false;
    { Lib l; d = new VCDiffDecoder; }
    arm(16, &how);
    try { r = lib([&] { return d->Decode(dict.data(), dict.size(), good, &o); }); } catch (Oom&) {}
    disarm(); note_fault();
    if (r) CHECK_PROP(o == t, "wrong-data", "Decode reported success with wrong output");
    else CHECK_PROP(o.size() <= t.size() && t.compare(0, o.size(), o) == 0, "wrong-data", "partial output is not a part of the target");
    { Lib l; delete d; }
    return;
  }
  // decoder
  bool tiny = chance(1, 3);
  Stream s = draw_stream(3, tiny ? 100 : 4000, tiny);
  DecCfg c; c.allow_target = !chance(1, 3);
  Ref ref = ref_decode(s.dict, s.delta, ref_opts(c));
  bool valid = ref.v == Ref::ACCEPT;
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 400);
  u64 a0 = E.allocs; { DecRun g = decode_fresh(c, s.dict, s.delta, pieces); CHECK_PROP(g.good() == valid, "wrong-data", "fault-free verdict"); }
  u64 n = E.allocs - a0;
  say("decoder: %s delta %zu bytes, pieces %s; %llu allocations", s.kind.c_str(), s.delta.size(), cuts_text(pieces).c_str(), (unsigned long long)n);
  Buf db(s.dict.data(), s.dict.size());
  std::unique_ptr<Dec> d; Str out; int rounds = 1 + (int)draw(2);
  while (rounds--) {
    Str().swap(out); size_t pos = 0; bool done = false; const char* at = "constructor";
    arm(n, &how); say("allocation %lld fails %s", E.fail_in, how);
    try {
      if (!d) { d.reset(new Dec); d->config(c); }
      at = "StartDecoding"; d->start(db);
      bool ok = true;
      for (size_t i = 0; ok && i < pieces.size(); i++) { at = "DecodeChunk"; ok = d->chunk(s.delta.data() + pos, pieces[i], &out); pos += pieces[i]; }
      at = "FinishDecoding"; if (ok) done = d->finish();
    } catch (Oom&) { say("reported by %s", at); }
    disarm(); note_fault();
    CHECK_PROP(out.size() <= ref.out.size() && ref.out.compare(0, out.size(), out) == 0, "wrong-data", "output after an allocation failure is not a part of the target (failure in %s)", at);
    if (done) CHECK_PROP(valid && out == ref.out, "wrong-data", "success reported with incomplete or wrong output");
    if (d) {
      d->finish();      // ends the interrupted session, whatever it returns
      d->config(c);
      DecRun again = decode_session(*d, db, s.delta, pieces);
      CHECK_PROP(again.good() == valid && (!valid || again.out == ref.out), "not-restartable", "a new session on the same decoder after an allocation failure in %s %s", at, again.good() ? "gives wrong output" : "fails"); COUNT("restart.same-object");
    }
    DecRun f = decode_fresh(c, s.dict, s.delta, pieces);
    CHECK_PROP(f.good() == valid && (!valid || f.out == ref.out), "not-restartable", "a new decoder after an allocation failure misbehaves"); COUNT("restart.new-object");
  }
}

// ------------------------------------------------------------------ C15
namespace {
// A caller-defined output type for the templates.
struct MyOut {
  Str s; size_t cap, reallocs; bool removed;
  MyOut() : cap(0), reallocs(0), removed(false) {}
  void append(const char* p, size_t n) { NoLib l; s.append(p, n); if (s.size() > cap) { cap = s.size(); reallocs++; } }
  void clear() { s.clear(); removed = true; }
  void push_back(char c) { NoLib l; s.push_back(c); if (s.size() > cap) { cap = s.size(); reallocs++; } }
  void reserve(size_t n) { if (n > cap) { cap = n; reallocs++; } }
  size_t size() const { return s.size(); }
};
}
void c15() {
  E.fill = (int)draw(256);
  if (chance(2, 5)) {
    // encoder: outputs prefilled and switched, inputs destroyed
    Str dict = draw_dict(chance(1, 6) ? 20000 : 2000); int fl = draw_flags(); bool tm = chance(1, 2);
    Str t = draw_target(dict, chance(1, 6) ? 20000 : 2000);
    std::vector<size_t> ch = draw_cuts(t.size(), 0, true, 30);
    Str good = encode_fresh(dict, fl, tm, t, ch);
    say("encoder %s, dictionary %zu, target %zu in %s, outputs switched", flags_name(fl, tm).c_str(), dict.size(), t.size(), cuts_text(ch).c_str());
    HashedDictionary* hd; bool after_init = chance(1, 2);
    { std::unique_ptr<Buf> b(new Buf(dict.data(), dict.size())); Lib l; hd = new HashedDictionary(b->p, b->n); if (!after_init) { NoLib n; CHECK_PROP(memcmp(b->p, dict.data(), dict.size()) == 0, "input-modified", "the dictionary was modified"); b.reset(); } CHECK_PROP(hd->Init(), "init", "Init failed"); }
    struct Del { HashedDictionary* h; ~Del() { Lib l; delete h; } } del = {hd};
    std::vector<MyOut> outs(1 + draw(3)); std::vector<Str> pre;
    for (size_t i = 0; i < outs.size(); i++) { Str p = gen_bytes(draw(40), draw_style(), draw_seed()); outs[i].s = p; outs[i].cap = p.size(); pre.push_back(p); }
    Enc e(hd, fl, tm); Str seq; size_t pos = 0;
    for (size_t i = 0; i < ch.size() + 2; i++) {
      MyOut& o = outs[draw(outs.size())]; Str before = o.s; bool r; size_t re = o.reallocs;
      std::vector<Str> others; for (size_t q = 0; q < outs.size(); q++) others.push_back(outs[q].s);
      if (i == 0) r = lib([&] { return e.e->StartEncoding(&o); });
      else if (i == ch.size() + 1) r = lib([&] { return e.e->FinishEncoding(&o); });
      else { Buf b(t.data() + pos, ch[i - 1]); r = lib([&] { return e.e->EncodeChunk(b.p, b.n, &o); }); CHECK_PROP(!b.n || memcmp(b.p, t.data() + pos, b.n) == 0, "input-modified", "EncodeChunk modified its input"); pos += ch[i - 1]; }
      CHECK_PROP(r, "encode-failed", "encoder call %zu failed", i);
      CHECK_PROP(o.reallocs - re <= 1, "reallocations", "encoder call %zu (%zu bytes of output) made the output grow %zu times", i, o.s.size() - before.size(), o.reallocs - re);
      CHECK_PROP(!o.removed && o.s.compare(0, before.size(), before) == 0, "output-overwritten", "existing contents of the output were changed");
      for (size_t q = 0; q < outs.size(); q++) if (&outs[q] != &o) CHECK_PROP(outs[q].s == others[q], "output-overwritten", "an output object not passed to the call was changed");
      seq += o.s.substr(before.size());
    }
    CHECK_PROP(seq == good, "wrong-data", "output collected over several objects differs from the normal delta");
    evs(seq); g_nontrivial = t.size() > 0;
    // one-call: replaces
    Str o = gen_bytes(draw(100), 1, draw_seed()); VCDiffEncoder* oe = 0; libv([&] { oe = new VCDiffEncoder(dict.data(), dict.size()); oe->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)fl); oe->SetTargetMatching(tm); });
    struct Del2 { VCDiffEncoder* h; ~Del2() { Lib l; delete h; } } del2 = {oe};
    bool r = lib([&] { return oe->Encode(t.data(), t.size(), &o); });
    CHECK_PROP(r && o == encode_fresh(dict, fl, tm, t, whole(t.size())), "not-replaced", "Encode did not replace the old contents of its output");
    return;
  }
  bool tiny = chance(1, 3);
  bool large = chance(1, 250); Stream s;
  if (large) { s.dict = draw_dict(2000); Built b = build_long(s.dict, draw_long(true)); s.delta = b.delta; s.marks = b.win_end; s.kind = "long"; s.damaged = s.hostile = false; COUNT("stream.long"); }
  else s = draw_stream(7, tiny ? 100 : 4000, tiny);
  DecCfg c; c.allow_target = !chance(1, 3); c.set_limits = true; c.max_file = c.max_window = large ? 16 << 20 : 4 << 20;
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, large ? 40 : 4000);
  DecRun good = decode_fresh(c, s.dict, s.delta, pieces);
  Ref ref = ref_decode(s.dict, s.delta, ref_opts(c));
  say("decoder: %s delta %zu bytes, pieces %s", s.kind.c_str(), s.delta.size(), cuts_text(pieces).c_str());
  g_nontrivial = ref.wins.size() > 0;
  Buf db(s.dict.data(), s.dict.size());
  {
    // switched, prefilled outputs
    std::vector<MyOut> outs(1 + draw(3)); for (size_t i = 0; i < outs.size(); i++) { outs[i].s = gen_bytes(draw(40), draw_style(), draw_seed()); outs[i].cap = outs[i].s.size(); }
    Dec d; d.config(c); d.start(db); size_t pos = 0; Str seq; bool failed = false;
    for (size_t i = 0; i < pieces.size() && !failed; i++) {
      MyOut& o = outs[outs.size() > 1 && i < 200 ? draw(outs.size()) : 0]; Str before = o.s;
      { Buf b(s.delta.data() + pos, pieces[i]); failed = !lib([&] { return d.d->DecodeChunk(b.p, b.n, &o); }); CHECK_PROP(!b.n || memcmp(b.p, s.delta.data() + pos, b.n) == 0, "input-modified", "DecodeChunk modified its input"); }
      pos += pieces[i];
      CHECK_PROP(!o.removed && o.s.size() >= before.size() && o.s.compare(0, before.size(), before) == 0, "output-overwritten", "existing contents of the output were changed");
      seq += o.s.substr(before.size());
    }
    bool fin = !failed && d.finish();
    CHECK_PROP(fin == good.good() && failed == good.failed && seq == good.out, "wrong-data", "results with switched output objects differ (%zu versus %zu bytes)", seq.size(), good.out.size());
    CHECK_PROP(!s.dict.size() || memcmp(db.p, s.dict.data(), s.dict.size()) == 0, "input-modified", "the decoder modified the dictionary");
  }
  if (good.good() && !ref.ambiguous) {
    // one output object: at most one reallocation per window
    MyOut o; o.s = gen_bytes(draw(30), 1, draw_seed()); o.cap = o.s.size(); size_t pre = o.s.size();
    Dec d; d.config(c); d.start(db); size_t pos = 0; 
    for (size_t i = 0; i < pieces.size(); i++) {
      Buf b(s.delta.data() + pos, pieces[i]); bool ok = lib([&] { return d.d->DecodeChunk(b.p, b.n, &o); }); pos += pieces[i];
      CHECK_PROP(ok, "wrong-data", "rejected on the second decode");
      size_t started = 0; for (size_t w = 0; w < ref.wins.size(); w++) if (ref.wins[w].start < pos) started++;
      CHECK_PROP(o.reallocs <= started, "reallocations", "the output was reallocated %zu times while %zu windows were received (%zu bytes)", o.reallocs, started, pos);
    }
    CHECK_PROP(d.finish() && o.s.substr(pre) == ref.out, "wrong-data", "wrong output");
    COUNT("reallocations-measured");
    // one-call: replaces
    Str r = gen_bytes(draw(200), 1, draw_seed()); VCDiffDecoder od; bool ok = lib([&] { return od.Decode(db.p, db.n, s.delta, &r); });
    if (c.allow_target || !ref.used_target) CHECK_PROP(ok && r == ref.out, "not-replaced", "Decode did not replace the old contents of its output");
  }
}
