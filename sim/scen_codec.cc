// C01 C02 C03 C04 C05 C16 C17: encoder, channel and decoder.
#include "api.h"
#include <algorithm>
#include "google/encodetable.h"

// ------------------------------------------------------------------ C01
static size_t size_cap() {
  u64 k = draw(100);
  if (g_tier == 1 && k == 99) return 24u << 20;
  if (k >= 97) return 2200000;
  if (k >= 80) return 200000;
  return 20000;
}
// Sizes beyond 2^24: long copies from the dictionary and from earlier target data with a little fresh data in between.
static void c01_huge() {
  Rng g(draw_seed()); bool bigdict = draw(2);
  Str dict = gen_bytes(bigdict ? (16u << 20) + draw(3u << 20) : 3000 + draw(60000), 1, g.next()), target;
  size_t tn = bigdict ? 100000 + draw(400000) : (16u << 20) + draw(3u << 20); bool tm = draw(3) != 0; int flags = draw_flags();
  while (target.size() < tn) {
    size_t len = g.below(4) ? 100 + g.below(bigdict ? 3000 : 60000) : 40 + g.below(300);
    if (g.below(6) == 0) target += gen_bytes(1 + g.below(40), 1, g.next());
    if (tm && g.below(2) && target.size() > 100000) { size_t o = g.below(target.size() - 70000); target.append(Str(target, o, len)); }
    else { if (len > dict.size()) len = dict.size(); size_t o = g.below(4) ? g.below(dict.size() - len + 1) : dict.size() - len; target.append(dict, o, len); }
  }
  say("dictionary %zu bytes, target %zu bytes, %s", dict.size(), target.size(), flags_name(flags, tm).c_str());
  COUNT("size.above-16-MB"); g_nontrivial = true;
  Str delta = encode_fresh(dict, flags, tm, target, whole(target.size()));
  DecCfg c; c.allow_target = draw(2);
  DecRun r = decode_fresh(c, dict, delta, draw(2) ? whole(delta.size()) : draw_cuts(delta.size(), 0, true, 6));
  CHECK_PROP(r.good(), "decode-failed", "a delta of the encoder was rejected");
  CHECK_PROP(r.out == target, "roundtrip", "got %zu bytes, expected %zu", r.out.size(), target.size());
}
// A chunk that no window can hold (dictionary and chunk beyond 31 bits) is refused and leaves the session as it was.
static void c01_vast() {
  View vast; Str dict = draw_dict(2000), target = draw_target(dict, 3000); int flags = draw_flags(); bool tm = chance(1, 4);
  u64 over = 0x80000000ull - std::min<u64>(dict.size(), draw(2) ? dict.size() : 0);
  u64 n = draw(3) == 0 ? over + draw(3) : draw(2) ? (1ull << 32) - 20 + draw(4000) : over + draw(1ull << 30);
  if (!vast_dictionary(n, &vast)) return;
  E.fill = (int)draw(256); E.fail_big = 64u << 20; COUNT("chunk.beyond-31-bits"); g_nontrivial = true;
  say("dictionary %zu bytes, chunks of %zu bytes, one of %llu bytes in between, %s", dict.size(), target.size(), (unsigned long long)n, flags_name(flags, tm).c_str());
  Buf db(dict.data(), dict.size()); HashedDictionary* h = 0; VCDiffStreamingEncoder* e = 0; Str delta;
  libv([&] { h = new HashedDictionary(db.p, db.n); h->Init(); e = new VCDiffStreamingEncoder(h, (open_vcdiff::VCDiffFormatExtensionFlags)flags, tm); });
  bool ok = lib([&] { return e->StartEncoding(&delta); });
  if (ok && draw(2)) { ok = lib([&] { return e->EncodeChunk(target.data(), target.size(), &delta); }); } else if (ok) target.clear();
  CHECK_PROP(ok, "encode-failed", "encoding an ordinary chunk failed");
  Str before = delta, want = target;
  try {
    bool r = lib([&] { return e->EncodeChunk(vast.p, vast.n, &delta); }, 400000000ull);
    CHECK_PROP(!r && delta == before, "vast-chunk", "a chunk of %llu bytes, which no delta window can hold, %s", (unsigned long long)n, r ? "was accepted" : "was refused, but output was added");
    Str more = draw_target(dict, 500); want += more;
    ok = lib([&] { return e->EncodeChunk(more.data(), more.size(), &delta); }) && lib([&] { return e->FinishEncoding(&delta); });
    CHECK_PROP(ok, "encode-failed", "encoding failed after a chunk was refused");
    DecRun d = decode_fresh(DecCfg(), dict, delta, whole(delta.size()));
    CHECK_PROP(d.good() && d.out == want, "roundtrip", "after a refused chunk the delta does not restore the other chunks");
  } catch (Oom&) {}
  { Lib l; delete e; delete h; }
}
// More chunks in one session than a 16-bit counter holds.
static void c01_many() {
  Rng g(draw_seed()); Str dict = gen_bytes(40 + draw(400), 1, g.next()), target; int flags = draw_flags();
  size_t n = draw(2) ? 65600 + draw(2000) : 2000 + draw(20000); std::vector<size_t> chunks;
  for (size_t i = 0; i < n; i++) {
    size_t len = g.below(20) ? 1 + g.below(4) : 32 + g.below(8); chunks.push_back(len);
    if (len < 32) target += gen_bytes(len, 1, g.next()); else target.append(dict, g.below(dict.size() - len + 1), len);
  }
  say("dictionary %zu bytes, target %zu bytes in %zu chunks, %s", dict.size(), target.size(), n, flags_name(flags, false).c_str());
  COUNT("session.thousands-of-chunks"); g_nontrivial = true;
  Str delta = encode_fresh(dict, flags, false, target, chunks);
  DecRun r = decode_fresh(DecCfg(), dict, delta, draw_cuts(delta.size(), 0, true, 40));
  CHECK_PROP(r.good(), "decode-failed", "a delta of the encoder (%zu chunks) was rejected", n);
  CHECK_PROP(r.out == target, "roundtrip", "%zu chunks: got %zu bytes, expected %zu", n, r.out.size(), target.size());
}
void c01() {
  if (chance(1, 25000)) { c01_many(); return; }
  if (chance(1, 1500)) { c01_vast(); return; }
  if (chance(1, 20000)) { c01_huge(); return; }
  size_t cap = size_cap();
  Str dict = draw_dict(cap), target = draw_target(dict, cap);
  int flags = draw_flags(); bool tm = chance(1, 2);
  bool onecall = chance(1, 4);
  E.fill = (int)draw(256);
  say("dictionary %zu bytes, target %zu bytes, %s%s", dict.size(), target.size(), flags_name(flags, tm).c_str(), onecall ? " one-call" : "");
  g_nontrivial = target.size() > 0;
  if (onecall) {
    Str delta = gen_bytes(draw(20), 0, 1), out = gen_bytes(draw(20), 0, 2);
    VCDiffEncoder* e = 0;
    { Buf b(dict.data(), dict.size()); libv([&] { e = new VCDiffEncoder(b.p, b.n); e->SetFormatFlags((open_vcdiff::VCDiffFormatExtensionFlags)flags); e->SetTargetMatching(tm); }); }
    bool ok; { Buf t(target.data(), target.size()); ok = lib([&] { return e->Encode(t.p, t.n, &delta); }); }
    { Lib l; delete e; }
    CHECK_PROP(ok, "encode-failed", "VCDiffEncoder::Encode failed");
    evs(delta);
    Buf db(dict.data(), dict.size());
    VCDiffDecoder d; bool dk = lib([&] { return d.Decode(db.p, db.n, delta, &out); });
    CHECK_PROP(dk, "decode-failed", "VCDiffDecoder::Decode rejected a delta of the encoder (%zu bytes)", delta.size());
    CHECK_PROP(out == target, "roundtrip", "one-call round trip: got %zu bytes, expected %zu", out.size(), target.size());
    evs(out);
    return;
  }
  std::vector<size_t> chunks = draw_cuts(target.size(), 0, true, tm ? 300 : 1500), ends;
  Str delta = encode_fresh(dict, flags, tm, target, chunks, &ends);
  COUNTN("encoder.chunks", chunks.size());
  DecCfg c; c.allow_target = !chance(1, 8);
  std::vector<size_t> pieces = draw_cuts(delta.size(), &ends, true, 6000);
  COUNTN("decoder.pieces", pieces.size());
  say("encoder chunks %s -> delta %zu bytes, delivered as %s", cuts_text(chunks).c_str(), delta.size(), cuts_text(pieces).c_str());
  DecRun r = decode_fresh(c, dict, delta, pieces);
  CHECK_PROP(!r.failed, "decode-failed", "DecodeChunk rejected a delta of the encoder at byte %zu of %zu", r.steps.back().pos, delta.size());
  CHECK_PROP(r.finish_ok, "decode-failed", "FinishDecoding rejected a complete delta of the encoder");
  CHECK_PROP(r.out == target, "roundtrip", "got %zu bytes, expected %zu", r.out.size(), target.size());
}

// ------------------------------------------------------------------ C02
static DecCfg draw_cfg(size_t around) {
  DecCfg c; c.allow_target = !chance(1, 3);
  if (chance(1, 5)) { c.set_limits = true; c.max_file = draw(2 * around + 10); c.max_window = draw(3) ? 1 << 26 : draw(around + 10); }
  return c;
}
static void compare_runs(const char* what, const DecRun& a, const DecRun& base, const std::vector<Step>& steps) {
  Step zero = {0, true, 0};
  std::vector<Step> at(1, zero); at.insert(at.end(), steps.begin(), steps.end());
  // base was delivered so finely that it has a step at each position of `a`
  size_t j = 0;
  for (size_t i = 0; i < a.steps.size(); i++) {
    // the last step of base with the same position (or the failing one before it)
    while (j + 1 < at.size() && at[j + 1].pos <= a.steps[i].pos && at[j].ok) j++;
    const Step& b = at[j];
    bool base_failed = !b.ok;
    CHECK_PROP(a.steps[i].ok == !base_failed, "verdict-depends-on-cuts", "%s: after %zu bytes the decoder %s, but with the other schedule it %s", what, a.steps[i].pos,
               a.steps[i].ok ? "was still good" : "had failed", base_failed ? "had failed" : "was still good");
    if (a.steps[i].ok)
      CHECK_PROP(a.steps[i].outlen == b.outlen, "output-depends-on-cuts", "%s: after %zu bytes %zu bytes of output, with the other schedule %zu", what, a.steps[i].pos, a.steps[i].outlen, b.outlen);
  }
  if (!a.failed || !base.failed) {
    CHECK_PROP(a.good() == base.good(), "verdict-depends-on-cuts", "%s: final verdict %d versus %d", what, a.good(), base.good());
    CHECK_PROP(a.out == base.out, "output-depends-on-cuts", "%s: final output differs", what);
  } else {
    size_t m = std::min(a.out.size(), base.out.size());
    CHECK_PROP(a.out.compare(0, m, base.out, 0, m) == 0, "output-depends-on-cuts", "%s: outputs before the failure contradict each other", what);
  }
}
// Large windows and long histories: output and verdict at the cuts of a schedule do not depend on the schedule.
static void c02_long() {
  COUNT("stream.long"); g_nontrivial = true;
  Str dict = draw_dict(3000);
  Built b = build_long(dict, draw_long(true));
  E.fill = (int)draw(256);
  DecCfg c; size_t n = b.delta.size(); Str delta = b.delta;
  if (chance(1, 4)) delta.resize(n = draw(n + 1));
  Ref ref = ref_decode(dict, delta);
  std::vector<size_t> pieces = draw_cuts(n, &b.win_end, true, b.nwin > 50 ? 3000 : 40);
  say("dictionary %zu bytes, %d windows, delta %zu bytes, schedule %s", dict.size(), b.nwin, n, cuts_text(pieces).c_str());
  DecRun base = decode_fresh(c, dict, delta, pieces);
  CHECK_PROP(base.good() == (ref.v == Ref::ACCEPT), "final-verdict", "delivered in %zu pieces the verdict is %d, the stream is %s", pieces.size(), base.good(), ref.v == Ref::ACCEPT ? "well-formed" : ref.why.c_str());
  size_t k = 0, due = 0;
  for (size_t i = 0; i < base.steps.size() && base.steps[i].ok; i++) {
    while (k < ref.rel.size() && ref.rel[k].pos <= base.steps[i].pos) due = ref.rel[k++].out;
    CHECK_PROP(base.steps[i].outlen >= due, "late-output", "after %zu bytes only %zu bytes were released although %zu are determined", base.steps[i].pos, base.steps[i].outlen, due);
  }
  CHECK_PROP(base.out.size() <= ref.out.size() && ref.out.compare(0, base.out.size(), base.out) == 0, "wrong-output", "released output is not a prefix of the decoded data");
  DecRun w = decode_fresh(c, dict, delta, whole(n));
  compare_runs("one piece", w, base, base.steps);
}
void c02() {
  if (chance(1, 300)) { c02_long(); return; }
  bool tiny = chance(1, 2);
  Stream s = draw_stream(15, tiny ? 60 : 3000, tiny);
  DecCfg c = draw_cfg(tiny ? 40 : 1500);
  E.fill = (int)draw(256); E.fail_big = 512u << 20;
  size_t n = s.delta.size();
  say("%s delta of %zu bytes, dictionary %zu, allow_vcd_target=%d limits=%d", s.kind.c_str(), n, s.dict.size(), c.allow_target, c.set_limits);
  if (s.hostile && !c.set_limits) { c.set_limits = true; c.max_file = c.max_window = 1 << 20; }
  Ref ref = ref_decode(s.dict, s.delta, ref_opts(c));
  g_nontrivial = ref.wins.size() > 0 || n > 8;
  // finest schedule as the base; for long streams a piece size that keeps it affordable, and compare at its cuts
  size_t unit = n <= 6000 ? 1 : 1 + n / 3000;
  std::vector<size_t> fine; for (size_t p = 0; p < n; p += unit) fine.push_back(std::min(unit, n - p));
  if (fine.empty()) fine.push_back(0);
  DecRun base = decode_fresh(c, s.dict, s.delta, fine);
  if (!ref.ambiguous) {
    // promptness and correctness of what has been released
    CHECK_PROP(base.good() == (ref.v == Ref::ACCEPT), "final-verdict", "delivered byte by byte the verdict is %d, the stream is %s", base.good(), ref.v == Ref::ACCEPT ? "well-formed" : ref.why.c_str());
    size_t k = 0, due = 0;
    for (size_t i = 0; i < base.steps.size(); i++) {
      while (k < ref.rel.size() && ref.rel[k].pos <= base.steps[i].pos) due = ref.rel[k++].out;
      if (!base.steps[i].ok) break;
      CHECK_PROP(base.steps[i].outlen >= due, "late-output", "after %zu bytes only %zu bytes were released although %zu are determined", base.steps[i].pos, base.steps[i].outlen, due);
    }
    size_t m = std::min(base.out.size(), ref.out.size());
    if (ref.v != Ref::REJECT) CHECK_PROP(base.out.size() <= ref.out.size() && ref.out.compare(0, m, base.out, 0, m) == 0, "wrong-output", "released output is not a prefix of the decoded data");
  }
  int schedules = 1 + (int)draw(4);
  while (schedules--) {
    std::vector<size_t> pieces = draw_cuts(n, &s.marks, true, 6000);
    if (unit > 1) { // align to the positions the base knows
      size_t pos = 0; std::vector<size_t> q; size_t last = 0;
      for (size_t i = 0; i < pieces.size(); i++) { pos += pieces[i]; size_t a = i + 1 == pieces.size() ? n : std::min(n, pos / unit * unit); q.push_back(a - last); last = a; }
      pieces = q;
    }
    say("schedule %s", cuts_text(pieces).c_str());
    DecRun a = decode_fresh(c, s.dict, s.delta, pieces);
    compare_runs("schedule", a, base, base.steps);
  }
  DecRun w = decode_fresh(c, s.dict, s.delta, whole(n));
  compare_runs("one piece", w, base, base.steps);
  // single-piece prefixes: what is known after p bytes does not depend on what follows
  if (n) {
    size_t p = draw(n + 1) / unit * unit;
    DecRun a = decode_fresh(c, s.dict, s.delta.substr(0, p), whole(p));
    const Step* b = 0; Step zero = {0, true, 0};
    for (size_t i = 0; i < base.steps.size(); i++) if (base.steps[i].pos <= p) b = &base.steps[i];
    if (!b) b = &zero;
    CHECK_PROP(a.failed == !b->ok, "verdict-depends-on-cuts", "prefix of %zu bytes in one piece: failed=%d, byte by byte failed=%d", p, a.failed, !b->ok);
    if (!a.failed) CHECK_PROP(a.out.size() == b->outlen, "output-depends-on-cuts", "prefix of %zu bytes in one piece gives %zu bytes, byte by byte %zu", p, a.out.size(), b->outlen);
  }
}

// ------------------------------------------------------------------ C03
static void check_window(const Str& dict, const Str& header, const Str& win, const Str& chunk, int flags, bool tm) {
  Ref r = ref_decode(dict, header + win);
  CHECK_PROP(r.v == Ref::ACCEPT && !r.ambiguous, "malformed", "the window emitted for a chunk of %zu bytes is not well-formed: %s", chunk.size(), r.why.c_str());
  CHECK_PROP(r.wins.size() == 1, "window-count", "a chunk produced %zu windows", r.wins.size());
  CHECK_PROP(r.out == chunk, "wrong-window", "an independent decoder gets %zu bytes for a chunk of %zu bytes, contents differ", r.out.size(), chunk.size());
  const RefWin& w = r.wins[0];
  CHECK_PROP(w.has_sum == ((flags & 2) != 0), "checksum-flag", "checksum %s although %s", w.has_sum ? "present" : "missing", flags & 2 ? "requested" : "not requested");
  CHECK_PROP(w.interleaved == ((flags & 1) != 0), "interleaved-flag", "window is %sinterleaved", w.interleaved ? "" : "not ");
  CHECK_PROP((w.ind & 2) == 0, "refers-outside", "window refers to earlier target data");
  if (!tm) CHECK_PROP(!w.refs_target && w.max_ref <= w.seg_len, "refers-outside", "without target matching a copy refers to target data");
}
void c03_writer();
void c03() {
  if (chance(1, 5)) { c03_writer(); return; }
  size_t cap = size_cap();
  Str dict = draw_dict(cap), target = draw_target(dict, cap);
  int flags = draw_flags(); bool tm = chance(1, 2);
  E.fill = (int)draw(256);
  std::vector<size_t> chunks = draw_cuts(target.size(), 0, true, tm ? 200 : 800);
  say("dictionary %zu, target %zu, %s, chunks %s", dict.size(), target.size(), flags_name(flags, tm).c_str(), cuts_text(chunks).c_str());
  HDict h(dict); Enc e(h.h, flags, tm);
  g_nontrivial = target.size() > 0;
  int sessions = chance(1, 4) ? 2 : 1;
  while (sessions--) {
    Str out; size_t pos = 0, last;
    CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
    Ref r0 = ref_decode(dict, out);
    CHECK_PROP(r0.v == Ref::ACCEPT && !r0.ambiguous && r0.wins.empty(), "malformed", "output of StartEncoding is not a complete empty stream: %s", hex(out).c_str());
    CHECK_PROP((r0.version == 'S') == (flags != 0) && !r0.custom, "version", "header version %02x for flags %d", r0.version, flags);
    Str header = out; last = out.size();
    for (size_t i = 0; i < chunks.size(); i++) {
      CHECK_PROP(e.chunk(target.data() + pos, chunks[i], &out), "encode-failed", "EncodeChunk failed");
      Str win = out.substr(last); last = out.size();
      if (chunks[i] == 0) {
        Ref r = ref_decode(dict, header + win);
        CHECK_PROP(r.v == Ref::ACCEPT && r.out.empty(), "malformed", "an empty chunk emitted %s", hex(win).c_str());
      } else check_window(dict, header, win, target.substr(pos, chunks[i]), flags, tm);
      pos += chunks[i];
    }
    CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
    Ref r = ref_decode(dict, out);
    CHECK_PROP(r.v == Ref::ACCEPT && !r.ambiguous && r.out == target, "malformed", "the complete delta does not expand to the target: %s", r.why.c_str());
    evs(out);
  }
}

// ------------------------------------------------------------------ C04
static DecRun deliver(const Stream& s, const DecCfg& c) {
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, 8000);
  say("%s delta %zu bytes delivered as %s", s.kind.c_str(), s.delta.size(), cuts_text(pieces).c_str());
  return decode_fresh(c, s.dict, s.delta, pieces);
}
// Sizes of dictionaries far beyond what is practical to generate, with a preference for where numbers grow.
u64 draw_vast_size() {
  static const u64 e[] = {1ull << 21, 1ull << 24, 1ull << 28, 1ull << 30, (1ull << 31) - (1 << 20), 1ull << 31, 1ull << 32};
  u64 n = draw(2) ? e[draw(7)] + draw(9) - 4 : (1 << 20) + draw(draw(2) ? 1u << 28 : (1ull << 31) - (2 << 20));
  return n > kVastMax ? kVastMax : n;
}
DecRun decode_vast(const DecCfg& c, const View& dict, const Str& delta, const std::vector<size_t>& pieces) {
  DecRun r; r.failed = false; r.finish_ok = false;
  Dec d; d.config(c); libv([&] { d.d->StartDecoding(dict.p, dict.n); });
  size_t pos = 0;
  for (size_t i = 0; i < pieces.size() && !r.failed; i++) {
    bool ok = d.chunk(delta.data() + pos, pieces[i], &r.out); pos += pieces[i];
    Step s = {pos, ok, r.out.size()}; r.steps.push_back(s); r.failed = !ok;
  }
  if (!r.failed) r.finish_ok = d.finish();
  evs(r.out);
  return r;
}
static void c04_vast(const View& dict) {
  COUNT("dictionary.vast"); g_nontrivial = true;
  BuildOpts o; o.max_target = 40000; o.max_windows = 3;
  Built b = build_delta(dict, o); Str delta = b.delta, want = b.target;
  E.fill = (int)draw(256);
  std::vector<size_t> pieces = draw_cuts(delta.size(), &b.marks, true, 3000);
  say("dictionary %zu bytes, %d windows, delta %zu bytes, target %zu, delivered as %s", dict.size(), b.nwin, delta.size(), want.size(), cuts_text(pieces).c_str());
  DecRun r = decode_vast(DecCfg(), dict, delta, pieces);
  CHECK_PROP(!r.failed && r.finish_ok, "rejected", "a well-formed delta was rejected (dictionary of %zu bytes)", dict.size());
  CHECK_PROP(r.out == want, "wrong-output", "output differs from the specified result (dictionary of %zu bytes)", dict.size());
}
// Long histories: thousands of windows, or megabytes of them, with references far back.
static void c04_long() {
  COUNT("stream.long"); g_nontrivial = true;
  Str dict = draw_dict(draw(2) ? 3000 : 100000);
  Built b = build_long(dict, draw_long(true));
  E.fill = (int)draw(256);
  std::vector<size_t> pieces = draw_cuts(b.delta.size(), &b.win_end, true, b.nwin > 50 ? 3000 : 20);
  say("dictionary %zu bytes, %d windows, delta %zu bytes, target %zu, delivered as %s", dict.size(), b.nwin, b.delta.size(), b.target.size(), cuts_text(pieces).c_str());
  DecCfg c; c.allow_target = b.uses_target || draw(2);
  DecRun r = decode_fresh(c, dict, b.delta, pieces);
  CHECK_PROP(!r.failed && r.finish_ok, "rejected", "a well-formed delta of %d windows was rejected after %zu of %zu bytes", b.nwin, r.steps.empty() ? 0 : r.steps.back().pos, b.delta.size());
  CHECK_PROP(r.out == b.target, "wrong-output", "output differs from the specified result (%d windows, got %zu bytes, expected %zu)", b.nwin, r.out.size(), b.target.size());
}
void c04() {
  View vast;
  if (chance(1, 400)) { c04_long(); return; }
  if (chance(1, 12) && vast_dictionary(draw_vast_size(), &vast)) { c04_vast(vast); return; }
  Stream s; s.damaged = s.hostile = false;
  s.dict = draw_dict(chance(1, 12) ? 300000 : 3000);
  BuildOpts o; o.max_target = chance(1, 10) ? 150000 : 6000; o.tiny = chance(1, 4); o.burst = true;
  Built b = build_delta(s.dict, o);
  s.delta = b.delta; s.marks = b.marks; s.marks.insert(s.marks.end(), b.varints.begin(), b.varints.end()); s.kind = "built";
  E.fill = (int)draw(256);
  DecCfg c;
  if (chance(1, 4)) {
    // Edits that leave a well-formed stream: judged by the reference.
    Str w, d = chance(1, 2) ? damage(s.delta, &s.marks, &w) : restructure(s.dict, s.delta, &w);
    Ref r = ref_decode(s.dict, d);
    if (r.v == Ref::ACCEPT && !r.ambiguous && r.out.size() < (1 << 20)) { s.delta = d; b.target = r.out; s.kind = "edited:" + w; COUNT("stream.edited-wellformed"); }
  }
  g_nontrivial = b.nwin > 0;
  say("dictionary %zu, %d windows, custom table %d, target %zu", s.dict.size(), b.nwin, b.custom, b.target.size());
  DecRun r = deliver(s, c);
  CHECK_PROP(!r.failed, "rejected", "a well-formed delta was rejected after %zu of %zu bytes", r.steps.back().pos, s.delta.size());
  CHECK_PROP(r.finish_ok, "rejected", "FinishDecoding rejected a well-formed complete delta");
  if (r.out != b.target) {
    size_t i = 0; while (i < r.out.size() && i < b.target.size() && r.out[i] == b.target[i]) i++;
    violate("wrong-output", "output differs from the specified result at byte %zu (got %zu bytes, expected %zu)", i, r.out.size(), b.target.size());
  }
  if (chance(1, 6)) {   // the one-call interface as well
    Str out("old contents"); Buf db(s.dict.data(), s.dict.size()); VCDiffDecoder d;
    bool ok = lib([&] { return d.Decode(db.p, db.n, s.delta, &out); });
    CHECK_PROP(ok && out == b.target, "one-call", "VCDiffDecoder::Decode %s", ok ? "gives wrong output" : "rejects a well-formed delta");
  }
}

// ------------------------------------------------------------------ C05
static void c05_vast(const View& dict) {
  COUNT("dictionary.vast");
  BuildOpts o; o.max_target = 20000; o.max_windows = 3; o.allow_custom = false;
  Built b = build_delta(dict, o); Str what, delta = chance(1, 2) ? restructure(dict, b.delta, &what) : damage(b.delta, &b.varints, &what);
  E.fill = (int)draw(256); E.fail_big = 512u << 20;
  DecCfg c; c.set_limits = true; c.max_file = c.max_window = 4 << 20;
  Ref r = ref_decode(dict, delta, ref_opts(c)); g_nontrivial = !what.empty();
  std::vector<size_t> pieces = draw_cuts(delta.size(), &b.marks, true, 3000);
  say("dictionary %zu bytes; faults: %s; the received stream is %s", dict.size(), what.c_str(), r.v == Ref::ACCEPT ? "well-formed" : r.why.c_str());
  DecRun d = decode_vast(c, dict, delta, pieces);
  if (r.ambiguous) return;
  CHECK_PROP(!d.good() || (r.v == Ref::ACCEPT && d.out == r.out), "accepted-damaged", "a damaged delta (%s) was accepted: %s", what.c_str(), r.why.c_str());
  CHECK_PROP(d.out.size() <= r.out.size() && r.out.compare(0, d.out.size(), d.out) == 0, "wrong-data-output", "%zu bytes were output, which the received delta does not define (%s)", d.out.size(), r.why.c_str());
}
// One fault in a long or large stream.
static void c05_long() {
  COUNT("stream.long");
  Str dict = draw_dict(3000), what; Built b = build_long(dict, draw_long(true));
  Str delta = chance(2, 3) ? restructure(dict, b.delta, &what) : damage(b.delta, &b.win_end, &what);
  E.fill = (int)draw(256); E.fail_big = 512u << 20;
  DecCfg c; c.set_limits = true; c.max_file = c.max_window = 16 << 20;
  Ref r = ref_decode(dict, delta, ref_opts(c)); g_nontrivial = !what.empty();
  std::vector<size_t> pieces = draw_cuts(delta.size(), &b.win_end, true, b.nwin > 50 ? 1000 : 20);
  say("%d windows, delta %zu bytes; faults: %s; the received stream is %s", b.nwin, delta.size(), what.c_str(), r.v == Ref::ACCEPT ? "well-formed" : r.why.c_str());
  DecRun d = decode_fresh(c, dict, delta, pieces);
  if (r.ambiguous) return;
  CHECK_PROP(!d.good() || r.v == Ref::ACCEPT, "accepted-damaged", "a damaged delta of %zu bytes (%s) was accepted: %s", delta.size(), what.c_str(), r.why.c_str());
  CHECK_PROP(!d.good() || d.out == r.out, "accepted-wrong-data", "accepted, but the output is not what the received delta defines (%zu versus %zu bytes)", d.out.size(), r.out.size());
  CHECK_PROP(d.out.size() <= r.out.size() && r.out.compare(0, d.out.size(), d.out) == 0, "wrong-data-output", "%zu bytes were output, which the received delta does not define (%s)", d.out.size(), r.why.c_str());
}
void c05() {
  View vast;
  if (chance(1, 250)) { c05_long(); return; }
  if (chance(1, 25) && vast_dictionary(draw_vast_size(), &vast)) { c05_vast(vast); return; }
  Stream s = draw_stream(3, chance(1, 6) ? 40000 : 1500, chance(1, 3));
  Str dict0 = s.dict, what;
  E.fill = (int)draw(256); E.fail_big = 512u << 20;
  if (chance(1, 4) && !s.dict.empty()) {
    size_t k = 1 + draw(3);
    while (k--) switch (draw(4)) {
      case 0: s.dict[draw(s.dict.size())] ^= (char)(1 << draw(8)); break;
      case 1: s.dict.resize(draw(s.dict.size()) + 1); break;
      case 2: s.dict += gen_bytes(1 + draw(20), draw_style(), draw_seed()); break;
      default: { size_t p = draw(s.dict.size()); s.dict.erase(p, 1); if (s.dict.empty()) s.dict = "x"; break; }
    }
    what += "wrong-dictionary "; COUNT("fault.wrong-dictionary");
    if (chance(1, 3)) s.delta = damage(s.delta, &s.marks, &what);
  } else if (chance(1, 2)) { s.delta = restructure(s.dict, s.delta, &what); if (chance(1, 6)) s.delta = damage(s.delta, &s.marks, &what); }
  else s.delta = damage(s.delta, &s.marks, &what);
  s.kind += " " + what;
  DecCfg c; c.set_limits = true; c.max_file = c.max_window = 4 << 20; c.allow_target = !chance(1, 8);
  Ref r = ref_decode(s.dict, s.delta, ref_opts(c));
  g_nontrivial = !what.empty();
  say("faults: %s; the received stream is %s%s", what.c_str(), r.v == Ref::ACCEPT ? "well-formed" : r.why.c_str(), r.ambiguous ? " (unspecified)" : "");
  DecRun d = deliver(s, c);
  if (d.good()) {
    COUNT("received.accepted");
    if (!r.ambiguous) {
      CHECK_PROP(r.v == Ref::ACCEPT, "accepted-damaged", "a damaged delta (%s) was accepted: %s", what.c_str(), r.why.c_str());
      CHECK_PROP(d.out == r.out, "accepted-wrong-data", "accepted, but the output is not what the received delta defines (%zu versus %zu bytes)", d.out.size(), r.out.size());
    }
  } else COUNT("received.rejected");
  if (!r.ambiguous) {
    // Whatever was output is what the good part of the delta defines; the call that fails adds nothing of the bad window.
    CHECK_PROP(d.out.size() <= r.out.size() && r.out.compare(0, d.out.size(), d.out) == 0, "wrong-data-output", "%zu bytes were output, which the received delta does not define (%s)", d.out.size(), r.why.c_str());
    size_t good = r.good_out();
    if (r.v == Ref::REJECT && !r.last_interleaved)
      CHECK_PROP(d.out.size() <= good, "bad-window-output", "%zu bytes were output, but only %zu belong to good windows (%s)", d.out.size(), good, r.why.c_str());
    if (d.failed) {
      size_t before = d.steps.size() > 1 ? d.steps[d.steps.size() - 2].outlen : 0;
      CHECK_PROP(d.out.size() <= std::max(before, good), "bad-window-output", "the failing call output %zu bytes; good windows give %zu, and %zu were there before it (%s)", d.out.size() - before, good, before, r.why.c_str());
    }
  }
  if (chance(1, 8)) {
    Str out; Buf db(s.dict.data(), s.dict.size()); VCDiffDecoder od; 
    bool ok = lib([&] { return od.Decode(db.p, db.n, s.delta, &out); });
    RefOpts big; Ref r2 = ref_decode(s.dict, s.delta, big);
    if (ok && !r2.ambiguous) CHECK_PROP(r2.v == Ref::ACCEPT && out == r2.out, "accepted-damaged", "one-call decoder accepted a damaged delta: %s", r2.why.c_str());
  }
}

// ------------------------------------------------------------------ C16
// A decoder that was set up once and has been through other sessions since.
static DecRun decode_later(const DecCfg& c, const Str& dict, const Str& delta, const std::vector<size_t>& pieces) {
  DecRun r; r.failed = r.finish_ok = false;
  Dec d; d.config(c);
  int n = 1 + (int)draw(2);
  while (n--) {
    Stream o = draw_stream(7, 300, true); std::vector<size_t> op = draw_cuts(o.delta.size(), &o.marks, true, 50);
    Buf ob(o.dict.data(), o.dict.size()); d.start(ob); Str junk; size_t pos = 0; bool ok = true;
    for (size_t i = 0; i < op.size() && ok; i++) { ok = d.chunk(o.delta.data() + pos, op[i], &junk); pos += op[i]; if (draw(20) == 0) break; }
    if (ok || draw(2)) d.finish();
  }
  Buf b(dict.data(), dict.size()); d.start(b); size_t pos = 0; COUNT("decoder.reused");
  for (size_t i = 0; i < pieces.size() && !r.failed; i++) {
    bool ok = d.chunk(delta.data() + pos, pieces[i], &r.out); pos += pieces[i];
    Step st = {pos, ok, r.out.size()}; r.steps.push_back(st); r.failed = !ok;
  }
  if (!r.failed) r.finish_ok = d.finish();
  evs(r.out);
  return r;
}
void c16() {
  bool lng = chance(1, 8), huge = false;
  Stream s;
  if (lng) {
    s.damaged = s.hostile = false; s.dict = draw_dict(2000); s.kind = "long";
    BuildOpts o; o.allow_target = false; o.max_target = 400 << draw(8); o.max_windows = 1 + (int)draw(40);
    Built b = build_delta(s.dict, o); s.delta = b.delta; s.marks = b.marks; s.win_end = b.win_end;
    COUNT("stream.long");
  } else {
    bool tiny = chance(1, 3);
    if ((huge = chance(1, 400))) { s.damaged = s.hostile = false; s.dict = draw_dict(2000); Built b = build_long(s.dict, draw_long(chance(1, 3))); s.delta = b.delta; s.marks = b.win_end; s.kind = "thousands of windows or megabytes"; COUNT("stream.huge"); }
    else s = draw_stream(7, tiny ? 60 : 4000, tiny);
  }
  E.fill = (int)draw(256);
  DecCfg on, off; off.allow_target = false;
  if (!lng) { on.set_limits = off.set_limits = true; on.max_file = off.max_file = huge ? 16 << 20 : 2 << 20; on.max_window = off.max_window = huge ? 16 << 20 : 1 << 20; }
  std::vector<size_t> pieces = draw_cuts(s.delta.size(), &s.marks, true, huge ? 60 : 6000);
  Ref rn = ref_decode(s.dict, s.delta, ref_opts(on));
  Ref rf = ref_decode(s.dict, s.delta, ref_opts(off));
  g_nontrivial = rn.wins.size() > 0;
  say("%s delta %zu bytes, %zu windows, uses target reference: %d, delivered as %s", s.kind.c_str(), s.delta.size(), rn.wins.size(), rn.used_target, cuts_text(pieces).c_str());
  DecRun a = decode_fresh(on, s.dict, s.delta, pieces), b = chance(1, 3) ? decode_later(off, s.dict, s.delta, pieces) : decode_fresh(off, s.dict, s.delta, pieces);
  if (rf.used_target) {
    COUNT("stream.with-target-reference");
    // reached a VCD_TARGET window: must be refused, and no output of it produced
    CHECK_PROP(!b.good(), "target-accepted", "a delta with a reference to target data was accepted although disallowed");
    CHECK_PROP(b.out.size() <= rf.out.size() && rf.out.compare(0, b.out.size(), b.out) == 0, "target-output", "output produced from a disallowed window");
  } else if (!rn.used_target) {
    COUNT("stream.without-target-reference");
    CHECK_PROP(a.good() == b.good(), "verdict-differs", "verdict with target references allowed %d, disallowed %d", a.good(), b.good());
    if (a.good()) CHECK_PROP(a.out == b.out, "output-differs", "output differs: %zu versus %zu bytes", a.out.size(), b.out.size());
    size_t n = std::min(a.steps.size(), b.steps.size());
    for (size_t i = 0; i < n; i++) {
      CHECK_PROP(a.steps[i].ok == b.steps[i].ok, "verdict-differs", "after %zu bytes: allowed ok=%d disallowed ok=%d", a.steps[i].pos, a.steps[i].ok, b.steps[i].ok);
      if (a.steps[i].ok) CHECK_PROP(a.steps[i].outlen == b.steps[i].outlen, "output-differs", "after %zu bytes: %zu versus %zu bytes released", a.steps[i].pos, a.steps[i].outlen, b.steps[i].outlen);
    }
    size_t m = std::min(a.out.size(), b.out.size());
    CHECK_PROP(a.out.compare(0, m, b.out, 0, m) == 0, "output-differs", "outputs contradict each other");
  }
  if (lng && !rn.wins.empty()) {
    // The windows again and again: the memory held must not depend on how many have been decoded.
    Buf db(s.dict.data(), s.dict.size());
    Str head = s.delta.substr(0, rn.header_end);
    u64 live0 = E.live_bytes; size_t maxw = 0;
    for (size_t i = 0; i < rn.wins.size(); i++) maxw = std::max<size_t>(maxw, rn.wins[i].target_len);
    Dec d; d.config(off); d.start(db);
    Sink out;
    CHECK_PROP(d.chunk_to(head.data(), head.size(), &out), "verdict-differs", "header rejected");
    // pieces of one repetition: window by window, several windows at once, or cut anywhere
    Str body = s.delta.substr(rn.header_end); std::vector<size_t> cut; int mode = (int)draw(4);
    if (mode == 0) { size_t p = 0; for (size_t i = 0; i < rn.wins.size(); i++) { size_t e = rn.wins[i].end - rn.header_end; cut.push_back(e - p); p = e; } }
    else if (mode == 1) { size_t p = 0; for (size_t i = 0; i < rn.wins.size(); i++) { size_t e = rn.wins[i].end - rn.header_end; if (i + 1 < rn.wins.size() && draw(2)) continue; cut.push_back(e - p); p = e; } }
    else if (mode == 2) cut = whole(body.size());
    else cut = draw_cuts(body.size(), 0, true, 200);
    size_t maxp = 0; for (size_t i = 0; i < cut.size(); i++) maxp = std::max(maxp, cut[i]);
    size_t slack = 30000 + 2 * maxw + 2 * maxp, per = rn.out.size();
    size_t reps = 4; if (per) reps = std::min<size_t>(400, 4 + (4 * slack + 60000) / per);
    if (reps * per > (8u << 20)) reps = std::max<size_t>(3, (8u << 20) / per);
    say("%zu windows (%zu bytes, largest %zu), repeated %zu times, pieces %s", rn.wins.size(), per, maxw, reps, cuts_text(cut).c_str());
    u64 held2 = 0, peak2 = 0;
    for (size_t k = 0; k < reps; k++) {
      out.s.clear();                                    // the caller's own memory; the decoder only sees an object to append to
      size_t pos = 0; u64 held = 0; E.peak_bytes = E.live_bytes;
      for (size_t i = 0; i < cut.size(); i++) {
        CHECK_PROP(d.chunk_to(body.data() + pos, cut[i], &out), "verdict-differs", "rejected in repetition %zu", k);
        pos += cut[i]; held = std::max<u64>(held, E.live_bytes - live0);
      }
      u64 peak = E.peak_bytes - live0;
      CHECK_PROP(out.s == rn.out, "output-differs", "repetition %zu decoded wrongly", k);
      if (k < 2) { held2 = std::max(held2, held); peak2 = std::max(peak2, peak); }
      CHECK_PROP(held <= held2 + slack && peak <= peak2 + 2 * slack, "memory-grows", "after %zu windows (%zu bytes of output) the decoder holds %llu bytes (at most %llu), after the first %zu windows %llu (%llu); largest window %zu",
                 (k + 1) * rn.wins.size(), (k + 1) * per, (unsigned long long)held, (unsigned long long)peak, 2 * rn.wins.size(), (unsigned long long)held2, (unsigned long long)peak2, maxw);
    }
    CHECK_PROP(d.finish(), "verdict-differs", "long stream not accepted");
  }
}

// ------------------------------------------------------------------ C17
// Dictionary pieces, fresh data and repeats of fresh data, in any order within a chunk.
static void c17_mixed(const Str& dict, int flags, bool tm) {
  HDict h(dict); Enc e(h.h, flags, tm);
  Str out, all; CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
  int nch = 1 + (int)draw(4);
  say("dictionary %zu random bytes, %s, %d chunks of dictionary pieces, fresh data and repeats", dict.size(), flags_name(flags, tm).c_str(), nch);
  g_nontrivial = true;
  for (int i = 0; i < nch; i++) {
    Str c, desc; u64 bound = 48; std::vector<std::pair<size_t, size_t> > fresh;      // where fresh data lies in this chunk
    int n = 1 + (int)draw(14);
    while (n--) {
      char b[48]; int k = (int)draw(tm ? 6 : 4);
      if (k >= 4 && fresh.empty()) k = 3;
      if (k < 3) {
        size_t len = 64 + (draw(2) ? draw(100) : draw(2) ? draw(3000) : draw(8) ? draw(20000) : draw(2) ? dict.size() : draw(dict.size())); if (len > dict.size()) len = dict.size();
        if (c.size() + len > (8u << 20)) len = 64;
        if (len > 65536) COUNT("piece.over-64k");
        size_t off = draw(4) ? draw(dict.size() - len + 1) : draw(2) ? 0 : dict.size() - len;
        c.append(dict, off, len); bound += 24; snprintf(b, sizeof b, " D%zu+%zu", off, len);
      } else if (k == 3) {
        size_t len = 64 + (draw(3) ? draw(300) : draw(60) ? draw(6000) : draw(300000)); fresh.push_back(std::make_pair(c.size(), len));
        c += gen_bytes(len, 1, draw_seed()); bound += len + 12; snprintf(b, sizeof b, " F%zu", len);
      } else {
        std::pair<size_t, size_t> f = fresh[draw(fresh.size())]; size_t len = 64 + draw(f.second - 63), off = draw(f.second - len + 1);
        c += c.substr(f.first + off, len); bound += 24; snprintf(b, sizeof b, " R%zu+%zu", f.first + off, len); COUNT("repeats");
      }
      desc += b;
    }
    size_t before = out.size();
    CHECK_PROP(e.chunk(c.data(), c.size(), &out), "encode-failed", "EncodeChunk failed");
    size_t got = out.size() - before; say("chunk %d:%s -> %zu bytes", i, desc.c_str(), got);
    CHECK_PROP(got <= bound, "not-by-reference", "chunk %d of %zu bytes (%s) became %zu bytes, at most %llu expected", i, c.size(), desc.substr(0, 300).c_str(), got, (unsigned long long)bound);
    all += c; COUNT("chunks-measured");
  }
  CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
  Ref r = ref_decode(dict, out); CHECK_PROP(r.v == Ref::ACCEPT && r.out == all, "wrong-window", "delta does not expand to the target");
  evs(out);
}
void c17() {
  size_t dn; switch (draw(6)) { case 0: dn = 64 + draw(200); break; case 1: dn = 64 + draw(5000); break; case 2: dn = 64 + draw(70000); break; case 3: dn = (size_t)64 << draw(13); break; 
    case 4: if (draw(12) == 11) { dn = ((size_t)1 << 18) + draw(g_tier ? 12u << 20 : 3u << 20); if (draw(30) == 29) dn += ((size_t)4 << 20) + draw(32u << 20); COUNT("dictionary.megabytes"); break; }  // fall through
    default: dn = 64 + draw(1500); }
  Str dict = gen_bytes(dn, 1, draw_seed());
  if (dn >= 1024 && chance(1, 3)) {
    // every block of 16 bytes recurs a few times, each time in other surroundings
    size_t rep = 2 + draw(7), blocks = std::max<size_t>(16, dn / 16 / rep); Rng g(draw_seed());
    std::vector<u32> at(blocks); for (size_t i = 0; i < blocks; i++) at[i] = (u32)i;
    Str base = dict.substr(0, blocks * 16), all = base;
    while (--rep) { for (size_t i = blocks - 1; i > 0; i--) std::swap(at[i], at[g.below(i + 1)]); for (size_t i = 0; i < blocks; i++) all.append(base, at[i] * 16, 16); }
    dict.swap(all); COUNT("dictionary.recurring-blocks");
  }
  int flags = draw_flags(); bool tm = chance(1, 2);
  E.fill = (int)draw(256);
  if (chance(1, 2)) { c17_mixed(dict, flags, tm); return; }
  struct Piece { size_t at, len; };
  Str target; std::vector<Piece> ps;
  bool noise = chance(1, 8);
  u64 fresh = draw_seed();
  if (noise) { target = gen_bytes(draw_size(300000), 1, fresh); }
  else {
    int n = 1 + (int)draw(12); if (chance(1, 10)) n = 1 + (int)draw(300);
    bool bulk = n > 16; Rng bg(bulk ? draw_seed() : 0);
    for (int i = 0; i < n; i++) {
      Rng g(bulk ? bg.next() : draw_seed());
      size_t len = 64 + (g.below(3) ? g.below(100) : g.below(3000)); if (len > dict.size()) len = dict.size();
      size_t off; switch (g.below(4)) { case 0: off = dict.size() - len; break; case 1: off = 0; break; case 2: off = g.below(dict.size() - len + 1) & ~(size_t)15; break; default: off = g.below(dict.size() - len + 1); }
      Piece p = {target.size(), len}; ps.push_back(p);
      target.append(dict, off, len);
    }
  }
  std::vector<size_t> chunks;
  switch (draw(3)) { case 0: chunks = whole(target.size()); break; case 1: { size_t k = 200 + draw(4000); for (size_t p = 0; p < target.size(); p += k) chunks.push_back(std::min(k, target.size() - p)); if (chunks.empty()) chunks.push_back(0); break; }
    default: { int n = (int)draw(5); std::vector<size_t> at; while (n--) at.push_back(draw(target.size() + 1)); std::sort(at.begin(), at.end()); size_t l = 0; for (size_t x : at) { chunks.push_back(x - l); l = x; } chunks.push_back(target.size() - l); } }
  // with target matching: append to each chunk a repetition of fresh data within the chunk
  bool rep = tm && !noise && chance(1, 2);
  HDict h(dict); Enc e(h.h, flags, tm);
  int sessions = chance(1, 4) ? 2 : 1;
  say("dictionary %zu random bytes, %s, %zu pieces, target %zu, chunks %s%s", dict.size(), flags_name(flags, tm).c_str(), ps.size(), target.size(), cuts_text(chunks).c_str(), rep ? ", repeats within chunks" : "");
  g_nontrivial = target.size() >= 64;
  while (sessions--) {
    Str out, all; CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
    size_t pos = 0;
    for (size_t i = 0; i < chunks.size(); i++) {
      Str c = target.substr(pos, chunks[i]); size_t n = c.size();
      u64 bound = 48;
      if (noise) bound += n;
      else for (size_t k = 0; k < ps.size(); k++) {
        size_t a = std::max(ps[k].at, pos), b = std::min(ps[k].at + ps[k].len, pos + n);
        if (b <= a) continue;
        bound += b - a >= 64 ? 24 : (b - a) + 12;
      }
      if (rep && n) {
        Str f = gen_bytes(64 + draw(300), 1, draw_seed());
        c += f; bound += f.size() + 24;
        int k = 1 + (int)draw(4);
        while (k--) { size_t l = 64 + draw(f.size() - 63), o = draw(f.size() - l + 1); if (l < 64) continue; c += f.substr(o, l); bound += 24; }
      }
      size_t before = out.size();
      CHECK_PROP(e.chunk(c.data(), c.size(), &out), "encode-failed", "EncodeChunk failed");
      size_t got = out.size() - before;
      CHECK_PROP(got <= bound, "not-by-reference", "chunk %zu of %zu bytes became %zu bytes, at most %llu expected", i, c.size(), got, (unsigned long long)bound);
      pos += n; all += c; COUNT("chunks-measured");
    }
    CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
    Ref r = ref_decode(dict, out); CHECK_PROP(r.v == Ref::ACCEPT && r.out == all, "wrong-window", "delta does not expand to the target");
    evs(out);
  }
}
