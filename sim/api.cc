#include "api.h"

DecRun decode_session(Dec& d, const Buf& dict, const Str& delta, const std::vector<size_t>& pieces) {
  DecRun r; r.failed = false; r.finish_ok = false;
  d.start(dict);
  size_t pos = 0;
  for (size_t i = 0; i < pieces.size(); i++) {
    size_t before = r.out.size();
    bool ok = d.chunk(delta.data() + pos, pieces[i], &r.out);
    pos += pieces[i];
    if (r.out.size() < before) violate("output-retracted", "output shrank");
    Step s = {pos, ok, r.out.size()}; r.steps.push_back(s);
    if (!ok) { r.failed = true; break; }
  }
  if (!r.failed) r.finish_ok = d.finish();
  evs(r.out);
  return r;
}
DecRun decode_fresh(const DecCfg& c, const Str& dict, const Str& delta, const std::vector<size_t>& pieces) {
  Buf db(dict.data(), dict.size());
  Dec d; d.config(c);
  DecRun r = decode_session(d, db, delta, pieces);
  if (dict.size() && memcmp(db.p, dict.data(), dict.size())) violate("input-modified", "the decoder modified the dictionary");
  return r;
}
int draw_flags() { return (int)draw(4); }   // VCD_FORMAT_INTERLEAVED = 1, VCD_FORMAT_CHECKSUM = 2
Str flags_name(int f, bool tm) { return Str(f & 1 ? "interleaved " : "standard ") + (f & 2 ? "checksum " : "") + (f & 4 ? "json " : "") + (tm ? "target-matching" : ""); }
Str encode_session(Enc& e, const Str& target, const std::vector<size_t>& chunks, std::vector<size_t>* ends) {
  Str out; size_t pos = 0;
  CHECK_PROP(e.start(&out), "encode-failed", "StartEncoding failed");
  if (ends) ends->push_back(out.size());
  for (size_t i = 0; i < chunks.size(); i++) {
    CHECK_PROP(e.chunk(target.data() + pos, chunks[i], &out), "encode-failed", "EncodeChunk %zu of %zu bytes failed", i, chunks[i]);
    pos += chunks[i];
    if (ends) ends->push_back(out.size());
  }
  CHECK_PROP(e.finish(&out), "encode-failed", "FinishEncoding failed");
  evs(out);
  return out;
}
Str encode_fresh(const Str& dict, int flags, bool tm, const Str& target, const std::vector<size_t>& chunks, std::vector<size_t>* ends) {
  HDict h(dict); Enc e(h.h, flags, tm);
  return encode_session(e, target, chunks, ends);
}
Str cuts_text(const std::vector<size_t>& c) {
  Str s; char b[24];
  for (size_t i = 0; i < c.size() && i < 24; i++) { snprintf(b, sizeof b, "%s%zu", i ? "," : "", c[i]); s += b; }
  if (c.size() > 24) { snprintf(b, sizeof b, ",...(%zu)", c.size()); s += b; }
  return s;
}
Stream draw_stream(int allow, size_t max_target, bool tiny) {
  Stream s; s.damaged = s.hostile = false;
  std::vector<int> kinds;
  if (allow & 1) { kinds.push_back(0); kinds.push_back(0); kinds.push_back(0); }
  if (allow & 2) kinds.push_back(1);
  if (allow & 8) { kinds.push_back(3); }
  int k = kinds[draw(kinds.size())];
  s.dict = draw_dict(tiny ? 300 : 3000);
  if (k == 0) {
    BuildOpts o; o.max_target = max_target; o.tiny = tiny; o.burst = allow & 16;
    Built b = build_delta(s.dict, o);
    s.delta = b.delta; s.marks = b.marks; s.win_end = b.win_end; s.kind = "built";
    if (!b.varints.empty()) s.marks.insert(s.marks.end(), b.varints.begin(), b.varints.end());
    COUNT("stream.built");
  } else if (k == 1) {
    Str t = draw_target(s.dict, max_target);
    int f = draw_flags(); bool tm = chance(1, 2);
    std::vector<size_t> ch = draw_cuts(t.size(), 0, true, 12), ends;
    s.delta = encode_fresh(s.dict, f, tm, t, ch, &ends); s.marks = ends; s.win_end = ends; s.kind = "encoded"; COUNT("stream.encoded");
  } else {
    s.delta = build_hostile(s.dict); s.hostile = true; s.kind = "hostile"; COUNT("stream.hostile");
  }
  if ((allow & 4) && chance(1, 2)) { Str w; s.delta = chance(1, 3) ? restructure(s.dict, s.delta, &w) : damage(s.delta, &s.marks, &w); s.damaged = true; s.kind += " damaged:" + w; COUNT("stream.damaged"); }
  return s;
}
