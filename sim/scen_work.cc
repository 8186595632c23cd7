// C18: the work and memory of encoding, for every dictionary and target.
#include "api.h"
#include <algorithm>

// Bounds, in control-flow edges of the library and bytes. The search looks at no more than a fixed number of candidate
// blocks per target position, each of which is compared with fewer than two block lengths unless a copy comes of it.
static const u64 kStepsPerTargetByte = 12000, kStepsPerDictByte = 40, kStepsPerCall = 400000;

// A block of 16 bytes whose value as a polynomial in 257 is h modulo 2^23 (a hint to the generator: blocks that are
// likely to meet in one chain of the encoder's hash table).
static void block_with_hash(u32 h, Rng& g, char* b) {
  for (;;) {
    u32 v = 0;
    for (int i = 0; i < 13; i++) { b[i] = (char)g.next(); v = v * 257 + (u8)b[i]; }
    v = v * (257u * 257u * 257u);
    u32 r = (h - v) & 0x7fffff;
    u32 x = r / 66049, y = r % 66049 / 257, z = r % 257;
    if (y > 255 || z > 255) continue;
    b[13] = (char)x; b[14] = (char)y; b[15] = (char)z;
    return;
  }
}
struct Work { Str dict, target; const char* kind; };
static Work draw_work() {
  Work w; w.kind = "";
  size_t dn = chance(1, 3) ? (size_t)1 << (12 + draw(9)) : draw_size(60000);
  size_t tn = chance(1, 3) ? (size_t)1 << (10 + draw(8)) : draw_size(20000);
  Rng g(draw_seed());
  switch (draw(6)) {
    case 0: w.kind = "mixed"; w.dict = draw_dict(dn); w.target = draw_target(w.dict, tn); break;
    case 1: case 2: {
      // one block value everywhere, each time in other surroundings, so that no occurrence grows into a copy
      w.kind = "recurring block"; if (tn > 16384) tn = 16384;
      char x[16]; if (draw(2)) memset(x, (int)g.below(256), 16); else { int p = 1 << g.below(4); for (int i = 0; i < 16; i++) x[i] = i < p ? (char)g.next() : x[i - p]; }
      int gap = (int)draw(3), pad = (int)draw(17);                    // blocks between occurrences; the target's own rhythm
      while (w.dict.size() < dn) { w.dict.append(x, 16); for (int k = 0; k <= gap; k++) w.dict += gen_bytes(16, 1, g.next()); }
      while (w.target.size() < tn) {
        size_t n = 16 + g.below(16); for (size_t i = 0; i < n; i++) w.target.push_back(x[i & 15]);
        w.target += gen_bytes(1 + g.below(pad + 1), 1, g.next());
        if (draw(2) == 0) w.target.append((16 - w.target.size() % 16) % 16, (char)g.next());
      }
      break; }
    case 3: {
      // many different blocks of one hash value
      w.kind = "colliding blocks"; if (tn > 65536) tn = 65536;
      u32 h = (u32)g.below(1 << 23); char b[16]; bool same = draw(2);
      if (draw(2)) {        // ... that of a run, so that every position inside a run of the target meets the whole chain
        char c = (char)g.next(); h = 0; for (int i = 0; i < 16; i++) h = h * 257 + (u8)c;
        if (tn > 16384) tn = 16384;
        while (w.dict.size() < dn) { block_with_hash(h & 0x7fffff, g, b); w.dict.append(b, 16); }
        while (w.target.size() < tn) { w.target.append(16 + g.below(draw(2) ? 16 : 400), c); w.target += gen_bytes(1 + g.below(3), 1, g.next()); }
        break;
      }
      while (w.dict.size() < dn) { block_with_hash(h, g, b); w.dict.append(b, 16); }
      while (w.target.size() < tn) {
        block_with_hash(h, g, b); w.target.append(b, 16);
        if (same && w.dict.size() >= 16 && g.below(4) == 0) { w.target.append(w.dict, g.below(w.dict.size() / 16) * 16, 16); }
        if (g.below(3) == 0) w.target += gen_bytes(g.below(20), 1, g.next());
      }
      break; }
    case 4: {
      w.kind = "periodic"; size_t p = 1 + draw(40); Str unit = gen_bytes(p, 1, g.next());
      while (w.dict.size() < dn) w.dict += unit;
      while (w.target.size() < tn) { size_t k = draw(2) ? 1 + g.below(100) : 1 + g.below(8), m = k * p; for (size_t i = 0; i < m && w.target.size() < tn; i++) w.target.push_back(unit[i % p]); w.target += gen_bytes(1 + g.below(3), 1, g.next()); }
      break; }
    default: {
      w.kind = "few symbols"; int st = draw(2) ? 2 : 8; w.dict = gen_bytes(dn, st, g.next()); w.target = gen_bytes(tn, st, draw(2) ? g.next() : 5); break; }
  }
  if (w.dict.size() > dn) w.dict.resize(dn);
  if (w.target.size() > tn) w.target.resize(tn);
  return w;
}
// The factor itself: with the chains four times as long, the work per position stays the same (twice as much is let pass).
static u64 work_of(const Str& dict, const Str& target, int flags, bool tm, u64 limit) {
  HDict h(dict); Enc e(h.h, flags, tm); Sink out;
  CHECK_PROP(lib([&] { return e.e->StartEncodingToInterface(&out); }, kStepsPerCall + kStepsPerDictByte * dict.size()), "encode-failed", "StartEncoding failed");
  Buf t(target.data(), target.size()); u64 s = E.steps, m = E.bulk;
  CHECK_PROP(lib([&] { return e.e->EncodeChunkToInterface(t.p, t.n, &out); }, limit), "encode-failed", "EncodeChunk failed");
  evs(out.s); return E.steps - s + (E.bulk - m) / 16;
}
static void c18_scaling() {
  bool collide = draw(2), in_target = draw(2); int flags = draw_flags(); u64 seed = draw_seed(); int gap = (int)draw(3); size_t longest = 16 + draw(15);
  u64 work[2] = {0, 0}; size_t tn = 0;
  E.fill = (int)draw(256); g_nontrivial = true; COUNT("work.scaling");
  say("%s blocks in the %s, chains four times as long", collide ? "colliding" : "recurring", in_target ? "target" : "dictionary");
  for (int k = 0; k < 2; k++) {
    Rng g(seed); char x[16], b[16], c = (char)g.next(); memset(x, c, 16);
    u32 hv = 0; for (int i = 0; i < 16; i++) hv = hv * 257 + (u8)c;
    size_t n = in_target ? (size_t)16384 << (2 * k) : (size_t)65536 << (2 * k);
    Str chain, probe;
    while (chain.size() < n) {
      if (collide) { block_with_hash(hv & 0x7fffff, g, b); chain.append(b, 16); }
      else { chain.append(x, 16); for (int q = 0; q <= gap; q++) { chain.push_back((char)~c); chain += gen_bytes(14, 1, g.next()); chain.push_back((char)~c); } }
    }
    size_t pn = in_target ? n : 8192;
    while (probe.size() < pn) { probe.append(16 + g.below(longest - 15), c); probe.push_back((char)~c); probe += gen_bytes(1 + g.below(3), 1, g.next()); probe.push_back((char)~c); if (probe.size() % 16 == 0) probe.push_back((char)~c); }
    Str dict = in_target ? gen_bytes(100, 1, g.next()) : chain, target = in_target ? chain + probe : probe;
    tn = target.size();
    u64 most = k == 0 ? kStepsPerCall + kStepsPerTargetByte * tn : 2 * (in_target ? 4 : 1) * work[0] + 200 * (u64)tn + kStepsPerCall;
    work[k] = work_of(dict, target, flags, in_target, most);
    CHECK_PROP(work[k] <= most, "work", "a chunk of %zu bytes took %llu steps; with chains a quarter as long %llu", tn, (unsigned long long)work[k], (unsigned long long)work[0]);
  }
  ev(work[0]); ev(work[1]);
  say("work %llu, then %llu", (unsigned long long)work[0], (unsigned long long)work[1]);
}
void c18() {
  if (chance(1, 60)) { c18_scaling(); return; }
  Work w = draw_work();
  int flags = draw_flags(); bool json = chance(1, 8), tm = chance(1, 2);
  if (json) { flags = 4; for (size_t i = 0; i < w.dict.size(); i++) w.dict[i] &= 0x7f; for (size_t i = 0; i < w.target.size(); i++) w.target[i] &= 0x7f; }
  E.fill = (int)draw(256);
  std::vector<size_t> chunks = chance(1, 2) ? whole(w.target.size()) : draw_cuts(w.target.size(), 0, true, tm ? 200 : 600);
  size_t maxc = 0; for (size_t i = 0; i < chunks.size(); i++) maxc = std::max(maxc, chunks[i]);
  say("%s: dictionary %zu bytes, target %zu bytes, %s, chunks %s", w.kind, w.dict.size(), w.target.size(), flags_name(flags, tm).c_str(), cuts_text(chunks).c_str());
  g_nontrivial = w.target.size() >= 16;
  HashedDictionary* h = 0; Buf b(w.dict.data(), w.dict.size());
  struct Del { HashedDictionary*& h; ~Del() { Lib l; delete h; } } del = {h};
  u64 s0 = E.steps;
  libv([&] { h = new HashedDictionary(b.p, b.n); });
  bool ok = lib([&] { return h->Init(); }, kStepsPerCall + kStepsPerDictByte * w.dict.size());
  CHECK_PROP(ok, "init", "HashedDictionary::Init failed");
  u64 prep = E.steps - s0;
  ev(prep);
  CHECK_PROP(E.peak_bytes <= 8 * w.dict.size() + 65536, "memory", "preparing a dictionary of %zu bytes took %llu bytes of memory", w.dict.size(), (unsigned long long)E.peak_bytes);
  CHECK_PROP(E.bulk <= 60 * w.dict.size() + (1 << 20), "work", "preparing a dictionary of %zu bytes moved %llu bytes", w.dict.size(), (unsigned long long)E.bulk);
  u64 dict_held = E.live_bytes, most = 0;
  Enc e(h, flags, tm);
  int sessions = 1 + (int)(chance(1, 3) ? 1 + draw(3) : 0);
  u64 worst = 0;
  while (sessions--) {
    Sink out;
    struct Fwd { static bool go(VCDiffStreamingEncoder* x, int k, const char* p, size_t n, OutputStringInterface* o) { return k == 0 ? x->StartEncodingToInterface(o) : k == 1 ? x->EncodeChunkToInterface(p, n, o) : x->FinishEncodingToInterface(o); } };
    CHECK_PROP(lib([&] { return Fwd::go(e.e, 0, 0, 0, &out); }, kStepsPerCall + kStepsPerDictByte * w.dict.size()), "encode-failed", "StartEncoding failed");
    size_t pos = 0, reps = chance(1, 4) && w.target.size() < 6000 ? 2 + draw(12) : 1;
    u64 held_first = 0; bool first = true;
    while (reps--) {
      pos = 0; u64 held = 0;
      for (size_t i = 0; i < chunks.size(); i++) {
        u64 before = E.steps, bulk = E.bulk; E.peak_bytes = E.live_bytes;
        Buf t(w.target.data() + pos, chunks[i]);
        ok = lib([&] { return Fwd::go(e.e, 1, t.p, t.n, &out); }, kStepsPerCall + kStepsPerTargetByte * chunks[i]);
        CHECK_PROP(ok, "encode-failed", "EncodeChunk failed");
        u64 used = E.steps - before; if (chunks[i]) worst = std::max(worst, used / chunks[i]);
        pos += chunks[i]; bulk = E.bulk - bulk; most = std::max(most, bulk / (chunks[i] + 1000));
        CHECK_PROP(bulk <= 60 * (u64)chunks[i] + (1 << 17), "work", "encoding a chunk of %zu bytes (dictionary %zu) moved %llu bytes", chunks[i], w.dict.size(), (unsigned long long)bulk);
        CHECK_PROP(E.peak_bytes <= dict_held + 24 * (u64)maxc + 131072, "memory", "encoding a chunk of %zu bytes took %llu bytes of memory (largest chunk %zu)", chunks[i], (unsigned long long)(E.peak_bytes - dict_held), maxc);
        held = std::max(held, E.live_bytes);
      }
      if (first) held_first = held; first = false;
      CHECK_PROP(held <= held_first + 4096 + maxc, "memory-grows", "the encoder holds %llu bytes after the first pass over the chunks, %llu after a later one", (unsigned long long)held_first, (unsigned long long)held);
    }
    CHECK_PROP(lib([&] { return Fwd::go(e.e, 2, 0, 0, &out); }, kStepsPerCall), "encode-failed", "FinishEncoding failed");
    evs(out.s);
  }
  ev(worst);
  if (most >= 10) COUNT("work.over-10-bytes-moved-per-byte"); if (most >= 40) COUNT("work.over-40-bytes-moved-per-byte"); if (most >= 80) COUNT("work.over-80-bytes-moved-per-byte");
  say("most work per target byte: %llu steps, preparation %llu steps", (unsigned long long)worst, (unsigned long long)prep);
  if (worst >= 100) COUNT("work.over-100-steps-per-byte"); if (worst >= 300) COUNT("work.over-300-steps-per-byte"); if (worst >= 500) COUNT("work.over-500-steps-per-byte"); if (worst >= 1000) COUNT("work.over-1000-steps-per-byte"); if (worst >= 2000) COUNT("work.over-2000-steps-per-byte");
  if (worst >= 4000) COUNT("work.over-4000-steps-per-byte");
  if (worst >= 8000) COUNT("work.over-8000-steps-per-byte");
}
