// C03, second part: the code table writer driven directly, with default and custom tables.
#include "api.h"
#include "codetable.h"
#include "google/encodetable.h"
#include <algorithm>
u64 draw_vast_size();

void c03_writer() {
  bool custom = chance(1, 2), il = chance(1, 2), sum = chance(1, 2);
  Table t = custom ? draw_table() : default_table();
  open_vcdiff::VCDiffCodeTableData td;
  for (int i = 0; i < 256; i++) { td.inst1[i] = t.inst1[i]; td.inst2[i] = t.inst2[i]; td.size1[i] = t.size1[i]; td.size2[i] = t.size2[i]; td.mode1[i] = t.mode1[i]; td.mode2[i] = t.mode2[i]; }
  Str dict0; View dict;
  u64 vn = chance(1, 6) ? std::min<u64>(draw_vast_size(), 0x7fffffffu - (1 << 20)) : 0;
  if (vn && vast_dictionary(vn, &dict)) COUNT("dictionary.vast"); else { dict0 = draw_dict(2000); dict = dict0; }
  E.fill = (int)draw(256);
  open_vcdiff::VCDiffCodeTableWriter* w = 0;
  libv([&] {
    if (custom) w = new open_vcdiff::VCDiffCodeTableWriter(il, (u8)t.near_size, (u8)t.same_size, td, (u8)(t.near_size + t.same_size + 1));
    else w = new open_vcdiff::VCDiffCodeTableWriter(il);
  });
  struct Del { open_vcdiff::VCDiffCodeTableWriter* w; ~Del() { Lib l; delete w; } } del = {w};
  CHECK_PROP(lib([&] { return w->Init(dict.size()); }), "writer-init", "VCDiffCodeTableWriter::Init failed");
  Str out; open_vcdiff::OutputString<Str> os(&out);
  int fl = (il ? 1 : 0) | (sum ? 2 : 0);
  libv([&] { w->WriteHeader(&os, (open_vcdiff::VCDiffFormatExtensionFlags)fl); });
  Str header = out;
  int nw = 1 + (int)draw(3);
  say("writer: custom table %d (near %d same %d), interleaved %d, checksum %d, dictionary %zu, %d windows", custom, t.near_size, t.same_size, il, sum, dict.size(), nw);
  g_nontrivial = true; COUNT("writer.direct");
  while (nw--) {
    Str tgt; size_t before = out.size();
    int n = 1 + (int)draw(60); Rng g(draw_seed()); bool last_add = false;
    for (int i = 0; i < n; i++) {
      u64 here = dict.size() + tgt.size();
      size_t size = 1 + (g.below(3) ? g.below(20) : g.below(2) ? g.below(300) : (u64)(g.below(2) ? t.size1[g.below(256)] : t.size2[g.below(256)]));
      int k = (int)g.below(8);
      if (k < 2 && !last_add) { Str d = gen_bytes(size, 1, g.next()); libv([&] { w->Add(d.data(), d.size()); }); tgt += d; last_add = true; }
      else if (k == 2) { u8 b = (u8)g.next(); libv([&] { w->Run(size, b); }); tgt.append(size, (char)b); last_add = false; }
      else if (here > 0) {
        u64 a; switch (g.below(dict.size() > 150000 ? 6 : 4)) {
          case 4: case 5: { static const u64 e[] = {1ull << 7, 1ull << 14, 1ull << 16, 1ull << 21, 1ull << 24, 1ull << 28, 1ull << 30}; a = e[g.below(7)] + g.below(5) - 2; if (g.below(3) == 0) a = here > a ? here - a : 0; if (a >= here) a = here - 1; break; }
          case 0: a = g.below(here); break; case 1: a = here - 1 - g.below(std::min<u64>(here, 5)); break; case 2: a = g.below(std::min<u64>(here, 40)); break; default: a = dict.empty() ? g.below(here) : g.below(dict.size()); }
        libv([&] { w->Copy((int32_t)a, size); });
        for (size_t q = 0; q < size; q++) { u64 p = a + q; tgt.push_back(p < dict.size() ? dict[p] : tgt[p - dict.size()]); }
        last_add = false;
      }
    }
    if (tgt.empty()) { libv([&] { w->Add("x", 1); }); tgt = "x"; }
    if (sum) { u32 s = ref_adler(tgt); libv([&] { w->AddChecksum(s); }); }
    libv([&] { w->Output(&os); });
    Ref r = ref_decode(dict, header + out.substr(before), RefOpts(), &t);
    CHECK_PROP(r.v == Ref::ACCEPT && !r.ambiguous && r.wins.size() == 1, "malformed", "the writer's window is not well-formed: %s", r.why.c_str());
    CHECK_PROP(r.out == tgt, "wrong-window", "the writer's window expands to %zu bytes instead of %zu, or other contents", r.out.size(), tgt.size());
    CHECK_PROP(r.wins[0].has_sum == sum && r.wins[0].interleaved == il, "format-flag", "requested format not used");
  }
  evs(out);
}

// C08: a code table writer used for several sessions, some of them given up half way, against fresh ones.
namespace {
struct Op { int k; u64 a; size_t n; Str d; };
std::vector<Op> draw_ops(size_t dict) {
  std::vector<Op> v; Rng g(draw_seed()); int n = 1 + (int)draw(40); u64 here = dict;
  for (int i = 0; i < n; i++) {
    Op o; o.k = (int)g.below(3); o.n = 1 + (g.below(4) ? g.below(20) : g.below(400)); o.a = 0;
    if (o.k == 2 && !here) o.k = 0;
    if (o.k == 0) o.d = gen_bytes(o.n, 1, g.next()); else if (o.k == 1) o.a = g.below(256); else o.a = g.below(3) ? g.below(here) : here - 1 - g.below(std::min<u64>(here, 300));
    here += o.n; v.push_back(o);
  }
  return v;
}
void play(open_vcdiff::VCDiffCodeTableWriter* w, const std::vector<Op>& v, size_t upto) {
  for (size_t i = 0; i < v.size() && i < upto; i++) {
    const Op& o = v[i];
    libv([&] { if (o.k == 0) w->Add(o.d.data(), o.n); else if (o.k == 1) w->Run(o.n, (u8)o.a); else w->Copy((int32_t)o.a, o.n); });
  }
}
struct W {
  open_vcdiff::VCDiffCodeTableWriter* w;
  W(bool custom, bool il, const Table& t, const open_vcdiff::VCDiffCodeTableData& td) : w(0) {
    libv([&] {
      if (custom) w = new open_vcdiff::VCDiffCodeTableWriter(il, (u8)t.near_size, (u8)t.same_size, td, (u8)(t.near_size + t.same_size + 1));
      else w = new open_vcdiff::VCDiffCodeTableWriter(il);
    });
  }
  ~W() { Lib l; delete w; }
};
}  // namespace
void c08_writer() {
  bool custom = chance(2, 3), il = chance(1, 2);
  Table t = custom ? draw_table() : default_table();
  open_vcdiff::VCDiffCodeTableData td;
  for (int i = 0; i < 256; i++) { td.inst1[i] = t.inst1[i]; td.inst2[i] = t.inst2[i]; td.size1[i] = t.size1[i]; td.size2[i] = t.size2[i]; td.mode1[i] = t.mode1[i]; td.mode2[i] = t.mode2[i]; }
  E.fill = (int)draw(256);
  W w(custom, il, t, td);
  int sessions = 2 + (int)draw(3);
  say("code table writer: custom table %d (near %d same %d), interleaved %d, %d sessions", custom, t.near_size, t.same_size, il, sessions);
  u64 held = 0;
  for (int k = 0; k < sessions; k++) {
    size_t dict = draw(4) ? draw(3000) : draw(3000000); int sum = (int)draw(2);
    int nw = 1 + (int)draw(3);
    W f(custom, il, t, td); Str o1, o2; open_vcdiff::OutputString<Str> s1(&o1), s2(&o2);
    bool a = lib([&] { return w.w->Init(dict); }), b = lib([&] { return f.w->Init(dict); });
    CHECK_PROP(a && b, "writer-init", "VCDiffCodeTableWriter::Init failed");
    libv([&] { w.w->WriteHeader(&s1, sum ? open_vcdiff::VCD_FORMAT_CHECKSUM : 0); f.w->WriteHeader(&s2, sum ? open_vcdiff::VCD_FORMAT_CHECKSUM : 0); });
    for (int i = 0; i < nw; i++) {
      std::vector<Op> v = draw_ops(dict);
      if (chance(1, 4)) { play(w.w, v, draw(v.size() + 1)); COUNT("session.abandoned"); say("session %d given up in window %d", k, i); o1.clear(); o2.clear(); break; }
      u32 c = (u32)draw_seed();
      play(w.w, v, v.size()); play(f.w, v, v.size());
      if (sum) libv([&] { w.w->AddChecksum(c); f.w->AddChecksum(c); });
      libv([&] { w.w->Output(&s1); }); libv([&] { f.w->Output(&s2); });
      CHECK_PROP(o1 == o2, "carry-over", "session %d, window %d: %zu bytes, from a fresh writer %zu", k, i, o1.size(), o2.size());
      COUNT("writer.window"); g_nontrivial = true;
    }
    evs(o1);
    (void)held;
  }
}
