#include "ref.h"
#include "gen.h"
#include <algorithm>

// ---------------------------------------------------------------- tables
static Table make_default() {
  Table t; memset(&t, 0, sizeof t); t.near_size = 4; t.same_size = 3;
  int op = 0;
  auto one = [&](int i, int s, int m) { t.inst1[op] = i; t.size1[op] = s; t.mode1[op] = m; op++; };
  auto two = [&](int i, int s, int m, int i2, int s2, int m2) {
    t.inst1[op] = i; t.size1[op] = s; t.mode1[op] = m; t.inst2[op] = i2; t.size2[op] = s2; t.mode2[op] = m2; op++; };
  one(I_RUN, 0, 0);
  for (int s = 0; s <= 17; s++) one(I_ADD, s, 0);
  for (int m = 0; m <= 8; m++) { one(I_COPY, 0, m); for (int s = 4; s <= 18; s++) one(I_COPY, s, m); }
  for (int m = 0; m <= 5; m++) for (int a = 1; a <= 4; a++) for (int c = 4; c <= 6; c++) two(I_ADD, a, 0, I_COPY, c, m);
  for (int m = 6; m <= 8; m++) for (int a = 1; a <= 4; a++) two(I_ADD, a, 0, I_COPY, 4, m);
  for (int m = 0; m <= 8; m++) two(I_COPY, 4, m, I_ADD, 1, 0);
  if (op != 256) harness_error("default table has %d entries", op);
  return t;
}
const Table& default_table() { static Table t = make_default(); return t; }
Str Table::bytes() const {
  Str r; const u8* p[] = {inst1, inst2, size1, size2, mode1, mode2};
  for (int i = 0; i < 6; i++) r.append((const char*)p[i], 256);
  return r;
}
static bool table_from_bytes(const Str& b, int nearsz, int samesz, Table* t) {
  if (b.size() != 1536) return false;
  u8* p[] = {t->inst1, t->inst2, t->size1, t->size2, t->mode1, t->mode2};
  for (int i = 0; i < 6; i++) memcpy(p[i], b.data() + i * 256, 256);
  t->near_size = nearsz; t->same_size = samesz;
  return t->valid();
}
bool Table::valid() const {
  int maxmode = near_size + same_size + 1;
  bool have_add = false, have_run = false; std::vector<bool> have_copy(maxmode + 1, false);
  for (int i = 0; i < 256; i++) {
    const u8 in[2] = {inst1[i], inst2[i]}, sz[2] = {size1[i], size2[i]}, md[2] = {mode1[i], mode2[i]};
    for (int k = 0; k < 2; k++) {
      if (in[k] > I_COPY || md[k] > maxmode) return false;
      if (in[k] == I_NOOP && sz[k]) return false;
      if (in[k] != I_COPY && md[k]) return false;
    }
    if (in[1] == I_NOOP && sz[0] == 0) {
      if (in[0] == I_ADD) have_add = true;
      if (in[0] == I_RUN) have_run = true;
      if (in[0] == I_COPY) have_copy[md[0]] = true;
    }
  }
  for (int m = 0; m <= maxmode; m++) if (!have_copy[m]) return false;
  return have_add && have_run;
}

u32 ref_adler(const char* p, size_t n) {
  u64 a = 0, b = 0;
  for (size_t i = 0; i < n; i++) {
    a += (u8)p[i]; b += a;
    if ((i & 4095) == 4095) { a %= 65521; b %= 65521; }
  }
  return (u32)(((b % 65521) << 16) | (a % 65521));
}

// ---------------------------------------------------------------- decoder
namespace {
struct Need {};                              // ran out of bytes
struct Bad { const char* why; };
struct Cur {
  const u8* p; size_t pos, end; bool* amb;
  u8 byte() { if (pos >= end) throw Need(); return p[pos++]; }
  u64 varint(u64 max) {
    u64 v = 0; size_t start = pos;
    for (;;) {
      if (pos >= end) { throw Need(); }
      u8 c = p[pos];
      if (pos == start && c == 0x80) *amb = true;    // padded number: the RFC neither allows nor forbids it
      if (v > (max >> 7)) throw Bad{"number too large"};
      v = (v << 7) | (c & 0x7f);
      if (v > max) throw Bad{"number too large"};
      pos++;
      if (!(c & 0x80)) return v;
    }
  }
};
const u64 kMax31 = 0x7fffffff;
struct Caches {
  std::vector<u64> nearc, same; size_t next;
  void reset(const Table& t) { nearc.assign(t.near_size, 0); same.assign(t.same_size * 256, 0); next = 0; }
  void update(u64 a) {
    if (!nearc.empty()) { nearc[next] = a; next = (next + 1) % nearc.size(); }
    if (!same.empty()) same[a % same.size()] = a;
  }
};
}

static void ref_body(const View& dict, const Str& delta, const RefOpts& o, const Table* preset, Ref* r, int depth, size_t exact_total) {
  Cur c = {(const u8*)delta.data(), 0, delta.size(), &r->ambiguous};
  const Table* tab = preset ? preset : &default_table();
  u8 version, ind;
  static const u8 magic[3] = {0xD6, 0xC3, 0xC4};
  for (int i = 0; i < 3; i++) if (c.byte() != magic[i]) throw Bad{"magic"};
  version = c.byte();
  if (version != 0 && version != 'S') throw Bad{"version"};
  r->version = version;
  ind = c.byte();
  if (ind & 1) throw Bad{"secondary compression"};
  if (ind & ~3u) r->ambiguous = true;
  if (ind & 2) {
    if (depth) throw Bad{"nested code table"};
    u64 ns = c.varint(kMax31), ss = c.varint(kMax31);
    if (ns > 255 || ss > 255 || ns + ss > 254) throw Bad{"cache sizes"};
    Str rest(delta, c.pos);
    Str def = default_table().bytes();
    Ref in; in.ambiguous = false; in.v = Ref::INCOMPLETE; in.used_target = in.limit_hit = in.custom = false; in.header_end = 0;
    // The embedded file ends as soon as 1536 bytes have been produced.
    RefOpts io;
    try {
      ref_body(def, rest, io, 0, &in, 1, 1536);
    } catch (...) { if (in.ambiguous) r->ambiguous = true; throw; }
    if (in.ambiguous) r->ambiguous = true;
    if (!table_from_bytes(in.out, (int)ns, (int)ss, &r->table)) throw Bad{"code table"};
    tab = &r->table; r->custom = true;
    c.pos += in.wins.back().end;
  }
  r->header_end = c.pos;
  Caches ca;
  while (exact_total ? r->out.size() < exact_total : c.pos < c.end) {
    RefWin w; memset(&w, 0, sizeof w); w.start = c.pos; w.out_start = r->out.size(); r->last_interleaved = false;
    w.ind = c.byte();
    int src = w.ind & 3;
    if (w.ind & ~7u) r->ambiguous = true;
    if ((w.ind & 4) && version != 'S') r->ambiguous = true;
    w.has_sum = (w.ind & 4) && version == 'S';
    if (src == 3) throw Bad{"both source flags"};
    if (src == 2) { r->used_target = true; if (!o.allow_target) throw Bad{"target window not allowed"}; }
    Str whole_src;
    if (src) {
      u64 from = src == 1 ? dict.size() : r->out.size();
      w.seg_len = c.varint(kMax31);
      if (w.seg_len > from) throw Bad{"segment length"};
      w.seg_pos = c.varint(kMax31);
      if (w.seg_pos > from) throw Bad{"segment position"};
      if (w.seg_pos == from && w.seg_len > 0) throw Bad{"segment position"};
      if (w.seg_pos + w.seg_len > from) throw Bad{"segment end"};
    }
    w.delta_len = c.varint(kMax31);
    size_t enc_start = c.pos;
    w.target_len = c.varint(kMax31);
    if (w.target_len > o.max_window || w.target_len > (o.max_file > r->out.size() ? o.max_file - r->out.size() : 0)) {
      r->limit_hit = true; throw Bad{"size limit"};
    }
    if (exact_total && r->out.size() + w.target_len > exact_total) throw Bad{"code table too large"};
    if (w.seg_len + w.target_len > kMax31) r->ambiguous = true;      // addresses would not fit
    u8 dind = c.byte();
    if (dind & 7) throw Bad{"compressed section"};
    if (dind & ~7u) r->ambiguous = true;
    w.data_len = c.varint(kMax31); w.inst_len = c.varint(kMax31); w.addr_len = c.varint(kMax31);
    if (w.has_sum) {
      u64 s = c.varint(0x7fffffffffffffffull);
      if (s > 0xffffffffull) throw Bad{"checksum too large"};
      w.sum = (u32)s;
    }
    if (c.pos - enc_start + w.data_len + w.inst_len + w.addr_len != w.delta_len) throw Bad{"delta length"};
    w.interleaved = version == 'S' && w.data_len == 0 && w.addr_len == 0; r->last_interleaved = w.interleaved;
    size_t body_end = enc_start + w.delta_len;
    bool truncated = body_end > c.end;
    if (truncated && !w.interleaved) throw Need();
    size_t lim = truncated ? c.end : body_end;
    Cur di = {c.p, c.pos, 0, &r->ambiguous}, ii = di, ai = di;
    if (w.interleaved) ii.end = lim;
    else {
      di.end = c.pos + w.data_len; ii.pos = di.end; ii.end = ii.pos + w.inst_len; ai.pos = ii.end; ai.end = ai.pos + w.addr_len;
    }
    Cur* D = w.interleaved ? &ii : &di; Cur* A = w.interleaved ? &ii : &ai;
    const char* seg = src == 1 ? dict.data() + w.seg_pos : 0;
    size_t seg_tpos = w.seg_pos;
    ca.reset(*tab);
    u64 done = 0;
    try {
      while (done < w.target_len) {
        u8 op = ii.byte();
        for (int k = 0; k < 2; k++) {
          int in = k ? tab->inst2[op] : tab->inst1[op];
          u64 size = k ? tab->size2[op] : tab->size1[op]; int mode = k ? tab->mode2[op] : tab->mode1[op];
          if (in == I_NOOP) continue;
          if (k == 1 && done >= w.target_len) {
            // Second half of a pair after the window is already full: surplus.
            r->ambiguous = true; break;
          }
          if (size == 0) size = ii.varint(kMax31);
          if (size > w.target_len - done) throw Bad{"instruction exceeds window"};
          if (in == I_ADD) {
            if (D->end - D->pos < size) throw Need();
            r->out.append((const char*)D->p + D->pos, size); D->pos += size;
          } else if (in == I_RUN) {
            u8 b = D->byte(); r->out.append(size, (char)b);
          } else {
            u64 here = w.seg_len + done, a;
            if (mode == 0) a = A->varint(kMax31);
            else if (mode == 1) { u64 x = A->varint(kMax31); if (x > here) throw Bad{"here address"}; a = here - x; }
            else if (mode < 2 + tab->near_size) { a = ca.nearc[mode - 2] + A->varint(kMax31); }
            else { u8 b = A->byte(); a = ca.same[(mode - 2 - tab->near_size) * 256 + b]; }
            if (a >= here) throw Bad{"address"};
            ca.update(a);
            if (a + size > w.max_ref) w.max_ref = a + size;
            for (u64 i = 0; i < size; i++) {
              u64 q = a + i; char ch;
              if (q < w.seg_len) ch = seg ? seg[q] : r->out[seg_tpos + q];
              else { ch = r->out[w.out_start + (q - w.seg_len)]; w.refs_target = true; }
              r->out.push_back(ch);
            }
          }
          done += size; w.ninst++;
          if (w.interleaved) { RefRelease rr = {ii.pos, r->out.size()}; r->rel.push_back(rr); }
        }
      }
    } catch (Need&) {
      if (w.interleaved && truncated) throw;
      throw Bad{"section too short"};
    }
    bool left = w.interleaved ? (truncated || ii.pos != body_end) : (di.pos != di.end || ii.pos != ii.end || ai.pos != ai.end);
    if (left) throw Bad{"surplus data in window"};
    if (w.has_sum && ref_adler(r->out.data() + w.out_start, w.target_len) != w.sum) throw Bad{"checksum"};
    c.pos = body_end; w.end = body_end;
    RefRelease rr = {body_end, r->out.size()}; r->rel.push_back(rr);
    r->wins.push_back(w);
  }
}
Ref ref_decode(const View& dict, const Str& delta, const RefOpts& o, const Table* preset) {
  Ref r; r.v = Ref::ACCEPT; r.ambiguous = r.used_target = r.limit_hit = r.custom = false; r.header_end = 0; r.version = 0; r.last_interleaved = false;
  if (delta.empty()) return r;  // documented: no delta data at all is an empty target
  try { ref_body(dict, delta, o, preset, &r, 0, 0); }
  catch (Need&) { r.v = Ref::INCOMPLETE; r.why = "incomplete"; }
  catch (Bad& b) { r.v = Ref::REJECT; r.why = b.why; }
  return r;
}

// ---------------------------------------------------------------- builder
void put_varint(Str* s, u64 v) {
  char b[12]; int n = 0;
  do { b[n++] = (char)(v & 0x7f); v >>= 7; } while (v);
  while (n--) s->push_back((char)(b[n] | (n ? 0x80 : 0)));
}
Str default_header(u8 version) { Str s("\xD6\xC3\xC4", 3); s.push_back((char)version); s.push_back(0); return s; }

Table draw_table() {
  Table t; memset(&t, 0, sizeof t);
  switch (draw(7)) {
    case 0: t.near_size = 4; t.same_size = 3; break;
    case 1: t.near_size = (int)draw(8); t.same_size = (int)draw(6); break;
    case 2: t.near_size = 0; t.same_size = (int)draw(3); break;
    case 3: t.near_size = (int)draw(100); t.same_size = (int)draw(100); break;
    case 4: t.same_size = 0; t.near_size = (int)draw(40); break;
    case 5: t.near_size = (int)draw(120); t.same_size = (int)draw(120); break;
    default: { int sum = 252 - (int)draw(4); t.near_size = draw(3) ? (int)draw(sum + 1) : draw(2) ? 0 : sum; t.same_size = sum - t.near_size; break; }   // as many modes as a table can have
  }
  int nm = t.near_size + t.same_size + 2;
  if (nm + 2 > 256) { t.same_size = 10; t.near_size = 100; nm = 112; }
  if (draw(3) == 0 && nm == 9) {           // default table with a few changes
    Table d = default_table();
    int ns = t.near_size, ss = t.same_size; t = d; t.near_size = ns; t.same_size = ss;
    if (!t.valid()) { t = d; }
    int k = (int)draw(6);
    while (k--) {
      Table old = t; int op = (int)draw(256);
      t.inst1[op] = (u8)draw(4); t.size1[op] = t.inst1[op] ? (u8)draw(256) : 0; t.mode1[op] = t.inst1[op] == I_COPY ? (u8)draw(nm) : 0;
      t.inst2[op] = (u8)draw(4); t.size2[op] = t.inst2[op] ? (u8)draw(256) : 0; t.mode2[op] = t.inst2[op] == I_COPY ? (u8)draw(nm) : 0;
      if (!t.valid()) t = old;
    }
    return t;
  }
  Rng g(draw_seed());
  std::vector<int> slot(256); for (int i = 0; i < 256; i++) slot[i] = i;
  for (int i = 255; i > 0; i--) std::swap(slot[i], slot[g.below(i + 1)]);
  int k = 0;
  t.inst1[slot[k++]] = I_ADD; t.inst1[slot[k++]] = I_RUN;
  for (int m = 0; m < nm; m++) { t.inst1[slot[k]] = I_COPY; t.mode1[slot[k]] = (u8)m; k++; }
  int style = (int)draw(3);                // small sizes, any sizes, many zero sizes
  for (; k < 256; k++) {
    int op = slot[k];
    for (int h = 0; h < 2; h++) {
      int in = (int)g.below(4); if (h == 1 && g.below(3) == 0) in = 0;
      int sz = in ? (style == 0 ? (int)g.below(8) : style == 1 ? (int)g.below(256) : (g.below(2) ? 0 : (int)g.below(30))) : 0;
      int md = in == I_COPY ? (int)g.below(nm) : 0;
      if (h) { t.inst2[op] = in; t.size2[op] = sz; t.mode2[op] = md; } else { t.inst1[op] = in; t.size1[op] = sz; t.mode1[op] = md; }
    }
  }
  if (!t.valid()) harness_error("drawn table invalid");
  return t;
}

namespace {
struct Emit {
  const Table* t; Caches ca; Str insts, data, addr; bool il; Rng g; std::vector<size_t>* marks; size_t base; int noop_rate; size_t burst;
  Str* dsec() { return il ? &insts : &data; }
  Str* asec() { return il ? &insts : &addr; }
  explicit Emit(u64 seed) : g(seed), burst(0) {}
  // modes usable for this address
  void modes(u64 a, u64 here, std::vector<int>* out) {
    out->clear(); out->push_back(0); if (a <= here) out->push_back(1);
    for (size_t i = 0; i < ca.nearc.size(); i++) if (a >= ca.nearc[i]) out->push_back(2 + (int)i);
    if (!ca.same.empty() && ca.same[a % ca.same.size()] == a) out->push_back(2 + (int)ca.nearc.size() + (int)((a % ca.same.size()) / 256));
  }
  void operand(const Inst& x, int mode, u64 here) {
    if (x.type == I_ADD) dsec()->append(x.data);
    else if (x.type == I_RUN) dsec()->append(x.data.substr(0, 1));
    else {
      if (mode == 0) put_varint(asec(), x.addr);
      else if (mode == 1) put_varint(asec(), here - x.addr);
      else if (mode < 2 + t->near_size) put_varint(asec(), x.addr - ca.nearc[mode - 2]);
      else asec()->push_back((char)(x.addr % ca.same.size() % 256));
      ca.update(x.addr);
    }
  }
};
}
static bool half_ok(int in, int sz, const Inst& x) { return in == x.type && (sz == 0 || (size_t)sz == x.size); }

// Emits the instruction list; returns the executed target.
static void emit_window(Emit* e, const WinSpec& w, const View& src, Str* target) {
  const Table& t = *e->t;
  e->ca.reset(t);
  std::vector<int> md;
  size_t i = 0;
  auto exec = [&](const Inst& x) {
    if (x.type == I_ADD) target->append(x.data);
    else if (x.type == I_RUN) target->append(x.size, x.data[0]);
    else for (size_t k = 0; k < x.size; k++) { u64 q = x.addr + k; target->push_back(q < src.size() ? src[q] : (*target)[q - src.size()]); }
  };
  std::vector<int> noops, pre;   // opcodes doing nothing; opcodes whose first half does nothing
  for (int op = 0; op < 256; op++) {
    if (t.inst1[op] == I_NOOP && t.inst2[op] == I_NOOP) noops.push_back(op);
    if (t.inst1[op] == I_NOOP && t.inst2[op] != I_NOOP) pre.push_back(op);
  }
  while (i < w.insts.size()) {
    const Inst& x = w.insts[i];
    u64 here = src.size() + target->size();
    if (!noops.empty() && e->noop_rate && e->g.below(100) < (u64)e->noop_rate) e->insts.push_back((char)noops[e->g.below(noops.size())]);
    if (!noops.empty() && e->burst) { e->insts.append(e->burst, (char)noops[e->g.below(noops.size())]); e->burst = 0; COUNT("built.no-op-burst"); }
    int mode = 0;
    if (x.type == I_COPY) { e->modes(x.addr, here, &md); mode = md[e->g.below(md.size())]; }
    // candidates: pairs for (x, next), single x
    std::vector<int> pairs, singles, pres;
    for (int op = 0; op < 256; op++) {
      if (half_ok(t.inst1[op], t.size1[op], x) && t.mode1[op] == mode) {
        if (t.inst2[op] == I_NOOP) singles.push_back(op);
        else if (i + 1 < w.insts.size() && half_ok(t.inst2[op], t.size2[op], w.insts[i + 1])) pairs.push_back(op);
      }
    }
    for (size_t k = 0; k < pre.size(); k++) { int op = pre[k]; if (half_ok(t.inst2[op], t.size2[op], x) && t.mode2[op] == mode) pres.push_back(op); }
    // prefer pairs half of the time; the mode of the second half must be usable too
    bool done = false;
    if (!pairs.empty() && e->g.below(4) != 0) {
      int tries = 8;
      while (tries-- && !done) {
        int op = pairs[e->g.below(pairs.size())];
        const Inst& y = w.insts[i + 1];
        if (y.type == I_COPY) {
          Caches save = e->ca; if (x.type == I_COPY) e->ca.update(x.addr);
          std::vector<int> m2; e->modes(y.addr, here + x.size, &m2); e->ca = save;
          bool ok = false; for (size_t q = 0; q < m2.size(); q++) if (m2[q] == t.mode2[op]) ok = true;
          if (!ok) continue;
        }
        e->insts.push_back((char)op);
        if (t.size1[op] == 0) put_varint(&e->insts, x.size);
        e->operand(x, mode, here); exec(x);
        if (e->marks && e->il) e->marks->push_back(e->base + e->insts.size());
        if (t.size2[op] == 0) put_varint(&e->insts, y.size);
        e->operand(y, t.mode2[op], src.size() + target->size()); exec(y);
        i += 2; done = true; COUNT("built.double-opcode");
      }
    }
    if (!done) {
      int op; bool second = false;
      if (!pres.empty() && e->g.below(4) == 0) { op = pres[e->g.below(pres.size())]; second = true; }
      else if (!singles.empty()) op = singles[e->g.below(singles.size())];
      else { harness_error("no opcode for instruction %d size %zu mode %d", x.type, x.size, mode); }
      e->insts.push_back((char)op);
      if ((second ? t.size2[op] : t.size1[op]) == 0) put_varint(&e->insts, x.size);
      e->operand(x, mode, here); exec(x);
      i++;
    }
    if (e->marks && e->il) e->marks->push_back(e->base + e->insts.size());
  }
}

static Inst draw_inst(Rng& g, u64 seglen, const Str& tgt_so_far_len_holder, u64 done, size_t maxsize, const Table& t) {
  (void)tgt_so_far_len_holder;
  Inst x; x.addr = 0;
  u64 here = seglen + done;
  int ty = (int)g.below(10);
  size_t size;
  switch (g.below(8)) {
    case 0: size = 0; break;
    case 1: size = 1 + g.below(4); break;
    case 2: size = 4 + g.below(15); break;
    case 3: size = g.below(40); break;
    case 4: size = g.below(300); break;
    case 5: { static const int es[] = {1, 4, 5, 6, 17, 18, 19, 127, 128, 255, 256, 16383, 16384, 20000}; size = es[g.below(14)]; break; }
    case 6: { int op = (int)g.below(256); size = g.below(2) ? t.size1[op] : t.size2[op]; break; }
    default: size = 1 + g.below(20); break;
  }
  if (size > maxsize) size = maxsize;
  if (ty < 4 || here == 0) { if (ty & 1) { x.type = I_RUN; } else x.type = I_ADD; }
  else x.type = I_COPY;
  x.size = size;
  if (x.type == I_COPY) {
    switch (g.below(6)) {
      case 0: x.addr = g.below(here); break;
      case 1: x.addr = here - 1 - g.below(std::min<u64>(here, 4)); break;   // overlapping
      case 2: x.addr = seglen ? g.below(seglen) : 0; break;
      case 3: { u64 b = seglen > 3 ? seglen - 3 : 0; x.addr = b + g.below(6); break; }   // spans source and target
      case 4: x.addr = g.below(std::min<u64>(here, 300)); break;
      default: x.addr = g.below(std::min<u64>(here, 8)); break;
    }
    if (seglen > 150000 && g.below(2)) {       // where the length of an address changes
      static const u64 e[] = {1ull << 7, 1ull << 14, 1ull << 15, 1ull << 16, 1ull << 21, 1ull << 24, 1ull << 28, 1ull << 30, 3ull << 29};
      u64 a = e[g.below(9)] + g.below(5); a -= a < 2 ? a : 2; x.addr = g.below(3) ? a : here > a ? here - a : 0;
    }
    if (x.addr >= here) x.addr = here - 1;
  } else if (x.type == I_ADD) {
    x.data.resize(size); u64 k = g.below(3);
    for (size_t i = 0; i < size; i++) x.data[i] = (char)(k == 0 ? g.next() : k == 1 ? 'a' + g.below(3) : 0x80 | (g.next() & 0xff));
  } else x.data = Str(1, (char)g.next());
  return x;
}

static Str frame_window(const WinSpec& w, u8 version, const Emit& e, const Str& tgt, Built* b, size_t at) {
  (void)version;
  Str h; u8 ind = (u8)(w.source | (w.checksum ? 4 : 0));
  h.push_back((char)ind);
  std::vector<size_t> marks, vs;
  marks.push_back(h.size());
  if (w.source) { vs.push_back(h.size()); put_varint(&h, w.seg_len); marks.push_back(h.size()); vs.push_back(h.size()); put_varint(&h, w.seg_pos); marks.push_back(h.size()); }
  Str in;
  std::vector<size_t> im, iv;
  iv.push_back(0); put_varint(&in, tgt.size()); im.push_back(in.size()); in.push_back(0); im.push_back(in.size());
  iv.push_back(in.size()); put_varint(&in, e.data.size()); im.push_back(in.size());
  iv.push_back(in.size()); put_varint(&in, e.insts.size()); im.push_back(in.size());
  iv.push_back(in.size()); put_varint(&in, e.addr.size()); im.push_back(in.size());
  if (w.checksum) { iv.push_back(in.size()); put_varint(&in, ref_adler(tgt)); im.push_back(in.size()); }
  u64 body = in.size() + e.data.size() + e.insts.size() + e.addr.size();
  vs.push_back(h.size()); put_varint(&h, body); marks.push_back(h.size());
  for (size_t k = 0; k < im.size(); k++) marks.push_back(h.size() + im[k]);
  for (size_t k = 0; k < iv.size(); k++) vs.push_back(h.size() + iv[k]);
  h += in;
  size_t body_at = h.size();
  h += e.data; marks.push_back(h.size()); h += e.insts; marks.push_back(h.size()); h += e.addr; marks.push_back(h.size());
  if (e.il && e.marks) for (size_t k = 0; k < e.marks->size(); k++) marks.push_back(body_at + (*e.marks)[k]);
  if (b) {
    for (size_t k = 0; k < marks.size(); k++) b->marks.push_back(at + marks[k]);
    for (size_t k = 0; k < vs.size(); k++) b->varints.push_back(at + vs[k]);
  }
  return h;
}

static Built build_with_table(const View& dict, const BuildOpts& o, const Table& t, u8 version, bool nested, const Str* must_target) {
  Built b; b.version = version; b.custom = false; b.nwin = 0; b.uses_target = false; b.header_end = 0;
  int nw;
  switch (draw(4)) { case 0: nw = 1; break; case 1: nw = (int)draw(3); break; default: nw = 1 + (int)draw(o.max_windows); }
  if (must_target) nw = 1 + (int)draw(3);
  size_t must_pos = 0;
  for (int k = 0; k < nw || (must_target && must_pos < must_target->size()); k++) {
    WinSpec w; w.checksum = version == 'S' && o.allow_checksum && chance(1, 2);
    w.interleaved = version == 'S' && o.allow_interleaved && chance(1, 2);
    w.source = (int)draw(3); if (w.source == 0 && chance(1, 2)) w.source = 1;
    if (w.source == 2 && !o.allow_target) w.source = 1;
    const View from = w.source == 2 ? View(b.target) : dict;
    w.seg_pos = w.seg_len = 0;
    if (w.source) {
      switch (draw(4)) {
        case 0: w.seg_len = from.size(); break;
        case 1: w.seg_len = draw(from.size() + 1); w.seg_pos = draw(from.size() - w.seg_len + 1); break;
        case 2: w.seg_len = std::min<size_t>(from.size(), draw(5)); w.seg_pos = draw(from.size() - w.seg_len + 1); break;
        default: w.seg_pos = draw(from.size() + 1); w.seg_len = from.size() - w.seg_pos; break;
      }
    }
    if (w.source == 2) { b.uses_target = true; COUNT("built.vcd-target-window"); }
    if (w.seg_len > kMax31 - (1 << 20)) w.seg_len = kMax31 - (1 << 20) - draw(3);       // lengths, positions and addresses are numbers below 2^31
    if (w.seg_pos > kMax31) w.seg_pos = kMax31 - draw(3);
    const View src = w.source ? View(from.data() + w.seg_pos, (size_t)w.seg_len) : View();
    Str tgt;
    if (must_target) {
      // Cover the next stretch of the wanted target with ADDs, RUNs and matching COPYs.
      size_t left = must_target->size() - must_pos, len = k >= nw - 1 ? left : draw(left + 1);
      if (len == 0 && k > 6) len = left;
      Rng g(draw_seed());
      size_t p = 0;
      while (p < len) {
        Inst x; x.addr = 0; size_t n = 1 + g.below(g.below(3) ? 40 : 400); if (n > len - p) n = len - p;
        const char* q = must_target->data() + must_pos + p;
        // longest copy at a random source place
        bool done = false;
        for (int tr = 0; tr < 12 && !src.empty() && !done; tr++) {
          u64 a = tr < 2 && src.size() == 1536 ? must_pos + p : g.below(src.size()); if (a >= src.size()) continue;
          size_t m = 0; while (m < len - p && a + m < src.size() && src[a + m] == q[m]) m++;
          if (m >= 2) { x.type = I_COPY; x.addr = a; x.size = m; done = true; }
        }
        if (!done) {
          size_t m = 1; while (m < len - p && q[m] == q[0]) m++;
          if (m >= 3 && g.below(3)) { x.type = I_RUN; x.size = m; x.data = Str(1, q[0]); }
          else { x.type = I_ADD; x.size = n; x.data.assign(q, n); }
        }
        p += x.size; w.insts.push_back(x);
      }
      must_pos += len;
    } else {
      size_t done = 0;
      int ni;
      switch (draw(5)) { case 0: ni = 0; break; case 1: ni = 1; break; case 2: ni = (int)draw(6); break; case 3: ni = (int)draw(30); break; default: ni = o.tiny ? (int)draw(4) : (int)draw(200); }
      bool bulk = ni > 8;
      u64 bs = bulk ? draw_seed() : 0; Rng bg(bs);
      for (int q = 0; q < ni; q++) {
        size_t room = b.target.size() + done < o.max_target ? o.max_target - b.target.size() - done : 0;
        Rng g(bulk ? bg.next() : draw_seed());
        Inst x = draw_inst(g, src.size(), tgt, done, std::min<size_t>(room, o.tiny ? 6 : 70000), t);
        if (x.type == I_COPY && src.size() + done == 0) continue;
        done += x.size; w.insts.push_back(x);
      }
      // A window ends when its target is complete, so trailing empty instructions would be surplus.
      while (!w.insts.empty() && w.insts.back().size == 0) w.insts.pop_back();
    }
    Emit e(draw_seed()); e.t = &t; e.il = w.interleaved; std::vector<size_t> im; e.marks = &im; e.base = 0;
    static const int nr[] = {0, 0, 5, 30}; e.noop_rate = nr[draw(4)];
    if (o.burst && !nested && chance(1, 100)) e.burst = 1000 + draw(30000);
    emit_window(&e, w, src, &tgt);
    // 'S' with empty data and address sections means interleaved; only possible here for empty windows.
    size_t at = b.delta.size();
    b.delta += frame_window(w, version, e, tgt, &b, at);
    b.target += tgt;
    b.win_end.push_back(b.delta.size()); b.win_out.push_back(b.target.size()); b.nwin++;
    (void)nested;
  }
  return b;
}

Built build_delta(const View& dict, const BuildOpts& o) {
  u8 version = o.force_version >= 0 ? (u8)o.force_version : (chance(2, 3) ? 'S' : 0);
  bool custom = o.allow_custom && chance(1, 4);
  Str head("\xD6\xC3\xC4", 3); head.push_back((char)version);
  Table t = default_table();
  std::vector<size_t> hm; for (size_t i = 1; i <= 4; i++) hm.push_back(i);
  if (custom) {
    COUNT("built.custom-table");
    t = draw_table();
    head.push_back(2); hm.push_back(head.size());
    put_varint(&head, t.near_size); put_varint(&head, t.same_size); hm.push_back(head.size());
    u8 iv = chance(1, 2) ? 'S' : 0;
    Str want = t.bytes(), base = default_table().bytes();
    BuildOpts io; Built in;
    in = build_with_table(base, io, default_table(), iv, true, &want);
    // The embedded file ends when the table is complete: no empty windows after that.
    while (in.win_out.size() >= 2 && in.win_out[in.win_out.size() - 2] == 1536) {
      in.win_out.pop_back(); in.win_end.pop_back(); in.delta.resize(in.win_end.back());
    }
    if (in.target.size() != 1536) harness_error("code table builder produced %zu bytes", in.target.size());
    Str ih = default_header(iv);
    size_t off = head.size() + ih.size();
    for (size_t k = 0; k < in.marks.size(); k++) hm.push_back(off + in.marks[k]);
    head += ih + in.delta;
    hm.push_back(head.size());
  } else head.push_back(0);
  Built b = build_with_table(dict, o, t, version, false, 0);
  b.header_end = head.size(); b.custom = custom;
  for (size_t k = 0; k < b.marks.size(); k++) b.marks[k] += head.size();
  for (size_t k = 0; k < b.varints.size(); k++) b.varints[k] += head.size();
  for (size_t k = 0; k < b.win_end.size(); k++) b.win_end[k] += head.size();
  b.marks.insert(b.marks.begin(), hm.begin(), hm.end());
  b.delta = head + b.delta;
  Ref r = ref_decode(dict, b.delta);
  if (r.v != Ref::ACCEPT || r.out != b.target || r.ambiguous)
    harness_error("builder and reference disagree: %s ambiguous=%d out %zu want %zu delta %s", r.why.c_str(), r.ambiguous, r.out.size(), b.target.size(), hex(b.delta, 400).c_str());
  return b;
}

// ---------------------------------------------------------------- long streams
// Thousands of small windows, or megabytes in large ones, with references far back into the target.
Built build_long(const View& dict, const LongOpts& o) {
  Built b; b.version = chance(1, 2) ? 'S' : 0; b.custom = false; b.nwin = 0; b.uses_target = false;
  b.delta = default_header(b.version); b.header_end = b.delta.size();
  Rng g(draw_seed());
  Str noise = gen_bytes(70000, 1, g.next());
  size_t target_rate = o.allow_target ? draw(4) : 0;         // of 4 windows, this many refer to the target
  while ((size_t)b.nwin < o.windows && b.target.size() < o.total) {
    WinSpec w; w.checksum = b.version == 'S' && g.below(3) == 0; w.interleaved = b.version == 'S' && g.below(2);
    w.source = g.below(4) < target_rate && !b.target.empty() ? 2 : g.below(4) ? 1 : 0;
    if (w.source == 1 && dict.empty()) w.source = 0;
    if (w.source == 2) b.uses_target = true;
    const View from = w.source == 2 ? View(b.target) : dict;
    w.seg_pos = w.seg_len = 0;
    if (w.source) { w.seg_len = 1 + g.below(std::min<u64>(from.size(), o.window * 2)); w.seg_pos = g.below(3) ? g.below(from.size() - w.seg_len + 1) : from.size() - w.seg_len; }
    const View src = w.source ? View(from.data() + w.seg_pos, (size_t)w.seg_len) : View();
    size_t done = 0, want = 1 + g.below(o.window);
    while (done < want) {
      Inst x; x.addr = 0; x.size = 1 + g.below(g.below(3) ? std::min<size_t>(want - done, 24) : want - done);
      int k = (int)g.below(8);
      if (k < 4 && src.size() + done > 0) { x.type = I_COPY; x.addr = g.below(src.size() + done); if (done > x.size && g.below(3) == 0) x.addr = src.size() + done - 1 - g.below(x.size); }
      else if (k == 4) { x.type = I_RUN; x.data = Str(1, (char)g.next()); }
      else { x.type = I_ADD; if (x.size > 60000 && !o.literal) x.size = 60000; while (x.data.size() < x.size) x.data.append(noise, g.below(noise.size() / 2), x.size - x.data.size()); }
      done += x.size; w.insts.push_back(x);
    }
    Emit e(g.next()); e.t = &default_table(); e.il = w.interleaved; e.marks = 0; e.base = 0; e.noop_rate = 0;
    Str tgt; emit_window(&e, w, src, &tgt);
    b.delta += frame_window(w, b.version, e, tgt, 0, 0);
    b.target += tgt;
    b.win_end.push_back(b.delta.size()); b.win_out.push_back(b.target.size()); b.nwin++;
  }
  COUNT("built.long");
  return b;
}
LongOpts draw_long(bool allow_target) {
  LongOpts o; o.allow_target = allow_target; o.literal = false;
  switch (draw(4)) {
    case 0: o.windows = draw(2) ? 1500 : 300 + draw(5000); o.window = 1 + draw(60); o.total = 1 << 20; break;
    case 1: o.windows = 66000 + draw(3000); o.window = 1 + draw(5); o.total = 1 << 20; if (draw(3)) o.windows = 4200 + draw(2000); break;
    case 2: o.windows = 400; o.window = 20000 + draw(60000); o.total = (1 << 20) + draw(2 << 20); break;
    default: o.windows = 3; o.window = 100000 + draw(draw(3) ? 400000 : 3 << 20); o.total = 4 << 20; o.literal = true; break;
  }
  return o;
}

// ---------------------------------------------------------------- restructured
Str restructure(const View& dict, const Str& delta, Str* what) {
  Ref r = ref_decode(dict, delta);
  if (r.custom && !r.ambiguous && chance(1, 6)) {       // other cache sizes in front of the same code table
    size_t p = 5; u64 v[2] = {0, 0};
    for (int i = 0; i < 2; i++) { u8 c; do { c = (u8)delta[p++]; v[i] = v[i] << 7 | (c & 127); } while (c & 128); }
    u64& x = v[draw(2)];
    switch (draw(3)) { case 0: x += 256; break; case 1: x += 256 * (1 + draw(300)); break; default: if (draw(2) || !x) x++; else x--; }
    *what += "cache-sizes "; COUNT("fault.cache-sizes");
    Str h = delta.substr(0, 5); put_varint(&h, v[0]); put_varint(&h, v[1]);
    return h + delta.substr(p);
  }
  if (r.wins.empty()) return delta;
  size_t k = draw(r.wins.size());
  const RefWin& w = r.wins[k];
  size_t n = r.wins.size();
  switch (draw(8)) {
    case 1: { Str x = delta.substr(w.start, w.end - w.start); *what += "window-lost "; COUNT("fault.window-lost"); return delta.substr(0, w.start) + delta.substr(w.end); }
    case 2: { Str x = delta.substr(w.start, w.end - w.start); *what += "window-duplicated "; COUNT("fault.window-duplicated"); return delta.substr(0, w.end) + x + delta.substr(w.end); }
    case 3: if (k + 1 < n) { const RefWin& v = r.wins[k + 1]; *what += "windows-swapped "; COUNT("fault.windows-swapped");
        return delta.substr(0, w.start) + delta.substr(v.start, v.end - v.start) + delta.substr(w.start, w.end - w.start) + delta.substr(v.end); }
      break;
    default: break;
  }
  COUNT("fault.restructured");
  size_t body = w.end - w.data_len - w.inst_len - w.addr_len;
  Str sec[3] = {delta.substr(body, w.data_len), delta.substr(body + w.data_len, w.inst_len), delta.substr(body + w.data_len + w.inst_len, w.addr_len)};
  u8 ind = w.ind; u64 seg_len = w.seg_len, seg_pos = w.seg_pos, tl = w.target_len, sum = w.sum; bool has_sum = w.has_sum; long dlen_lie = 0, len_lie[3] = {0, 0, 0};
  int edits = 1 + (draw(4) == 3);
  while (edits--) {
    int which = (int)draw(3); Str& s = sec[which]; static const char* nm[] = {"data", "inst", "addr"};
    switch (draw(14)) {
      case 0: case 1: { size_t m = 1 + draw(draw(2) ? 2 : 300); Str x = gen_bytes(m, draw_style(), draw_seed()); if (chance(1, 2)) s += x; else s.insert(draw(s.size() + 1), x); *what += Str("surplus-") + nm[which] + " "; break; }
      case 2: if (!s.empty()) { size_t m = 1 + draw(std::min<size_t>(s.size(), 3)); if (chance(1, 2)) s.resize(s.size() - m); else s.erase(draw(s.size() - m + 1), m); *what += Str("short-") + nm[which] + " "; } break;
      case 3: tl += draw(2) ? 1 + draw(3) : (u64)-1; if (tl > kMax31) tl = 0; *what += "target-length "; break;
      case 4: if (!s.empty()) { s[draw(s.size())] = (char)draw(256); *what += Str("changed-") + nm[which] + " "; } break;
      case 5: case 6: switch (draw(7)) {      // checksum damage
          case 0: sum ^= 1ull << draw(32); break; case 1: sum = 0; break; case 2: sum = draw(0x100000000ull); break;
          case 3: sum = (sum & 0xffff0000) | ((sum + 1) & 0xffff); break; case 4: sum = (sum + 0x10000) & 0xffffffff; break;
          case 5: sum = k ? r.wins[k - 1].sum : sum ^ 1; break; default: sum += 0x100000000ull << draw(2); break; }
        if (!has_sum) { has_sum = true; ind |= 4; }
        *what += "checksum "; break;
      case 7: if (has_sum) { has_sum = false; ind &= ~4; *what += "checksum-dropped "; } break;
      case 8: if (ind & 3) { seg_len += draw(2) ? 1 : (u64)-1; if (seg_len > kMax31) seg_len = 0; *what += "segment-length "; } break;
      case 9: if (ind & 3) { seg_pos += draw(2) ? 1 : (u64)-1; if (seg_pos > kMax31) seg_pos = 0; *what += "segment-position "; } break;
      case 10: { int src = (int)draw(4); ind = (u8)((ind & ~3) | src); *what += "source-flag "; break; }
      case 11: dlen_lie = (long)draw(5) - 2; *what += "delta-length "; break;
      case 12: len_lie[which] = (long)draw(5) - 2; *what += Str(nm[which]) + "-length "; break;
      default: { Str& d = sec[draw(3)]; if (&d != &s && !s.empty()) { d += s; s.clear(); *what += "sections-merged "; } break; }
    }
  }
  Str h; h.push_back((char)ind);
  if (ind & 3) { put_varint(&h, seg_len); put_varint(&h, seg_pos); }
  Str in; put_varint(&in, tl); in.push_back(0);
  for (int i = 0; i < 3; i++) { long long l = (long long)sec[i].size() + len_lie[i]; put_varint(&in, l < 0 ? 0 : (u64)l); }
  if (has_sum) put_varint(&in, sum);
  long long dl = (long long)(in.size() + sec[0].size() + sec[1].size() + sec[2].size()) + dlen_lie;
  put_varint(&h, dl < 0 ? 0 : (u64)dl);
  return delta.substr(0, w.start) + h + in + sec[0] + sec[1] + sec[2] + delta.substr(w.end);
}

// ---------------------------------------------------------------- vast dictionaries
#include <sys/mman.h>
#include <unistd.h>
bool vast_dictionary(u64 n, View* v) {
  static const char* end = 0; static bool tried = false;
  const size_t period = 255 * 4096; const size_t total = (size_t)((kVastMax + period - 1) / period) * period;
  if (!tried) {
    tried = true; NoLib nl;
    int fd = memfd_create("dictionary", 0);
    if (fd >= 0 && ftruncate(fd, (off_t)period) == 0) {
      char* w = (char*)mmap(0, period, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      char* m = (char*)mmap(0, total + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      bool ok = w != MAP_FAILED && m != MAP_FAILED;
      if (ok) { Rng g(77); for (size_t i = 0; i < period; i += 8) { u64 x = g.next(); memcpy(w + i, &x, 8); } munmap(w, period); }
      for (size_t at = 0; ok && at < total; at += period) ok = mmap(m + at, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
      if (ok) end = m + total;
    }
    if (fd >= 0) close(fd);
  }
  if (!end || n > kVastMax) return false;
  *v = View(end - n, (size_t)n);
  return true;
}

// ---------------------------------------------------------------- hostile
static u64 weird_number() {
  static const u64 w[] = {0, 1, 2, 5, 127, 128, 255, 256, 1535, 1536, 1537, 16383, 16384, 65535, 65536, (1u << 20), (1u << 21), (1u << 26) - 1, 1u << 26, (1u << 26) + 1,
    0x3fffffff, 0x40000000, 0x7ffffff0, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull};
  return w[draw(sizeof w / sizeof w[0])];
}
static void put_weird_varint(Str* s, u64 v) {
  if (draw(12) == 0) s->append(1 + draw(3), (char)0x80);
  put_varint(s, v);
  if (draw(40) == 0) s->append(12, (char)0xff);
}
Str build_hostile(const View& dict) {
  Str d("\xD6\xC3\xC4", 3);
  u8 version = chance(2, 3) ? 'S' : 0;
  if (draw(40) == 0) version = (u8)draw(256);
  d.push_back((char)version);
  u8 hi = chance(1, 4) ? 2 : 0; if (draw(40) == 0) hi = (u8)draw(256);
  d.push_back((char)hi);
  Table t = default_table();
  if (hi & 2) {
    int depth = 0;
    for (;;) {
      bool lie = draw(3) == 0;
      t = draw_table();
      u64 ns = t.near_size, ss = t.same_size;
      if (lie) { if (draw(2)) ns = weird_number(); if (draw(2)) ss = weird_number(); if (draw(3) == 0) { ns = draw(256); ss = 252 + draw(6) - std::min<u64>(ns, 252); } }
      put_weird_varint(&d, ns);
      put_weird_varint(&d, ss);
      d += Str("\xD6\xC3\xC4S", 4);
      if (draw(6) == 0 && depth < 3000) { d.push_back(2); depth++; if (draw(4) == 0) { Str rep = d.substr(d.size() > 7 ? d.size() - 7 : 0); size_t n = draw(3000); for (size_t i = 0; i < n; i++) d += rep; } continue; }
      d.push_back(0); break;
    }
    Str tb = t.bytes();
    if (draw(3) == 0) { size_t n = 1 + draw(4); while (n--) tb[draw(1536)] = (char)draw(256); }
    if (draw(8) == 0) tb.resize(draw(1600));
    // one ADD window holding the table
    Str ins; ins.push_back(1); put_varint(&ins, tb.size());
    Str in; put_varint(&in, tb.size()); in.push_back(0); put_varint(&in, tb.size()); put_varint(&in, ins.size()); put_varint(&in, 0);
    d.push_back(0); put_varint(&d, in.size() + tb.size() + ins.size()); d += in + tb + ins;
  }
  int nw = 1 + (int)draw(4);
  u64 done = 0;
  while (nw--) {
    // sections: mostly plausible instruction streams with wild operands
    Str data, inst, addr; bool il = version == 'S' && chance(1, 2);
    Str* D = il ? &inst : &data; Str* A = il ? &inst : &addr;
    int ni = (int)draw(12); u64 tl = 0;
    u64 seg = 0, pos = 0; int src = (int)draw(4); if (src == 3 && draw(6)) src = 1;
    if (src & 1) { seg = draw(3) ? dict.size() : draw(dict.size() + 3); pos = draw(3) ? 0 : draw(4); }
    else if (src == 2) { seg = draw(3) ? done : draw(done + 3); pos = draw(3) ? 0 : draw(4); }
    if (draw(12) == 0) seg = weird_number();
    if (draw(12) == 0) pos = weird_number();
    for (int i = 0; i < ni; i++) {
      u8 op = (u8)draw(256); inst.push_back((char)op);
      for (int h = 0; h < 2; h++) {
        int in = h ? t.inst2[op] : t.inst1[op]; u64 sz = h ? t.size2[op] : t.size1[op]; int md = h ? t.mode2[op] : t.mode1[op];
        if (in == I_NOOP) continue;
        if (sz == 0) { sz = draw(6) ? draw(40) : weird_number(); put_weird_varint(&inst, sz); }
        u64 here = seg + tl;
        tl += sz;
        if (in == I_ADD) { u64 n = sz; if (n > 3000 || draw(15) == 0) n = draw(300); Rng g(draw_seed()); while (n--) D->push_back((char)g.next()); }
        else if (in == I_RUN) { if (draw(20)) D->push_back((char)draw(256)); }
        else if (md < 2 + t.near_size) { u64 a = draw(5) ? (md == 1 ? draw(here + 2) : draw(here + 2)) : weird_number(); put_weird_varint(A, a); }
        else A->push_back((char)draw(256));
      }
    }
    if (draw(6) == 0) inst.append(draw(6), (char)draw(256));
    if (draw(8) == 0) tl = weird_number();
    if (draw(8) == 0 && tl) tl -= 1;
    if (draw(8) == 0) tl += draw(3);
    u8 ind = (u8)(src & 3); if (version == 'S' && chance(1, 3)) ind |= 4; if (draw(40) == 0) ind = (u8)draw(256);
    d.push_back((char)ind);
    if (ind & 3) { put_weird_varint(&d, seg); put_weird_varint(&d, pos); }
    Str in; put_weird_varint(&in, tl); in.push_back(draw(40) ? 0 : (char)draw(256));
    auto len = [&](u64 v) { u64 x = draw(12) ? v : (draw(2) ? weird_number() : v + draw(5) - 2); put_weird_varint(&in, x); };
    len(data.size()); len(inst.size()); len(addr.size());
    if (ind & 4) put_weird_varint(&in, draw(3) ? (u32)draw(0xffffffffull) : weird_number());
    u64 dl = in.size() + data.size() + inst.size() + addr.size();
    if (draw(10) == 0) dl = draw(2) ? weird_number() : dl + draw(5) - 2;
    put_weird_varint(&d, dl);
    d += in + data + inst + addr;
    done += tl < 100000 ? tl : 0;
  }
  if (draw(10) == 0) d.resize(draw(d.size() + 1));
  return d;
}

// ---------------------------------------------------------------- JSON
namespace {
struct J {
  const Str& s; size_t p;
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
};
int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
}
bool json_parse(const Str& text, std::vector<JsonOp>* ops, Str* err) {
  J j = {text, 0};
  std::vector<JsonOp> el;          // elements; numbers as is_copy with off
  j.ws();
  if (j.p >= text.size() || text[j.p] != '[') { *err = "no opening bracket"; return false; }
  j.p++; j.ws();
  if (j.p < text.size() && text[j.p] == ']') { j.p++; }
  else for (;;) {
    j.ws();
    if (j.p >= text.size()) { *err = "ends inside array"; return false; }
    JsonOp o; o.off = o.len = 0;
    if (text[j.p] == '"') {
      o.is_copy = false; j.p++;
      for (;;) {
        if (j.p >= text.size()) { *err = "ends inside string"; return false; }
        u8 c = (u8)text[j.p++];
        if (c == '"') break;
        if (c < 0x20) { *err = "raw control character in string"; return false; }
        if (c >= 0x80) { *err = "non-ASCII byte"; return false; }
        if (c == '\\') {
          if (j.p >= text.size()) { *err = "ends in escape"; return false; }
          char x = text[j.p++];
          switch (x) {
            case '"': case '\\': case '/': o.data.push_back(x); break;
            case 'b': o.data.push_back('\b'); break; case 'f': o.data.push_back('\f'); break; case 'n': o.data.push_back('\n'); break;
            case 'r': o.data.push_back('\r'); break; case 't': o.data.push_back('\t'); break;
            case 'u': {
              if (j.p + 4 > text.size()) { *err = "short \\u"; return false; }
              int v = 0; for (int k = 0; k < 4; k++) { int h = hexv(text[j.p + k]); if (h < 0) { *err = "bad \\u"; return false; } v = v * 16 + h; }
              j.p += 4; if (v > 127) { *err = "\\u beyond ASCII"; return false; }
              o.data.push_back((char)v); break;
            }
            default: *err = "bad escape"; return false;
          }
        } else o.data.push_back((char)c);
      }
    } else if (text[j.p] >= '0' && text[j.p] <= '9') {
      o.is_copy = true; size_t st = j.p; long long v = 0;
      while (j.p < text.size() && text[j.p] >= '0' && text[j.p] <= '9') { v = v * 10 + (text[j.p] - '0'); if (v > (1ll << 50)) { *err = "number too large"; return false; } j.p++; }
      if (text[st] == '0' && j.p - st > 1) { *err = "leading zero"; return false; }
      o.off = v;
    } else { *err = "unexpected character in array"; return false; }
    el.push_back(o);
    j.ws();
    if (j.p >= text.size()) { *err = "array not closed"; return false; }
    if (text[j.p] == ',') { j.p++; continue; }
    if (text[j.p] == ']') { j.p++; break; }
    *err = "expected comma"; return false;
  }
  j.ws();
  if (j.p != text.size()) { *err = "text after the array"; return false; }
  for (size_t i = 0; i < el.size(); i++) {
    if (!el[i].is_copy) { ops->push_back(el[i]); continue; }
    if (i + 1 >= el.size() || !el[i + 1].is_copy) { *err = "offset without length"; return false; }
    JsonOp o = el[i]; o.len = el[i + 1].off; ops->push_back(o); i++;
  }
  return true;
}
