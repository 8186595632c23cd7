#include "gen.h"
#include <algorithm>

int draw_style() { return (int)draw(10); }
Str gen_bytes(size_t n, int style, u64 seed) {
  Str s; s.resize(n);
  Rng g(mix(seed, style + 77));
  switch (style) {
    case 0: { static const char* w[] = {"the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog. ", "\n", "and ", "<p>", "</p>", "0x00ff ", "lorem ", "ipsum ", "dolor "};
      size_t i = 0; while (i < n) { const char* x = w[g.below(16)]; while (*x && i < n) s[i++] = *x++; } break; }
    case 1: for (size_t i = 0; i < n; i++) s[i] = (char)(g.next() >> 11); break;
    case 2: for (size_t i = 0; i < n; i++) s[i] = (char)('a' + g.below(2)); break;
    case 3: { u64 b = seed & 0x3ff; memset(&s[0], (int)(b < 256 ? b : b < 640 ? 0xff : b < 768 ? 0 : b < 896 ? 'a' : b & 0xff), n); break; }
    case 4: { size_t p = 1 + g.below(70); for (size_t i = 0; i < n; i++) s[i] = i < p ? (char)g.next() : s[i - p]; break; }
    case 5: { size_t i = 0; while (i < n) { char c = (char)g.next(); size_t r = 1 + g.below(40); while (r-- && i < n) s[i++] = c; } break; }
    case 6: for (size_t i = 0; i < n; i++) s[i] = (char)(g.below(50) ? 0 : g.next()); break;
    case 7: for (size_t i = 0; i < n; i++) s[i] = (char)(0xF0 + g.below(16)); break;         // large values: checksum sums
    case 8: { // blocks of 16 that repeat in different order: hash collisions of whole blocks
      char b[4][16]; for (int k = 0; k < 4; k++) for (int i = 0; i < 16; i++) b[k][i] = (char)g.next();
      size_t i = 0; while (i < n) { int k = (int)g.below(4); for (int q = 0; q < 16 && i < n; q++) s[i++] = b[k][q]; } break; }
    default: for (size_t i = 0; i < n; i++) s[i] = (char)((i * 31 + (i >> 8)) & 0xff); break;
  }
  return s;
}
static void to_ascii(Str* s) {
  for (size_t i = 0; i < s->size(); i++) (*s)[i] &= 0x7f;
}
Str draw_dict(size_t max, bool ascii) {
  size_t n = draw_size(max);
  Str s;
  int parts = 1 + (int)draw(3);
  for (int k = 0; k < parts; k++) { int st = draw_style(); size_t m = k == parts - 1 ? n - s.size() : draw(n - s.size() + 1); s += gen_bytes(m, st, draw_seed()); }
  if (ascii) to_ascii(&s);
  return s;
}
static void add_piece(Str* t, const Str& dict, size_t room, Rng& g, int bias) {
  int k = (int)g.below(10);
  if (bias == 1) k = (int)g.below(6);
  size_t n;
  switch (g.below(7)) {
    case 0: n = 1 + g.below(4); break;
    case 1: n = 14 + g.below(8); break;
    case 2: n = 28 + g.below(10); break;
    case 3: n = g.below(100); break;
    case 4: n = 120 + g.below(300); break;
    case 5: if (g.below(3) == 0) { n = src_const(g.next()) + g.below(3) - 1; break; } else { static const int es[] = {16, 17, 18, 31, 32, 33, 34, 127, 128, 255, 256, 257, 271, 272, 273, 16383, 16384}; n = es[g.below(17)]; break; }
    default: n = 1 + g.below(18); break;
  }
  if (n > room) n = room;
  if (!n) return;
  if (k < 4 && !dict.empty()) {           // dictionary data, possibly repeated place
    size_t off;
    switch (g.below(4)) { case 0: off = 0; break; case 1: off = dict.size() > n ? dict.size() - n : 0; break; case 2: off = (g.below(dict.size()) & ~(size_t)15); break; default: off = g.below(dict.size()); }
    t->append(dict, off, n);
  } else if (k < 6 && !t->empty()) {       // earlier target data
    size_t off = g.below(3) ? g.below(t->size()) : (t->size() > n ? t->size() - n : 0);
    size_t m = n; while (m--) { t->push_back((*t)[off]); off++; }
  } else if (k < 7) t->append(n, (char)g.next());
  else t->append(gen_bytes(n, (int)g.below(10), g.next()));
  if (g.below(8) == 0 && !t->empty()) (*t)[t->size() - 1 - g.below(std::min<size_t>(n, t->size()))] ^= (char)(1 << g.below(8));
}
Str draw_target(const Str& dict, size_t max, bool ascii) {
  Str t;
  switch (draw(8)) {
    case 0: t = gen_bytes(draw_size(max), draw_style(), draw_seed()); break;
    case 1: { // one stretch of the dictionary
      size_t off = draw(dict.size() + 1), n = draw(dict.size() - off + 1); t = dict.substr(off, std::min(n, max)); break; }
    case 2: { t = dict.substr(0, max); int e = (int)draw(6); while (e-- && !t.empty()) { size_t p = draw(t.size());
        switch (draw(3)) { case 0: t[p] ^= (char)(1 + draw(255)); break; case 1: t.erase(p, 1 + draw(20)); break; default: t.insert(p, gen_bytes(1 + draw(40), draw_style(), draw_seed())); } }
      break; }
    case 3: case 4: { int n = (int)draw(14); while (n--) { Rng g(draw_seed()); add_piece(&t, dict, max - t.size(), g, 0); } break; }
    case 5: { size_t want = draw_size(max); Rng g(draw_seed()); int guard = 20000; while (t.size() < want && guard--) add_piece(&t, dict, want - t.size(), g, 1); break; }
    default: { size_t want = draw_size(max); Rng g(draw_seed()); int guard = 20000; while (t.size() < want && guard--) add_piece(&t, dict, want - t.size(), g, 0); break; }
  }
  if (t.size() > max) t.resize(max);
  if (ascii) to_ascii(&t);
  return t;
}
std::vector<size_t> draw_cuts(size_t n, const std::vector<size_t>* marks, bool allow_empty, size_t max_pieces) {
  std::vector<size_t> at;                   // cut positions
  int mode = (int)draw(marks && !marks->empty() ? 9 : 6);
  switch (mode) {
    case 0: break;
    case 1: { int k = 1 + (int)draw(4); while (k--) at.push_back(draw(n + 1)); break; }
    case 2: { size_t k = draw(3) == 2 ? 1 + draw_size(n) : 1 + draw(40); for (size_t p = k; p < n; p += k) at.push_back(p); break; }
    case 3: { Rng g(draw_seed()); size_t m = 1 + draw(n > 4 ? n / 2 : 3); size_t p = 0; while (p < n) { p += 1 + g.below(m); if (p < n) at.push_back(p); } break; }
    case 4: for (size_t p = 1; p < n; p++) at.push_back(p); break;
    case 5: at.push_back(draw(3) == 2 ? draw_size(n) : draw(n + 1)); break;
    case 6: { size_t p = pick(*marks); long d = (long)draw(5) - 2; long q = (long)p + d; if (q >= 0 && (size_t)q <= n) at.push_back((size_t)q); break; }
    case 7: { int k = 1 + (int)draw(6); while (k--) { size_t p = pick(*marks); long q = (long)p + (long)draw(3) - 1; if (q >= 0 && (size_t)q <= n) at.push_back((size_t)q); } break; }
    default: for (size_t i = 0; i < marks->size(); i++) if ((*marks)[i] < n) at.push_back((*marks)[i]); break;
  }
  if (at.size() > max_pieces) { // keep the beginning fine grained
    at.resize(max_pieces);
  }
  if (allow_empty && chance(1, 4)) {        // empty pieces, also first and last
    int k = 1 + (int)draw(3);
    while (k--) { size_t p = at.empty() || draw(3) == 0 ? (draw(2) ? n : 0) : at[draw(at.size())]; at.push_back(p); }
    COUNT("sched.empty-piece");
  }
  std::sort(at.begin(), at.end());
  if (!allow_empty) at.erase(std::unique(at.begin(), at.end()), at.end());
  std::vector<size_t> r; size_t last = 0;
  for (size_t i = 0; i < at.size(); i++) { if (at[i] > n) continue; if (!allow_empty && (at[i] == 0 || at[i] == n)) continue; r.push_back(at[i] - last); last = at[i]; }
  r.push_back(n - last);
  if (r.size() > 1) COUNT("sched.split");
  return r;
}
Str damage(const Str& s0, const std::vector<size_t>* marks, Str* what) {
  Str s = s0;
  int k = 1 + (int)(draw(3) == 2 ? draw(4) : 0);
  while (k--) {
    size_t p;
    if (marks && !marks->empty() && chance(1, 2)) { p = pick(*marks) + draw(3); if (p) p--; } else p = draw(s.size() + 1);
    if (p > s.size()) p = s.size();
    switch (draw(10)) {
      case 0: s.resize(p); *what += "truncate "; COUNT("fault.truncate"); break;
      case 1: if (p < s.size()) { s[p] ^= (char)(1 << draw(8)); *what += "bitflip "; COUNT("fault.bitflip"); } break;
      case 2: if (p < s.size()) { s[p] = (char)draw(256); *what += "byte "; COUNT("fault.byte"); } break;
      case 3: { size_t n = 1 + draw(4); s.erase(p, n); *what += "lose "; COUNT("fault.lose"); break; }
      case 4: { size_t n = 1 + draw(4); s.insert(p, gen_bytes(n, draw_style(), draw_seed())); *what += "insert "; COUNT("fault.insert"); break; }
      case 5: { size_t n = 1 + draw(20); Str d = s.substr(p, n); s.insert(p, d); *what += "duplicate "; COUNT("fault.duplicate"); break; }
      case 6: { size_t q = draw(s.size() + 1); if (q < p) std::swap(p, q); size_t m = p + draw(q - p + 1); std::rotate(s.begin() + p, s.begin() + m, s.begin() + q); *what += "reorder "; COUNT("fault.reorder"); break; }
      case 7: if (p < s.size()) { s[p] = (char)(s[p] + (draw(2) ? 1 : -1)); *what += "plusminus "; COUNT("fault.plusminus"); } break;
      case 8: { s.append(gen_bytes(1 + draw(8), draw_style(), draw_seed())); *what += "trailing "; COUNT("fault.trailing"); break; }
      default: { size_t n = draw(30); for (size_t i = p; i < p + n && i < s.size(); i++) s[i] = 0; *what += "zeroed "; COUNT("fault.zeroed"); break; }
    }
  }
  return s;
}
