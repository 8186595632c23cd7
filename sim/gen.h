#ifndef GEN_H_
#define GEN_H_
#include "sim.h"
Str gen_bytes(size_t n, int style, u64 seed);
int draw_style();
// style of content: 0 any; 1 ASCII only
Str draw_dict(size_t max, bool ascii = false);
Str draw_target(const Str& dict, size_t max, bool ascii = false);
// Cut [0,n) into consecutive pieces; returns piece lengths (zero-length pieces possible). marks: interesting positions.
std::vector<size_t> draw_cuts(size_t n, const std::vector<size_t>* marks = 0, bool allow_empty = true, size_t max_pieces = 20000);
// Damage in transit; names the faults it injected. Returns the damaged bytes.
Str damage(const Str& s, const std::vector<size_t>* marks, Str* what);
// exact-size heap copy, so that any access outside it is an error under ASan
struct Buf {
  char* p; size_t n;
  Buf(const char* s, size_t len) : n(len) { p = (char*)malloc(len); if (len) memcpy(p, s, len); }
  ~Buf() { memset(p, 0xA5, n); free(p); }
 private: Buf(const Buf&); void operator=(const Buf&);
};
#endif
