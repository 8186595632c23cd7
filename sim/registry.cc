#include "api.h"
void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08(); void c09(); void c11();
void c14(); void c15(); void c16(); void c17(); void c18(); void c20();
Scenario kScenarios[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09},
  {"C11", c11}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C20", c20}, {0, 0}};
// Tables that the library builds on first use and keeps are built here, so that every run starts from the same state.
void warm_up() {
  default_table();
  for (int f = 0; f < 8; f++) {
    Str d(100, 'a'), t(200, 'a'), o; HashedDictionary h(d.data(), d.size()); h.Init();
    VCDiffStreamingEncoder e(&h, (open_vcdiff::VCDiffFormatExtensionFlags)f, f & 1); e.StartEncoding(&o); e.EncodeChunk(t.data(), t.size(), &o); e.FinishEncoding(&o);
    if (f < 4) { Str r; VCDiffDecoder dec; dec.Decode(d.data(), d.size(), o, &r); }
  }
}
