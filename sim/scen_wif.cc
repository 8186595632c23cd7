// C20: an encoder with a writer supplied by the caller.  The writer records how it is driven, may pass
// everything on to one of the library's own writers, and may refuse or fail at any call.
#include "api.h"
#include "codetable.h"
#include "google/codetablewriter_interface.h"
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include <algorithm>
#include <memory>

using open_vcdiff::CodeTableWriterInterface;
using open_vcdiff::VCDiffFormatExtensionFlags;
namespace {
struct WriterFault {};                  // thrown by the writer
struct WInst { char op; u64 off; u64 size; Str data; };
struct Log {                            // survives the writer
  int alive;                            // writers created minus destroyed
  bool inited, header; size_t init_size; int inits, headers, outputs, finishes, sums, insts_total;
  int verify_dict, verify_chunk; Str dict_seen, chunk_seen; int flags_seen; u64 sum; bool sum_pending;
  std::vector<WInst> cur, done; Str err; OutputStringInterface* want_out;
  // fault plan
  bool refuse_init, refuse_dict, refuse_chunk; long long throw_in; bool threw;
  Log() : alive(0) { clear_counts(); refuse_init = refuse_dict = refuse_chunk = false; throw_in = -1; threw = false; inited = header = false; init_size = 0; want_out = 0; flags_seen = -1; sum = 0; sum_pending = false; }
  void clear_counts() { inits = headers = outputs = finishes = sums = insts_total = verify_dict = verify_chunk = 0; cur.clear(); done.clear(); }
  void bad(const char* s) { if (err.empty()) err = s; }
};
struct RecWriter : public CodeTableWriterInterface {
  Log* L; CodeTableWriterInterface* inner;
  RecWriter(Log* l, CodeTableWriterInterface* in) : L(l), inner(in) { L->alive++; }
  ~RecWriter() { L->alive--; delete inner; }
  void maybe_throw() { if (L->throw_in >= 0 && L->throw_in-- == 0) { NoLib nl; L->threw = true; COUNT("fault.writer-throws"); throw WriterFault(); } }
  bool Init(size_t n) {
    { NoLib nl; L->inits++; L->init_size = n; L->inited = true; L->header = false; L->cur.clear(); L->done.clear(); L->sum_pending = false; }
    maybe_throw();
    if (L->refuse_init) { NoLib nl; COUNT("fault.writer-refuses-init"); return false; }
    return inner ? inner->Init(n) : true;
  }
  void WriteHeader(OutputStringInterface* out, VCDiffFormatExtensionFlags f) {
    { NoLib nl; L->headers++; L->header = true; L->flags_seen = (int)f; if (!L->inited) L->bad("header before Init"); if (out != L->want_out) L->bad("header written to another output"); }
    maybe_throw();
    if (inner) inner->WriteHeader(out, f); else out->append("<H>", 3);
  }
  void note(const WInst& i) { L->insts_total++; L->cur.push_back(i); if (!L->inited || !L->header) L->bad("instruction before Init and header"); }
  void Add(const char* p, size_t n) { { NoLib nl; WInst i; i.op = 'A'; i.off = 0; i.size = n; i.data.assign(p, n); note(i); } maybe_throw(); if (inner) inner->Add(p, n); }
  void Copy(int32_t o, size_t n) { { NoLib nl; WInst i; i.op = 'C'; i.off = (u64)(int64_t)o; i.size = n; note(i); } maybe_throw(); if (inner) inner->Copy(o, n); }
  void Run(size_t n, unsigned char b) { { NoLib nl; WInst i; i.op = 'R'; i.off = b; i.size = n; note(i); } maybe_throw(); if (inner) inner->Run(n, b); }
  void AddChecksum(open_vcdiff::VCDChecksum c) { { NoLib nl; L->sums++; L->sum = (u64)c; L->sum_pending = true; } maybe_throw(); if (inner) inner->AddChecksum(c); }
  void Output(OutputStringInterface* out) {
    { NoLib nl; L->outputs++; L->done = L->cur; L->cur.clear(); if (out != L->want_out) L->bad("window written to another output"); }
    maybe_throw();
    if (inner) inner->Output(out); else out->append("<W>", 3);
  }
  void FinishEncoding(OutputStringInterface* out) { { NoLib nl; L->finishes++; if (out != L->want_out) L->bad("end written to another output"); } maybe_throw(); if (inner) inner->FinishEncoding(out); else out->append("<E>", 3); }
  bool VerifyDictionary(const char* p, size_t n) const {
    { NoLib nl; L->verify_dict++; L->dict_seen.assign(p, n); }
    if (L->refuse_dict) { NoLib nl; COUNT("fault.writer-refuses-dictionary"); return false; }
    return inner ? inner->VerifyDictionary(p, n) : true;
  }
  bool VerifyChunk(const char* p, size_t n) const {
    { NoLib nl; L->verify_chunk++; L->chunk_seen.assign(p, n); }
    if (L->refuse_chunk) { NoLib nl; COUNT("fault.writer-refuses-chunk"); return false; }
    return inner ? inner->VerifyChunk(p, n) : true;
  }
};
}  // namespace

// What a call into the library ended with: 0 false, 1 true, 2 the writer's own exception.
template <class F> static int call(F f) {
  budget(kStepBudget); int d = E.depth; int r;
  try { Lib l; r = f() ? 1 : 0; }
  catch (WriterFault&) { r = 2; }
  catch (std::exception& e) { E.depth = d; violate("exception", "library threw %s", e.what()); }
  E.depth = d; E.step_limit = ~0ull; ev(r); return r;
}

void c20() {
  E.fill = (int)draw(256);
  int kind = (int)draw(4);              // 0 records only, 1 passes on to the standard writer, 2 to one with a custom table, 3 to the JSON writer
  bool ascii = kind == 3, tm = chance(1, 2); int flags = ascii ? 4 : draw_flags();
  size_t maxd = chance(1, 6) ? 40000 : 2000;
  Str dict = draw_dict(maxd, ascii);
  Table t = kind == 2 ? draw_table() : default_table();
  open_vcdiff::VCDiffCodeTableData td;
  for (int i = 0; i < 256; i++) { td.inst1[i] = t.inst1[i]; td.inst2[i] = t.inst2[i]; td.size1[i] = t.size1[i]; td.size2[i] = t.size2[i]; td.mode1[i] = t.mode1[i]; td.mode2[i] = t.mode2[i]; }
  static const char* const names[] = {"recording", "standard", "custom table", "JSON"};
  say("writer: %s; %s, dictionary %zu bytes", names[kind], flags_name(flags, tm).c_str(), dict.size());
  HDict h(dict); Log log;
  std::unique_ptr<Log> unused;
  VCDiffStreamingEncoder* e = 0;
  RecWriter* w = 0;
  {
    Lib l;
    CodeTableWriterInterface* in = 0;
    if (kind == 1) in = new open_vcdiff::VCDiffCodeTableWriter((flags & 1) != 0);
    if (kind == 2) in = new open_vcdiff::VCDiffCodeTableWriter((flags & 1) != 0, (u8)t.near_size, (u8)t.same_size, td, (u8)(t.near_size + t.same_size + 1));
    if (kind == 3) in = new open_vcdiff::JSONCodeTableWriter;
    w = new RecWriter(&log, in);
  }
  libv([&] { e = new VCDiffStreamingEncoder(h.h, (VCDiffFormatExtensionFlags)flags, tm, w); });
  struct Del { VCDiffStreamingEncoder*& e; ~Del() { if (e) { Lib l; delete e; e = 0; } } } del = {e};
  int sessions = 1 + (int)draw(3);
  while (sessions--) {
    Sink out; log.want_out = &out; log.clear_counts(); log.threw = false;
    bool faulty = chance(1, 3);
    int where = faulty ? (int)draw(4) : -1;      // 0 init, 1 dictionary, 2 chunks, 3 an exception somewhere
    log.refuse_init = where == 0; log.refuse_dict = where == 1; log.refuse_chunk = false;
    log.throw_in = where == 3 ? (long long)draw(12) : -1;
    Str dictcopy = dict;
    int r = call([&] { return e->StartEncodingToInterface(&out); });
    CHECK_PROP(log.err.empty(), "order", "StartEncoding: %s", log.err.c_str());
    if (r == 2) { say("session: the writer threw in StartEncoding"); log.throw_in = -1; continue; }
    CHECK_PROP(!log.threw, "exception-lost", "StartEncoding swallowed an exception of the writer");
    CHECK_PROP(log.inits >= 1 && log.init_size == dict.size(), "init", "the writer was initialised with %zu instead of %zu", log.init_size, dict.size());
    if (where == 0 || where == 1) {
      say("session: writer refuses the %s", where ? "dictionary" : "initialisation");
      CHECK_PROP(r == 0 && out.s.empty() && !log.headers && !log.insts_total, "refusal-ignored", "StartEncoding %s although the writer refused", r ? "succeeded" : "produced output");
      log.refuse_init = log.refuse_dict = false;
      if (chance(1, 2)) {                 // no session is open now, whatever became of earlier ones
        Str x = draw_target(dict, 200, ascii); Buf b(x.data(), x.size()); int vc = log.verify_chunk; (void)vc;
        r = call([&] { return e->EncodeChunkToInterface(b.p, b.n, &out); });
        CHECK_PROP(r == 0 && out.s.empty() && !log.insts_total && !log.outputs && !log.sums, "refusal-ignored", "EncodeChunk %s after a refused StartEncoding", r ? "succeeded" : "produced output");
        r = call([&] { return e->FinishEncodingToInterface(&out); });
        CHECK_PROP(r == 0 && out.s.empty() && !log.finishes, "refusal-ignored", "FinishEncoding %s after a refused StartEncoding", r ? "succeeded" : "produced output");
      }
      g_nontrivial = true; continue;
    }
    CHECK_PROP(r == 1, "start-failed", "StartEncoding failed");
    CHECK_PROP(log.headers == 1 && log.flags_seen == flags, "header", "header written %d times, format flags %d instead of %d", log.headers, log.flags_seen, flags);
    CHECK_PROP(log.verify_dict >= 1 && log.dict_seen == dictcopy, "verify", "the dictionary was not shown to the writer as it is (%zu bytes instead of %zu)", log.dict_seen.size(), dict.size());
    Str header = out.s; bool aborted = false;
    int nc = (int)draw(5) + (chance(1, 10) ? 20 : 0), chunks = 0;
    bool many = chance(1, 1500); Str pool; Rng pg(0);
    if (many) { nc = 1100 + (int)draw(1500); pool = draw_target(dict, 300, ascii); if (pool.empty()) pool = "p"; pg = Rng(draw_seed()); COUNT("session.thousands-of-chunks"); }
    std::vector<Str> parts;
    for (int c = 0; c < nc && !aborted; c++) {
      Str tg = many ? pool.substr(pg.below(pool.size()), pg.below(40)) : draw_target(dict, chance(1, 8) ? 30000 : 1500, ascii);
      log.refuse_chunk = where == 2 && (many ? pg.below(4) == 0 : chance(1, 2));
      Str before = out.s; log.cur.clear(); log.done.clear(); log.outputs = log.sums = log.verify_chunk = log.insts_total = 0;
      Buf b(tg.data(), tg.size());
      r = call([&] { return e->EncodeChunkToInterface(b.p, b.n, &out); });
      CHECK_PROP(log.err.empty(), "order", "EncodeChunk: %s", log.err.c_str());
      if (r == 2) { say("the writer threw in chunk %d", c); aborted = true; break; }
      CHECK_PROP(!log.threw, "exception-lost", "EncodeChunk swallowed an exception of the writer");
      bool shown = log.verify_chunk > 0 || !tg.empty();   // an empty chunk need not be shown
      if (log.refuse_chunk && shown) {
        CHECK_PROP(r == 0 && out.s == before && !log.insts_total && !log.outputs && !log.sums, "refusal-ignored", "EncodeChunk %s although the writer refused the chunk", r ? "succeeded" : "drove the writer");
        continue;
      }
      CHECK_PROP(r == 1, "encode-failed", "EncodeChunk of %zu bytes failed", tg.size());
      if (shown) CHECK_PROP(log.verify_chunk >= 1 && log.chunk_seen == tg, "verify", "the chunk was not shown to the writer as it is");
      CHECK_PROP(log.outputs == (tg.empty() ? 0 : 1), "outputs", "%d windows requested for a chunk of %zu bytes", log.outputs, tg.size());
      CHECK_PROP(log.cur.empty(), "order", "%zu instructions after the window was requested", log.cur.size());
      Str got; u64 lits = 0;
      for (size_t i = 0; i < log.done.size(); i++) {
        const WInst& x = log.done[i];
        CHECK_PROP(x.size > 0, "instruction", "instruction %zu has size 0", i);
        CHECK_PROP(x.size <= tg.size() - got.size(), "instruction", "instruction %zu runs past the end of the chunk", i);
        if (x.op == 'A') { got += x.data; lits += x.size; }
        else if (x.op == 'R') got.append(x.size, (char)x.off);
        else {
          u64 here = dict.size() + got.size();
          CHECK_PROP(x.off < here, "instruction", "copy from %llu at position %llu", (unsigned long long)x.off, (unsigned long long)here);
          if (x.off < dict.size()) CHECK_PROP(x.off + x.size <= dict.size(), "instruction", "copy crosses from the dictionary into the target");
          else CHECK_PROP(tm, "instruction", "copy from target data without target matching");
          for (u64 q = 0; q < x.size; q++) { u64 p = x.off + q; got.push_back(p < dict.size() ? dict[p] : got[p - dict.size()]); }
        }
      }
      CHECK_PROP(got == tg, "wrong-instructions", "the instructions of chunk %d give %zu bytes instead of %zu, or other contents", c, got.size(), tg.size());
      if (!tg.empty()) {
        CHECK_PROP(log.sums == ((flags & 2) ? 1 : 0), "checksum", "%d checksums given for a chunk", log.sums);
        if (flags & 2) CHECK_PROP(log.sum == ref_adler(tg), "checksum", "wrong checksum %llx", (unsigned long long)log.sum);
        chunks++; g_nontrivial = true;
      }
      if (kind == 0) CHECK_PROP(out.s == before + (tg.empty() ? "" : "<W>"), "output", "the output is not what the writer wrote");
      if (kind == 2 && !tg.empty()) {
        Ref rr = ref_decode(dict, header + out.s.substr(before.size()), RefOpts(), &t);
        CHECK_PROP(rr.v == Ref::ACCEPT && rr.out == tg, "wrong-window", "window with custom table: %s", rr.why.c_str());
      }
      parts.push_back(tg);
      if (!many) say("chunk of %zu bytes: %zu instructions, %llu literal bytes", tg.size(), log.done.size(), (unsigned long long)lits);
    }
    if (aborted || chance(1, 6)) { COUNT("session.abandoned"); log.throw_in = -1; continue; }
    Str before = out.s;
    r = call([&] { return e->FinishEncodingToInterface(&out); });
    if (r == 2) { say("the writer threw in FinishEncoding"); log.throw_in = -1; continue; }
    CHECK_PROP(!log.threw, "exception-lost", "FinishEncoding swallowed an exception of the writer");
    CHECK_PROP(r == 1 && log.finishes == 1 && log.err.empty(), "finish", "FinishEncoding: result %d, writer finished %d times %s", r, log.finishes, log.err.c_str());
    if (kind == 0) CHECK_PROP(out.s == before + "<E>", "output", "the output is not what the writer wrote");
    if (kind == 1 || kind == 3) {         // passing everything on changes nothing
      Enc f(h.h, flags, tm); Str fo; bool ok = f.start(&fo);
      for (size_t i = 0; i < parts.size(); i++) ok = f.chunk(parts[i].data(), parts[i].size(), &fo) && ok;
      ok = f.finish(&fo) && ok;
      CHECK_PROP(ok && fo == out.s, "differs", "with a writer that passes everything on the output differs from the encoder's own (%zu instead of %zu bytes)", out.s.size(), fo.size());
    }
    evs(out.s); COUNT("session.completed"); log.throw_in = -1;
  }
  CHECK_PROP(log.alive == 1, "ownership", "the writer was destroyed before its encoder");
  { Lib l; delete e; e = 0; }
  CHECK_PROP(log.alive == 0, "ownership", "the writer was %s with the encoder", log.alive > 0 ? "not destroyed" : "destroyed more than once");
}
