// Workloads and oracles. Every execution of the library goes through the
// instrumented streams and the allocation monitor of mon.hpp; every verdict
// comes from comparing what they observed with the reference model, or with
// another execution (metamorphic properties).
#include "mon.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <fcntl.h>
#include <functional>
#include <condition_variable>
#include <map>
#include <mutex>
#include <new>
#include <sys/mman.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

// ------------------------------------------------------------ allocation monitor
namespace vf {
thread_local AllocState alloc_state;
std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
static void* take(std::size_t n) {
  AllocState& a = alloc_state;
  if (a.watching && !a.paused) {
    AllocStats& s = *a.watching;
    if (a.fail_at >= 0 && std::int64_t(s.count) == a.fail_at) { ++s.count; throw std::bad_alloc(); }
    ++s.count; s.bytes += n; ++s.live;
    if (n > s.max_single) s.max_single = n;
    if (n > (std::size_t(1) << 31)) throw std::bad_alloc();   // never let a broken ceiling take the machine down
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++a.net;
  return p;
}
static void give(void* p) {
  if (!p) return;
  AllocState& a = alloc_state;
  --a.net;
  if (a.watching && !a.paused) { ++a.watching->frees; --a.watching->live; }
  std::free(p);
}
}  // namespace vf
#ifndef VF_NO_NEW      // memcheck brings its own
void* operator new(std::size_t n) { return vf::take(n); }
void* operator new[](std::size_t n) { return vf::take(n); }
void operator delete(void* p) noexcept { vf::give(p); }
void operator delete[](void* p) noexcept { vf::give(p); }
void operator delete(void* p, std::size_t) noexcept { vf::give(p); }
void operator delete[](void* p, std::size_t) noexcept { vf::give(p); }
#endif

namespace vf {
using model::Rec; using model::Field; using model::Rng; using model::Decoded; using model::Encoded; using model::i128;
using model::u64;

// ------------------------------------------------------------ bookkeeping
struct Shm { char schema[64], work[32], what[400]; u64 idx; };
static Shm* shm;
struct Stats {
  u64 evals = 0, skipped = 0;
  std::unordered_set<u64> distinct, classes;
  std::map<std::string, u64> n;
  std::vector<std::string> samples;
};
static Stats st;
struct Opt { std::string prop, schema, work; u64 seed = 1; std::int64_t only = -1; bool thorough = false, verbose = false; int shard = 0, shards = 1; std::string scratch = "/tmp"; double scale = 1; };
static Opt opt;
static int violations = 0;
static std::string jesc(const std::string& s) {
  std::string o;
  for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", (unsigned char)ch); o += b; } else o += ch; }
  return o;
}
struct Ctx { const Entry* e; std::shared_ptr<Rec> rec; std::string feat; std::string work; u64 idx = 0; };
static Ctx* cur;
static void fail(const std::string& kind, const std::string& msg, const std::string& input) {
  ++violations;
  std::printf("{\"violation\":\"%s\",\"kind\":\"%s\",\"schema\":\"%s\",\"work\":\"%s\",\"case\":%llu,\"msg\":\"%s\",\"input\":\"%s\",\"model\":\"%s\"}\n", opt.prop.c_str(), jesc(kind).c_str(), cur->e->name,
              cur->work.c_str(), (unsigned long long)cur->idx, jesc(msg).c_str(), jesc(input.substr(0, 3000)).c_str(), jesc(cur->e->text).c_str());
  std::fflush(stdout);
  if (violations >= 12) std::_Exit(1);
}
static void what(const std::string& s) { std::snprintf(shm->what, sizeof shm->what, "%s", s.c_str()); }
static void count(const std::string& k, u64 d = 1) { st.n[k] += d; }
static bool has(const std::string& feats, const char* f) { return ("," + feats + ",").find("," + std::string(f) + ",") != std::string::npos; }

enum { VALUE = 1, ERROR = 2, CONSUME = 4, ALLOC = 8, BYTES = 16, WERR = 32, PREFIX = 64, SRC = 128, RALL = 15, WALL = 240 };

static std::string outcome(bool ok, int reason, const std::string& at) { return ok ? "ok" : std::string(model::reason_name(reason)) + "@" + at; }
static std::string ex_text() {
  try { throw; } catch (const StreamBoom& b) { return "StreamBoom#" + std::to_string(b.token); }
  catch (const std::ios_base::failure& e) { return std::string("ios_base::failure: ") + e.what(); }
  catch (const std::exception& e) { int s; char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &s); std::string r = std::string(d ? d : "exception") + ": " + e.what(); std::free(d); return r; }
  catch (...) { return "unknown exception"; }
}
static void note(const char* dir, bool be, const std::string& input, const std::string& oc, const std::string& path, bool nontrivial) {
  ++st.evals;
  u64 h = model::hash_str(cur->e->name);
  h = model::hash_str(dir, h);
  h = h * 2 + be;
  if (nontrivial) st.distinct.insert(model::hash_str(input, h));
  st.classes.insert(model::hash_str(path, model::hash_str(oc, h)));
  ++st.n[std::string(dir) + ":" + oc.substr(0, oc.find('@'))];
  if (st.samples.size() < 4 && nontrivial && st.evals % 97 == 1) st.samples.push_back(std::string(cur->e->name) + " " + dir + (be ? " be " : " le ") + (dir[0] == 'r' ? model::hex(input).substr(0, 160) : input.substr(0, 200)) + " -> " + oc);
}

// ------------------------------------------------------------ errors kept by the caller
// An error is a value: the name in it must still be what it was however many
// casts have been made since.
static std::vector<std::pair<std::string_view, std::string>> held;
static std::size_t held_at = 0;
static void hold(const Res& r) {
  if (r.ok || r.reason < 0) return;
  if (held.size() < 24) held.emplace_back(r.view, r.at);
  else held[held_at++ % held.size()] = {r.view, r.at};
  count("errors_held");
}
static std::string held_changed() {
  for (auto& [v, s] : held) if (v != s) { std::string m = "failed_at of an earlier error was " + s + " and is now " + std::string(v); held.clear(); return m; }
  return "";
}

// ------------------------------------------------------------ judging one read
struct ReadObs { Res r; bool threw = false; std::string ex; std::size_t pos = 0, max_end = 0, after = 0, nops = 0; bool neg = false; };
static ReadObs do_read(const Entry& e, bool be, MonIn& in) {
  ReadObs o;
  try { o.r = e.read(be, in); } catch (...) { alloc_state.watching = nullptr; o.threw = true; o.ex = ex_text(); }
  o.pos = in.pos; o.max_end = in.max_end; o.after = in.after_fail; o.nops = in.nops; o.neg = in.neg;
  return o;
}
static bool judge_read(Ctx& c, const std::string& bytes, bool be, unsigned asp, bool partial = false, Decoded* dout = nullptr, std::unique_ptr<Obj>* keep = nullptr) {
  if (c.e->le_only) be = false;
  what(std::string("read ") + (be ? "be " : "le ") + model::hex(bytes).substr(0, 340));
  Decoded d = model::decode(*c.rec, bytes, be);
  MonIn in(bytes);
  in.partial = partial;
  ReadObs o = do_read(*c.e, be, in);
  const std::string want = outcome(d.ok, d.reason, d.at), got = o.threw ? "throws " + o.ex : outcome(o.r.ok, o.r.reason, o.r.at);
  const std::string inp = std::string(be ? "be " : "le ") + model::hex(bytes);
  note("read", be, bytes, want, d.path, d.ok || d.consumed > 0);
  bool good = true;
  auto bad = [&](const char* k, const std::string& m) { good = false; fail(k, m, inp); };
  if (o.threw) { bad("throws", "cast threw " + o.ex + ", expected " + want); return false; }
  if (asp & ERROR) { if (auto m = held_changed(); !m.empty()) bad("held", m); hold(o.r); }
  if (o.neg) bad("negcount", "stream asked for a negative number of bytes");
  if ((asp & ERROR) && (o.r.ok != d.ok || (!d.ok && (o.r.reason != d.reason || o.r.at != d.at)))) bad("outcome", "got " + got + ", expected " + want);
  if (o.r.ok && d.ok) {
    if (asp & VALUE) {
      Val g = o.r.obj->get(), w = model::visible(*c.rec, d.v);
      std::string where;
      if (!model::same(g, w, &where)) bad("value", "value differs at " + where + ": got " + model::show(g) + " expected " + model::show(w));
    }
    if ((asp & CONSUME) && o.pos != d.consumed) bad("consumed", "consumed " + std::to_string(o.pos) + " bytes, the record has " + std::to_string(d.consumed));
    if ((asp & CONSUME) && o.max_end > d.consumed) bad("lookahead", "asked for bytes up to " + std::to_string(o.max_end) + ", the record has " + std::to_string(d.consumed));
  }
  if ((asp & CONSUME) && o.after) bad("afterfail", std::to_string(o.after) + " reads attempted after the stream had refused one");
  if ((asp & CONSUME) && !o.r.ok && !d.ok && o.r.at == d.at && o.r.reason == d.reason) {
    if (o.max_end > d.extent) bad("overread", "failed read asked for bytes up to " + std::to_string(o.max_end) + ", the failing field ends at " + std::to_string(d.extent));
    if ((d.reason == model::excessive_length || d.reason == model::type_deduction_failure) && o.pos != d.fail_off)
      bad("tookbytes", "took " + std::to_string(o.pos) + " bytes, the refused field starts at " + std::to_string(d.fail_off));
  }
  if (asp & ALLOC) {
    if (o.r.alloc.max_single > 2 * d.mem_peak + 64)
      bad("alloc", "allocated a block of " + std::to_string(o.r.alloc.max_single) + " bytes; the largest admissible container takes " + std::to_string(d.mem_peak));
    if (!o.r.ok && o.r.alloc.live != 0) bad("leak", "failed read left " + std::to_string(o.r.alloc.live) + " blocks allocated");
  }
  if (d.mem_peak > st.n["max:container_bytes"]) st.n["max:container_bytes"] = d.mem_peak;
  if (dout) *dout = std::move(d);
  if (keep) *keep = std::move(o.r.obj);
  return good;
}

// ------------------------------------------------------------ judging one write
static bool judge_write(Ctx& c, const Obj& o, const Val& v, bool be, unsigned asp, Encoded* eout = nullptr, std::string* bytes = nullptr) {
  if (c.e->le_only) be = false;
  const std::string inp = std::string(be ? "be " : "le ") + model::show(v, 2500);
  what("write " + inp.substr(0, 340));
  Encoded e = model::encode(*c.rec, v, be);
  if (eout) *eout = e;
  if (e.ambiguous || !e.fits) { ++st.skipped; return true; }
  std::string raw0 = (asp & SRC) ? o.raw() : "";
  MonOut out;
  Res r;
  std::string got;
  bool threw = false;
  try { r = o.write(be, out); got = outcome(r.ok, r.reason, r.at); } catch (...) { alloc_state.watching = nullptr; threw = true; got = "throws " + ex_text(); }
  std::string want = "ok";
  if (!e.ok) { want.clear(); for (int x : e.reasons) want += (want.empty() ? "" : "|") + outcome(false, x, e.at); }
  note("write", be, inp, want, e.path, e.ok || !e.bytes.empty());
  bool good = true;
  auto bad = [&](const char* k, const std::string& m) { good = false; fail(k, m, inp); };
  if (threw) { bad("throws", "write " + got + ", expected " + want); return false; }
  if (asp & WERR) { if (auto m = held_changed(); !m.empty()) bad("held", m); hold(r); }
  if ((asp & WERR) && (r.ok != e.ok || (!e.ok && (!e.reasons.count(r.reason) || r.at != e.at)))) bad("woutcome", "got " + got + ", expected " + want);
  if ((asp & BYTES) && r.ok && e.ok && out.out != e.bytes) bad("bytes", "emitted " + model::hex(out.out) + " expected " + model::hex(e.bytes));
  if ((asp & PREFIX) && !r.ok && !e.ok && r.at == e.at && out.out != e.bytes) bad("prefix", "refused write emitted " + model::hex(out.out) + " expected " + model::hex(e.bytes));
  if ((asp & PREFIX) && !e.ok && out.out.size() > e.bytes.size()) bad("overemit", "emitted " + model::hex(out.out) + " although only " + model::hex(e.bytes) + " precedes the offending field");
  if ((asp & SRC) && o.raw() != raw0) bad("source", "source object changed");
  if ((asp & SRC) && r.alloc.count) bad("walloc", "write allocated " + std::to_string(r.alloc.count) + " blocks");
  if (bytes) *bytes = out.out;
  return good;
}

// ------------------------------------------------------------ inputs
static Rng rng_for(const Ctx& c) {
  u64 h = model::hash_str(c.e->name, opt.seed * 1000003);
  h = model::hash_str(c.work, h);
  return Rng(h * 31 + c.idx * 0x9e3779b97f4a7c15ull);
}
static model::GenOpt gopt(Ctx& c, Rng& g) {
  model::GenOpt o;
  o.max_len = g.chance(1, 6) ? 14 : 5;
  o.big = std::string(c.e->tags).find(",big,") != std::string::npos && g.chance(1, 3);
  return o;
}
// containers of sizes at which chunking, batching or a narrow counter would show
static bool large(Ctx& c, Rng& g, Val& v) {
  static const u64 at[] = {65536, 256, 1 << 20, 4096, 1024, 131072, 16384, 512, 8192, 32768, 2048, 128, 64};
  model::GenOpt o;
  o.tries = 60;
  const std::size_t n = sizeof at / sizeof *at;
  for (std::size_t k = 0; k < n; ++k) {             // the first size from here on that the schema admits
    o.large = at[(c.idx + k) % n];
    if (model::gen_valid(*c.rec, g, v, o)) break;
    if (k + 1 == n) return false;
  }
  return true;
}
// set while a workload is to run on such values throughout
static bool large_values = false;
static bool valid(Ctx& c, Rng& g, Val& v) { return large_values ? large(c, g, v) : model::gen_valid(*c.rec, g, v, gopt(c, g)); }
static std::function<void(Ctx&)> largely(std::function<void(Ctx&)> f) {
  return [f](Ctx& c) { large_values = true; f(c); large_values = false; count("large"); };
}
static std::string tail(Rng& g) { std::string s(g.below(6), 0); for (auto& x : s) x = char(g.next()); return s; }
// valid, then corrupted; or noise
static std::string hostile(Ctx& c, Rng& g, bool be) {
  Val v;
  if (g.chance(1, 12) || !valid(c, g, v)) { std::string s(g.below(48), 0); bool small = g.chance(1, 2); for (auto& x : s) x = char(small ? g.below(4) : g.next()); return s; }
  Encoded e = model::encode(*c.rec, v, be);
  if (g.chance(1, 8)) return e.bytes.substr(0, g.below(e.bytes.size() + 1));
  std::string w;
  return model::mutate_bytes(e.bytes, e.leaves, be, g, w);
}
// an object holding v, built by one of several histories
static std::unique_ptr<Obj> build(Ctx& c, Rng& g, const Val& v) {
  std::unique_ptr<Obj> o = c.e->make();
  switch (g.below(4)) {
    case 0: {                                   // over a previous value
      Val w;
      if (valid(c, g, w)) o->set(w, ALL);
      break;
    }
    case 1: {                                   // over a parsed one
      Val w;
      if (valid(c, g, w)) {
        bool be = !c.e->le_only && g.chance(1, 2);
        Encoded e = model::encode(*c.rec, w, be);
        MonIn in(e.bytes);
        ReadObs ro = do_read(*c.e, be, in);
        if (ro.r.ok) o = std::move(ro.r.obj);
      }
      break;
    }
    case 2: { Val w; if (valid(c, g, w)) o->set(w, ALL); o = o->clone(); break; }
    default: break;
  }
  o->set(v, ALL);
  return o;
}
static void put(std::string& s, const model::Leaf& l, u64 v, bool be) {
  for (std::size_t i = 0; i < l.len && l.off + i < s.size(); ++i) { std::size_t sh = 8 * (be ? l.len - 1 - i : i); s[l.off + i] = sh < 64 ? char(v >> sh) : 0; }
}
// consistent values knocked off balance one step or more
static Val unbalanced(Ctx& c, Rng& g, bool& ok) {
  Val v;
  ok = valid(c, g, v);
  if (!ok) return v;
  u64 n = g.below(4);
  for (u64 i = 0; i < n; ++i) model::perturb(*c.rec, v, g);
  return v;
}

// ------------------------------------------------------------ workloads
static void w_valid_read(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  for (int be = 0; be < 2; ++be) judge_read(c, model::encode(*c.rec, v, be).bytes + tail(g), be, asp, g.chance(1, 2));
}
static void w_hostile_read(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  judge_read(c, hostile(c, g, be), be, asp, g.chance(1, 2));
}
static void w_truncate(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string b = model::encode(*c.rec, v, be).bytes;
  if (b.size() > 120) { for (int i = 0; i < 60; ++i) { judge_read(c, b.substr(0, g.below(b.size())), be, asp, g.chance(1, 2)); } return; }
  for (std::size_t n = 0; n <= b.size(); ++n) judge_read(c, b.substr(0, n), be, asp, n & 1);
}
// each steering integer swept over its interesting values (all 256 when it is one byte)
static void w_sweep(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  std::vector<const model::Leaf*> ls;
  for (auto& l : e.leaves) if (l.field->k == Field::INT && l.role != 'e') ls.push_back(&l);
  if (ls.empty()) { judge_read(c, e.bytes, be, asp); return; }
  const model::Leaf& l = *ls[g.below(ls.size())];
  std::string pad = g.chance(1, 2) ? std::string(24, '\0') : tail(g) + tail(g);
  if (l.len == 1) {
    for (int x = 0; x < 256; ++x) { std::string b = e.bytes + pad; b[l.off] = char(x); judge_read(c, b, be, asp); }
  } else {
    std::vector<i128> xs = model::edge_ints(*l.field);
    for (auto& u : c.rec->f) for (auto k : u.keys) { xs.push_back(k); for (int s : {8, 16, 24, 32}) xs.push_back(k + (i128(1) << s)); xs.push_back(k + 1); }
    for (auto x : xs) { std::string b = e.bytes + pad; put(b, l, u64(x), be); judge_read(c, b, be, asp); }
    for (int t = 0; t < 12; ++t) { std::string b = e.bytes + pad; put(b, l, u64(model::interesting_int(*l.field, g, c.rec.get())), be); judge_read(c, b, be, asp); }
  }
}
static void w_large(Ctx& c, unsigned rasp, unsigned wasp) {
  Rng g = rng_for(c);
  Val v;
  if (!large(c, g, v)) { ++st.skipped; return; }
  for (int be = 0; be < 2; ++be) {
    Encoded e = model::encode(*c.rec, v, be && !c.e->le_only);
    if (!e.ok) { ++st.skipped; return; }
    if (e.bytes.size() > st.n["max:large_bytes"]) st.n["max:large_bytes"] = e.bytes.size();
    count("large");
    if (rasp) judge_read(c, e.bytes + tail(g), be, rasp, be);
    if (rasp & (ERROR | CONSUME)) for (int k = 0; k < 3; ++k) judge_read(c, e.bytes.substr(0, k ? g.below(e.bytes.size()) : e.bytes.size() - 1), be, rasp, k & 1);
  }
  if (wasp) {
    auto o = build(c, g, v);
    for (int be = 0; be < 2; ++be) judge_write(c, *o, v, be, wasp);
  }
}
static void w_concat(Ctx& c) {
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  u64 n = 1 + g.below(6);
  std::string all;
  std::vector<Val> vs;
  for (u64 i = 0; i < n; ++i) { Val v; if (!valid(c, g, v)) continue; all += model::encode(*c.rec, v, be).bytes; vs.push_back(v); }
  if (vs.empty()) { ++st.skipped; return; }
  const bool broken = g.chance(1, 3);
  if (broken) all.resize(g.below(all.size() + 1));
  MonIn in(all);
  what("concat " + model::hex(all).substr(0, 340));
  std::size_t at = 0;
  for (u64 i = 0; i < vs.size(); ++i) {
    Decoded d = model::decode(*c.rec, std::string_view(all).substr(at), be);
    ReadObs o = do_read(*c.e, be, in);
    std::string inp = std::string(be ? "be " : "le ") + model::hex(all) + " record " + std::to_string(i);
    note("read", be, all, outcome(d.ok, d.reason, d.at), d.path + "#" + std::to_string(i), d.ok);
    if (o.threw) { fail("throws", o.ex, inp); return; }
    if (o.after) { fail("afterfail", "reads after refusal", inp); return; }
    if (o.r.ok && !d.ok) { fail("phantom", "a record was returned although only " + std::to_string(all.size() - at) + " bytes remained, which hold none", inp); return; }
    if (!d.ok || !o.r.ok) return;
    at += d.consumed;
    if (o.pos != at) { fail("position", "after record " + std::to_string(i) + " the stream is at " + std::to_string(o.pos) + ", the record ends at " + std::to_string(at), inp); return; }
    Val got = o.r.obj->get();
    std::string where;
    if (!model::same(got, model::visible(*c.rec, d.v), &where)) { fail("value", "record " + std::to_string(i) + " of a sequence differs at " + where, inp); return; }
  }
  count("concat_records", vs.size());
}
static void w_valid_write(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  auto o = build(c, g, v);
  for (int be = 0; be < 2; ++be) judge_write(c, *o, v, be, asp);
}
static void w_default_write(Ctx& c, unsigned asp) {
  auto o = c.e->make();
  Val v = o->get();
  for (int be = 0; be < 2; ++be) judge_write(c, *o, v, be, asp);
}
static void w_unbalanced_write(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  bool ok;
  Val v = unbalanced(c, g, ok);
  if (!ok) { ++st.skipped; return; }
  auto o = build(c, g, v);
  judge_write(c, *o, v, g.chance(1, 2), asp);
}
// unions an exception left without a value: refused, and nothing outside them touched
static void w_valueless(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  const std::size_t ns = model::slots(*c.rec, v).size();
  for (std::size_t k = 0; k < ns; ++k) {
    Val w = v;
    auto sl = model::slots(*c.rec, w);
    if (k >= sl.size() || sl[k].f->k != Field::UNI) continue;
    *sl[k].v = Val::valueless();
    auto o = build(c, g, v);
    o->set(w, ALL);
    if (!model::same(o->get(), model::visible(*c.rec, w))) { ++st.skipped; continue; }   // this variant cannot be left empty
    count("valueless");
    for (int be = 0; be < 2; ++be) judge_write(c, *o, w, be, asp);
    auto p = o->clone();
    judge_write(c, *p, w, g.chance(1, 2), asp);
    o->set(v, ALL);                                   // and it recovers
    judge_write(c, *o, v, g.chance(1, 2), asp | WERR | BYTES);
  }
}
// one object, many edits, a write after each: stale state must never show
static void w_history(Ctx& c, unsigned asp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  auto o = build(c, g, v);
  u64 n = 3 + g.below(6);
  for (u64 i = 0; i < n; ++i) {
    std::size_t f = g.below(c.rec->f.size());
    if (g.chance(1, 3)) { Val w; if (valid(c, g, w)) { v = w; o->set(v, ALL); } }
    else if (c.rec->assignable(f)) {
      Val w;
      if (g.chance(1, 2) && valid(c, g, w)) v.l[f] = w.l[f]; else v.l[f] = model::gen_any(c.rec->f[f], g, 5);
      o->set(v, f);
    }
    if (g.chance(1, 5)) o = o->clone();
    if (g.chance(1, 8)) o = o->take();
    judge_write(c, *o, v, g.chance(1, 2), asp);
  }
}
// every value at the edges of every constraint, in both directions
static void w_constraints(Ctx& c, unsigned rasp, unsigned wasp) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  const std::size_t ns = model::slots(*c.rec, v).size();
  for (std::size_t k = 0; k < ns; ++k) {
    auto sl = model::slots(*c.rec, v);
    const Field& f = *sl[k].f;
    if (f.con.op.empty()) continue;
    for (const Val& x : model::con_candidates(sl[k].rec, f, *sl[k].v, g)) {
      Val w = v;
      *model::slots(*c.rec, w)[k].v = x;
      bool be = g.chance(1, 2);
      count("con:" + f.con.op + (model::con_ok(f.con, f, x) ? ":accept" : ":reject"));
      model::ignore_con = true;
      Encoded e = model::encode(*c.rec, w, be && !c.e->le_only);
      // a pinned field is emitted pinned even so: patch the wire for the reader
      model::ignore_con = false;
      if (e.ok && !e.ambiguous) judge_read(c, e.bytes, be, rasp);
      auto o = c.e->make();
      o->set(w, ALL);
      judge_write(c, *o, w, be, wasp);
    }
  }
  // what the wire says in constrained integers the object does not let us set
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  for (auto& l : e.leaves)
    if (l.field->k == Field::INT && !l.field->con.op.empty() && (l.role == 'z' || l.role == 'l' || l.role == 'd'))
      for (auto x : model::edge_ints(*l.field)) { std::string b = e.bytes + std::string(8, 'x'); put(b, l, u64(x), be); judge_read(c, b, be, rasp); }
}
// every byte value and every bit of every pinned field
static void w_pinned(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  for (auto& l : e.leaves) {
    if (l.role != 'z') continue;
    for (std::size_t i = 0; i < l.len; ++i)
      for (int x = 1; x < 256; x += c.idx < 2 ? 1 : 1 + int(g.below(7))) {
        std::string b = e.bytes;
        b[l.off + i] = char(b[l.off + i] ^ x);
        if (l.field->ty.isbool && model::wrap(l.field->ty, (unsigned char)b[l.off + i]) == l.field->con.c[0]) continue;
        count("pinned_flips");
        judge_read(c, b, be, ERROR | VALUE);
      }
  }
  auto o = build(c, g, v);
  for (int k = 0; k < 2; ++k) judge_write(c, *o, v, k, BYTES | WERR);
  auto d = c.e->make();
  Val dv = d->get();
  judge_write(c, *d, dv, be, BYTES | WERR | PREFIX);
}
// claimed lengths around and far beyond every ceiling
static void w_ceiling(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  std::set<u64> pool = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~u64(0), ~u64(0) - 1};
  std::function<void(const Rec&)> col = [&](const Rec& r) {
    std::function<void(const Field&)> one = [&](const Field& f) {
      if (f.is_container()) {
        u64 q = model::ceiling_of(f) / f.elem_mem;
        for (int d = -1; d <= 2; ++d) pool.insert(q + u64(d));
        u64 wrapq = (~u64(0)) / f.elem_mem;
        for (int d = -1; d <= 2; ++d) { pool.insert(wrapq + u64(d)); pool.insert(wrapq / 2 + u64(d)); }
        pool.insert((u64(1) << 32) / f.elem_mem); pool.insert((u64(1) << 32) / f.elem_mem + 1);
        pool.insert(model::ceiling_of(f)); pool.insert(model::ceiling_of(f) + 1);
        for (u64 m : {2, 3}) { pool.insert(q / m); pool.insert(q / m + 1); }
      }
      for (auto& y : f.in) one(y);
      if (f.rec) col(*f.rec);
    };
    for (auto& f : r.f) one(f);
  };
  col(*c.rec);
  std::vector<const model::Leaf*> ls;
  for (auto& l : e.leaves) if (l.field->k == Field::INT && (l.role == 'l' || l.role == 'v')) ls.push_back(&l);
  if (ls.empty()) { ++st.skipped; return; }
  std::vector<u64> xs(pool.begin(), pool.end());
  for (const model::Leaf* l : ls) {
    if (l->role == 'v' && l->len == 1) continue;
    for (u64 x : xs) {
      std::string b = e.bytes;
      put(b, *l, x, be);
      // some with nothing behind the claim, some with enough bytes to satisfy a modest one
      const bool fed = g.chance(1, 2);
      if (fed) { b.resize(l->off + l->len); b += std::string(260, char(g.below(3))); }
      Decoded d;
      judge_read(c, b, be, ERROR | ALLOC | CONSUME | VALUE, g.chance(1, 2), &d);
      if (!d.ok && d.reason == model::excessive_length) count("ceiling_refused");
      else if (d.saw_container) count("ceiling_admitted");
    }
  }
  for (int t = 0; t < 24; ++t) {
    std::string b = e.bytes;
    for (u64 k = 1 + g.below(3); k; --k) put(b, *ls[g.below(ls.size())], g.chance(1, 2) ? xs[g.below(xs.size())] : g.below(12), be);
    if (g.chance(1, 2)) b += std::string(200, char(g.next()));
    judge_read(c, b, be, ERROR | ALLOC | CONSUME | VALUE);
  }
}
// a container one step inside, at, and beyond its ceiling, written and read with all its bytes
static void w_ceiling_write(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  const std::size_t ns = model::slots(*c.rec, v).size();
  for (std::size_t k = 0; k < ns; ++k) {
    auto sl = model::slots(*c.rec, v);
    const Field& f = *sl[k].f;
    if (!f.is_container()) continue;
    u64 q = model::ceiling_of(f) / f.elem_mem;
    if (q > 5000) q = 40;
    std::vector<u64> counts{q - 1, q, q + 1, q + 2};
    if (f.size.is_len)                      // and around the most its length field's declared width can say
      for (auto& s : sl) if (s.rec == sl[k].rec && s.f->id == f.size.id && (s.f->width == 1 || (s.f->width == 2 && c.idx == 0 && f.k != Field::VREC)))
        for (u64 x : {0, 1, 2, 5}) counts.push_back((u64(1) << (8 * s.f->width)) - 1 + x);
    for (u64 at : counts) {
      if (at > (f.k == Field::VREC ? 6000 : 70000)) continue;
      Val w = v;
      Val& x = *model::slots(*c.rec, w)[k].v;
      std::size_t n = std::size_t(at);
      if (x.k == Val::BYTES) x.b.resize(n, 'k');
      else {
        bool ok = true;
        while (x.l.size() > n) x.l.pop_back();
        while (x.l.size() < n && ok) {
          if (!x.l.empty()) { x.l.push_back(x.l.back()); continue; }
          Val any = model::gen_any(f, g, 3);
          if (any.l.empty()) { for (int t = 0; t < 20 && any.l.empty(); ++t) any = model::gen_any(f, g, 3); }
          if (any.l.empty()) ok = false; else x.l.push_back(any.l[0]);
        }
        if (!ok) continue;
      }
      // lengths that are verified rather than derived follow along
      if (f.size.is_len) {
        auto s2 = model::slots(*c.rec, w);
        for (auto& s : s2) if (s.rec == sl[k].rec && s.f->id == f.size.id && s.v->k == Val::INT) s.v->i = model::wrap(s.f->ty, n);
      }
      auto o = c.e->make();
      o->set(w, ALL);
      bool be = g.chance(1, 2);
      Encoded e;
      std::string bytes;
      judge_write(c, *o, w, be, BYTES | WERR | PREFIX, &e, &bytes);
      if (e.ok && !e.ambiguous && e.fits) judge_read(c, e.bytes, be, ERROR | VALUE | ALLOC | CONSUME);
    }
  }
}
// the default ceiling with real data behind it, without materialising a model value
static void w_ceiling_default(Ctx& c) {
  Rng g = rng_for(c);
  if (c.rec->f.size() < 2 || c.rec->f[0].k != Field::INT || !c.rec->f[1].is_container() || !c.rec->f[1].size.is_len || !c.rec->f[0].con.op.empty() || !c.rec->f[1].con.op.empty()) return;
  const Field& f = c.rec->f[1];
  if (f.k == Field::VREC) return;
  u64 q = model::ceiling_of(f) / f.elem_mem;
  if (c.rec->f[0].width < 8 && q >> (8 * c.rec->f[0].width)) return;
  for (int d = -1; d <= 1; ++d) {
    bool be = g.chance(1, 2) && !c.e->le_only;
    std::string b(std::size_t(c.rec->f[0].width), 0);
    put(b, {0, b.size(), true, 'l', nullptr}, q + u64(d), be);
    MonIn in(b);
    in.zeros = (u64(40) << 20);
    what("default ceiling");
    ReadObs o = do_read(*c.e, be, in);
    std::string inp = "length " + std::to_string(q + u64(d)) + ", zeros follow";
    note("read", be, b, d > 0 ? "excessive_length" : "past_ceiling", "", true);
    if (o.threw) { fail("throws", o.ex, inp); continue; }
    const bool exc = !o.r.ok && o.r.reason == model::excessive_length && o.r.at == f.id;
    if (d > 0 && (!exc || o.r.alloc.max_single > 4096)) fail("default", "one element beyond the default ceiling: " + outcome(o.r.ok, o.r.reason, o.r.at) + ", largest block " + std::to_string(o.r.alloc.max_single), inp);
    if (d <= 0 && exc) fail("default", "refused at or below the default ceiling", inp);
    if (d <= 0 && !exc && o.pos < b.size() + (q + u64(d)) * f.elem_mem) fail("default", "container at the ceiling not read in full: stopped at " + std::to_string(o.pos), inp);
  }
}

// ------------------------------------------------------------ round trips (no model of the codec needed)
static std::string canon(const Decoded& d, std::string b) {
  for (auto& l : d.leaves) if (l.field->ty.isbool && l.role != 's') for (std::size_t i = 0; i < l.len; ++i) b[l.off + i] = b[l.off + i] != 0;
  return b;
}
static bool roundtrip(Ctx& c, const Obj& o, bool be, const std::string& tag) {
  if (c.e->le_only) be = false;
  Val v = o.get();
  std::string inp = tag + (be ? " be " : " le ") + model::show(v, 2000);
  what("roundtrip " + inp.substr(0, 340));
  Encoded e = model::encode(*c.rec, v, be);       // only for the side conditions: widths, ceilings
  MonOut out;
  Res w;
  try { w = o.write(be, out); } catch (...) { alloc_state.watching = nullptr; fail("throws", "write " + ex_text(), inp); return false; }
  note("roundtrip", be, inp, outcome(w.ok, w.reason, w.at), e.path, w.ok);
  if (!w.ok) return false;
  if (e.ambiguous || !e.fits) { ++st.skipped; return false; }
  Decoded d = model::decode(*c.rec, out.out, be);
  if (!d.ok && d.reason == model::excessive_length) { count("beyond_ceiling"); return false; }
  MonIn in(out.out);
  ReadObs r = do_read(*c.e, be, in);
  if (r.threw) { fail("throws", "read back " + r.ex, inp); return false; }
  if (!r.r.ok) { fail("readback", "bytes " + model::hex(out.out) + " written with success do not read back: " + outcome(false, r.r.reason, r.r.at), inp); return false; }
  if (r.pos != out.out.size()) { fail("readback", "read back consumed " + std::to_string(r.pos) + " of " + std::to_string(out.out.size()), inp); return false; }
  Val v2 = r.r.obj->get();
  // what the schema derives or pins is defined by the write, not by what the object held
  Val want = v;
  std::function<void(const Rec&, Val&)> fix = [&](const Rec& rc, Val& x) {
    for (std::size_t i = 0; i < rc.f.size(); ++i) {
      if (rc.derived(i) || rc.frozen(i)) { x.l[i] = Val::hid(); continue; }
      std::function<void(const Field&, Val&)> in2 = [&](const Field& f, Val& y) {
        switch (f.k) {
          case Field::SUB: fix(*f.rec, y); break;
          case Field::AREC: case Field::VREC: for (auto& z : y.l) fix(*f.rec, z); break;
          case Field::OPT: if (!y.l.empty()) in2(f.in[0], y.l[0]); break;
          case Field::UNI: in2(f.in[y.idx], y.l[0]); break;
          default: break;
        }
      };
      in2(rc.f[i], x.l[i]);
    }
  };
  fix(*c.rec, want);
  std::string where;
  if (!model::same(v2, want, &where)) { fail("roundtrip", "read back differs at " + where + ": " + model::show(v2) + " from bytes " + model::hex(out.out), inp); return false; }
  MonOut out2;
  Res w2 = r.r.obj->write(be, out2);
  if (!w2.ok || out2.out != out.out) { fail("rewrite", "writing what was read back gives " + (w2.ok ? model::hex(out2.out) : outcome(false, w2.reason, w2.at)) + " instead of " + model::hex(out.out), inp); return false; }
  // and in the other order
  if (!c.e->le_only) {
    MonOut o3;
    Res w3 = r.r.obj->write(!be, o3);
    if (!w3.ok) { fail("rewrite", "accepted in one byte order, refused in the other: " + outcome(false, w3.reason, w3.at), inp); return false; }
    MonIn i3(o3.out);
    ReadObs r3 = do_read(*c.e, !be, i3);
    if (!r3.r.ok || !model::same(r3.r.obj->get(), v2)) { fail("roundtrip", "transcoding to the other byte order changes the struct", inp); return false; }
  }
  return true;
}
static void w_roundtrip(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (valid(c, g, v)) {
    auto o = build(c, g, v);
    bool be = g.chance(1, 2);
    roundtrip(c, *o, be, "valid");
    for (u64 k = 0; k < 5; ++k) {
      std::size_t f = g.below(c.rec->f.size());
      if (!c.rec->assignable(f)) continue;
      Val w = o->get(), x;
      if (g.chance(1, 3) && valid(c, g, x)) { w = x; o->set(w, ALL); }
      else if (g.chance(1, 2) && valid(c, g, x)) { w.l[f] = x.l[f]; o->set(w, f); }
      else { w.l[f] = model::gen_any(c.rec->f[f], g, 5); o->set(w, f); }
      roundtrip(c, *o, g.chance(1, 2), "edited");
    }
  }
  // bytes -> struct -> bytes
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string b = hostile(c, g, be);
  what("bytes roundtrip " + model::hex(b).substr(0, 340));
  MonIn in(b);
  ReadObs r = do_read(*c.e, be, in);
  note("reencode", be, b, outcome(r.r.ok, r.r.reason, r.r.at), "", r.r.ok);
  std::string inp = std::string(be ? "be " : "le ") + model::hex(b);
  if (r.threw) { fail("throws", r.ex, inp); return; }
  if (!r.r.ok) return;
  MonOut out;
  Res w = r.r.obj->write(be, out);
  Decoded d = model::decode(*c.rec, b, be);
  std::string want = canon(d, b.substr(0, r.pos));
  if (!w.ok) fail("reencode", "a struct just read is refused on write: " + outcome(false, w.reason, w.at), inp);
  else if (out.out != want) fail("reencode", "re-encoding emits " + model::hex(out.out) + " after consuming " + model::hex(b.substr(0, r.pos)), inp);
}

// ------------------------------------------------------------ faults
static std::size_t field_at(const Encoded& e, std::size_t off) {   // top-level field holding this byte
  std::size_t f = 0;
  for (std::size_t i = 0; i < e.starts.size(); ++i) if (e.starts[i] <= off) f = i;
  return f;
}
static void w_faults(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  if (!e.ok || (e.bytes.size() > 400 && !large_values)) { ++st.skipped; return; }
  auto o = build(c, g, v);
  const std::string base = std::string(be ? "be " : "le ") + model::show(v, 600) + " = " + model::hex(e.bytes.size() > 400 ? e.bytes.substr(0, 400) : e.bytes);
  // of a long run, the ends and a sample of the rest
  auto pick = [&](std::size_t k, std::size_t n) { return n < 400 || k < 4 || k + 3 > n || g.below(n) < 8; };
  auto fname = [&](std::size_t i) { return c.rec->f[i].id; };

  // ---- writes: the clean log, then a refusal and an exception at every operation
  MonOut clean;
  clean.log = true;
  Res cr = o->write(be, clean);
  if (!cr.ok || clean.out != e.bytes) { ++st.skipped; return; }         // another property's business
  for (std::size_t k = 0; k < clean.ops.size(); ++k) {
    if (!clean.ops[k].len || !pick(k, clean.ops.size())) continue;
    for (int mode = 0; mode < 3; ++mode) {
      MonOut m;
      m.partial = mode == 1;
      if (mode == 2) m.throw_op = std::int64_t(k); else m.fail_op = std::int64_t(k);
      std::string inp = base + " write op " + std::to_string(k) + (mode == 2 ? " throws" : " refused");
      what(inp.substr(0, 390));
      const std::string raw0 = o->raw();
      Res r;
      bool threw = false;
      std::string ex;
      try { r = o->write(be, m); } catch (...) { alloc_state.watching = nullptr; threw = true; ex = ex_text(); }
      note("fault", be, inp, mode == 2 ? "throw" : "refuse", "", true);
      count(mode == 2 ? "write_throws" : "write_refusals");
      if (o->raw() != raw0) fail("source", "source changed under a failing stream", inp);
      if (mode == 2) {
        if (!threw || ex != "StreamBoom#" + std::to_string(k)) fail("exception", threw ? "a different exception came out: " + ex : "the stream's exception was swallowed", inp);
        else if (m.after_fail) fail("afterfail", "operations after the exception", inp);
        continue;
      }
      if (threw) { fail("throws", ex, inp); continue; }
      std::size_t f0 = field_at(e, clean.ops[k].off), f1 = field_at(e, clean.ops[k].off + clean.ops[k].len - 1);
      bool at_ok = false;
      for (std::size_t i = f0; i <= f1; ++i) at_ok |= r.at == fname(i);
      if (r.ok) fail("lostfail", "success reported although the stream refused", inp);
      else if (r.reason != model::buffer_exhaustion || !at_ok) fail("faultreason", "got " + outcome(r.ok, r.reason, r.at) + ", expected buffer_exhaustion@" + fname(f0), inp);
      if (m.after_fail) fail("afterfail", std::to_string(m.after_fail) + " writes after the refusal", inp);
      if (m.out.size() < e.starts[f0] || m.out != e.bytes.substr(0, m.out.size())) fail("faultprefix", "emitted " + model::hex(m.out.substr(0, 600)), inp);
    }
  }
  // ---- a sink that fills up after each possible number of bytes
  for (std::size_t b = 0; b < e.bytes.size(); ++b) {
    if (!pick(b, e.bytes.size())) continue;
    MonOut m;
    m.budget = b;
    m.partial = b & 1;
    std::string inp = base + " sink holds " + std::to_string(b);
    what(inp.substr(0, 390));
    Res r;
    try { r = o->write(be, m); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); continue; }
    note("fault", be, inp, "full", "", true);
    count("write_budgets");
    std::size_t f = field_at(e, b);
    if (r.ok || r.reason != model::buffer_exhaustion || r.at != fname(f)) fail("faultreason", "got " + outcome(r.ok, r.reason, r.at) + ", expected buffer_exhaustion@" + fname(f), inp);
    if (m.after_fail) fail("afterfail", "writes after the refusal", inp);
    if (m.out.size() < e.starts[f] || m.out != e.bytes.substr(0, m.out.size())) fail("faultprefix", "emitted " + model::hex(m.out.substr(0, 600)), inp);
  }
  // ---- reads
  MonIn rc(e.bytes);
  rc.log = true;
  ReadObs ro = do_read(*c.e, be, rc);
  if (!ro.r.ok) { ++st.skipped; return; }
  const u64 allocs = ro.r.alloc.count;
  const Val clean_v = ro.r.obj->get();
  for (std::size_t k = 0; k < rc.ops.size(); ++k) {
    if (!rc.ops[k].len || !pick(k, rc.ops.size())) continue;
    for (int mode = 0; mode < 3; ++mode) {
      MonIn m(e.bytes);
      m.partial = mode == 1;
      if (mode == 2) m.throw_op = std::int64_t(k); else m.fail_op = std::int64_t(k);
      std::string inp = base + " read op " + std::to_string(k) + (mode == 2 ? " throws" : " refused");
      what(inp.substr(0, 390));
      ReadObs r = do_read(*c.e, be, m);
      note("fault", be, inp, mode == 2 ? "rthrow" : "rrefuse", "", true);
      count(mode == 2 ? "read_throws" : "read_refusals");
      if (mode == 2) {
        if (!r.threw || r.ex != "StreamBoom#" + std::to_string(k)) fail("exception", r.threw ? "a different exception came out: " + r.ex : "the stream's exception was swallowed", inp);
        else if (r.after) fail("afterfail", "operations after the exception", inp);
        continue;
      }
      if (r.threw) { fail("throws", r.ex, inp); continue; }
      std::size_t f0 = field_at(e, rc.ops[k].off), f1 = field_at(e, rc.ops[k].off + rc.ops[k].len - 1);
      bool at_ok = false;
      for (std::size_t i = f0; i <= f1; ++i) at_ok |= r.r.at == fname(i);
      if (r.r.ok) fail("lostfail", "success reported although the stream refused", inp);
      else if (r.r.reason != model::buffer_exhaustion || !at_ok) fail("faultreason", "got " + outcome(r.r.ok, r.r.reason, r.r.at) + ", expected buffer_exhaustion@" + fname(f0), inp);
      if (r.after) fail("afterfail", std::to_string(r.after) + " reads after the refusal", inp);
      if (!r.r.ok && r.r.alloc.live) fail("leak", "blocks left allocated", inp);
    }
  }
  // ---- an allocator that gives up at each allocation
  for (u64 k = 0; k < allocs && k < 40; ++k) {
    MonIn m(e.bytes);
    std::string inp = base + " allocation " + std::to_string(k) + " fails";
    what(inp.substr(0, 390));
    alloc_state.fail_at = std::int64_t(k);
    Res r;
    bool threw = false;
    std::string ex;
    try { r = c.e->read(be, m); } catch (...) { alloc_state.watching = nullptr; alloc_state.fail_at = -1; threw = true; ex = ex_text(); }
    alloc_state.fail_at = -1;
    note("fault", be, inp, "badalloc", "", true);
    count("alloc_failures");
    if (!threw) { if (r.ok) fail("lostalloc", "success reported although the allocator failed", inp); else fail("lostalloc", "allocator failure turned into " + outcome(false, r.reason, r.at), inp); }
    else if (ex.find("bad_alloc") == std::string::npos) fail("exception", "a different exception came out: " + ex, inp);
    // the world still works
    MonIn m2(e.bytes);
    ReadObs r2 = do_read(*c.e, be, m2);
    if (!r2.r.ok || !model::same(r2.r.obj->get(), clean_v)) fail("aftermath", "a later cast no longer works", inp);
  }
}
// a stream that had already failed before the cast began
static void w_dead(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  if (!e.ok || e.bytes.empty()) { ++st.skipped; return; }
  auto o = build(c, g, v);
  const std::string inp = std::string(be ? "be " : "le ") + model::hex(e.bytes) + " on a stream that had failed";
  what(inp.substr(0, 390));
  std::set<std::string> may;                       // the first field with bytes, or an empty one before it
  for (std::size_t i = 0; i <= field_at(e, 0); ++i) may.insert(c.rec->f[i].id);
  MonIn in(e.bytes);
  in.ok = false;
  ReadObs r = do_read(*c.e, be, in);
  note("fault", be, inp, "dead", "", true);
  count("dead_streams", 2);
  if (r.threw) fail("throws", r.ex, inp);
  else if (r.r.ok || r.r.reason != model::buffer_exhaustion || !may.count(r.r.at)) fail("dead", "read gives " + outcome(r.r.ok, r.r.reason, r.r.at), inp);
  if (in.after_fail > 1) fail("afterfail", "kept reading a failed stream", inp);
  MonOut m;
  m.ok = false;
  Res w;
  try { w = o->write(be, m); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
  if (w.ok || w.reason != model::buffer_exhaustion || !may.count(w.at)) fail("dead", "write gives " + outcome(w.ok, w.reason, w.at), inp);
  if (m.after_fail > 1) fail("afterfail", "kept writing to a failed stream", inp);
}
// ---- standard streams over a device that gives up at a given byte
class FaultBuf : public std::streambuf {
public:
  std::string_view data;
  std::string out;
  std::size_t pos = 0, stop;          // bytes before the fault
  bool throws, tripped = false;
  std::size_t after = 0, calls = 0;
  FaultBuf(std::string_view d, std::size_t at, bool t) : data(d), stop(at), throws(t) { out.reserve(512); }
  void trip() { if (tripped) ++after; tripped = true; if (throws) throw StreamBoom{int(stop)}; }
protected:
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    AllocPause p;
    ++calls;
    std::size_t end = std::min(stop, data.size()), k = std::min<std::size_t>(std::size_t(n), end - pos);
    std::memcpy(d, data.data() + pos, k);
    pos += k;
    if (k < std::size_t(n)) trip();
    return std::streamsize(k);
  }
  int underflow() override { AllocPause p; ++calls; if (pos >= std::min(stop, data.size())) { trip(); return EOF; } return (unsigned char)data[pos]; }
  int uflow() override { int c = underflow(); if (c != EOF) ++pos; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    AllocPause p;
    ++calls;
    std::size_t k = std::min<std::size_t>(std::size_t(n), stop - out.size());
    out.append(s, k);
    if (k < std::size_t(n)) trip();
    return std::streamsize(k);
  }
  int overflow(int c) override {
    AllocPause p;
    if (c == EOF) return 0;
    ++calls;
    if (out.size() >= stop) { trip(); return EOF; }
    out.push_back(char(c));
    return c;
  }
};
// ---- standard streams over a device that records where it was read and written
class RecBuf : public std::streambuf {
public:
  std::string_view data;
  std::string out;
  std::size_t pos = 0, high = 0, seeks = 0, after = 0;
  bool ended = false;
  explicit RecBuf(std::string_view d) : data(d) { out.reserve(1024); }
protected:
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    AllocPause p;
    if (ended) ++after;
    high = std::max(high, pos + std::size_t(n));
    std::size_t k = std::min<std::size_t>(std::size_t(n), data.size() - pos);
    std::memcpy(d, data.data() + pos, k);
    pos += k;
    if (k < std::size_t(n)) ended = true;
    return std::streamsize(k);
  }
  int underflow() override { high = std::max(high, pos + 1); if (ended) ++after; if (pos >= data.size()) { ended = true; return EOF; } return (unsigned char)data[pos]; }
  int uflow() override { int c = underflow(); if (c != EOF) ++pos; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { AllocPause p; out.append(s, std::size_t(n)); return n; }
  int overflow(int c) override { AllocPause p; if (c != EOF) out.push_back(char(c)); return 0; }
  pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override {
    if (d == std::ios::cur && o == 0) return pos_type(off_type(pos));       // tellg
    ++seeks;
    off_type b = d == std::ios::beg ? 0 : d == std::ios::cur ? off_type(pos) : off_type(data.size());
    if (b + o < 0 || b + o > off_type(data.size())) return pos_type(off_type(-1));
    pos = std::size_t(b + o);
    return pos_type(off_type(pos));
  }
  pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};
static void w_std_concat(Ctx& c) {
  if (!c.e->extra) return;
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string all;
  u64 n = 0;
  for (u64 i = 0, k = 1 + g.below(5); i < k; ++i) { Val v; if (!valid(c, g, v)) continue; all += model::encode(*c.rec, v, be).bytes; ++n; }
  if (!n) { ++st.skipped; return; }
  if (g.chance(1, 3)) all.resize(g.below(all.size() + 1));
  else if (g.chance(1, 2)) { all += hostile(c, g, be); ++n; }
  RecBuf buf(all);
  std::istream is(&buf);
  what("std concat " + model::hex(all).substr(0, 340));
  std::size_t at = 0;
  for (u64 i = 0; i < n; ++i) {
    Decoded d = model::decode(*c.rec, std::string_view(all).substr(at), be);
    if (d.mem_peak > 1u << 20) return;
    Res r;
    const std::string inp = std::string(be ? "be " : "le ") + model::hex(all) + " record " + std::to_string(i) + " on a standard stream";
    try { r = c.e->extra->any_istream(be, is); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
    note("stdread", be, all, outcome(d.ok, d.reason, d.at), d.path + "#" + std::to_string(i), d.ok);
    count("std_records");
    if (buf.after) { fail("afterfail", "the device was read again after it had ended", inp); return; }
    if (r.ok != d.ok || (!d.ok && (r.at != d.at || r.reason != d.reason))) return;        // another property's business
    if (r.ok) {
      at += d.consumed;
      if (buf.pos != at) { fail("position", "after the record the stream is at " + std::to_string(buf.pos) + ", the record ends at " + std::to_string(at), inp); return; }
      if (buf.high > at) { fail("lookahead", "the device was asked for bytes up to " + std::to_string(buf.high) + ", the record ends at " + std::to_string(at), inp); return; }
      if (!is.good()) { fail("state", "the stream is no longer good after a successful read", inp); return; }
      Val got = r.obj->get();
      std::string where;
      if (!model::same(got, model::visible(*c.rec, d.v), &where)) { fail("value", "record " + std::to_string(i) + " of a sequence differs at " + where, inp); return; }
    } else {
      if (buf.high > at + d.extent) fail("overread", "failed read asked for bytes up to " + std::to_string(buf.high) + ", the failing field ends at " + std::to_string(at + d.extent), inp);
      return;
    }
  }
}
static void w_std_write(Ctx& c, unsigned asp) {
  if (!c.e->extra) return;
  Rng g = rng_for(c);
  bool ok;
  Val v = unbalanced(c, g, ok);
  if (!ok) { ++st.skipped; return; }
  auto o = build(c, g, v);
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  if (e.ambiguous || !e.fits) { ++st.skipped; return; }
  RecBuf buf("");
  std::ostream os(&buf);
  const std::string before(g.below(5), '#');          // what the stream already holds stays
  os.write(before.data(), std::streamsize(before.size()));
  const std::string inp = std::string(be ? "be " : "le ") + model::show(v, 2000) + " to a standard stream";
  what("std write " + inp.substr(0, 340));
  Res r;
  try { r = c.e->extra->any_ostream(be, *o, os); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
  note("stdwrite", be, inp, e.ok ? "ok" : "refused", e.path, true);
  if ((asp & WERR) && (r.ok != e.ok || (!e.ok && (!e.reasons.count(r.reason) || r.at != e.at)))) { fail("woutcome", "got " + outcome(r.ok, r.reason, r.at) + ", expected " + (e.ok ? "ok" : "refusal at " + e.at), inp); return; }
  if (r.ok == e.ok && (e.ok || r.at == e.at) && buf.out != before + e.bytes) fail(e.ok ? "bytes" : "prefix", "emitted " + model::hex(buf.out) + " expected " + model::hex(before + e.bytes), inp);
}
static void w_std_faults(Ctx& c) {
  if (!c.e->extra) return;
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  if (!e.ok || e.bytes.empty() || e.bytes.size() > 300) { ++st.skipped; return; }
  auto o = build(c, g, v);
  const std::string base = std::string(be ? "be " : "le ") + model::hex(e.bytes);
  std::set<std::string> first;                     // the first field with bytes, or an empty one before it
  for (std::size_t i = 0; i <= field_at(e, 0); ++i) first.insert(c.rec->f[i].id);
  // how: state set beforehand, or the byte at which the device gives up
  auto judge = [&](bool write, std::size_t at, std::ios::iostate dead, bool throws, std::ios::iostate mask) {
    FaultBuf buf(write ? std::string_view() : std::string_view(e.bytes), at, throws);
    std::string inp = base + (write ? " written to" : " read from") + " a standard stream, " +
      (dead ? "state " + std::to_string(int(dead)) + " beforehand" : std::string(throws ? "throwing" : "ending") + " at byte " + std::to_string(at)) + ", exception mask " + std::to_string(int(mask));
    what(inp.substr(0, 390));
    std::istream is(&buf);
    std::ostream os(&buf);
    std::ios& s = write ? static_cast<std::ios&>(os) : static_cast<std::ios&>(is);
    if (dead) s.setstate(dead);
    if (!dead) s.exceptions(mask);
    const std::string raw0 = o->raw();
    Res r;
    bool threw = false;
    std::string ex;
    try { r = write ? c.e->extra->any_ostream(be, *o, os) : c.e->extra->any_istream(be, is); } catch (...) { alloc_state.watching = nullptr; threw = true; ex = ex_text(); }
    const std::string kind = std::string(write ? "std_write" : "std_read") + (dead ? "_dead" : throws ? "_throws" : "_ends") + (mask ? "_masked" : "");
    note("fault", be, inp, kind, "", true);
    count(kind);
    if (write && o->raw() != raw0) fail("source", "source changed under a failing stream", inp);
    if (buf.after) fail("afterfail", "the device was used again after it gave up", inp);
    if (dead && buf.calls) fail("dead", "the device of a failed stream was used", inp);
    if (!dead && mask) {
      const std::string want = throws ? "StreamBoom#" + std::to_string(at) : "ios_base::failure";
      if (!threw) fail("exception", "the stream's exception was swallowed: " + outcome(r.ok, r.reason, r.at), inp);
      else if (ex.find(want) == std::string::npos) fail("exception", "a different exception came out: " + ex, inp);
      return;
    }
    if (threw) { fail("throws", ex, inp); return; }
    const std::string fld = c.rec->f[field_at(e, at)].id;
    if (r.ok) { fail("lostfail", "success reported although the stream failed", inp); return; }
    if (r.reason != model::buffer_exhaustion || (dead ? !first.count(r.at) : r.at != fld)) fail("faultreason", "got " + outcome(r.ok, r.reason, r.at) + ", expected buffer_exhaustion@" + (dead ? *first.begin() : fld), inp);
    if (!s.fail()) fail("state", "the stream does not show the failure", inp);
    if (write && !dead && (buf.out.size() < e.starts[field_at(e, at)] || buf.out != e.bytes.substr(0, buf.out.size()))) fail("faultprefix", "emitted " + model::hex(buf.out), inp);
  };
  for (bool write : {false, true}) {
    for (auto d : {std::ios::failbit, std::ios::badbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit}) {
      if (write && d == std::ios::eofbit) continue;              // says nothing about an output
      judge(write, e.bytes.size(), d, false, std::ios::goodbit);
    }
    for (std::size_t at = 0; at < e.bytes.size(); at += 1 + g.below(e.bytes.size() / 24 + 1)) {
      judge(write, at, std::ios::goodbit, false, std::ios::goodbit);
      judge(write, at, std::ios::goodbit, false, write ? std::ios::badbit : std::ios::failbit);
      judge(write, at, std::ios::goodbit, true, std::ios::goodbit);
      judge(write, at, std::ios::goodbit, true, std::ios::badbit);
    }
  }
}
// leaks across exceptions: everything allocated inside a cast that threw is freed by the time it is out
static void w_fault_leaks(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  bool be = g.chance(1, 2) && !c.e->le_only;
  Encoded e = model::encode(*c.rec, v, be);
  if (!e.ok || e.bytes.size() > 400) { ++st.skipped; return; }
  MonIn probe(e.bytes);
  ReadObs pr = do_read(*c.e, be, probe);
  if (!pr.r.ok) { ++st.skipped; return; }
  const std::size_t nops = probe.nops;
  const u64 nallocs = pr.r.alloc.count;
  pr.r.obj.reset();
  for (std::size_t k = 0; k < nops + nallocs; ++k) {
    std::string inp = std::string(be ? "be " : "le ") + model::hex(e.bytes) + (k < nops ? " stream throws at op " + std::to_string(k) : " allocation " + std::to_string(k - nops) + " fails");
    what(inp.substr(0, 390));
    bool threw = false;
    std::int64_t before, after;
    {
      MonIn m(e.bytes);
      if (k < nops) m.throw_op = std::int64_t(k); else alloc_state.fail_at = std::int64_t(k - nops);
      before = alloc_state.net;
      try { Res r = c.e->read(be, m); } catch (...) { threw = true; }
      after = alloc_state.net;
      alloc_state.watching = nullptr;
      alloc_state.fail_at = -1;
    }
    note("fault", be, inp, "leakcheck", "", true);
    count("leak_checks");
    if (threw && after != before) fail("leak", std::to_string(after - before) + " blocks outlive a cast that threw", inp);
  }
}

// ------------------------------------------------------------ source untouched, no allocation
static void w_source(Ctx& c) {
  Rng g = rng_for(c);
  bool ok;
  Val v = unbalanced(c, g, ok);
  if (!ok) { ++st.skipped; return; }
  auto o = build(c, g, v);
  const std::string raw0 = o->raw();
  const Val v0 = o->get();
  const std::string inp = model::show(v0, 2000);
  what("source " + inp.substr(0, 340));
  std::map<int, std::pair<std::string, std::string>> first;
  for (int k = 0; k < 6; ++k) {
    bool be = g.chance(1, 2) && !c.e->le_only;
    MonOut m;
    bool faulty = g.chance(1, 4);
    if (faulty) { m.budget = g.below(12); m.partial = g.chance(1, 2); }
    const bool boom = !faulty && g.chance(1, 4);
    if (boom) m.throw_op = std::int64_t(g.below(8));
    Res r;
    bool threw = false;
    try { r = o->write(be, m); } catch (const StreamBoom&) { alloc_state.watching = nullptr; threw = true; } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
    if (threw) { faulty = true; count("sink_throws"); }
    std::string oc = threw ? "threw" : outcome(r.ok, r.reason, r.at);
    note("write", be, inp + std::to_string(faulty), oc, std::to_string(k), true);
    if (o->raw() != raw0) { fail("source", "the source's own bytes changed", inp); return; }
    if (!model::same(o->get(), v0)) { fail("source", "the source's values changed", inp); return; }
    if (r.alloc.count) { fail("walloc", "write allocated " + std::to_string(r.alloc.count) + " blocks (" + std::to_string(r.alloc.bytes) + " bytes)", inp); return; }
    if (faulty) continue;
    auto it = first.find(be);
    if (it == first.end()) first[be] = {oc, m.out};
    else if (it->second.first != oc || it->second.second != m.out) { fail("repeat", "writing the same struct again: " + it->second.first + " " + model::hex(it->second.second) + " then " + oc + " " + model::hex(m.out), inp); return; }
  }
}

// ------------------------------------------------------------ byte order
static std::string flip(const std::string& b, const std::vector<model::Leaf>& ls) {
  std::string o = b;
  for (auto& l : ls) if (l.swaps && l.off + l.len <= o.size()) std::reverse(o.begin() + std::ptrdiff_t(l.off), o.begin() + std::ptrdiff_t(l.off + l.len));
  return o;
}
static void w_order(Ctx& c) {
  if (c.e->le_only) return;
  Rng g = rng_for(c);
  {
    std::string b = g.chance(1, 2) ? hostile(c, g, false) : std::string();
    if (b.empty()) { Val v; if (valid(c, g, v)) b = model::encode(*c.rec, v, false).bytes + tail(g); }
    Decoded d = model::decode(*c.rec, b, false);    // gives the layout only
    std::string bb = flip(b, d.leaves);
    what("order " + model::hex(b).substr(0, 340));
    MonIn il(b), ib(bb);
    ReadObs a = do_read(*c.e, false, il), z = do_read(*c.e, true, ib);
    std::string inp = "le " + model::hex(b) + " be " + model::hex(bb);
    std::string oa = a.threw ? a.ex : outcome(a.r.ok, a.r.reason, a.r.at), oz = z.threw ? z.ex : outcome(z.r.ok, z.r.reason, z.r.at);
    note("order", false, b, oa, d.path, b != bb);
    if (oa != oz) fail("order", "little endian " + oa + ", big endian " + oz, inp);
    else if (a.r.ok) {
      if (!model::same(a.r.obj->get(), z.r.obj->get())) fail("order", "values differ: " + model::show(a.r.obj->get()) + " and " + model::show(z.r.obj->get()), inp);
      if (a.pos != z.pos) fail("order", "consumption differs", inp);
    }
  }
  auto mirror = [&](const Val& v) {
    auto o = build(c, g, v);
    Encoded e = model::encode(*c.rec, v, false);
    if (e.ambiguous || !e.fits) return;
    MonOut l, b;
    Res rl, rb;
    std::string inp = model::show(v, 2000);
    what("order write " + inp.substr(0, 340));
    try { rl = o->write(false, l); rb = o->write(true, b); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
    std::string ol = outcome(rl.ok, rl.reason, rl.at), ob = outcome(rb.ok, rb.reason, rb.at);
    note("order", true, inp, ol, e.path, !l.out.empty());
    if (ol != ob) { fail("order", "little endian " + ol + ", big endian " + ob, inp); return; }
    if (l.out.size() != b.out.size()) { fail("order", "lengths differ: " + model::hex(l.out) + " and " + model::hex(b.out), inp); return; }
    if (l.out.size() == e.bytes.size() && flip(l.out, e.leaves) != b.out) fail("order", "not a byte-order mirror: " + model::hex(l.out) + " and " + model::hex(b.out), inp);
  };
  bool ok;
  Val u = unbalanced(c, g, ok);
  if (ok) mirror(u);
  Val w;
  if (valid(c, g, w)) mirror(w);      // a struct whose write succeeds mirrors every byte
}

// ------------------------------------------------------------ access policy
static void w_access(Ctx& c) {
  Rng g = rng_for(c);
  const Rec& r = *c.rec;
  auto agree = [&](Obj& o, const char* state) {
    auto a = o.agree();
    for (std::size_t i = 0; i < a.size(); ++i) if (!a[i]) fail("twoviews", "through a const struct and through a mutable one, field " + r.f[i].id + " of a " + state + " struct reads differently", model::show(o.get(), 1500));
    count("const_and_mutable_views");
  };
  if (c.idx == 0) {
    for (std::size_t i = 0; i < r.f.size(); ++i) {
      const Access& a = c.e->access[i];
      int want = r.hidden(i) ? 0 : r.assignable(i) ? 7 : 3;
      note("access", false, a.id, want == 0 ? "hidden" : want == 3 ? "readonly" : "assignable", a.id, true);
      count(want == 0 ? "hidden_fields" : want == 3 ? "readonly_fields" : "assignable_fields");
      static const char* nm[8] = {"not accessible", "readable only through const", "?", "readable, not assignable", "?", "?", "?", "assignable"};
      if (a.bits != want) fail("access", std::string("field ") + a.id + " is " + nm[a.bits & 7] + ", expected " + nm[want], a.id);
      if (!a.csafe) fail("access", std::string("field ") + a.id + " is mutable through a const struct", a.id);
    }
    auto o = c.e->make();
    auto ad = o->addrs();
    std::set<const void*> seen;
    for (auto p : ad) if (p && !seen.insert(p).second) fail("alias", "two names reach the same storage", "");
  }
  Val v;
  if (!valid(c, g, v)) { ++st.skipped; return; }
  auto o = build(c, g, v);
  if (c.idx == 0) agree(*c.e->make(), "fresh");
  agree(*o, "filled");
  {
    bool be = g.chance(1, 2) && !c.e->le_only;
    Encoded e = model::encode(*c.rec, v, be);
    if (e.ok) { MonIn in(e.bytes); ReadObs ro = do_read(*c.e, be, in); if (ro.r.ok) { agree(*ro.r.obj, "parsed"); agree(*ro.r.obj->clone(), "copied"); } }
  }
  Val now = model::visible(r, v);
  for (u64 k = 0; k < 6; ++k) {
    std::size_t f = g.below(r.f.size());
    if (!r.assignable(f)) continue;
    Val x = model::gen_any(r.f[f], g, 5);
    Val w = now;
    w.l[f] = x;
    what("assign " + r.f[f].id + " " + model::show(x).substr(0, 300));
    const Val before = o->get();
    o->set(w, f);
    const Val after = o->get();
    note("assign", false, r.f[f].id + model::show(x), "assigned", r.f[f].id, true);
    for (std::size_t i = 0; i < r.f.size(); ++i) {
      if (r.hidden(i)) continue;
      if (i != f && !model::same(before.l[i], after.l[i])) fail("alias", "assigning " + r.f[f].id + " changed " + r.f[i].id, model::show(w, 1500));
    }
    // what is read back is what was assigned
    Val got = after.l[f], want = x;
    std::function<void(const Field&, Val&)> hide = [&](const Field& fl, Val& y) {
      switch (fl.k) {
        case Field::SUB: for (std::size_t i = 0; i < fl.rec->f.size(); ++i) { if (fl.rec->derived(i) || fl.rec->frozen(i)) y.l[i] = Val::hid(); else hide(fl.rec->f[i], y.l[i]); } break;
        case Field::AREC: case Field::VREC: for (auto& z : y.l) for (std::size_t i = 0; i < fl.rec->f.size(); ++i) { if (fl.rec->derived(i) || fl.rec->frozen(i)) z.l[i] = Val::hid(); else hide(fl.rec->f[i], z.l[i]); } break;
        case Field::OPT: if (!y.l.empty()) hide(fl.in[0], y.l[0]); break;
        case Field::UNI: hide(fl.in[y.idx], y.l[0]); break;
        default: break;
      }
    };
    hide(r.f[f], want);
    std::string where;
    if (!model::same(got, want, &where)) fail("assign", "assigned " + model::show(x) + " to " + r.f[f].id + " but it reads " + model::show(got), "");
    now.l[f] = x;
    judge_write(c, *o, now, g.chance(1, 2), BYTES | WERR);
  }
}

// ------------------------------------------------------------ other kinds of stream
static void w_streams(Ctx& c) {
  if (!c.e->extra) return;
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string path = opt.scratch + "/f" + std::to_string(getpid());
  {
    Val v;
    std::string b;
    if (g.chance(1, 2) && valid(c, g, v)) b = model::encode(*c.rec, v, be).bytes + tail(g); else b = hostile(c, g, be);
    if (b.size() > 4000 && !large_values) return;
    Decoded d = model::decode(*c.rec, b, be);
    if (d.mem_peak > 1u << (large_values ? 23 : 16)) return;
    what("streams " + model::hex(b).substr(0, 340));
    MonIn in(b);
    ReadObs ref = do_read(*c.e, be, in);
    std::string inp = std::string(be ? "be " : "le ") + model::hex(b), oref = outcome(ref.r.ok, ref.r.reason, ref.r.at);
    if (ref.threw) { fail("throws", ref.ex, inp); return; }
    auto cmp = [&](const char* kind, auto&& run) {
      std::size_t pos = 0;
      Res r;
      try { r = run(pos); } catch (...) { alloc_state.watching = nullptr; fail("throws", std::string(kind) + ": " + ex_text(), inp); return; }
      note("read", be, b, oref, kind, true);
      count(std::string("stream:") + kind);
      std::string o = outcome(r.ok, r.reason, r.at);
      if (o != oref) { fail("streamkind", std::string(kind) + " gives " + o + ", a custom stream " + oref, inp); return; }
      if (!r.ok) return;
      if (pos != ref.pos) fail("streamkind", std::string(kind) + " consumed " + std::to_string(pos) + ", a custom stream " + std::to_string(ref.pos), inp);
      std::string where;
      if (!model::same(r.obj->get(), ref.r.obj->get(), &where)) fail("streamkind", std::string(kind) + " yields other values: " + where, inp);
    };
    cmp("stringstream", [&](std::size_t& p) { return c.e->extra->sstream(be, b, p); });
    cmp("fstream", [&](std::size_t& p) { return c.e->extra->fstream(be, b, p, path.c_str()); });
    cmp("minimal", [&](std::size_t& p) { return c.e->extra->minimal(be, b, p); });
    if (c.e->extra->cxstream) cmp("constexpr_stream", [&](std::size_t& p) { return c.e->extra->cxstream(be, b, p); });
    // the same stream, failed beforehand
    MonIn dead(b), again(b);
    dead.ok = false;
    ref = do_read(*c.e, be, dead);
    if (ref.threw) { fail("throws", ref.ex, inp); return; }
    oref = outcome(ref.r.ok, ref.r.reason, ref.r.at);
    ref.pos = 0;
    auto dcmp = [&](const char* kind, auto&& run) { cmp(kind, [&](std::size_t& p) { p = DEAD; Res r = run(p); p = ref.pos; return r; }); };
    dcmp("dead stringstream", [&](std::size_t& p) { return c.e->extra->sstream(be, b, p); });
    if (g.chance(1, 8)) dcmp("dead fstream", [&](std::size_t& p) { return c.e->extra->fstream(be, b, p, path.c_str()); });
    dcmp("dead minimal", [&](std::size_t& p) { return c.e->extra->minimal(be, b, p); });
    if (c.e->extra->cxstream) dcmp("dead constexpr_stream", [&](std::size_t& p) { return c.e->extra->cxstream(be, b, p); });
    ref = do_read(*c.e, be, again);
    oref = outcome(ref.r.ok, ref.r.reason, ref.r.at);
    if (d.ok != ref.r.ok || (!d.ok && (d.reason != ref.r.reason || d.at != ref.r.at))) fail("outcome", "custom stream gives " + oref + ", expected " + outcome(d.ok, d.reason, d.at), inp);
  }
  {
    bool ok;
    Val v = unbalanced(c, g, ok);
    if (!ok) return;
    auto o = build(c, g, v);
    MonOut m;
    Res ref;
    std::string inp = std::string(be ? "be " : "le ") + model::show(v, 2000);
    what("streams write " + inp.substr(0, 340));
    try { ref = o->write(be, m); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
    if (m.out.size() > (large_values ? 1u << 21 : 4000u)) return;
    std::string oref = outcome(ref.ok, ref.reason, ref.at);
    auto cmp = [&](const char* kind, auto&& run) {
      std::string out;
      Res r;
      try { r = run(out); } catch (...) { alloc_state.watching = nullptr; fail("throws", std::string(kind) + ": " + ex_text(), inp); return; }
      note("write", be, inp, oref, kind, true);
      count(std::string("wstream:") + kind);
      std::string oc = outcome(r.ok, r.reason, r.at);
      if (oc != oref || out != m.out) fail("streamkind", std::string(kind) + " gives " + oc + " " + model::hex(out) + ", a custom stream " + oref + " " + model::hex(m.out), inp);
    };
    cmp("stringstream", [&](std::string& s) { return c.e->extra->w_sstream(be, *o, s, ALL); });
    cmp("fstream", [&](std::string& s) { return c.e->extra->w_fstream(be, *o, s, path.c_str()); });
    cmp("minimal", [&](std::string& s) { return c.e->extra->w_minimal(be, *o, s, ALL); });
    if (c.e->extra->w_cxstream) cmp("constexpr_stream", [&](std::string& s) { return c.e->extra->w_cxstream(be, *o, s, ALL); });
    // the same sink filling up after as many bytes
    if (!ref.ok || m.out.empty()) return;
    const std::size_t lim = g.chance(1, 8) ? DEAD : g.below(m.out.size());
    MonOut f;
    f.budget = lim == DEAD ? 0 : lim;
    f.ok = lim != DEAD;
    f.partial = true;
    Res fr;
    try { fr = o->write(be, f); } catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), inp); return; }
    const std::string fref = outcome(fr.ok, fr.reason, fr.at);
    auto lcmp = [&](const char* kind, auto&& run) {
      std::string out;
      Res r;
      try { r = run(out); } catch (...) { alloc_state.watching = nullptr; fail("throws", std::string(kind) + ": " + ex_text(), inp); return; }
      note("write", be, inp, fref, std::string(kind) + " full", true);
      count(std::string("fullsink:") + kind);
      std::string oc = outcome(r.ok, r.reason, r.at);
      if (oc != fref || out != m.out.substr(0, out.size())) fail("streamkind", std::string(kind) + " with room for " + std::to_string(lim) + " bytes gives " + oc + " " + model::hex(out) + ", a custom stream " + fref, inp);
    };
    lcmp("ostream", [&](std::string& s) { return c.e->extra->w_sstream(be, *o, s, lim); });
    lcmp("minimal", [&](std::string& s) { return c.e->extra->w_minimal(be, *o, s, lim); });
    if (c.e->extra->w_cxstream) lcmp("constexpr_stream", [&](std::string& s) { return c.e->extra->w_cxstream(be, *o, s, lim); });
  }
}

// ------------------------------------------------------------ equivalent spellings
static std::map<std::string, std::vector<const Entry*>> groups;
static void w_twins(Ctx& c) {
  if (!c.e->twin) return;
  auto& grp = groups[c.e->twin];
  if (grp[0] != c.e) return;
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  // ids differ between twins only in their per-schema prefix
  auto wrapped = [](const Entry* e) { const char* w = std::strstr(e->tags, ",wrap"); return w ? std::string(w + 5, std::strchr(w + 1, ',')) : std::string(); };
  auto unwrap = [&](const Entry* e, Val v) -> Val { std::string w = wrapped(e); if (w.empty()) return v; Val x = v.l[0]; return w == "sub" ? x : x.l.empty() ? Val() : x.l[0]; };
  auto wrap = [&](const Entry* e, const Val& v) -> Val {
    std::string w = wrapped(e);
    if (w.empty()) return v;
    Val r = Val::rec();
    if (w == "sub") r.l.push_back(v);
    else if (w == "opt") r.l.push_back(Val::some(v));
    else if (w == "uni") r.l.push_back(Val::var(0, v));
    else { Val l = Val::list(); l.l.push_back(v); r.l.push_back(l); }
    return r;
  };
  auto strip = [](const std::string& s) { auto p = s.find('_'); return p == std::string::npos ? s : s.substr(p + 1); };
  {
    std::string b = g.chance(1, 3) ? std::string() : hostile(c, g, be);
    if (b.empty()) { Val v; if (valid(c, g, v)) b = model::encode(*c.rec, v, be).bytes + tail(g); }
    what("twins " + model::hex(b).substr(0, 340));
    std::string inp = std::string(be ? "be " : "le ") + model::hex(b);
    std::string o0;
    Val v0;
    std::size_t p0 = 0;
    for (std::size_t k = 0; k < grp.size(); ++k) {
      MonIn in(b);
      ReadObs r = do_read(*grp[k], be, in);
      const bool wr = !wrapped(grp[k]).empty();
      if (wr && !r.r.ok && !r.threw && strip(r.r.at) != "wrap") fail("twin", std::string(grp[k]->name) + " reports " + r.r.at + " rather than the enclosing field", inp);
      std::string o = r.threw ? r.ex : wr && !r.r.ok ? std::string(model::reason_name(r.r.reason)) : outcome(r.r.ok, r.r.reason, strip(r.r.at));
      note("read", be, b, o, grp[k]->name, true);
      count(wr ? "nested_reads" : "twin_reads");
      if (k && wr && o0.find('@') != std::string::npos) o0.resize(o0.find('@'));
      if (!k) { o0 = o; p0 = r.pos; if (r.r.ok) v0 = r.r.obj->get(); continue; }
      if (o != o0) { fail("twin", std::string(grp[k]->name) + " gives " + o + ", " + grp[0]->name + " " + o0, inp); continue; }
      if (!r.r.ok) continue;
      if (r.pos != p0) fail("twin", "consumption differs", inp);
      if (!model::same(unwrap(grp[k], r.r.obj->get()), v0)) fail("twin", std::string(grp[k]->name) + " yields " + model::show(r.r.obj->get()) + ", " + grp[0]->name + " " + model::show(v0), inp);
    }
  }
  {
    bool ok;
    Val v = unbalanced(c, g, ok);
    if (!ok) return;
    std::string o0, b0, inp = std::string(be ? "be " : "le ") + model::show(v, 2000);
    what("twins write " + inp.substr(0, 340));
    for (std::size_t k = 0; k < grp.size(); ++k) {
      auto o = grp[k]->make();
      o->set(wrap(grp[k], v), ALL);
      MonOut m;
      std::string oc;
      const bool wr = !wrapped(grp[k]).empty();
      try { Res r = o->write(be, m); oc = wr && !r.ok ? std::string(model::reason_name(r.reason)) : outcome(r.ok, r.reason, strip(r.at)); } catch (...) { alloc_state.watching = nullptr; oc = ex_text(); }
      note("write", be, inp, oc, grp[k]->name, true);
      count(wr ? "nested_writes" : "twin_writes");
      if (k && wr && o0.find('@') != std::string::npos) o0.resize(o0.find('@'));
      if (!k) { o0 = oc; b0 = m.out; continue; }
      if (oc != o0 || m.out != b0) fail("twin", std::string(grp[k]->name) + " gives " + oc + " " + model::hex(m.out) + ", " + grp[0]->name + " " + o0 + " " + model::hex(b0), inp);
    }
  }
}

// ------------------------------------------------------------ outcome digests (to compare two builds)
static void w_digest(Ctx& c) {
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string b = g.chance(1, 3) ? std::string() : hostile(c, g, be);
  if (b.empty()) { Val v; if (valid(c, g, v)) b = model::encode(*c.rec, v, be).bytes + tail(g); }
  what("digest " + model::hex(b).substr(0, 340));
  MonIn in(b);
  ReadObs r = do_read(*c.e, be, in);
  std::string o = r.threw ? r.ex : outcome(r.r.ok, r.r.reason, r.r.at);
  std::string line = std::string(be ? "be " : "le ") + model::hex(b) + " -> " + o + (r.r.ok ? " pos " + std::to_string(r.pos) + " " + model::show(r.r.obj->get(), 3000) : "");
  bool ok;
  Val v = unbalanced(c, g, ok);
  if (ok) {
    auto ob = build(c, g, v);
    MonOut m;
    try { Res w = ob->write(be, m); line += " | " + model::show(v, 2000) + " -> " + outcome(w.ok, w.reason, w.at); } catch (...) { alloc_state.watching = nullptr; line += " | " + ex_text(); }
    line += " " + model::hex(m.out);
  }
  note("digest", be, line, o, "", true);
  std::printf("D %s %s %llu %016llx %s\n", c.e->name, c.work.c_str(), (unsigned long long)c.idx, (unsigned long long)model::hash_str(line), opt.verbose ? line.c_str() : "");
}

// ------------------------------------------------------------ cases for constant evaluation
static void w_emit(Ctx& c) {
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string a, b;
  Val v;
  for (int t = 0; t < 8; ++t) {
    a.clear();
    if (g.chance(1, 3)) a = hostile(c, g, be);
    else { model::GenOpt o; o.max_len = 3; if (model::gen_valid(*c.rec, g, v, o)) a = model::encode(*c.rec, v, be).bytes + tail(g); }
    if (a.size() <= 120 && model::decode(*c.rec, a, be).mem_peak <= 600) break;
    a.clear();
  }
  if (a.empty()) { ++st.skipped; return; }
  for (int t = 0; t < 8; ++t) {
    model::GenOpt o; o.max_len = 3;
    if (model::gen_valid(*c.rec, g, v, o)) b = model::encode(*c.rec, v, be).bytes;
    if (b.size() <= 120) break;
    b.clear();
  }
  note("emit", be, a, "", "", true);
  std::printf("K %s %d %s- %s- %llu\n", c.e->name, int(be), model::hex(a).c_str(), model::hex(b).c_str(), (unsigned long long)(g.chance(1, 4) ? g.next() : u64(1) << g.below(c.rec->f.size())));
}

// ------------------------------------------------------------ threads
struct Job { bool is_read; bool be; std::string bytes; std::unique_ptr<Obj> obj; std::string want; };
static std::string run_job(const Entry& e, const Job& j, Hook* hook = nullptr) {
  if (j.is_read) {
    MonIn in(j.bytes);
    in.hook = hook;
    Res r;
    try { r = e.read(j.be, in); } catch (...) { alloc_state.watching = nullptr; return "throws " + ex_text(); }
    return outcome(r.ok, r.reason, r.at) + " " + std::to_string(in.pos) + (r.ok ? " " + model::show(r.obj->get(), 100000) : "");
  }
  MonOut out;
  out.hook = hook;
  Res r;
  try { r = j.obj->write(j.be, out); } catch (...) { alloc_state.watching = nullptr; return "throws " + ex_text(); }
  return outcome(r.ok, r.reason, r.at) + " " + model::hex(out.out);
}
static void w_threads(Ctx& c) {
  Rng g = rng_for(c);
  std::vector<Job> jobs;
  for (int k = 0; k < 24; ++k) {
    Job j;
    j.be = g.chance(1, 2) && !c.e->le_only;
    j.is_read = g.chance(1, 2);
    if (j.is_read) {
      Val v;
      if (g.chance(1, 2) && valid(c, g, v)) j.bytes = model::encode(*c.rec, v, j.be).bytes; else j.bytes = hostile(c, g, j.be);
      if (model::decode(*c.rec, j.bytes, j.be).mem_peak > 1u << 20) continue;
    } else { bool ok; Val v = unbalanced(c, g, ok); if (!ok) continue; j.obj = build(c, g, v); }
    j.want = run_job(*c.e, j);                     // alone
    jobs.push_back(std::move(j));
  }
  if (jobs.empty()) { ++st.skipped; return; }
  const unsigned T = opt.thorough ? 8 : 4, R = 6;
  std::atomic<unsigned> ready{0};
  std::atomic<bool> go{false};
  std::vector<std::vector<std::pair<std::size_t, std::string>>> bad(T);
  std::vector<std::thread> ts;
  what("threads");
  for (unsigned t = 0; t < T; ++t)
    ts.emplace_back([&, t] {
      Rng lg(c.idx * 77 + t);
      ++ready;
      while (!go.load(std::memory_order_acquire)) std::this_thread::yield();
      for (unsigned rr = 0; rr < R; ++rr)
        for (std::size_t k = 0; k < jobs.size(); ++k) {
          std::size_t i = rr < 2 ? k : lg.below(jobs.size());     // in step first, then at random
          std::string got = run_job(*c.e, jobs[i]);
          if (got != jobs[i].want) bad[t].push_back({i, got});
        }
    });
  while (ready.load() < T) std::this_thread::yield();
  go.store(true, std::memory_order_release);
  for (auto& t : ts) t.join();
  for (auto& j : jobs) note(j.is_read ? "read" : "write", j.be, j.is_read ? j.bytes : j.want, j.want.substr(0, j.want.find(' ')), "", true);
  count("concurrent_casts", u64(T) * R * jobs.size());
  for (auto& b : bad) for (auto& [i, got] : b) { fail("concurrent", "concurrently: " + got.substr(0, 400) + "; alone: " + jobs[i].want.substr(0, 400), jobs[i].is_read ? model::hex(jobs[i].bytes) : "write"); return; }
}
// no cast depends on earlier ones: the same probe before and after arbitrary other casts
static std::vector<Ctx> all_ctx;
static bool make_job(Ctx& c, Rng& g, Job& j) {
  j.be = g.chance(1, 2) && !c.e->le_only;
  j.is_read = g.chance(1, 2);
  if (j.is_read) {
    Val v;
    if (g.chance(2, 3) && valid(c, g, v)) j.bytes = model::encode(*c.rec, v, j.be).bytes; else j.bytes = hostile(c, g, j.be);
    if (model::decode(*c.rec, j.bytes, j.be).mem_peak > 1u << 20) return false;
  } else {
    bool ok;
    Val v = unbalanced(c, g, ok);
    if (!ok) return false;
    j.obj = build(c, g, v);
  }
  j.want = run_job(*c.e, j);
  return true;
}
static std::string job_text(const Ctx& c, const Job& j) { return std::string(c.e->name) + (j.be ? " be " : " le ") + (j.is_read ? "read " + model::hex(j.bytes) : "write " + model::show(j.obj->get(), 600)); }
// ---- a cast made from inside the stream of another cast
struct Nested : Hook {
  struct Item { const Ctx* c; const Job* j; };
  std::vector<Item> items;
  std::size_t n = 0, from = 0, runs = 0;
  std::string bad;
  void at() override {
    if (n++ < from || runs >= 40 || items.empty()) return;
    AllocState keep = alloc_state;
    alloc_state.watching = nullptr; alloc_state.paused = 0;
    const Item& it = items[runs++ % items.size()];
    std::string got = run_job(*it.c->e, *it.j);
    if (got != it.j->want && bad.empty()) bad = "inner " + job_text(*it.c, *it.j) + ": " + got.substr(0, 300) + "; alone: " + it.j->want.substr(0, 300);
    alloc_state.watching = keep.watching; alloc_state.paused = keep.paused;
  }
};
static void w_nested(Ctx& c) {
  Rng g = rng_for(c);
  Job a;
  if (!make_job(c, g, a)) { ++st.skipped; return; }
  std::vector<std::pair<Ctx*, Job>> in;
  for (int k = 0; k < 4; ++k) {
    Ctx& o = all_ctx[g.chance(2, 3) ? std::size_t(&c - all_ctx.data()) : g.below(all_ctx.size())];
    Job j;
    if (make_job(o, g, j)) in.emplace_back(&o, std::move(j));
  }
  Nested h;
  for (auto& [o, j] : in) h.items.push_back({o, &j});
  if (!a.is_read) h.items.push_back({&c, &a});          // the very object being written
  h.from = g.chance(1, 2) ? 0 : g.below(8);
  what("nested " + job_text(c, a).substr(0, 340));
  std::string got = run_job(*c.e, a, &h);
  note("nested", a.be, job_text(c, a) + std::to_string(h.from), a.want.substr(0, a.want.find(' ')), "", h.runs > 0);
  count("nested_casts", h.runs);
  if (got != a.want) fail("nested", "with other casts made from its stream: " + got.substr(0, 400) + "; alone: " + a.want.substr(0, 400), job_text(c, a));
  else if (!h.bad.empty()) fail("nested", h.bad, job_text(c, a));
}
// ---- several casts advanced one stream operation at a time, in an order drawn at random
struct Baton {
  std::mutex m;
  std::condition_variable cv;
  int turn = -1, left;
  std::vector<bool> done;
  Rng g;
  u64 sched = 1469598103934665603ull, steps = 0;
  Baton(int n, u64 seed) : left(n), done(std::size_t(n)), g(seed) {}
  void pick() {                                       // under m
    if (!left) return;
    do turn = int(g.below(done.size())); while (done[std::size_t(turn)]);
    sched = (sched ^ u64(turn + 1)) * 1099511628211ull;
    ++steps;
    cv.notify_all();
  }
  void wait(int me) { std::unique_lock l(m); cv.wait(l, [&] { return turn == me; }); }
  void pass(int me) { std::unique_lock l(m); pick(); cv.wait(l, [&] { return turn == me; }); }
  void leave(int me) { std::unique_lock l(m); done[std::size_t(me)] = true; --left; pick(); }
};
struct Step : Hook {
  Baton& b; int me;
  Step(Baton& x, int i) : b(x), me(i) {}
  void at() override { b.pass(me); }
};
static void w_interleave(Ctx& c) {
  Rng g = rng_for(c);
  std::vector<std::pair<Ctx*, Job>> js;
  Val shared;
  for (u64 k = 0, n = 2 + g.below(2); k < n; ++k) {
    Ctx& o = all_ctx[k == 0 || g.chance(3, 4) ? std::size_t(&c - all_ctx.data()) : g.below(all_ctx.size())];
    Job j;
    if (make_job(o, g, j)) js.emplace_back(&o, std::move(j));
  }
  if (js.size() < 2) { ++st.skipped; return; }
  what("interleave " + job_text(*js[0].first, js[0].second).substr(0, 340));
  const int rounds = 3;
  for (int r = 0; r < rounds; ++r) {
    Baton b(int(js.size()), g.next());
    std::vector<std::string> got(js.size());
    std::vector<std::thread> ts;
    for (int i = 0; i < int(js.size()); ++i)
      ts.emplace_back([&, i] {
        b.wait(i);
        Step s(b, i);
        got[std::size_t(i)] = run_job(*js[std::size_t(i)].first->e, js[std::size_t(i)].second, &s);
        b.leave(i);
      });
    { std::unique_lock l(b.m); b.pick(); }
    for (auto& t : ts) t.join();
    count("interleaved_casts", js.size());
    count("interleaving_steps", b.steps);
    note("interleave", false, std::to_string(b.sched) + js[0].second.want, "run", std::to_string(b.sched), true);
    for (std::size_t i = 0; i < js.size(); ++i)
      if (got[i] != js[i].second.want) { fail("interleave", "interleaved with others: " + got[i].substr(0, 400) + "; alone: " + js[i].second.want.substr(0, 400), job_text(*js[i].first, js[i].second)); return; }
  }
}
static void w_memory(Ctx& c) {
  Rng g = rng_for(c);
  Job j;
  j.be = g.chance(1, 2) && !c.e->le_only;
  j.is_read = g.chance(1, 2);
  if (j.is_read) { Val v; if (g.chance(1, 2) && valid(c, g, v)) j.bytes = model::encode(*c.rec, v, j.be).bytes; else j.bytes = hostile(c, g, j.be); }
  else { bool ok; Val v = unbalanced(c, g, ok); if (!ok) { ++st.skipped; return; } j.obj = build(c, g, v); }
  what("history independence");
  std::string before = run_job(*c.e, j);
  note(j.is_read ? "read" : "write", j.be, j.is_read ? j.bytes : before, before.substr(0, before.find(' ')), "m", true);
  for (int k = 0; k < 12; ++k) {
    Ctx& o = all_ctx[g.chance(1, 2) ? std::size_t(&c - all_ctx.data()) : g.below(all_ctx.size())];
    if (g.chance(1, 2)) {
      bool be = g.chance(1, 2) && !o.e->le_only;
      std::string b = hostile(o, g, be);
      MonIn in(b);
      if (g.chance(1, 4)) in.throw_op = std::int64_t(g.below(4));
      hold(do_read(*o.e, be, in).r);
    } else {
      bool ok;
      Val v = unbalanced(o, g, ok);
      if (!ok) continue;
      auto ob = o.e->make();
      ob->set(v, ALL);
      MonOut m;
      if (g.chance(1, 4)) m.budget = g.below(9);
      try { hold(ob->write(g.chance(1, 2) && !o.e->le_only, m)); } catch (...) { alloc_state.watching = nullptr; }
    }
    if (auto m = held_changed(); !m.empty()) { fail("held", m, job_text(c, j)); return; }
    std::string now = run_job(*c.e, j);
    count("history_probes");
    if (now != before) { fail("history", "before: " + before.substr(0, 400) + "; after other casts: " + now.substr(0, 400), j.is_read ? model::hex(j.bytes) : "write"); return; }
  }
}

// ------------------------------------------------------------ everything at once, for the sanitizers
static void w_abuse(Ctx& c) {
  Rng g = rng_for(c);
  bool be = g.chance(1, 2) && !c.e->le_only;
  std::string b = hostile(c, g, be);
  std::unique_ptr<Obj> o;
  // an exactly sized heap copy, so that one byte too many is seen
  std::unique_ptr<char[]> heap(new char[b.size() ? b.size() : 1]);
  std::memcpy(heap.get(), b.data(), b.size());
  what("abuse " + std::string(be ? "be " : "le ") + model::hex(b).substr(0, 340));
  {
    MonIn in(std::string_view(heap.get(), b.size()));
    in.partial = g.chance(1, 2);
    if (g.chance(1, 6)) in.fail_op = std::int64_t(g.below(6));
    if (g.chance(1, 6)) in.throw_op = std::int64_t(g.below(6));
    ReadObs r = do_read(*c.e, be, in);
    if (r.threw && r.ex.find("StreamBoom") == std::string::npos) fail("throws", r.ex, model::hex(b));
    if (in.neg) fail("negcount", "negative byte count asked of the stream", model::hex(b));
    if (r.r.ok) o = std::move(r.r.obj);
    note("read", be, b, r.threw ? "throws" : outcome(r.r.ok, r.r.reason, r.r.at), "", true);
  }
  if (!o) { Val v; bool ok = valid(c, g, v); o = ok ? build(c, g, v) : c.e->make(); }
  Val v = o->get();
  // inspect, copy, move, assign, edit, write, destroy
  auto p = o->clone();
  if (g.chance(1, 2)) p->assign(*o);
  if (g.chance(1, 2)) { auto q = o->take(); if (g.chance(1, 2)) o->assign(*q); else o = std::move(q); }
  if (!model::same(p->get(), v)) fail("copy", "a copy differs from its source", model::show(v, 1500));
  for (int k = 0; k < 3; ++k) {
    Val w = p->get();
    if (w.k == Val::REC) { std::size_t f = g.below(c.rec->f.size()); if (c.rec->assignable(f)) { w.l[f] = model::gen_any(c.rec->f[f], g, 6); p->set(w, f); } }
    MonOut m;
    if (g.chance(1, 5)) m.budget = g.below(10);
    if (g.chance(1, 8)) m.throw_op = std::int64_t(g.below(5));
    what("abuse write " + model::show(p->get(), 340));
    bool wbe = g.chance(1, 2) && !c.e->le_only;
    try { Res r = p->write(wbe, m); note("write", wbe, model::hex(m.out), outcome(r.ok, r.reason, r.at), "", true); }
    catch (const StreamBoom&) { alloc_state.watching = nullptr; }
    catch (...) { alloc_state.watching = nullptr; fail("throws", ex_text(), model::show(p->get(), 1500)); }
  }
  p->assign(*p->clone());
}

// ------------------------------------------------------------ plans
struct Work { const char* name; u64 quick, thorough; std::function<void(Ctx&)> fn; std::function<bool(const Ctx&)> want; };
static std::function<bool(const Ctx&)> any_of(std::vector<const char*> fs) {
  return [fs](const Ctx& c) { for (auto f : fs) if (has(c.feat, f)) return true; return false; };
}
static bool yes(const Ctx&) { return true; }
static void w_large_roundtrip(Ctx& c) {
  Rng g = rng_for(c);
  Val v;
  if (!large(c, g, v)) { ++st.skipped; return; }
  auto o = build(c, g, v);
  roundtrip(c, *o, c.idx & 1, "large");
}
static bool has_prefix(const Ctx& c, const char* p) { return ("," + c.feat).find("," + std::string(p)) != std::string::npos; }
static std::map<std::string, std::vector<Work>> plans() {
  std::map<std::string, std::vector<Work>> p;
  auto rd = [](void (*f)(Ctx&, unsigned), unsigned a) { return [f, a](Ctx& c) { f(c, a); }; };
  auto con = [](const Ctx& c) { return has_prefix(c, "con:"); };
  auto opt_ = [](const Ctx& c) { return has(c.feat, "opt"); };
  auto uni = [](const Ctx& c) { return has(c.feat, "uni"); };
  auto box = any_of({"vec", "str", "vrec", "opt.vec", "opt.str", "opt.vrec", "alt.vec", "alt.str", "alt.vrec"});
  auto der = any_of({"derived_len", "derived_disc", "verified_len"});
  p["C01"] = {{"valid", 120, 3000, rd(w_valid_read, VALUE | ERROR), yes}, {"hostile", 300, 9000, rd(w_hostile_read, VALUE), yes}, {"sweep", 5, 80, rd(w_sweep, VALUE), yes}, {"large", 6, 24, [](Ctx& c) { w_large(c, VALUE | ERROR, 0); }, box}};
  p["C02"] = {{"hostile", 500, 15000, rd(w_hostile_read, ERROR), yes}, {"truncate", 12, 250, rd(w_truncate, ERROR), yes}, {"sweep", 6, 100, rd(w_sweep, ERROR), yes}, {"valid", 30, 500, rd(w_valid_read, ERROR), yes}, {"large", 3, 24, [](Ctx& c) { w_large(c, ERROR, 0); }, box}};
  p["C03"] = {{"concat", 80, 2000, w_concat, yes}, {"hostile", 300, 9000, rd(w_hostile_read, CONSUME), yes}, {"truncate", 10, 200, rd(w_truncate, CONSUME), yes}, {"sweep", 4, 60, rd(w_sweep, CONSUME), yes}, {"large", 6, 24, [](Ctx& c) { w_large(c, CONSUME, 0); }, box}, {"stdconcat", 40, 1000, w_std_concat, yes}};
  p["C04"] = {{"valid", 250, 6000, rd(w_valid_write, BYTES | WERR), yes}, {"history", 40, 900, rd(w_history, BYTES), yes}, {"large", 6, 24, [](Ctx& c) { w_large(c, 0, BYTES | WERR); }, box}, {"stdwrite", 60, 1500, rd(w_std_write, BYTES | WERR), yes}};
  p["C05"] = {{"unbalanced", 500, 14000, rd(w_unbalanced_write, WERR), yes}, {"history", 40, 900, rd(w_history, WERR), yes}, {"default", 1, 1, rd(w_default_write, WERR), yes}, {"valueless", 6, 60, rd(w_valueless, WERR), uni}, {"large", 3, 24, largely(rd(w_unbalanced_write, WERR)), box}};
  p["C06"] = {{"unbalanced", 500, 14000, rd(w_unbalanced_write, PREFIX), yes}, {"history", 40, 900, rd(w_history, PREFIX), yes}, {"default", 1, 1, rd(w_default_write, PREFIX), yes}, {"faults", 2, 30, w_faults, yes}, {"stdwrite", 60, 1500, rd(w_std_write, PREFIX), yes}, {"large", 3, 24, largely(rd(w_unbalanced_write, PREFIX)), box}, {"largefaults", 1, 6, largely(w_faults), box}};
  p["C07"] = {{"roundtrip", 200, 6000, w_roundtrip, yes}, {"large", 6, 24, w_large_roundtrip, box}};
  p["C08"] = {{"history", 90, 2500, rd(w_history, BYTES | WERR | PREFIX), der}, {"unbalanced", 300, 9000, rd(w_unbalanced_write, BYTES | WERR | PREFIX), der}, {"valid", 60, 900, rd(w_valid_write, BYTES | WERR), der}, {"lengths", 6, 60, w_ceiling_write, der}, {"large", 3, 24, [](Ctx& c) { w_large(c, 0, BYTES | WERR); }, der}};
  p["C09"] = {{"pinned", 3, 30, w_pinned, any_of({"pinned", "con:eq", "con:aeq", "con:beq"})}, {"constraints", 4, 40, [](Ctx& c) { w_constraints(c, ERROR | VALUE, WERR | BYTES | PREFIX); }, any_of({"con:eq", "con:aeq", "con:beq"})},
              {"hostile", 200, 4000, rd(w_hostile_read, ERROR), any_of({"pinned"})}, {"unbalanced", 100, 2000, rd(w_unbalanced_write, BYTES | WERR), any_of({"pinned"})}};
  p["C10"] = {{"constraints", 10, 120, [](Ctx& c) { w_constraints(c, ERROR | VALUE, WERR | BYTES | PREFIX); }, con}, {"hostile", 200, 5000, rd(w_hostile_read, ERROR), con}, {"unbalanced", 200, 5000, rd(w_unbalanced_write, WERR), con}, {"sweep", 6, 90, rd(w_sweep, ERROR), con}};
  p["C11"] = {{"ceiling", 6, 90, w_ceiling, box}, {"ceilwrite", 6, 60, w_ceiling_write, box}, {"default", 1, 4, w_ceiling_default, box}, {"hostile", 60, 2000, rd(w_hostile_read, ERROR | ALLOC), box}};
  p["C12"] = {{"abuse", 160, 4000, w_abuse, yes}, {"truncate", 2, 40, rd(w_truncate, 0), yes}, {"sweep", 1, 20, rd(w_sweep, 0), yes}, {"ceiling", 1, 6, w_ceiling, box}, {"valueless", 6, 60, rd(w_valueless, 0), uni}, {"large", 3, 24, [](Ctx& c) { w_large(c, VALUE | ERROR, BYTES); }, box}, {"largeabuse", 3, 40, largely(w_abuse), box}};
  p["C12v"] = {{"abuse", 10, 60, w_abuse, yes}, {"valid", 2, 20, rd(w_valid_read, VALUE), yes}};
  p["C13"] = {{"faults", 14, 260, w_faults, yes}, {"leaks", 6, 90, w_fault_leaks, yes}, {"dead", 20, 300, w_dead, yes}, {"stdfaults", 5, 100, w_std_faults, yes}, {"largefaults", 2, 12, largely(w_faults), box}};
  p["C14"] = {{"streams", 260, 5000, w_streams, yes}, {"large", 3, 24, largely(w_streams), box}};
  p["C14e"] = {{"emit", 8, 40, w_emit, yes}};
  p["C15"] = {{"sweep", 16, 300, rd(w_sweep, RALL & ~ALLOC), opt_}, {"hostile", 400, 9000, rd(w_hostile_read, RALL & ~ALLOC), opt_}, {"unbalanced", 500, 12000, rd(w_unbalanced_write, WERR | BYTES | PREFIX), opt_}, {"history", 60, 1500, rd(w_history, WERR | BYTES | PREFIX), opt_}, {"large", 2, 16, [](Ctx& c) { w_large(c, RALL & ~ALLOC, WERR | BYTES | PREFIX); }, any_of({"opt.vec", "opt.str", "opt.vrec"})}};
  p["C16"] = {{"sweep", 16, 300, rd(w_sweep, RALL & ~ALLOC), uni}, {"hostile", 400, 9000, rd(w_hostile_read, RALL & ~ALLOC), uni}, {"unbalanced", 500, 12000, rd(w_unbalanced_write, WERR | BYTES | PREFIX), uni}, {"history", 60, 1500, rd(w_history, WERR | BYTES | PREFIX), uni}, {"valueless", 6, 60, rd(w_valueless, WERR | PREFIX), uni}, {"large", 2, 16, [](Ctx& c) { w_large(c, RALL & ~ALLOC, WERR | BYTES | PREFIX); }, any_of({"alt.vec", "alt.str", "alt.vrec"})}};
  p["C17"] = {{"source", 160, 4000, w_source, yes}, {"large", 3, 24, largely(w_source), box}};
  p["C18"] = {{"threads", 2, 24, w_threads, yes}, {"memory", 12, 300, w_memory, yes}, {"nested", 12, 400, w_nested, yes}, {"interleave", 5, 150, w_interleave, yes}, {"large", 1, 8, largely(w_memory), box}};
  p["C19"] = {{"order", 400, 12000, w_order, yes}, {"large", 4, 40, largely(w_order), box}};
  p["C20"] = {{"twins", 500, 12000, w_twins, yes}, {"large", 4, 40, largely(w_twins), box}};
  p["C21"] = {{"access", 60, 1200, w_access, yes}};
  p["C22"] = {{"digest", 120, 2500, w_digest, yes}, {"large", 2, 16, largely(w_digest), box}};
  p["C22j"] = {{"valid", 20, 400, rd(w_valid_read, RALL), yes}, {"hostile", 80, 2000, rd(w_hostile_read, RALL), yes}, {"truncate", 2, 30, rd(w_truncate, RALL), yes}, {"sweep", 3, 40, rd(w_sweep, RALL), yes}, {"concat", 8, 200, w_concat, yes}, {"large", 1, 8, [](Ctx& c) { w_large(c, RALL, WALL); }, box},
               {"wvalid", 30, 600, rd(w_valid_write, WALL), yes}, {"unbalanced", 120, 3000, rd(w_unbalanced_write, WALL), yes}, {"history", 20, 400, rd(w_history, WALL), yes}, {"default", 1, 1, rd(w_default_write, WALL), yes}, {"valueless", 2, 20, rd(w_valueless, WALL), uni},
               {"constraints", 4, 40, [](Ctx& c) { w_constraints(c, ERROR | VALUE, WERR | BYTES | PREFIX); }, con}, {"pinned", 1, 10, w_pinned, any_of({"pinned", "con:eq", "con:aeq", "con:beq"})}, {"ceiling", 2, 20, w_ceiling, box}, {"ceilwrite", 2, 20, w_ceiling_write, box},
               {"streams", 20, 400, w_streams, yes}, {"stdconcat", 4, 80, w_std_concat, yes}, {"stdwrite", 8, 120, rd(w_std_write, BYTES | WERR | PREFIX), yes}, {"stdfaults", 1, 10, w_std_faults, yes}, {"faults", 2, 30, w_faults, yes}, {"source", 10, 200, w_source, yes}, {"memory", 2, 40, w_memory, yes}, {"nested", 2, 40, w_nested, yes}, {"order", 30, 800, w_order, yes}, {"access", 6, 100, w_access, yes}};
  return p;
}
}  // namespace vf

int main(int argc, char** argv) {
  using namespace vf;
  std::string shmpath, ceiling;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") opt.prop = v;
    else if (a == "--schema") opt.schema = v;
    else if (a == "--work") opt.work = v;
    else if (a == "--seed") opt.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--case") opt.only = std::atoll(v.c_str());
    else if (a == "--tier") opt.thorough = v == "thorough";
    else if (a == "--verbose") opt.verbose = v == "1";
    else if (a == "--shard") { opt.shard = std::atoi(v.c_str()); opt.shards = std::atoi(v.c_str() + v.find('/') + 1); }
    else if (a == "--shm") shmpath = v;
    else if (a == "--scratch") opt.scratch = v;
    else if (a == "--scale") opt.scale = std::atof(v.c_str());
    else if (a == "--ceiling") model::default_ceiling = std::strtoull(v.c_str(), nullptr, 10);
    else { std::fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  static Shm local;
  shm = &local;
  if (!shmpath.empty()) {
    int fd = open(shmpath.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shm))) return 2;
    void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 2;
    shm = static_cast<Shm*>(m);
  }
  auto ps = plans();
  if (!ps.count(opt.prop)) { std::fprintf(stderr, "no plan for %s\n", opt.prop.c_str()); return 2; }
  auto& reg = registry();
  std::sort(reg.begin(), reg.end(), [](const Entry& a, const Entry& b) { return std::string(a.name) < b.name; });
  for (auto& e : reg) {
    Ctx c;
    c.e = &e;
    try { c.rec = model::parse_schema(e.text, e.sizes); } catch (const std::exception& x) { std::fprintf(stderr, "%s: %s\n", e.name, x.what()); return 2; }
    c.feat = model::features(*c.rec);
    all_ctx.push_back(std::move(c));
    if (e.twin) groups[e.twin].push_back(&e);
  }
  std::map<std::string, u64> feats;
  u64 schemas = 0, unit = 0;
  for (auto& c : all_ctx) {
    if (!opt.schema.empty() && opt.schema != c.e->name) continue;
    bool used = false;
    for (auto& w : ps[opt.prop]) {
      if (!opt.work.empty() && opt.work != w.name) continue;
      if (!w.want(c)) continue;
      u64 mine = unit++;
      if (opt.shards > 1 && mine % u64(opt.shards) != u64(opt.shard)) continue;
      used = true;
      c.work = w.name;
      u64 n = u64(double(opt.thorough ? w.thorough : w.quick) * opt.scale);
      if (!n) n = 1;
      for (u64 i = 0; i < n; ++i) {
        if (opt.only >= 0 && u64(opt.only) != i) continue;
        c.idx = i;
        cur = &c;
        std::snprintf(shm->schema, sizeof shm->schema, "%s", c.e->name);
        std::snprintf(shm->work, sizeof shm->work, "%s", w.name);
        shm->idx = i;
        w.fn(c);
      }
    }
    if (used) { ++schemas; std::string f = c.feat + ","; for (std::size_t a = 0, b; (b = f.find(',', a)) != std::string::npos; a = b + 1) ++feats[f.substr(a, b - a)]; }
  }
  std::printf("{\"summary\":1,\"evals\":%llu,\"distinct\":%llu,\"classes\":%llu,\"skipped\":%llu,\"schemas\":%llu,\"violations\":%d", (unsigned long long)st.evals, (unsigned long long)st.distinct.size(),
              (unsigned long long)st.classes.size(), (unsigned long long)st.skipped, (unsigned long long)schemas, violations);
  std::printf(",\"counters\":{");
  bool first = true;
  for (auto& [k, v] : st.n) { std::printf("%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  std::printf("},\"features\":{");
  first = true;
  for (auto& [k, v] : feats) { std::printf("%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
  std::printf("},\"samples\":[");
  first = true;
  for (auto& s : st.samples) { std::printf("%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  std::printf("]}\n");
  std::fflush(stdout);
  return violations ? 1 : 0;
}
