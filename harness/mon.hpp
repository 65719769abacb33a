// Monitors: instrumented streams, allocation monitor, type-erased objects.
#pragma once
#include "model.hpp"
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <istream>
#include <ostream>
#include <memory>
#include <string>
#include <vector>

namespace vf {
using model::Val;

// ------------------------------------------------------------ allocation monitor
struct AllocStats {
  std::uint64_t count = 0, bytes = 0, max_single = 0, frees = 0;
  std::int64_t live = 0;          // blocks allocated minus freed while watching
};
struct AllocState {
  AllocStats* watching = nullptr;
  int paused = 0;
  std::int64_t fail_at = -1;      // throw bad_alloc at this allocation (0-based)
  std::int64_t net = 0;           // blocks this thread has allocated and not freed, watched or not
};
extern thread_local AllocState alloc_state;
struct AllocScope {
  AllocStats& st;
  bool on = true;
  explicit AllocScope(AllocStats& s) : st(s) { alloc_state.watching = &s; }
  void stop() { if (on) { alloc_state.watching = nullptr; on = false; } }
  ~AllocScope() { stop(); }
};
struct AllocPause {
  AllocPause() { ++alloc_state.paused; }
  ~AllocPause() { --alloc_state.paused; }
};

struct StreamBoom { int token; };   // what a throwing stream throws

// ------------------------------------------------------------ streams
struct Op { std::size_t off, len; bool refused; };
struct Hook { virtual void at() = 0; virtual ~Hook() = default; };   // runs as each stream operation begins and ends
struct Around {
  Hook* h;
  explicit Around(Hook* k) : h(k) { if (h) h->at(); }
  ~Around() { if (h) h->at(); }
};
class MonIn {
public:
  std::string_view data;
  std::size_t pos = 0;
  bool ok = true;
  bool partial = false;             // a refused read still delivers what there was
  std::uint64_t zeros = 0;          // endless zeros follow the data, up to this many
  std::int64_t fail_op = -1, throw_op = -1;
  std::size_t nops = 0, after_fail = 0, refused_at = 0, bool_tests = 0;
  std::uint64_t asked = 0;          // bytes requested in total
  std::uint64_t max_end = 0;        // furthest byte asked for
  bool neg = false;                 // a negative count was requested
  bool log = false;
  std::vector<Op> ops;
  Hook* hook = nullptr;
  explicit MonIn(std::string_view d) : data(d) {}
  MonIn(const MonIn&) = delete;
  MonIn& operator=(const MonIn&) = delete;
  MonIn& read(char* dst, std::streamsize n) {
    AllocPause p;
    Around a(hook);
    if (!ok) { ++after_fail; ++nops; return *this; }
    if (n < 0) { neg = true; ok = false; ++nops; return *this; }
    const std::size_t k = nops++;
    asked += std::uint64_t(n);
    if (pos + std::uint64_t(n) > max_end) max_end = pos + std::uint64_t(n);
    if (std::int64_t(k) == throw_op) { ok = false; throw StreamBoom{int(k)}; }
    const std::uint64_t size = data.size() + zeros;
    const bool refuse = std::int64_t(k) == fail_op || pos + std::uint64_t(n) > size;
    if (log) ops.push_back({pos, std::size_t(n), refuse});
    std::uint64_t give = std::uint64_t(n);
    if (refuse) {
      ok = false; refused_at = pos;
      if (!partial) return *this;
      give = std::int64_t(k) == fail_op ? std::uint64_t(n) / 2 : size - pos;
    }
    copy(dst, give);
    pos += give;
    return *this;
  }
  explicit operator bool() const { return ok; }
private:
  void copy(char* dst, std::uint64_t n) {
    std::uint64_t a = pos < data.size() ? std::min<std::uint64_t>(n, data.size() - pos) : 0;
    if (a) std::memcpy(dst, data.data() + pos, a);
    if (n > a) std::memset(dst + a, 0, n - a);
  }
};
class MonOut {
public:
  std::string out;
  bool ok = true;
  bool partial = false;
  std::uint64_t budget = ~std::uint64_t(0);   // bytes accepted before refusing
  std::int64_t fail_op = -1, throw_op = -1;
  std::size_t nops = 0, after_fail = 0;
  bool log = false;
  std::vector<Op> ops;
  Hook* hook = nullptr;
  MonOut() { out.reserve(512); }
  MonOut(const MonOut&) = delete;
  MonOut& operator=(const MonOut&) = delete;
  MonOut& write(const char* src, std::size_t n) {
    AllocPause p;
    Around a(hook);
    if (!ok) { ++after_fail; ++nops; return *this; }
    const std::size_t k = nops++;
    if (std::int64_t(k) == throw_op) { ok = false; throw StreamBoom{int(k)}; }
    const bool refuse = std::int64_t(k) == fail_op || n > budget - out.size();
    if (log) ops.push_back({out.size(), n, refuse});
    if (refuse) {
      ok = false;
      if (partial) out.append(src, std::int64_t(k) == fail_op ? n / 2 : std::size_t(budget - out.size()));
      return *this;
    }
    out.append(src, n);
    return *this;
  }
  explicit operator bool() const { return ok; }
};

// ------------------------------------------------------------ type-erased objects
struct Obj;
struct Res {
  bool ok = false;
  int reason = -1;
  std::string at;
  std::string_view view;               // failed_at itself, as the caller may keep it
  std::unique_ptr<Obj> obj;
  AllocStats alloc;
};
struct Obj {
  virtual ~Obj() = default;
  virtual std::unique_ptr<Obj> clone() const = 0;
  virtual std::unique_ptr<Obj> take() = 0;                     // moved-from afterwards
  virtual void assign(const Obj&) = 0;
  virtual Val get() const = 0;
  virtual void set(const Val&, std::size_t only) = 0;          // every assignable field, or one
  virtual Res write(bool be, MonOut&) const = 0;
  virtual std::string raw() const = 0;
  virtual std::vector<const void*> addrs() const = 0;
  virtual std::vector<bool> agree() = 0;                       // per field: const and mutable access show the same
};
constexpr std::size_t ALL = std::size_t(-1);

struct Access { const char* id; int bits; bool csafe; };  // bits: 0 hidden, 3 read only, 7 assignable
struct Extra {                       // other kinds of stream, when built in
  Res (*sstream)(bool be, const std::string& in, std::size_t& pos);
  Res (*fstream)(bool be, const std::string& in, std::size_t& pos, const char* path);
  Res (*minimal)(bool be, const std::string& in, std::size_t& pos);
  Res (*cxstream)(bool be, const std::string& in, std::size_t& pos);
  Res (*w_sstream)(bool be, const Obj&, std::string& out, std::size_t limit);
  Res (*w_fstream)(bool be, const Obj&, std::string& out, const char* path);
  Res (*w_minimal)(bool be, const Obj&, std::string& out, std::size_t limit);
  Res (*w_cxstream)(bool be, const Obj&, std::string& out, std::size_t limit);
  Res (*any_istream)(bool be, std::istream&);          // a standard stream the driver prepared
  Res (*any_ostream)(bool be, const Obj&, std::ostream&);
};
constexpr std::size_t DEAD = std::size_t(-2);           // as position or limit: the stream has already failed
struct Entry {
  const char* name;
  const char* tags;                  // comma separated, leading and trailing comma
  const char* text;
  const std::size_t* sizes;
  bool le_only;
  Res (*read)(bool be, MonIn&);
  std::unique_ptr<Obj> (*make)();
  const Access* access;
  std::size_t n_access;
  const Extra* extra;
  const char* twin;                  // group of schemas that must behave alike
};
std::vector<Entry>& registry();
struct Register { explicit Register(const Entry& e) { registry().push_back(e); } };
}  // namespace vf
