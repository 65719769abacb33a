// Reference model of the documented wire format. Knows nothing about s2s: it
// works on a textual schema description and on dynamic values, and is written
// from the documentation (docs/*.md), not from the headers under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace model {
using i128 = __int128;
using u64 = std::uint64_t;

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) { s = next(); s ^= next() << 1; }   // nearby seeds must not give shifted streams
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
};
u64 hash_str(std::string_view s, u64 h = 1469598103934665603ull);
std::string hex(std::string_view b);
std::string unhex(std::string_view h);
std::string dec(i128 v);

enum Reason { buffer_exhaustion = 0, validation_failure, type_deduction_failure, found_contradicting_length, excessive_length };
const char* reason_name(int r);

// ---------------------------------------------------------------- values
struct Val {
  enum K { INT, BYTES, LIST, REC, OPT, VAR, HID } k = INT;
  i128 i = 0;              // INT
  std::string b;           // BYTES
  std::vector<Val> l;      // LIST elements, REC fields, OPT (0/1), VAR (1)
  std::size_t idx = 0;     // VAR
  static Val integer(i128 v) { Val r; r.k = INT; r.i = v; return r; }
  static Val bytes(std::string v) { Val r; r.k = BYTES; r.b = std::move(v); return r; }
  static Val list() { Val r; r.k = LIST; return r; }
  static Val rec() { Val r; r.k = REC; return r; }
  static Val none() { Val r; r.k = OPT; return r; }
  static Val some(Val v) { Val r; r.k = OPT; r.l.push_back(std::move(v)); return r; }
  static Val var(std::size_t i, Val v) { Val r; r.k = VAR; r.idx = i; r.l.push_back(std::move(v)); return r; }
  static Val valueless() { Val r; r.k = VAR; r.idx = std::size_t(-1); return r; }   // a variant an exception left empty
  bool lost() const { return k == VAR && idx == std::size_t(-1); }
  static Val hid() { Val r; r.k = HID; return r; }
};
bool same(const Val& a, const Val& b, std::string* where = nullptr);  // HID matches anything
std::string show(const Val& v, std::size_t limit = 400);

// ---------------------------------------------------------------- schema
struct Ty { int bytes = 1; bool sgn = false, isbool = false, flt = false; std::string name; };
Ty ty_of(const std::string& n);
i128 ty_min(const Ty&), ty_max(const Ty&);
i128 wrap(const Ty& t, u64 raw);   // raw bits -> value of the type

struct Expr { std::string op; i128 c = 0; std::string id, sub; std::vector<Expr> a; };
struct Con {
  std::string op;                 // "" = none
  std::vector<i128> c;
  std::string b, field;
  bool pins() const { return op == "eq" || op == "aeq" || op == "beq"; }
};
struct Size { bool is_len = false; std::string id; Expr e; };

struct Rec;
struct Field {
  enum K { INT, ARR, FSTR, VEC, STR, SUB, AREC, VREC, OPT, UNI } k = INT;
  std::string id;
  Ty ty;
  int width = 0;
  std::vector<std::size_t> dims;
  std::size_t n = 0;               // FSTR N, AREC count
  Size size;
  u64 bound = 0;                   // 0: default
  std::size_t elem_mem = 0;        // in-memory size of one element
  Con con;
  std::shared_ptr<Rec> rec;
  std::vector<Field> in;           // OPT: the payload; UNI: the alternatives
  Expr pred;                       // OPT
  enum S { MATCH, COMP, LADDER } sel = MATCH;
  std::string sel_id;
  Expr sel_expr;
  Ty sel_ty;
  std::vector<i128> keys;
  std::vector<Expr> branches;
  bool is_container() const { return k == VEC || k == STR || k == VREC; }
  bool fixed_leaf() const { return k == INT || k == ARR || k == FSTR; }
};
struct Rec {
  std::vector<Field> f;
  // roles, computed by finish()
  std::vector<bool> len_derived, disc_derived, cond_len;
  bool sat = true;                 // a valid value was found when the schema was loaded
  void finish();
  int find(const std::string& id) const;
  bool derived(std::size_t i) const { return len_derived[i] || disc_derived[i]; }
  bool frozen(std::size_t i) const { return f[i].fixed_leaf() && f[i].con.pins(); }
  bool hidden(std::size_t i) const { return len_derived[i]; }
  bool assignable(std::size_t i) const { return !derived(i) && !frozen(i); }
};
std::shared_ptr<Rec> parse_schema(const char* text, const std::size_t* sizes);
Val visible(const Rec& r, const Val& full);       // hides what operator[] hides
std::string features(const Rec& r);               // comma separated, for coverage

// ---------------------------------------------------------------- codec
extern u64 default_ceiling;
struct Leaf {                       // one scalar (or byte run) on the wire
  std::size_t off, len;
  bool swaps;                       // byte order applies
  char role;                        // 'v' plain, 'l' length, 'd' discriminant, 'z' pinned, 's' string bytes, 'e' element
  const Field* field;
};
struct Decoded {
  bool ok = false;
  int reason = -1;
  std::string at;
  Val v;
  std::size_t consumed = 0;        // ok: total; failure: bytes before the failing leaf
  std::size_t extent = 0;          // furthest byte any correct reader may ask for
  std::size_t fail_off = 0;        // where the failing innermost field starts
  std::size_t fail_done = 0;       // failure other than exhaustion: bytes that must have been taken
  std::vector<Leaf> leaves;
  u64 mem_peak = 0;                // largest container footprint legitimately allocated
  bool saw_container = false;
  unsigned kinds = 0;              // bit per Field::K reached
  std::string path;                // selection path, for distinctness: alternatives/presence taken
};
Decoded decode(const Rec& r, std::string_view bytes, bool be);

struct Encoded {
  bool ok = false;
  std::set<int> reasons;           // acceptable reasons when several faults coincide in one field
  std::string at;
  std::string bytes;               // complete encoding, or exactly what may precede the failing field
  bool ambiguous = false;          // the documentation does not settle it; skip
  bool fits = true;                // every plain integer fits its declared width
  std::vector<std::size_t> starts; // top-level field start offsets
  std::vector<Leaf> leaves;
  std::string path;
};
Encoded encode(const Rec& r, const Val& v, bool be);

bool con_ok(const Con& c, const Field& f, const Val& v);
extern thread_local bool ignore_con;      // encode/decode as if nothing were constrained
// values at and around every edge of the field's constraint, each of the field's own type
std::vector<Val> con_candidates(const Rec* r, const Field& f, const Val& now, Rng& g);
struct Slot { const Rec* rec; const Field* f; Val* v; bool payload; };
std::vector<Slot> slots(const Rec& r, Val& v);   // every field at every nesting level
bool fits_width(const Field& f, i128 v);
std::vector<i128> edge_ints(const Field& f);
u64 ceiling_of(const Field& f);

// ---------------------------------------------------------------- generators
struct GenOpt { std::size_t max_len = 6; bool big = false; int tries = 200; u64 large = 0; };   // large: aim at containers of this many elements
bool gen_valid(const Rec& r, Rng& g, Val& out, const GenOpt& o = {});
// an arbitrary value of the field's type, not necessarily consistent
Val gen_any(const Field& f, Rng& g, std::size_t max_len);
// consistent -> possibly inconsistent; returns a description
std::string perturb(const Rec& r, Val& v, Rng& g);
std::string mutate_bytes(const std::string& in, const std::vector<Leaf>& leaves, bool be, Rng& g, std::string& what);
i128 interesting_int(const Field& f, Rng& g, const Rec* r);
}  // namespace model
