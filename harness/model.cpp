#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <stdexcept>

namespace model {
u64 default_ceiling = 16u * 1024u * 1024u;
thread_local bool ignore_con = false;

u64 hash_str(std::string_view s, u64 h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
std::string hex(std::string_view b) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : b) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
std::string unhex(std::string_view h) {
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string o;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += char(v(h[i]) * 16 + v(h[i + 1]));
  return o;
}
std::string dec(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  std::string s;
  while (v != 0) { int d = int(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
const char* reason_name(int r) {
  static const char* n[] = {"buffer_exhaustion", "validation_failure", "type_deduction_failure", "found_contradicting_length", "excessive_length"};
  return r >= 0 && r < 5 ? n[r] : "?";
}

// ------------------------------------------------------------------ values
bool same(const Val& a, const Val& b, std::string* where) {
  if (a.k == Val::HID || b.k == Val::HID) return true;
  auto no = [&](const char* what) { if (where) *where = what + *where; return false; };
  if (a.k != b.k) return no(" kind");
  switch (a.k) {
    case Val::INT: return a.i == b.i ? true : no((" " + dec(a.i) + " vs " + dec(b.i)).c_str());
    case Val::BYTES: return a.b == b.b ? true : no((" " + hex(a.b).substr(0, 80) + " vs " + hex(b.b).substr(0, 80)).c_str());
    case Val::VAR: if (a.idx != b.idx) return no(" alternative"); break;
    default: break;
  }
  if (a.l.size() != b.l.size()) return no((" size " + std::to_string(a.l.size()) + " vs " + std::to_string(b.l.size())).c_str());
  for (std::size_t i = 0; i < a.l.size(); ++i)
    if (!same(a.l[i], b.l[i], where)) { if (where) *where = "[" + std::to_string(i) + "]" + *where; return false; }
  return true;
}
static void show_to(const Val& v, std::string& o, std::size_t limit) {
  if (o.size() > limit) { if (o.back() != '~') o += "...~"; return; }
  switch (v.k) {
    case Val::INT: o += dec(v.i); break;
    case Val::BYTES: o += "x'" + hex(v.b) + "'"; break;
    case Val::HID: o += "#"; break;
    case Val::VAR: if (v.lost()) { o += "<valueless>"; break; } o += "<" + std::to_string(v.idx) + ":"; show_to(v.l[0], o, limit); o += ">"; break;
    default:
      o += v.k == Val::REC ? "{" : v.k == Val::OPT ? "?(" : "[";
      for (std::size_t i = 0; i < v.l.size(); ++i) { if (i) o += ","; show_to(v.l[i], o, limit); }
      o += v.k == Val::REC ? "}" : v.k == Val::OPT ? ")" : "]";
  }
}
std::string show(const Val& v, std::size_t limit) { std::string o; show_to(v, o, limit); return o; }

// ------------------------------------------------------------------ types
Ty ty_of(const std::string& n) {
  Ty t; t.name = n;
  if (n == "bool") { t.isbool = true; return t; }
  if (n == "char") { t.sgn = true; return t; }          // x86-64
  if (n == "f32") { t.bytes = 4; t.flt = true; return t; }
  if (n == "f64") { t.bytes = 8; t.flt = true; return t; }
  t.sgn = n[0] == 'i';
  t.bytes = std::atoi(n.c_str() + 1) / 8;
  return t;
}
i128 ty_min(const Ty& t) { return t.sgn ? -(i128(1) << (t.bytes * 8 - 1)) : 0; }
i128 ty_max(const Ty& t) {
  if (t.isbool) return 1;
  return (i128(1) << (t.bytes * 8 - (t.sgn ? 1 : 0))) - 1;
}
i128 wrap(const Ty& t, u64 raw) {
  if (t.isbool) return raw != 0;
  if (t.bytes < 8) raw &= (u64(1) << (t.bytes * 8)) - 1;
  if (t.sgn && (raw >> (t.bytes * 8 - 1) & 1)) return i128(raw) - (i128(1) << (t.bytes * 8));
  return i128(raw);
}

// ------------------------------------------------------------------ parser
namespace {
struct Sx { std::string atom; std::vector<Sx> l; bool is_atom = false;
  const std::string& a() const { if (!is_atom) throw std::runtime_error("schema: atom expected"); return atom; }
  const std::string& head() const { return l.at(0).a(); } };
Sx parse_sx(const char*& p) {
  while (*p == ' ' || *p == '\n') ++p;
  Sx s;
  if (*p == '(') {
    ++p;
    for (;;) {
      while (*p == ' ' || *p == '\n') ++p;
      if (*p == ')') { ++p; return s; }
      if (!*p) throw std::runtime_error("schema: unbalanced");
      s.l.push_back(parse_sx(p));
    }
  }
  s.is_atom = true;
  while (*p && *p != ' ' && *p != '(' && *p != ')' && *p != '\n') s.atom += *p++;
  return s;
}
i128 num(const std::string& s) {
  bool neg = s[0] == '-';
  i128 v = 0;
  for (std::size_t i = neg; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
  return neg ? -v : v;
}
Expr to_expr(const Sx& s) {
  Expr e; e.op = s.head();
  if (e.op == "c") e.c = num(s.l[1].a());
  else if (e.op == "f" || e.op == "sz" || e.op == "has" || e.op == "idx" || e.op == "ov" || e.op == "bk") e.id = s.l[1].a();
  else if (e.op == "el") { e.id = s.l[1].a(); e.c = std::stoll(s.l[2].a()); }
  else if (e.op == "rf") { e.id = s.l[1].a(); e.sub = s.l[2].a(); }
  else for (std::size_t i = 1; i < s.l.size(); ++i) e.a.push_back(to_expr(s.l[i]));
  return e;
}
Con to_con(const Sx& s) {
  Con c;
  if (s.l.empty()) return c;
  c.op = s.head();
  if (c.op == "beq" || c.op == "bneq" || c.op == "bany") { c.b = unhex(s.l[1].a()); return c; }
  std::size_t i = 1;
  if (c.op == "reclt" || c.op == "allreclt") c.field = s.l[i++].a();
  for (; i < s.l.size(); ++i) c.c.push_back(num(s.l[i].a()));
  return c;
}
Size to_size(const Sx& s) {
  Size z;
  if (s.head() == "len") { z.is_len = true; z.id = s.l[1].a(); }
  else z.e = to_expr(s.l[1]);
  return z;
}
std::shared_ptr<Rec> to_rec(const Sx& s, const std::size_t* sizes);
std::vector<std::size_t> to_dims(const Sx& s) {
  std::vector<std::size_t> d;
  for (auto& x : s.l) d.push_back(std::size_t(num(x.a())));
  return d;
}
Field to_field(const Sx& s, const std::size_t* sizes) {
  Field f;
  const std::string h = s.head();
  f.id = s.l[1].a();
  auto at = [&](std::size_t i) -> const Sx& { return s.l.at(i); };
  if (h == "int") { f.k = Field::INT; f.ty = ty_of(at(2).a()); f.width = int(num(at(3).a())); f.con = to_con(at(4)); }
  else if (h == "arr") { f.k = Field::ARR; f.ty = ty_of(at(2).a()); f.dims = to_dims(at(3)); f.con = to_con(at(4)); }
  else if (h == "fstr") { f.k = Field::FSTR; f.n = std::size_t(num(at(2).a())); f.con = to_con(at(3)); }
  else if (h == "vec") {
    f.k = Field::VEC; f.ty = ty_of(at(2).a()); f.dims = to_dims(at(3)); f.size = to_size(at(4));
    f.bound = u64(num(at(5).a())); f.con = to_con(at(6));
    f.elem_mem = std::size_t(f.ty.bytes);
    for (auto d : f.dims) f.elem_mem *= d;
  }
  else if (h == "str") { f.k = Field::STR; f.size = to_size(at(2)); f.bound = u64(num(at(3).a())); f.con = to_con(at(4)); f.elem_mem = 1; }
  else if (h == "sub") { f.k = Field::SUB; f.rec = to_rec(at(2), sizes); f.con = to_con(at(3)); }
  else if (h == "arec") { f.k = Field::AREC; f.rec = to_rec(at(2), sizes); f.n = std::size_t(num(at(3).a())); f.con = to_con(at(4)); }
  else if (h == "vrec") {
    f.k = Field::VREC; f.rec = to_rec(at(2), sizes); f.size = to_size(at(3)); f.bound = u64(num(at(4).a()));
    f.con = to_con(at(5)); f.elem_mem = sizes[std::size_t(num(at(6).a()))];
  }
  else if (h == "opt") { f.k = Field::OPT; f.in.push_back(to_field(at(2), sizes)); f.pred = to_expr(at(3)); }
  else if (h == "uni") {
    f.k = Field::UNI;
    const Sx& sel = at(2);
    if (sel.head() == "match") { f.sel = Field::MATCH; f.sel_id = sel.l[1].a(); }
    else if (sel.head() == "comp") { f.sel = Field::COMP; f.sel_expr = to_expr(sel.l[1]); f.sel_ty = ty_of(sel.l[2].a()); }
    else f.sel = Field::LADDER;
    for (auto& a : at(3).l) {
      if (f.sel == Field::LADDER) f.branches.push_back(to_expr(a.l[0])); else f.keys.push_back(num(a.l[0].a()));
      f.in.push_back(to_field(a.l[1], sizes));
    }
    f.con = to_con(at(4));
  }
  else throw std::runtime_error("schema: kind " + h);
  return f;
}
std::shared_ptr<Rec> to_rec(const Sx& s, const std::size_t* sizes) {
  auto r = std::make_shared<Rec>();
  if (s.head() != "rec") throw std::runtime_error("schema: rec expected");
  for (std::size_t i = 1; i < s.l.size(); ++i) r->f.push_back(to_field(s.l[i], sizes));
  r->finish();
  return r;
}
}  // namespace
static void probe(Rec& r);
std::shared_ptr<Rec> parse_schema(const char* text, const std::size_t* sizes) {
  const char* p = text;
  auto r = to_rec(parse_sx(p), sizes);
  probe(*r);
  return r;
}
int Rec::find(const std::string& id) const {
  for (std::size_t i = 0; i < f.size(); ++i) if (f[i].id == id) return int(i);
  return -1;
}
void Rec::finish() {
  len_derived.assign(f.size(), false); disc_derived = cond_len = len_derived;
  auto mark = [&](std::vector<bool>& v, const std::string& id) { int i = find(id); if (i >= 0) v[std::size_t(i)] = true; };
  for (auto& x : f) {
    if (x.is_container() && x.size.is_len) mark(len_derived, x.size.id);
    if (x.k == Field::UNI && x.sel == Field::MATCH) mark(disc_derived, x.sel_id);
    for (auto& y : x.in) if (y.is_container() && y.size.is_len) mark(cond_len, y.size.id);
  }
}
static void feat(const Rec& r, std::set<std::string>& s, int depth) {
  static const char* kn[] = {"int", "arr", "fstr", "vec", "str", "sub", "arec", "vrec", "opt", "uni"};
  std::function<void(const Field&, const std::string&)> one = [&](const Field& f, const std::string& pre) {
    s.insert(pre + kn[f.k]);
    if (f.k == Field::INT && f.width < f.ty.bytes) s.insert("narrow");
    if (f.k == Field::INT && f.ty.sgn) s.insert("signed");
    if (!f.con.op.empty()) s.insert("con:" + f.con.op);
    if (f.is_container()) s.insert(f.size.is_len ? "len_from_field" : "len_from_fields");
    if (f.bound) s.insert("max_bytes");
    if (f.k == Field::UNI) s.insert(f.sel == Field::MATCH ? "switch" : f.sel == Field::COMP ? "computed_switch" : "ladder");
    for (auto& y : f.in) one(y, f.k == Field::OPT ? "opt." : "alt.");
    if (f.rec) feat(*f.rec, s, depth + 1);
  };
  for (auto& x : r.f) one(x, "");
  for (std::size_t i = 0; i < r.f.size(); ++i) {
    if (r.len_derived[i]) s.insert("derived_len");
    if (r.disc_derived[i]) s.insert("derived_disc");
    if (r.cond_len[i]) s.insert("verified_len");
    if (r.frozen(i)) s.insert("pinned");
  }
  if (depth) s.insert("nest" + std::to_string(depth));
}
std::string features(const Rec& r) {
  std::set<std::string> s; feat(r, s, 0);
  std::string o; for (auto& x : s) o += (o.empty() ? "" : ",") + x;
  return o;
}
static Val visible_field(const Field& f, const Val& v) {
  if (v.k == Val::HID) return v;
  switch (f.k) {
    case Field::SUB: return visible(*f.rec, v);
    case Field::AREC: case Field::VREC: { Val r = Val::list(); for (auto& e : v.l) r.l.push_back(visible(*f.rec, e)); return r; }
    case Field::OPT: return v.l.empty() ? v : Val::some(visible_field(f.in[0], v.l[0]));
    case Field::UNI: if (v.lost()) return v; return Val::var(v.idx, visible_field(f.in[v.idx], v.l[0]));
    default: return v;
  }
}
Val visible(const Rec& r, const Val& full) {
  Val o = Val::rec();
  for (std::size_t i = 0; i < r.f.size(); ++i) o.l.push_back(r.hidden(i) ? Val::hid() : visible_field(r.f[i], full.l[i]));
  return o;
}

// ------------------------------------------------------------------ expressions, constraints
using Getter = std::function<Val(const std::string&)>;
static u64 eval(const Expr& e, const Rec& r, const Getter& get) {
  if (e.op == "c") return u64(e.c);
  if (e.op == "f") return u64(get(e.id).i);
  if (e.op == "sz") { Val v = get(e.id); return v.k == Val::BYTES ? v.b.size() : v.l.size(); }
  if (e.op == "has") return !get(e.id).l.empty();
  if (e.op == "idx") return get(e.id).idx;
  if (e.op == "el") { Val v = get(e.id); return v.k == Val::BYTES ? u64((long long)((signed char)v.b[std::size_t(e.c)])) : u64(v.l[std::size_t(e.c)].i); }
  if (e.op == "ov") { Val v = get(e.id); return v.l.empty() ? 0 : u64(v.l[0].i); }
  if (e.op == "bk") { Val v = get(e.id); return v.k == Val::BYTES ? v.b.empty() ? 0 : u64((long long)((signed char)v.b.back())) : v.l.empty() ? 0 : u64(v.l.back().i); }
  if (e.op == "rf") {
    Val v = get(e.id);
    const Field& sf = r.f[std::size_t(r.find(e.id))];
    return u64(v.l[std::size_t(sf.rec->find(e.sub))].i);
  }
  u64 a = e.a.size() > 0 ? eval(e.a[0], r, get) : 0, b = e.a.size() > 1 ? eval(e.a[1], r, get) : 0;
  if (e.op == "add") return a + b;
  if (e.op == "sub") return a - b;
  if (e.op == "mul") return a * b;
  if (e.op == "and") return a & b;
  if (e.op == "shr") return a >> (b & 63);
  if (e.op == "mod") return a % b;
  if (e.op == "eq") return a == b;
  if (e.op == "ne") return a != b;
  if (e.op == "lt") return a < b;
  if (e.op == "gt") return a > b;
  if (e.op == "land") return a && b;
  if (e.op == "lor") return a || b;
  if (e.op == "not") return !a;
  throw std::runtime_error("expr " + e.op);
}
static void flat(const Val& v, std::vector<i128>& o) { if (v.k == Val::INT) o.push_back(v.i); else for (auto& x : v.l) flat(x, o); }
bool con_ok(const Con& c, const Field& f, const Val& v) {
  if (c.op.empty() || ignore_con) return true;
  if (c.op == "eq") return v.i == c.c[0];
  if (c.op == "neq") return v.i != c.c[0];
  if (c.op == "lt") return v.i < c.c[0];
  if (c.op == "gt") return v.i > c.c[0];
  if (c.op == "lte") return v.i <= c.c[0];
  if (c.op == "gte") return v.i >= c.c[0];
  if (c.op == "any") return std::find(c.c.begin(), c.c.end(), v.i) != c.c.end();
  if (c.op == "aeq" || c.op == "aneq") { std::vector<i128> x; flat(v, x); return (x == c.c) == (c.op == "aeq"); }
  if (c.op == "alt" || c.op == "agt" || c.op == "alte") {
    std::vector<i128> x; flat(v, x);
    return c.op == "alt" ? x < c.c : c.op == "agt" ? x > c.c : x <= c.c;
  }
  if (c.op == "aany") {
    std::vector<i128> x; flat(v, x);
    for (std::size_t i = 0; i < c.c.size(); i += x.size()) if (std::equal(x.begin(), x.end(), c.c.begin() + std::ptrdiff_t(i))) return true;
    return false;
  }
  if (c.op == "bany") { for (std::size_t i = 0; i < c.b.size(); i += v.b.size()) if (c.b.compare(i, v.b.size(), v.b) == 0) return true; return false; }
  if (c.op == "beq") return v.b == c.b;
  if (c.op == "bneq") return v.b != c.b;
  if (c.op == "szle") return (v.k == Val::BYTES ? v.b.size() : v.l.size()) <= u64(c.c[0]);
  if (c.op == "szge") return (v.k == Val::BYTES ? v.b.size() : v.l.size()) >= u64(c.c[0]);
  if (c.op == "lastne") {
    if (v.k == Val::BYTES) return v.b.empty() || i128((signed char)v.b.back()) != c.c[0];
    return v.l.empty() || v.l.back().i != c.c[0];
  }
  if (c.op == "firstne") {
    if (v.k == Val::BYTES) return v.b.empty() || i128((signed char)v.b[0]) != c.c[0];
    if (v.l.empty()) return true;
    const Val* x = &v.l[0];
    while (x->k == Val::LIST) x = &x->l[0];
    return x->i != c.c[0];
  }
  if (c.op == "even") return (v.i & 1) == 0;
  if (c.op == "reclt") return v.l[std::size_t(f.rec->find(c.field))].i < c.c[0];
  if (c.op == "allreclt") { for (auto& e : v.l) if (!(e.l[std::size_t(f.rec->find(c.field))].i < c.c[0])) return false; return true; }
  if (c.op == "idxne") return v.idx != u64(c.c[0]);
  throw std::runtime_error("con " + c.op);
}
u64 ceiling_of(const Field& f) { return f.bound ? f.bound : default_ceiling; }

bool fits_width(const Field& f, i128 v) {
  if (v < ty_min(f.ty) || v > ty_max(f.ty)) return false;
  if (f.width < f.ty.bytes && (v < 0 || v >= (i128(1) << (f.width * 8)))) return false;
  return true;
}
static std::size_t scalars(const std::vector<std::size_t>& d) { std::size_t n = 1; for (auto x : d) n *= x; return n; }
static char role_of(const Rec& r, std::size_t i) {
  if (r.len_derived[i] || r.cond_len[i]) return 'l';
  if (r.disc_derived[i]) return 'd';
  if (r.frozen(i)) return 'z';
  return 'v';
}

// ------------------------------------------------------------------ decode
namespace {
struct Dec {
  std::string_view in; bool be; Decoded& d; std::size_t pos = 0;
  bool need(u64 n) {
    u64 end = pos + n;
    if (end > d.extent) d.extent = end;
    if (end > in.size()) { d.fail_off = pos; d.fail_done = pos; return false; }
    return true;
  }
  u64 scalar(int w) {
    u64 v = 0;
    for (int i = 0; i < w; ++i) { unsigned char b = (unsigned char)in[pos + std::size_t(be ? i : w - 1 - i)]; v = v << 8 | b; }
    pos += std::size_t(w);
    return v;
  }
  Val nested(const Ty& t, const std::vector<std::size_t>& dims, std::size_t level, const Field* f, char role) {
    if (level == dims.size()) { d.leaves.push_back({pos, std::size_t(t.bytes), t.bytes > 1, role, f}); return Val::integer(wrap(t, scalar(t.bytes))); }
    Val v = Val::list();
    for (std::size_t i = 0; i < dims[level]; ++i) v.l.push_back(nested(t, dims, level + 1, f, role));
    return v;
  }
  int fail_here(int reason, std::size_t off) { d.fail_off = off; d.fail_done = pos; return reason; }

  // -1: read, else the reason
  int field(const Rec& r, const Field& f, char role, const Val& sofar, Val& out) {
    auto get = [&](const std::string& id) { return sofar.l[std::size_t(r.find(id))]; };
    const std::size_t start = pos;
    d.kinds |= 1u << f.k;
    switch (f.k) {
      case Field::INT: {
        if (!need(u64(f.width))) return buffer_exhaustion;
        d.leaves.push_back({pos, std::size_t(f.width), f.width > 1, role, &f});
        u64 raw = scalar(f.width);
        out = Val::integer(f.width < f.ty.bytes ? i128(raw) : wrap(f.ty, raw));
        break;
      }
      case Field::ARR:
        if (!need(scalars(f.dims) * u64(f.ty.bytes))) return buffer_exhaustion;
        out = nested(f.ty, f.dims, 0, &f, role);
        break;
      case Field::FSTR:
        if (!need(f.n + 1)) return buffer_exhaustion;
        d.leaves.push_back({pos, f.n + 1, false, role == 'z' ? 'z' : 's', &f});
        out = Val::bytes(std::string(in.substr(pos, f.n + 1)));
        pos += f.n + 1;
        break;
      case Field::VEC: case Field::STR: case Field::VREC: {
        u64 count = f.size.is_len ? u64(get(f.size.id).i) : eval(f.size.e, r, get);
        d.saw_container = true;
        if (count > ceiling_of(f) / f.elem_mem) return fail_here(excessive_length, start);
        d.mem_peak = std::max<u64>(d.mem_peak, count * f.elem_mem);
        if (f.k == Field::STR) {
          if (!need(count)) return buffer_exhaustion;
          if (count) d.leaves.push_back({pos, std::size_t(count), false, 's', &f});
          out = Val::bytes(std::string(in.substr(pos, count)));
          pos += count;
        } else if (f.k == Field::VEC) {
          if (!need(count * f.elem_mem)) return buffer_exhaustion;
          out = Val::list();
          for (u64 i = 0; i < count; ++i) out.l.push_back(nested(f.ty, f.dims, 0, &f, 'e'));
        } else {
          out = Val::list();
          for (u64 i = 0; i < count; ++i) {
            Val e;
            if (int rs = rec(*f.rec, e, nullptr); rs >= 0) return rs;
            out.l.push_back(std::move(e));
          }
        }
        break;
      }
      case Field::SUB: if (int rs = rec(*f.rec, out, nullptr); rs >= 0) return rs; break;
      case Field::AREC:
        out = Val::list();
        for (std::size_t i = 0; i < f.n; ++i) {
          Val e;
          if (int rs = rec(*f.rec, e, nullptr); rs >= 0) return rs;
          out.l.push_back(std::move(e));
        }
        break;
      case Field::OPT: {
        bool present = eval(f.pred, r, get) != 0;
        d.path += present ? "+" : "-";
        if (!present) { out = Val::none(); break; }
        Val v;
        if (int rs = field(r, f.in[0], 'v', sofar, v); rs >= 0) return rs;
        out = Val::some(std::move(v));
        break;
      }
      case Field::UNI: {
        std::size_t idx = f.in.size();
        if (f.sel == Field::LADDER) {
          for (std::size_t i = 0; i < f.branches.size(); ++i) if (eval(f.branches[i], r, get)) { idx = i; break; }
        } else {
          i128 v = f.sel == Field::MATCH ? get(f.sel_id).i : wrap(f.sel_ty, eval(f.sel_expr, r, get));
          for (std::size_t i = 0; i < f.keys.size(); ++i) if (f.keys[i] == v) { idx = i; break; }
        }
        if (idx == f.in.size()) { d.path += "x"; return fail_here(type_deduction_failure, start); }
        d.path += std::to_string(idx);
        Val v;
        if (int rs = field(r, f.in[idx], 'v', sofar, v); rs >= 0) return rs;
        out = Val::var(idx, std::move(v));
        break;
      }
    }
    if (!con_ok(f.con, f, out)) return fail_here(validation_failure, start);
    return -1;
  }
  int rec(const Rec& r, Val& out, std::string* at) {
    out = Val::rec();
    out.l.resize(r.f.size());
    for (std::size_t i = 0; i < r.f.size(); ++i) {
      int rs = field(r, r.f[i], role_of(r, i), out, out.l[i]);
      if (rs >= 0) { if (at) *at = r.f[i].id; return rs; }
    }
    return -1;
  }
};
}  // namespace
Decoded decode(const Rec& r, std::string_view bytes, bool be) {
  Decoded d;
  Dec x{bytes, be, d};
  Val v;
  int rs = x.rec(r, v, &d.at);
  d.ok = rs < 0;
  d.reason = rs;
  d.consumed = x.pos;
  if (d.ok) d.v = std::move(v);
  return d;
}

// ------------------------------------------------------------------ encode
namespace {
struct Enc {
  bool be; Encoded& e;
  void raw(u64 v, int w, char role, const Field* f) {
    e.leaves.push_back({e.bytes.size(), std::size_t(w), w > 1, role, f});
    for (int i = 0; i < w; ++i) e.bytes += char(v >> (8 * (be ? w - 1 - i : i)));
  }
  void nested(const Ty& t, const Val& v, char role, const Field* f) {
    if (v.k == Val::INT) raw(u64(v.i), t.bytes, role, f); else for (auto& x : v.l) nested(t, x, role, f);
  }
  struct Der { bool any = false, agree = true, lost = false; i128 v = 0; };
  static Der derive(const Rec& r, const Val& val, std::size_t i) {
    Der d;
    auto rec = [&](i128 v) { if (d.any && v != d.v) d.agree = false; d.any = true; d.v = v; };
    for (std::size_t k = 0; k < r.f.size(); ++k) {
      const Field& p = r.f[k];
      if (p.is_container() && p.size.is_len && p.size.id == r.f[i].id) rec(i128(count(val.l[k])));
      if (p.k == Field::UNI && p.sel == Field::MATCH && p.sel_id == r.f[i].id) { if (val.l[k].lost()) d.lost = true; else rec(p.keys[val.l[k].idx]); }
    }
    return d;
  }
  static std::size_t count(const Val& v) { return v.k == Val::BYTES ? v.b.size() : v.l.size(); }
  static Val pinned(const Field& f) {
    if (f.k == Field::INT) return Val::integer(f.con.c[0]);
    if (f.k == Field::FSTR) return Val::bytes(f.con.b);
    std::size_t at = 0;
    std::function<Val(std::size_t)> mk = [&](std::size_t lv) {
      if (lv == f.dims.size()) return Val::integer(f.con.c[at++]);
      Val v = Val::list();
      for (std::size_t i = 0; i < f.dims[lv]; ++i) v.l.push_back(mk(lv + 1));
      return v;
    };
    return mk(0);
  }
  // the value a reader of the bytes will see
  Val on_wire(const Rec& r, const Val& val, std::size_t i) {
    const Field& f = r.f[i];
    if (r.derived(i)) {
      Der d = derive(r, val, i);
      if (d.lost || !d.agree || !fits_width(f, d.v)) { e.ambiguous = true; return val.l[i]; }
      return Val::integer(d.v);
    }
    if (r.frozen(i)) return pinned(f);
    if (f.k == Field::INT && !fits_width(f, val.l[i].i)) e.ambiguous = true;
    return val.l[i];
  }
  // length agreement of a container payload with a computed size
  void computed_len(const Rec& r, const Field& f, const Val& v, const Getter& get, std::set<int>& faults) {
    if (f.is_container() && !f.size.is_len && eval(f.size.e, r, get) != count(v)) faults.insert(found_contradicting_length);
  }
  // emits a payload whose own checks have passed; nested records may still fail
  std::set<int> payload(const Field& f, const Val& v, char role) {
    switch (f.k) {
      case Field::INT: if (!fits_width(f, v.i)) e.fits = false; raw(u64(v.i), f.width, role, &f); break;
      case Field::ARR: nested(f.ty, v, role, &f); break;
      case Field::VEC: nested(f.ty, v, 'e', &f); break;
      case Field::FSTR: case Field::STR:
        if (!v.b.empty()) e.leaves.push_back({e.bytes.size(), v.b.size(), false, role == 'z' ? 'z' : 's', &f});
        e.bytes += v.b;
        break;
      case Field::SUB: return rec(*f.rec, v, nullptr);
      case Field::AREC: case Field::VREC:
        for (auto& x : v.l) if (auto s = rec(*f.rec, x, nullptr); !s.empty()) return s;
        break;
      default: throw std::runtime_error("payload");
    }
    return {};
  }
  std::set<int> field(const Rec& r, const Val& val, std::size_t i) {
    const Field& f = r.f[i];
    auto get = [&](const std::string& id) { return on_wire(r, val, std::size_t(r.find(id))); };
    std::set<int> faults;
    const Val& stored = val.l[i];
    if (f.fixed_leaf()) {
      Val v = stored;
      if (r.derived(i)) {
        Der d = derive(r, val, i);
        if (d.lost) return d.agree ? std::set<int>{validation_failure} : std::set<int>{validation_failure, found_contradicting_length};
        if (!d.agree) return {found_contradicting_length};
        if (!fits_width(f, d.v)) return {validation_failure};
        v = Val::integer(d.v);
        if (!con_ok(f.con, f, v)) faults.insert(validation_failure);
      } else if (r.frozen(i)) v = pinned(f);
      else if (!con_ok(f.con, f, v)) faults.insert(validation_failure);
      if (r.cond_len[i]) {
        bool obligated = false, agree = true;
        for (std::size_t k = 0; k < r.f.size(); ++k) {
          const Field& p = r.f[k];
          const Val& pv = val.l[k];
          if (p.k == Field::OPT && p.in[0].is_container() && p.in[0].size.is_len && p.in[0].size.id == f.id) {
            if (!pv.l.empty() && eval(p.pred, r, get)) { obligated = true; if (count(pv.l[0]) != u64(v.i)) agree = false; }
          } else if (p.k == Field::UNI && !pv.lost()) {
            const Field& a = p.in[pv.idx];
            if (a.is_container() && a.size.is_len && a.size.id == f.id) { obligated = true; if (count(pv.l[0]) != u64(v.i)) agree = false; }
          }
        }
        if (!agree) faults.insert(found_contradicting_length);
        else if (obligated && !fits_width(f, v.i)) faults.insert(validation_failure);
      }
      if (!faults.empty()) return faults;
      return payload(f, v, role_of(r, i));
    }
    switch (f.k) {
      case Field::OPT: {
        bool present = eval(f.pred, r, get) != 0;
        if (present != !stored.l.empty()) return {validation_failure};
        e.path += present ? "+" : "-";
        if (!present) return {};
        computed_len(r, f.in[0], stored.l[0], get, faults);
        if (!faults.empty()) return faults;
        return payload(f.in[0], stored.l[0], 'v');
      }
      case Field::UNI: {
        const Field& a = f.in[stored.lost() ? 0 : stored.idx];
        if (!con_ok(f.con, f, stored)) faults.insert(validation_failure);
        if (f.sel != Field::MATCH) {
          std::size_t idx = f.in.size();
          if (f.sel == Field::LADDER) {
            for (std::size_t k = 0; k < f.branches.size(); ++k) if (eval(f.branches[k], r, get)) { idx = k; break; }
          } else {
            i128 v = wrap(f.sel_ty, eval(f.sel_expr, r, get));
            for (std::size_t k = 0; k < f.keys.size(); ++k) if (f.keys[k] == v) { idx = k; break; }
          }
          if (idx == f.in.size()) faults.insert(type_deduction_failure);
          else if (idx != stored.idx) faults.insert(validation_failure);
        }
        if (stored.lost()) return faults.empty() ? std::set<int>{validation_failure} : faults;
        if (!con_ok(a.con, a, stored.l[0])) faults.insert(validation_failure);
        computed_len(r, a, stored.l[0], get, faults);
        if (!faults.empty()) return faults;
        e.path += std::to_string(stored.idx);
        return payload(a, stored.l[0], 'v');
      }
      default:
        if (!con_ok(f.con, f, stored)) faults.insert(validation_failure);
        computed_len(r, f, stored, get, faults);
        if (!faults.empty()) return faults;
        return payload(f, stored, 'v');
    }
  }
  std::set<int> rec(const Rec& r, const Val& v, std::string* at) {
    for (std::size_t i = 0; i < r.f.size(); ++i) {
      if (at) e.starts.push_back(e.bytes.size());
      auto s = field(r, v, i);
      if (!s.empty()) { if (at) *at = r.f[i].id; return s; }
    }
    return {};
  }
};
}  // namespace
Encoded encode(const Rec& r, const Val& v, bool be) {
  Encoded e;
  Enc x{be, e};
  e.reasons = x.rec(r, v, &e.at);
  e.ok = e.reasons.empty();
  return e;
}

// ------------------------------------------------------------------ generators
static void consts_of(const Expr& e, const std::string& id, std::vector<i128>& out, bool& uses) {
  if (e.op == "f" && e.id == id) uses = true;
  if (e.op == "c") out.push_back(e.c);
  for (auto& a : e.a) consts_of(a, id, out, uses);
}
static bool mentions(const Expr& e, const std::string& id) {
  if (e.id == id) return true;
  for (auto& a : e.a) if (mentions(a, id)) return true;
  return false;
}
static void expr_pool(const Rec& r, const std::string& id, std::vector<i128>& pool, bool& sized) {
  auto add = [&](const Expr& e) { std::vector<i128> c; bool u = false; consts_of(e, id, c, u); if (u) for (auto x : c) for (int d = -1; d <= 1; ++d) pool.push_back(x + d); };
  for (auto& f : r.f) {
    auto sz = [&](const Field& x) { if (x.is_container() && !x.size.is_len) { if (mentions(x.size.e, id)) sized = true; } };
    sz(f);
    for (auto& y : f.in) sz(y);
    if (f.k == Field::OPT) add(f.pred);
    if (f.k == Field::UNI) {
      if (f.sel == Field::COMP) { add(f.sel_expr); if (mentions(f.sel_expr, id)) for (auto k : f.keys) pool.push_back(k); }
      for (auto& b : f.branches) add(b);
    }
  }
}
// bits of a shape that code tends to treat specially
static u64 shaped(Rng& g, unsigned bits) {
  u64 one = 1, top = bits < 64 ? (one << bits) - 1 : ~u64(0), k = g.below(bits), x = 0;
  switch (g.below(8)) {
    case 0: return (one << k) - 1;
    case 1: return one << k;
    case 2: return ~((one << k) - 1) & top;
    case 3: return ((one << (k / 8 * 8)) + g.below(3) - 1) & top;                                  // around a whole byte
    case 4: return g.below(12);
    case 5: { u64 b = g.below(256); for (unsigned i = 0; i < bits / 8; ++i) x = x << 8 | b; return x; }
    default: for (unsigned i = 0; i < bits / 8; ++i) { static const unsigned char B[] = {0, 0, 0xff, 0xff, 1, 0x7f, 0x80, 0xfe}; x = x << 8 | (g.chance(1, 5) ? g.below(256) : B[g.below(8)]); } return x;
  }
}
i128 interesting_int(const Field& f, Rng& g, const Rec* r) {
  std::vector<i128> pool;
  bool sized = false;
  if (r) expr_pool(*r, f.id, pool, sized);
  for (auto c : f.con.c) for (int d = -1; d <= 1; ++d) pool.push_back(c + d);
  i128 mx = ty_max(f.ty), mn = ty_min(f.ty);
  if (f.width && f.width < f.ty.bytes) { mn = 0; mx = (i128(1) << (f.width * 8)) - 1; }
  if (sized && g.chance(4, 5)) return i128(g.below(5));
  for (int t = 0; t < 8; ++t) {
    i128 v;
    switch (g.below(pool.empty() ? 5 : 9)) {
      case 0: v = i128(g.below(4)); break;
      case 1: v = g.chance(1, 2) ? mx - i128(g.below(2)) : mn + i128(g.below(2)); break;
      case 2: { u64 w = u64(f.width ? f.width : f.ty.bytes); u64 raw = g.next(); v = wrap(f.ty, w < 8 ? raw & ((u64(1) << (8 * w)) - 1) : raw); break; }
      case 3: v = i128(1) << g.below(u64(f.width ? f.width : f.ty.bytes) * 8); break;
      case 4: v = wrap(f.ty, shaped(g, unsigned(f.width ? f.width : f.ty.bytes) * 8)); break;
      default: v = pool[g.below(pool.size())];
    }
    if (v >= mn && v <= mx) return v;
  }
  return 0;
}
static Val any_nested(const Ty& t, const std::vector<std::size_t>& dims, std::size_t lv, Rng& g) {
  if (lv == dims.size()) {
    u64 x = g.next();
    if (t.flt) {                                    // any bits: ordinary, denormal, -0, infinities, NaNs with a payload
      const unsigned m = t.bytes == 4 ? 23 : 52, top = t.bytes == 4 ? 31 : 63;
      const u64 frac = (u64(1) << m) - 1, expo = ((u64(1) << top) - 1) & ~frac, all = t.bytes == 4 ? 0xffffffffu : ~u64(0);
      switch (g.below(8)) {
        case 0: x &= ~(expo | frac); break;
        case 1: x = (x | expo) & ~frac; break;
        case 2: x |= expo; break;
        case 3: x &= ~expo; break;
        case 4: x = shaped(g, top + 1); break;
        default: break;
      }
      return Val::integer(i128(x & all));
    }
    return Val::integer(g.chance(1, 4) ? (g.chance(1, 2) ? ty_max(t) : ty_min(t)) : wrap(t, g.chance(1, 3) ? shaped(g, unsigned(t.bytes) * 8) : x));
  }
  Val v = Val::list();
  if (g.chance(1, 8)) { Val e = any_nested(t, dims, lv + 1, g); v.l.assign(dims[lv], e); return v; }
  for (std::size_t i = 0; i < dims[lv]; ++i) v.l.push_back(any_nested(t, dims, lv + 1, g));
  return v;
}
static std::string any_bytes(Rng& g, std::size_t n) {
  std::string s(n, 0);
  bool text = g.chance(1, 2);
  if (g.chance(1, 4)) { static const char C[] = {0, 0, ' ', '\n', '\r', '\t', 0x1a, 0x7f, char(0x80), char(0xff), 'a', '0'}; for (auto& c : s) c = C[g.below(sizeof C)]; return s; }
  for (auto& c : s) c = text ? char('a' + g.below(26)) : char(g.next());
  return s;
}
static bool gen_rec(const Rec& r, Rng& g, Val& out, const GenOpt& o);
static bool gen_contents(const Field& f, u64 count, Rng& g, Val& out, const GenOpt& o) {
  switch (f.k) {
    case Field::VEC: out = Val::list(); for (u64 i = 0; i < count; ++i) out.l.push_back(any_nested(f.ty, f.dims, 0, g)); return true;
    case Field::STR: out = Val::bytes(any_bytes(g, count)); return true;
    case Field::VREC: case Field::AREC: {
      out = Val::list();
      u64 n = f.k == Field::AREC ? f.n : count;
      GenOpt in = o; in.max_len = std::min<std::size_t>(o.max_len, 3); in.big = false; in.tries = 40; in.large = 0;
      for (u64 i = 0; i < n; ++i) { Val e; if (!gen_valid(*f.rec, g, e, in)) return false; out.l.push_back(std::move(e)); }
      return true;
    }
    case Field::SUB: { GenOpt in = o; in.tries = 40; return gen_valid(*f.rec, g, out, in); }
    case Field::ARR: out = any_nested(f.ty, f.dims, 0, g); return true;
    case Field::FSTR: {
      std::string s = any_bytes(g, f.n + 1);
      if (g.chance(3, 4)) s[f.n] = 0;
      out = Val::bytes(s);
      return true;
    }
    default: return false;
  }
}
// the k-th array value a constraint over arrays was written with
static Val literal_array(const Field& f, std::size_t k) {
  std::size_t at = k * scalars(f.dims);
  std::function<Val(std::size_t)> mk = [&](std::size_t lv) {
    if (lv == f.dims.size()) return Val::integer(f.con.c[at++]);
    Val v = Val::list();
    for (std::size_t i = 0; i < f.dims[lv]; ++i) v.l.push_back(mk(lv + 1));
    return v;
  };
  return mk(0);
}
static void ints_of(Val& v, std::vector<Val*>& o) { if (v.k == Val::INT) o.push_back(&v); else for (auto& x : v.l) ints_of(x, o); }
// a payload obeying its own constraint and the sizes implied by `get`
static bool gen_payload(const Rec& r, const Field& f, Rng& g, const Getter& get, Val& out, const GenOpt& o) {
  u64 count = 0;
  if (f.is_container()) {
    count = f.size.is_len ? u64(get(f.size.id).i) : eval(f.size.e, r, get);
    if (count > ceiling_of(f) / f.elem_mem || count > (o.large ? (f.k == Field::STR ? 1100000u : 140000u) : o.big ? 70000u : 300u) || (f.k == Field::VREC && count > (o.large ? 2100u : 40u))) return false;
  }
  for (int t = 0; t < 30; ++t) {
    if (f.k == Field::INT) {
      i128 v = interesting_int(f, g, nullptr);
      if (!f.con.c.empty() && (f.con.op == "eq" || f.con.op == "any")) v = f.con.c[g.below(f.con.c.size())];
      out = Val::integer(v);
    } else {
      if (f.fixed_leaf() && f.con.pins()) out = Enc::pinned(f);
      else if (f.con.op == "bany") out = Val::bytes(f.con.b.substr(g.below(f.con.b.size() / (f.n + 1)) * (f.n + 1), f.n + 1));
      else if (f.con.op == "aany") out = literal_array(f, g.below(f.con.c.size() / scalars(f.dims)));
      else if (f.k == Field::ARR && !f.con.c.empty() && f.con.op != "firstne" && t > 3) {
        out = literal_array(f, 0);
        std::vector<Val*> ls; ints_of(out, ls);
        auto* x = ls[g.below(ls.size())];
        x->i = wrap(f.ty, u64(x->i + i128(g.below(5)) - 2));
      }
      else if (!gen_contents(f, count, g, out, o)) return false;
    }
    if (con_ok(f.con, f, out)) return true;
    if (f.con.op == "szle" || f.con.op == "szge") return false;
  }
  return false;
}
static bool gen_rec(const Rec& r, Rng& g, Val& out, const GenOpt& o) {
  out = Val::rec();
  out.l.resize(r.f.size());
  auto get = [&](const std::string& id) { return out.l[std::size_t(r.find(id))]; };
  for (std::size_t i = 0; i < r.f.size(); ++i) {
    const Field& f = r.f[i];
    if (f.k == Field::INT) {
      bool len = r.len_derived[i] || r.cond_len[i];
      std::vector<i128> keys;
      if (r.disc_derived[i]) {
        for (auto& u : r.f) if (u.k == Field::UNI && u.sel == Field::MATCH && u.sel_id == f.id) {
          if (keys.empty()) keys = u.keys;
          else { std::vector<i128> k2; for (auto k : keys) if (std::find(u.keys.begin(), u.keys.end(), k) != u.keys.end()) k2.push_back(k); keys = k2; }
        }
      }
      bool done = false;
      for (int t = 0; t < 40 && !done; ++t) {
        i128 v;
        if (f.con.op == "eq") v = f.con.c[0];
        else if (!keys.empty()) v = keys[g.below(keys.size())];
        else if (len) v = g.chance(1, 8) ? 0 : i128(g.below(o.max_len + 1));
        else if (f.con.op == "any" && g.chance(7, 8)) v = f.con.c[g.below(f.con.c.size())];
        else v = interesting_int(f, g, &r);
        if (len && o.big && keys.empty() && f.con.op != "eq" && g.chance(1, 2)) v = i128(g.chance(1, 2) ? 250 + g.below(12) : g.below(300));
        if (len && o.large && keys.empty() && f.con.op != "eq" && g.chance(2, 3)) v = i128(o.large - 1 + g.below(3));
        if (len && f.con.op != "eq" && !f.con.c.empty() && g.chance(1, 2) && keys.empty()) v = f.con.c[g.below(f.con.c.size())] + i128(g.below(3)) - 1;
        if (len && (v < 0 || v > (o.large ? 1100000 : 300))) continue;
        if (!fits_width(f, v)) continue;
        if (!con_ok(f.con, f, Val::integer(v))) continue;
        out.l[i] = Val::integer(v);
        done = true;
      }
      if (!done) return false;
      continue;
    }
    if (f.k == Field::OPT) {
      if (!eval(f.pred, r, get)) { out.l[i] = Val::none(); continue; }
      Val v;
      if (!gen_payload(r, f.in[0], g, get, v, o)) return false;
      out.l[i] = Val::some(std::move(v));
      continue;
    }
    if (f.k == Field::UNI) {
      std::size_t idx = f.in.size();
      if (f.sel == Field::LADDER) { for (std::size_t k = 0; k < f.branches.size(); ++k) if (eval(f.branches[k], r, get)) { idx = k; break; } }
      else {
        i128 v = f.sel == Field::MATCH ? get(f.sel_id).i : wrap(f.sel_ty, eval(f.sel_expr, r, get));
        for (std::size_t k = 0; k < f.keys.size(); ++k) if (f.keys[k] == v) { idx = k; break; }
      }
      if (idx == f.in.size()) return false;
      Val v;
      if (!gen_payload(r, f.in[idx], g, get, v, o)) return false;
      out.l[i] = Val::var(idx, std::move(v));
      if (!con_ok(f.con, f, out.l[i])) return false;
      continue;
    }
    if (!gen_payload(r, f, g, get, out.l[i], o)) return false;
  }
  return true;
}
// decides once, from a fixed seed, whether the generator can satisfy a record at all
static void probe(Rec& r) {
  std::function<void(Field&)> in = [&](Field& f) { if (f.rec) probe(*f.rec); for (auto& x : f.in) in(x); };
  for (auto& f : r.f) in(f);
  Rng g(0x5eed);
  Val v;
  GenOpt o; o.tries = 400;
  r.sat = true;
  r.sat = gen_valid(r, g, v, o);
}
bool gen_valid(const Rec& r, Rng& g, Val& out, const GenOpt& o) {
  if (!r.sat) return false;
  for (int t = 0; t < o.tries; ++t) if (gen_rec(r, g, out, o)) return true;
  return false;
}
static Val blank(const Field& f) {
  switch (f.k) {
    case Field::INT: return Val::integer(0);
    case Field::FSTR: return Val::bytes(std::string(f.n + 1, 0));
    case Field::STR: return Val::bytes("");
    case Field::OPT: return Val::none();
    case Field::UNI: return Val::var(0, blank(f.in[0]));
    case Field::SUB: { Val v = Val::rec(); for (auto& x : f.rec->f) v.l.push_back(blank(x)); return v; }
    case Field::AREC: { Field s = f; s.k = Field::SUB; Val v = Val::list(); for (std::size_t i = 0; i < f.n; ++i) v.l.push_back(blank(s)); return v; }
    case Field::ARR: { Rng z(1); Val v = any_nested(f.ty, f.dims, 0, z); return v; }
    default: return Val::list();
  }
}
Val gen_any(const Field& f, Rng& g, std::size_t max_len) {
  Val v;
  GenOpt o; o.max_len = std::min<std::size_t>(max_len, 3); o.tries = 60;
  switch (f.k) {
    case Field::INT: return Val::integer(interesting_int(f, g, nullptr));
    case Field::OPT: return g.chance(1, 2) ? Val::none() : Val::some(gen_any(f.in[0], g, max_len));
    case Field::UNI: { auto i = g.below(f.in.size()); return Val::var(i, gen_any(f.in[i], g, max_len)); }
    default: break;
  }
  for (int t = 0; t < 20; ++t) if (gen_contents(f, g.below(max_len + 1), g, v, o)) return v;
  // records that cannot be generated valid
  return blank(f);
}
static void walk_field(const Rec& r, const Field& f, Val& v, bool payload, std::vector<Slot>& out) {
  if (v.k == Val::HID) return;
  out.push_back({&r, &f, &v, payload});
  switch (f.k) {
    case Field::SUB: for (std::size_t i = 0; i < f.rec->f.size(); ++i) walk_field(*f.rec, f.rec->f[i], v.l[i], false, out); break;
    case Field::AREC: case Field::VREC:
      for (auto& e : v.l) for (std::size_t i = 0; i < f.rec->f.size(); ++i) walk_field(*f.rec, f.rec->f[i], e.l[i], false, out);
      break;
    case Field::OPT: if (!v.l.empty()) walk_field(r, f.in[0], v.l[0], true, out); break;
    case Field::UNI: if (!v.lost()) walk_field(r, f.in[v.idx], v.l[0], true, out); break;
    default: break;
  }
}
std::vector<Slot> slots(const Rec& r, Val& v) {
  std::vector<Slot> o;
  for (std::size_t i = 0; i < r.f.size(); ++i) walk_field(r, r.f[i], v.l[i], false, o);
  return o;
}
std::vector<i128> edge_ints(const Field& f) {
  std::set<i128> s;
  i128 mn = ty_min(f.ty), mx = ty_max(f.ty);
  if (f.width && f.width < f.ty.bytes) { mn = 0; mx = (i128(1) << (f.width * 8)) - 1; }
  auto add = [&](i128 v) { if (v >= mn && v <= mx) s.insert(v); };
  for (int d = 0; d < 3; ++d) { add(mn + d); add(mx - d); add(d); add(-d); }
  for (int b = 7; b < 64; b += b % 8 == 7 ? 1 : 7) for (int d = -1; d <= 1; ++d) { add((i128(1) << b) + d); add(-(i128(1) << b) + d); }
  for (auto c : f.con.c) {
    for (int d = -2; d <= 2; ++d) add(c + d);
    for (int b : {8, 16, 24, 32, 40, 48, 56}) { add(c + (i128(1) << b)); add(c - (i128(1) << b)); }
    add(-c); add(~c);
  }
  return {s.begin(), s.end()};
}
std::vector<Val> con_candidates(const Rec* r, const Field& f, const Val& now, Rng& g) {
  std::vector<Val> o;
  (void)r;
  const std::string& op = f.con.op;
  if (f.k == Field::INT) { for (auto x : edge_ints(f)) o.push_back(Val::integer(x)); return o; }
  auto grown = [&](std::size_t n) -> bool {
    Val v = now;
    if (v.k == Val::BYTES) { v.b.resize(n, 'q'); o.push_back(v); return true; }
    while (v.l.size() > n) v.l.pop_back();
    while (v.l.size() < n) {
      Val e;
      if (f.k == Field::VREC) { GenOpt go; go.max_len = 2; go.tries = 60; if (!gen_valid(*f.rec, g, e, go)) return false; }
      else e = any_nested(f.ty, f.dims, 0, g);
      v.l.push_back(std::move(e));
    }
    o.push_back(v);
    return true;
  };
  if (op == "lastne") {
    for (std::size_t n = 0; n <= 3; ++n) for (int d = -1; d <= 1; ++d) if (grown(n) && n) {
      Val& v = o.back();
      if (v.k == Val::BYTES) v.b.back() = char(int(f.con.c[0] + d)); else v.l.back().i = wrap(f.ty, u64(f.con.c[0] + d));
    }
  }
  else if (op == "szle" || op == "szge") { u64 k = u64(f.con.c[0]); for (u64 n = k ? k - 1 : 0; n <= k + 2; ++n) grown(n); grown(0); }
  else if (op == "firstne") {
    for (int d = -1; d <= 1; ++d) {
      Val v = now;
      i128 x = f.con.c[0] + d;
      if (v.k == Val::BYTES) { if (v.b.empty()) v.b = "z"; v.b[0] = char(int(x)); }
      else {
        if (v.l.empty()) v.l.push_back(any_nested(f.ty, f.dims, 0, g));
        Val* p = &v.l[0];
        while (p->k == Val::LIST) p = &p->l[0];
        p->i = wrap(f.ty, u64(x));
      }
      o.push_back(v);
    }
    if (f.is_container()) grown(0);
  }
  else if (f.k == Field::ARR && op[0] == 'a') {
    const std::size_t n = scalars(f.dims);
    for (std::size_t base = 0; base < f.con.c.size() / n; ++base) {
      Val b = literal_array(f, base);
      o.push_back(b);
      for (std::size_t k = 0; k < n; ++k) {
        for (u64 bit = 0; bit < u64(f.ty.bytes) * 8; bit += 3) {
          Val v = b;
          std::vector<Val*> ls; ints_of(v, ls);
          ls[k]->i = wrap(f.ty, u64(ls[k]->i) ^ (u64(1) << bit));
          o.push_back(v);
        }
        // smaller here, larger in what follows, and the other way round
        for (int d : {-1, 1}) {
          Val v = b;
          std::vector<Val*> ls; ints_of(v, ls);
          ls[k]->i = wrap(f.ty, u64(ls[k]->i + d));
          for (std::size_t j = k + 1; j < n; ++j) ls[j]->i = wrap(f.ty, u64(ls[j]->i - d));
          o.push_back(v);
        }
      }
    }
  }
  else if (op == "beq" || op == "bneq" || op == "bany") {
    for (std::size_t base = 0; base < f.con.b.size(); base += f.n + 1) {
      const std::string b = f.con.b.substr(base, f.n + 1);
      o.push_back(Val::bytes(b));
      for (std::size_t k = 0; k < b.size(); ++k) for (int bit = 0; bit < 8; bit += 2) { std::string s = b; s[k] = char(s[k] ^ (1 << bit)); o.push_back(Val::bytes(s)); }
    }
  }
  else if (op == "reclt" || op == "allreclt") {
    int k = f.rec->find(f.con.field);
    const Field& sf = f.rec->f[std::size_t(k)];
    for (auto x : {f.con.c[0] - 1, f.con.c[0], f.con.c[0] + 1, ty_max(sf.ty), ty_min(sf.ty)}) {
      if (!fits_width(sf, x)) continue;
      if (f.k == Field::SUB) { Val v = now; v.l[std::size_t(k)].i = x; o.push_back(v); }
      else for (std::size_t e = 0; e < now.l.size(); ++e) { Val v = now; v.l[e].l[std::size_t(k)].i = x; o.push_back(v); }
    }
  }
  else if (f.k == Field::UNI) {
    for (std::size_t a = 0; a < f.in.size(); ++a) o.push_back(Val::var(a, gen_any(f.in[a], g, 3)));
  }
  return o;
}
static std::string perturb_field(const Rec& r, const Field& f, Val& v, Rng& g);
static std::string perturb_list(const Field& f, Val& v, Rng& g) {
  auto& l = v.l;
  GenOpt o; o.max_len = 3; o.tries = 60;
  auto fresh = [&](Val& e) { if (f.k == Field::VREC) return gen_valid(*f.rec, g, e, o); e = any_nested(f.ty, f.dims, 0, g); return true; };
  switch (g.below(l.empty() ? 2 : 6)) {
    case 0: { Val e; if (fresh(e)) l.push_back(e); return "push"; }
    case 1: { u64 n = g.below(5); for (u64 i = 0; i < n; ++i) { Val e; if (fresh(e)) l.push_back(e); } return "grow"; }
    case 2: l.pop_back(); return "pop";
    case 3: l.clear(); return "clear";
    default: {
      std::size_t i = g.below(l.size());
      if (f.k == Field::VREC) return "[" + std::to_string(i) + "]." + perturb(*f.rec, l[i], g);
      l[i] = any_nested(f.ty, f.dims, 0, g);
      return "elem" + std::to_string(i);
    }
  }
}
static std::string perturb_field(const Rec& r, const Field& f, Val& v, Rng& g) {
  switch (f.k) {
    case Field::INT: v = Val::integer(interesting_int(f, g, &r));
      if (f.width < f.ty.bytes && g.chance(1, 10)) v.i = ty_max(f.ty) - i128(g.below(3));
      return "int";
    case Field::ARR: case Field::FSTR: { Val n; GenOpt o; gen_contents(f, 0, g, n, o); v = n; return "buf"; }
    case Field::VEC: case Field::VREC: return perturb_list(f, v, g);
    case Field::STR:
      switch (g.below(v.b.empty() ? 1 : 4)) {
        case 0: v.b += any_bytes(g, 1 + g.below(3)); return "append";
        case 1: v.b.pop_back(); return "pop";
        case 2: v.b.clear(); return "clear";
        default: v.b[g.below(v.b.size())] = char(g.next()); return "char";
      }
    case Field::SUB: return "." + perturb(*f.rec, v, g);
    case Field::AREC: { if (!f.n) return "none"; std::size_t i = g.below(f.n); return "[" + std::to_string(i) + "]." + perturb(*f.rec, v.l[i], g); }
    case Field::OPT:
      if (v.l.empty()) { v = Val::some(gen_any(f.in[0], g, 4)); return "engage"; }
      if (g.chance(1, 2)) { v = Val::none(); return "disengage"; }
      return "?" + perturb_field(r, f.in[0], v.l[0], g);
    case Field::UNI:
      if (g.chance(1, 2)) { std::size_t i = g.below(f.in.size()); v = Val::var(i, gen_any(f.in[i], g, 4)); return "alt" + std::to_string(i); }
      return "<" + std::to_string(v.idx) + ">" + perturb_field(r, f.in[v.idx], v.l[0], g);
  }
  return "";
}
std::string perturb(const Rec& r, Val& v, Rng& g) {
  for (int t = 0; t < 20; ++t) {
    std::size_t i = g.below(r.f.size());
    if (!r.assignable(i)) continue;
    return r.f[i].id + ":" + perturb_field(r, r.f[i], v.l[i], g);
  }
  return "none";
}
std::string mutate_bytes(const std::string& in, const std::vector<Leaf>& leaves, bool be, Rng& g, std::string& what) {
  std::string s = in;
  unsigned n = 1 + unsigned(g.below(3));
  what.clear();
  for (unsigned t = 0; t < n; ++t) {
    switch (s.empty() ? 7 : g.below(10)) {
      case 0: s[g.below(s.size())] ^= char(1u << g.below(8)); what += "bit "; break;
      case 1: s[g.below(s.size())] = char(g.next()); what += "byte "; break;
      case 2: s.resize(g.below(s.size() + 1)); what += "cut "; break;
      case 3: case 4: case 5: case 6: {
        if (leaves.empty()) break;
        // prefer the leaves that steer the decoder
        const Leaf* l = &leaves[g.below(leaves.size())];
        for (int k = 0; k < 4 && (l->role == 'e' || l->role == 's'); ++k) l = &leaves[g.below(leaves.size())];
        if (l->off + l->len > s.size() || l->len > 8 || l->role == 's') { break; }
        i128 v;
        switch (g.below(6)) {
          case 0: v = 0; break;
          case 1: v = -1; break;
          case 2: v = i128(g.below(8)); break;
          case 3: v = i128(1) << (8 * l->len - 1); break;
          default: v = l->field->k == Field::INT ? interesting_int(*l->field, g, nullptr) : i128(g.next());
        }
        for (std::size_t i = 0; i < l->len; ++i) s[l->off + i] = char(u64(v) >> (8 * (be ? l->len - 1 - i : i)));
        what += std::string("leaf") + l->role + " ";
        break;
      }
      case 7: s += any_bytes(g, 1 + g.below(9)); what += "tail "; break;
      case 8: { std::size_t a = g.below(s.size()); s.erase(a, 1 + g.below(4)); what += "del "; break; }
      default: { std::size_t a = g.below(s.size()); s.insert(a, any_bytes(g, 1 + g.below(3))); what += "ins "; }
    }
  }
  return s;
}
}  // namespace model
