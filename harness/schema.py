"""Schema AST -> (C++ schema, model text). One description, two renderings; the
C++ one is what a user of the library would write, the text is what the
reference model interprets."""

CPP = {'u8': 'u8', 'u16': 'u16', 'u32': 'u32', 'u64': 'u64', 'i8': 'i8', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64',
       'bool': 'bool', 'char': 'char', 'f32': 'f32', 'f64': 'f64',
       'u8c': 'char8_t', 'u16c': 'char16_t', 'u32c': 'char32_t', 'i32w': 'wchar_t', 'u64l': 'vf::ull', 'i64l': 'vf::sll'}
BYTES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'bool': 1, 'char': 1, 'f32': 4, 'f64': 8,
         'u8c': 1, 'u16c': 2, 'u32c': 4, 'i32w': 4, 'u64l': 8, 'i64l': 8}


class F(dict):
    __getattr__ = dict.get


def I(id, ty, w=None, con=None, **k): return F(k='int', id=id, ty=ty, w=w or BYTES[ty], con=con, **k)
def A(id, ty, *dims, con=None, **k): return F(k='arr', id=id, ty=ty, dims=list(dims), con=con, **k)
def CSTR(id, n, con=None, **k): return F(k='arr', id=id, ty='char', dims=[n + 1], con=con, cstr=True, **k)
def FS(id, n, con=None, **k): return F(k='fstr', id=id, n=n, con=con, **k)
def V(id, ty, size, *dims, bound=0, con=None, **k): return F(k='vec', id=id, ty=ty, dims=list(dims), size=size, bound=bound, con=con, **k)
def S(id, size, bound=0, con=None, **k): return F(k='str', id=id, size=size, bound=bound, con=con, **k)
def R(*fields): return F(k='rec', f=list(fields))
def SUB(id, rec, con=None, **k): return F(k='sub', id=id, rec=rec, con=con, **k)
def AR(id, rec, n, con=None, **k): return F(k='arec', id=id, rec=rec, n=n, con=con, **k)
def VR(id, rec, size, bound=0, con=None, **k): return F(k='vrec', id=id, rec=rec, size=size, bound=bound, con=con, **k)
def OPT(field, pred, **k): return F(k='opt', id=field.id, field=field, pred=pred, **k)
def UNI(id, sel, alts, con=None, **k): return F(k='uni', id=id, sel=sel, alts=alts, con=con, **k)
def L(id): return ('len', id)
def E(e): return ('expr', e)
def MATCH(id): return ('match', id)
def COMP(e, ty): return ('comp', e, ty)
LADDER = ('ladder',)


def sx(e):
    return '(' + ' '.join(sx(x) if isinstance(x, (tuple, list)) else str(x) for x in e) + ')'


def ids_of(e, out):
    if e[0] in ('f', 'sz', 'has', 'idx', 'rf', 'el', 'ov', 'bk'):
        if e[1] not in out:
            out.append(e[1])
    elif e[0] != 'c':
        for x in e[1:]:
            ids_of(x, out)
    return out


def lit(v):
    if v > 0x7fffffffffffffff:
        return f'{v}ull'
    if v == -(1 << 63):
        return '(-9223372036854775807ll - 1)'
    return f'{v}ll'


def strlit(b):
    return '"' + ''.join('\\%03o' % c for c in b) + '"'


class Cpp:
    """Renders one top-level schema."""

    def __init__(self, name, rec, rename):
        self.name, self.rename = name, rename
        self.lams, self.recs, self.sizes, self.nlam = [], [], [], 0
        self.le_only = False
        self.seen = {}
        self.top, self.text = self.rec(rec)

    # -- expressions
    def q(self, id): return '"%s"' % self.rename(id)

    def ex(self, e, ids):
        o = e[0]
        if o == 'c':
            return f'vf::U({lit(e[1])})'
        if o in ('f', 'sz', 'has', 'idx', 'rf', 'el', 'ov', 'bk'):
            a = 'a%d' % ids.index(e[1])
            if o == 'el':
                return f'vf::at({a}, {e[2]})'
            return {'ov': f'vf::U({a}.value_or(0))', 'bk': f'({a}.empty() ? vf::U(0) : vf::U({a}.back()))', 'f': f'vf::U({a})', 'sz': f'vf::U({a}.size())', 'has': f'vf::U({a}.has_value())', 'idx': f'vf::U({a}.index())',
                    'rf': None}[o] or f'vf::U({a}[{self.q(e[2])}_f])'
        xs = [self.ex(x, ids) for x in e[1:]]
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'mod': '%', 'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'land': '&&', 'lor': '||'}
        if o == 'shr':
            return f'({xs[0]} >> ({xs[1]} & 63))'
        if o == 'not':
            return f'vf::U(!{xs[0]})'
        if o in ('land', 'lor'):
            return f'vf::U(({xs[0]} != 0) {ops[o]} ({xs[1]} != 0))'
        r = f'({xs[0]} {ops[o]} {xs[1]})'
        return f'vf::U{r}' if o in ('eq', 'ne', 'lt', 'gt') else r

    def lam(self, e, ret):
        ids = ids_of(e, [])
        n = f'lam{self.nlam}'
        self.nlam += 1
        args = ', '.join(f'const auto& a{i}' for i in range(len(ids)))
        body = self.ex(e, ids)
        body = f'{body} != 0' if ret == 'bool' else f'static_cast<{ret}>({body})'
        self.lams.append(f'constexpr auto {n} = []({args}) {{ return {body}; }};')
        return n, ''.join(f', {self.q(i)}' for i in ids)

    def mex(self, e):
        """model text of an expression, ids renamed"""
        if e[0] in ('f', 'sz', 'has', 'idx', 'ov', 'bk'):
            return f'({e[0]} {self.rename(e[1])})'
        if e[0] == 'el':
            return f'(el {self.rename(e[1])} {e[2]})'
        if e[0] == 'rf':
            return f'(rf {self.rename(e[1])} {self.rename(e[2])})'
        if e[0] == 'c':
            return f'(c {e[1]})'
        return '(' + e[0] + ' ' + ' '.join(self.mex(x) for x in e[1:]) + ')'

    # -- constraints: (op, args..., {'lt': literal type})
    def con(self, c, f, rect=None):
        if not c:
            if not f.nocon or f.k == 'uni':
                return None, '()'
            t = {'int': lambda: CPP[f.ty], 'fstr': lambda: f's2s::fixed_string<{f.n}>', 'str': lambda: 'std::string', 'sub': lambda: rect,
                 'arr': lambda: f'{self.arrty(f.ty, f.dims[1:])}[{f.dims[0]}]' if f.carr or f.cstr else self.arrty(f.ty, f.dims),
                 'vec': lambda: f'std::vector<{self.arrty(f.ty, f.dims)}>', 'arec': lambda: f'std::array<{rect}, {f.n}>', 'vrec': lambda: f'std::vector<{rect}>'}[f.k]()
            return f's2s::no_constraint<{t}>{{}}', '()'
        op, args = c[0], list(c[1:])
        lt = None
        if args and isinstance(args[-1], str) and args[-1] in CPP:
            lt = args.pop()
        ty = f.ty
        def one(v, t):
            if t == 'bool':
                return 'true' if v else 'false'
            return f'{CPP[t]}({lit(v)})' if t else (f'{v}' if -2**31 < v < 2**31 else lit(v))
        if op in ('eq', 'neq', 'lt', 'gt', 'lte', 'gte'):
            return f's2s::{op}{{{one(args[0], lt or ty)}}}', sx((op, args[0]))
        if op == 'any':
            return 's2s::any_of{' + ', '.join(one(a, lt or ty) for a in args) + '}', sx((op, *args))
        def mk(dims, vals):
            if not dims:
                return one(vals.pop(0), ty)
            return self.arrty(ty, dims) + '{' + ', '.join(mk(dims[1:], vals) for _ in range(dims[0])) + '}'
        if op in ('aeq', 'aneq', 'alt', 'agt', 'alte'):
            return f's2s::{op[1:]}{{{mk(f.dims, list(args))}}}', sx((op, *args))
        if op == 'aany':
            return 's2s::any_of{' + ', '.join(mk(f.dims, list(a)) for a in args) + '}', sx((op, *[x for a in args for x in a]))
        if op == 'bany':
            return 's2s::any_of{' + ', '.join(f's2s::fixed_string<{f.n}>({strlit(a)})' for a in args) + '}', f'({op} {b"".join(a + bytes(1) for a in args).hex()})'
        if op in ('beq', 'bneq'):
            b = args[0] + b'\0'
            assert len(b) == f.n + 1
            return f's2s::{"eq" if op == "beq" else "neq"}{{s2s::fixed_string<{f.n}>({strlit(args[0])})}}', f'({op} {b.hex()})'
        if op in ('reclt', 'allreclt'):
            return f'vf::c_{op}<{self.q(args[0])}, {lit(args[1])}>{{}}', f'({op} {self.rename(args[0])} {args[1]})'
        if op == 'even':
            return 'vf::c_even{}', '(even)'
        return f'vf::c_{op}<{lit(args[0])}>{{}}', sx((op, args[0]))

    def arrty(self, ty, dims):
        t = CPP[ty]
        for d in reversed(dims):
            t = f'std::array<{t}, {d}>'
        return t

    def size(self, z, f=None):
        if f and f.zfixed is not None:
            return f.zfixed or None, ''
        if z[0] == 'len':
            return f's2s::len_from_field<{self.q(z[1])}>', f'(len {self.rename(z[1])})'
        n, ids = self.lam(z[1], z[2] if len(z) > 2 else 'std::size_t')
        return f's2s::len_from_fields<{n}{ids}>', f'(expr {self.mex(z[1])})'

    def opts(self, f, size=None, con=None, bound=0):
        o = [x for x in (size, con, f's2s::max_bytes<{bound}>' if bound else None) if x]
        if f.order:
            o = [o[i] for i in f.order if i < len(o)]
        o += [x.replace('{', '"' + self.rename('')).replace('}', '"') if x.startswith('s2s::len_from_field<') else x for x in f.xopts or []]
        return ''.join(', ' + x for x in o)

    # -> (descriptor C++, tag C++, model text)
    def field(self, f, id=None):
        id = id or f.id
        q, m = self.q(id), self.rename(id)
        if f.ty in ('f32', 'f64'):
            self.le_only = True
        if f.k == 'int':
            c, cm = self.con(f.con, f)
            sz = None if f.nosize else f'{f.w}_B'
            if f.magic:
                d = f's2s::magic_number<{q}, {CPP[f.ty]}, {f.w}_B, {c[len("s2s::eq{"):-1]}>'
            else:
                d = f's2s::basic_field<{q}, {CPP[f.ty]}{self.opts(f, sz, c)}>'
            return d, f's2s::as_trivial<{CPP[f.ty]}{self.opts(f, sz, c)}>', f'(int {m} {f.ty} {f.w} {cm})'
        if f.k == 'arr':
            c, cm = self.con(f.con, f)
            mt = f'(arr {m} {f.ty} {sx(f.dims)} {cm})'
            inner = self.arrty(f.ty, f.dims[1:])
            if f.cstr:
                return f's2s::c_str_field<{q}, {f.dims[0] - 1}{self.opts(f, None, c)}>', None, mt
            if f.carr:
                return f's2s::c_arr_field<{q}, {inner}, {f.dims[0]}{self.opts(f, None, c)}>', None, mt
            if f.magic:
                return f's2s::magic_byte_array<{q}, {f.dims[0]}, {c[len("s2s::eq{"):-1]}>', None, mt
            return (f's2s::fixed_array_field<{q}, {inner}, {f.dims[0]}{self.opts(f, None, c)}>',
                    f's2s::as_fixed_arr<{inner}, {f.dims[0]}{self.opts(f, None, c)}>', mt)
        if f.k == 'fstr':
            c, cm = self.con(f.con, f)
            mt = f'(fstr {m} {f.n} {cm})'
            if f.magic:
                return f's2s::magic_string<{q}, {strlit(f.con[1])}>', None, mt
            return f's2s::fixed_string_field<{q}, {f.n}{self.opts(f, None, c)}>', f's2s::as_fixed_string<{f.n}{self.opts(f, None, c)}>', mt
        if f.k == 'vec':
            c, cm = self.con(f.con, f)
            z, zm = self.size(f.size, f)
            o = self.opts(f, z, c, f.bound)
            t = self.arrty(f.ty, f.dims)
            return f's2s::vec_field<{q}, {t}{o}>', f's2s::as_vec<{t}{o}>', f'(vec {m} {f.ty} {sx(f.dims)} {zm} {f.bound} {cm})'
        if f.k == 'str':
            c, cm = self.con(f.con, f)
            z, zm = self.size(f.size, f)
            o = self.opts(f, z, c, f.bound)
            return f's2s::str_field<{q}{o}>', f's2s::as_string<{o[2:]}>', f'(str {m} {zm} {f.bound} {cm})'
        if f.k in ('sub', 'arec', 'vrec'):
            t, tm = self.rec(f.rec)
            c, cm = self.con(f.con, f, t)
            if f.k == 'sub':
                o = self.opts(f, None, c)
                return f's2s::struct_field<{q}, {t}{o}>', f's2s::as_struct<{t}{o}>', f'(sub {m} {tm} {cm})'
            if f.k == 'arec':
                o = self.opts(f, None, c)
                return (f's2s::array_of_records<{q}, {t}, {f.n}{o}>', f's2s::as_arr_of_records<{t}, {f.n}{o}>',
                        f'(arec {m} {tm} {f.n} {cm})')
            z, zm = self.size(f.size, f)
            o = self.opts(f, z, c, f.bound)
            k = len(self.sizes)
            self.sizes.append(t)
            return (f's2s::vector_of_records<{q}, {t}{o}>', f's2s::as_vec_of_records<{t}{o}>', f'(vrec {m} {tm} {zm} {f.bound} {cm} {k})')
        if f.k == 'opt':
            d, _, mt = self.field(f.field)
            if f.always:
                return f's2s::maybe<{d}, s2s::always_present>', None, f'(opt {m} {mt} (c 1))'
            n, ids = self.lam(f.pred, 'bool')
            pk = f.pk or 'parse_if'
            if pk == 'notbool':
                return f's2s::maybe<{d}, s2s::compute<{n}, int{ids}>>', None, ''
            return f's2s::maybe<{d}, s2s::{pk}<{n}{ids}>>', None, f'(opt {m} {mt} {self.mex(f.pred)})'
        if f.k == 'uni':
            alts, ams = [], []
            for key, a in f.alts:
                _, tag, am = self.field(a, id)
                assert tag, a
                if f.sel[0] == 'ladder':
                    n, ids = self.lam(key, 'bool')
                    alts.append(f's2s::branch<s2s::predicate<{n}{ids}>, {tag}>')
                    ams.append(f'({self.mex(key)} {am})')
                else:
                    kt = f.keyty
                    kk = key if isinstance(key, str) else (f'{CPP[kt]}({lit(key)})' if kt else str(key) if abs(key) < 2**31 else lit(key))
                    alts.append(f's2s::match_case<{kk}, {tag}>')
                    ams.append(f'({key} {am})')
            if f.sel[0] == 'ladder':
                t = f's2s::type<s2s::type_if_else<{", ".join(alts)}>>'
                sm = '(ladder)'
            elif f.sel[0] == 'match':
                t = f's2s::type<s2s::match_field<{self.q(f.sel[1])}>, s2s::type_switch<{", ".join(alts)}>>'
                sm = f'(match {self.rename(f.sel[1])})'
            else:
                n, ids = self.lam(f.sel[1], CPP[f.sel[2]])
                t = f's2s::type<s2s::compute<{n}, {CPP[f.sel[2]]}{ids}>, s2s::type_switch<{", ".join(alts)}>>'
                sm = f'(comp {self.mex(f.sel[1])} {f.sel[2]})'
            c, cm = self.con(f.con, f)
            return f's2s::variance<{q}, {t}{self.opts(f, None, c)}>', None, f'(uni {m} {sm} ({" ".join(ams)}) {cm})'
        raise Exception(f.k)

    def rec(self, r):
        if id(r) in self.seen:
            return self.seen[id(r)][1]
        ds, ms = [], []
        for f in r.f:
            d, _, m = self.field(f)
            ds.append(d)
            ms.append(m)
        n = f'R{len(self.recs)}'
        self.recs.append((n, 's2s::struct_field_list<\n    ' + ',\n    '.join(ds) + '>', [self.rename(f.id) for f in r.f]))
        self.lams.append(f'using {n} = {self.recs[-1][1]};')
        res = (n, '(rec ' + ' '.join(ms) + ')')
        self.seen[id(r)] = (r, res)
        return res

    def emit(self, tags, extra=False, twin=None, access=True):
        ns = self.name
        o = [f'namespace {ns} {{'] + self.lams + ['}']
        for n, _, ids in self.recs:
            t = f'{ns}::{n}'
            o.append(f'template <> struct vf::glue<{t}> {{')
            o.append(f'  static constexpr bool le_only = {"true" if self.le_only else "false"};')
            o.append(f'  static Val get(const {t}& s) {{ Val v = Val::rec(); v.l.reserve({len(ids)});')
            for i in ids:
                o.append(f'    v.l.push_back(vf::get_one<{t}, "{i}">(s));')
            o.append('    return v; }')
            o.append(f'  static void set({t}& s, const Val& v, std::size_t only) {{')
            for k, i in enumerate(ids):
                o.append(f'    if (only == std::size_t(-1) || only == {k}) vf::set_one<{t}, "{i}">(s, v.l[{k}]);')
            o.append('  }')
            o.append(f'  static std::vector<const void*> addrs(const {t}& s) {{ return {{' + ', '.join(f'vf::addr_one<{t}, "{i}">(s)' for i in ids) + '}; }')
            o.append(f'  static std::vector<bool> agree({t}& s) {{ return {{' + ', '.join(f'vf::agree_one<{t}, "{i}">(s)' for i in ids) + '}; }')
            o.append('};')
        top = f'{ns}::{self.top}'
        ids = self.recs[-1][2]
        o.append(f'static const std::size_t sizes_{ns}[] = {{' + ', '.join([f'sizeof({ns}::{t})' for t in self.sizes] + ['0']) + '};')
        o.append(f'static const vf::Access access_{ns}[] = {{' + ', '.join(f'{{"{i}", vf::access_of<{top}, "{i}">(), vf::const_safe<{top}, "{i}">()}}' for i in ids) + '};')
        ex = 'nullptr'
        if extra:
            o.append(f'static const vf::Extra extra_{ns} = vf::make_extra<{top}, {dict(std=0, rt=1, cx=2)[extra]}>();')
            ex = f'&extra_{ns}'
        tw = f'"{twin}"' if twin else 'nullptr'
        o.append(f'static vf::Register reg_{ns}({{"{ns}", ",{",".join(tags)},", "{self.text}", sizes_{ns}, {"true" if self.le_only else "false"}, '
                 f'&vf::read_mon<{top}>, &vf::make_obj<{top}>, access_{ns}, {len(ids)}, {ex}, {tw}}});')
        return '\n'.join(o) + '\n'

    def emit_ct(self, cases):
        """cases: [(be, hexA, hexB, mask)] -> types and a function comparing both evaluations"""
        ns = self.name
        o = [f'namespace {ns} {{'] + self.lams + ['}']
        for n, _, ids in self.recs:
            t = f'{ns}::{n}'
            o.append(f'template <> struct vf::glue<{t}> {{ static constexpr bool le_only = {"true" if self.le_only else "false"}; }};')
            o.append(f'template <> struct vf::cglue<{t}> {{')
            o.append(f'  static constexpr void each(const {t}& s, auto&& f) {{')
            for i in ids:
                o.append(f'    vf::each_one<{t}, "{i}">(s, f);')
            o.append('  }')
            o.append(f'  static constexpr void mix({t}& a, const {t}& b, u64 m) {{')
            for k, i in enumerate(ids):
                o.append(f'    if (m >> {k % 64} & 1) vf::mix_one<{t}, "{i}">(a, b);')
            o.append('  }')
            o.append('};')
        t = f'{ns}::{self.top}'
        o.append(f'static void ct_{ns}() {{')
        def sv(h):
            b = bytes.fromhex(h)
            return 'std::string_view("' + ''.join('\\%03o' % x for x in b) + f'", {len(b)})'
        for i, (be, a, b, m) in enumerate(cases):
            args = f'{"true" if be else "false"}, {sv(a)}, {sv(b)}, {m}ull'
            o.append(f'  {{ VF_CONST vf::Digest c = vf::run<{t}, vf::CxIn, vf::CxOut<600>>({args}); vf::report("{ns}", {i}, {int(be)}, "{a}", c, vf::run<{t}, vf::RtIn, vf::RtOut<600>>({args})); }}')
        o.append('}')
        return '\n'.join(o) + '\n'
