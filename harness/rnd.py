"""Random schemas, from a seed. Everything here is inside what the
documentation admits; distinct C++ types per union, dependencies only on
earlier fields of the same record."""
import random
from schema import *

INTS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.pool = []

    def fresh(self, p='q'):
        self.n += 1
        return f'{p}{self.n}'

    def ch(self, *xs): return self.r.choice(xs)
    def p(self, x): return self.r.random() < x

    def ity(self, unsigned=False):
        ty = self.ch(*(INTS[:4] if unsigned else INTS))
        w = BYTES[ty]
        if w > 1 and ty[0] == 'u' and self.p(.3):
            w = self.r.randint(1, w)
        return ty, w

    def con_for(self, ty, w):
        lo, hi = (0, (1 << (8 * w)) - 1) if ty[0] == 'u' else (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
        k = self.ch(lo, hi, self.r.randint(lo, hi), self.r.randint(max(lo, -50), min(hi, 200)), self.r.randint(max(lo, -3), min(hi, 3)))
        op = self.ch('eq', 'neq', 'lt', 'gt', 'lte', 'gte', 'any', 'even')
        if op == 'even':
            return ('even',)
        if op == 'any':
            ks = sorted({k, self.r.randint(lo, hi), max(lo, min(hi, k + 1))})
            self.r.shuffle(ks)
            return ('any', *ks)
        if op == 'lt':
            k = max(k, lo + 1)
        if op == 'gt':
            k = min(k, hi - 1)
        return (op, k)

    def scalar(self, id, alt=False):
        if self.p(.06):
            return I(id, 'bool')
        ty, w = self.ity()
        return I(id, ty, w, con=self.con_for(ty, w) if self.p(.3) else None, nosize=w == BYTES[ty] and self.p(.2))

    def buf(self, id, alt=False):
        k = self.r.randint(0, 4 if not alt else 2)
        if k == 0:
            n = self.r.randint(1, 6)
            b = lambda: bytes(self.r.choice(b'abcXYZ\0\xff') for _ in range(n))
            return FS(id, n, con=self.ch(None, None, None, (self.ch('beq', 'bneq'), b()), ('bany', b(), b())))
        ty = self.ch(*INTS)
        dims = [self.r.randint(1, 4)] + ([self.r.randint(1, 3)] if self.p(.3) and not alt else [])
        if k == 4:
            return CSTR(id, self.r.randint(1, 5))
        if k == 3:
            return A(id, ty, dims[0], carr=1)
        con = None
        if self.p(.25):
            tot = 1
            for d in dims:
                tot *= d
            b = 8 * BYTES[ty]
            lo, hi = (0, (1 << b) - 1) if ty[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            vals = lambda: tuple(self.r.randint(lo, hi) for _ in range(tot))
            op = self.ch('aeq', 'aneq', 'firstne', 'alt', 'agt', 'alte', 'aany')
            con = (op, self.r.randint(0, 100)) if op == 'firstne' else (op, vals(), vals(), vals()) if op == 'aany' else (op, *vals())
        return A(id, ty, *dims, con=con)

    # expressions over what came before
    def small(self, env):
        """an expression with a small value"""
        xs = [('and', ('f', e.id), ('c', self.ch(1, 3, 7))) for e in env if e.k == 'int' and e.ty != 'bool'] + [('sz', e.id) for e in env if e.k in ('vec', 'str', 'vrec')]
        for e in env:
            if e.k == 'sub':
                xs += [('and', ('rf', e.id, g.id), ('c', 3)) for g in e.rec.f if g.k == 'int' and not e.rec.hidden_(g)]
        xs += [('and', x, ('c', 3)) for x in self.inside(env)]
        if not xs:
            return ('c', self.r.randint(0, 3))
        x = self.r.choice(xs)
        if self.p(.4):
            x = (self.ch('add', 'add', 'mul'), x, self.r.choice(xs + [('c', 1), ('c', 2)]))
        return x

    def inside(self, env):
        """values inside arrays, containers and optionals"""
        xs = []
        for e in env:
            if e.k == 'arr' and len(e.dims) == 1 and e.ty[0] in 'ui':
                xs.append(('el', e.id, self.r.randrange(e.dims[0])))
            elif e.k == 'fstr' and e.n:
                xs.append(('el', e.id, self.r.randrange(e.n)))
            elif e.k == 'opt' and e.field.k == 'int' and e.field.ty != 'bool':
                xs.append(('ov', e.id))
            elif e.k == 'str' or e.k == 'vec' and not e.dims and e.ty[0] in 'ui':
                xs.append(('bk', e.id))
        return xs

    def pred(self, env):
        xs = [x if self.p(.5) else (self.ch('eq', 'ne', 'lt', 'gt'), x, ('c', self.r.randint(0, 200))) for x in self.inside(env)]
        for e in env:
            if e.k == 'int':
                if e.ty == 'bool':
                    xs.append(('f', e.id))
                else:
                    b = self.r.randint(0, 8 * e.w - 1)
                    xs += [('and', ('shr', ('f', e.id), ('c', b)), ('c', 1)), (self.ch('lt', 'gt', 'eq', 'ne'), ('f', e.id), ('c', self.r.randint(0, self.ch(3, 40, (1 << (8 * e.w)) - 1))))]
            elif e.k in ('vec', 'str', 'vrec'):
                xs.append((self.ch('gt', 'eq', 'lt'), ('sz', e.id), ('c', self.r.randint(0, 3))))
            elif e.k == 'opt':
                xs.append(('has', e.id))
            elif e.k == 'uni':
                xs.append(('eq', ('idx', e.id), ('c', self.r.randint(0, len(e.alts) - 1))))
        if not xs:
            return ('c', 1)
        x = self.r.choice(xs)
        if self.p(.25):
            x = (self.ch('land', 'lor'), x, self.r.choice(xs))
        if self.p(.15):
            x = ('not', x)
        return x

    def size(self, env, fields):
        """an existing or new length field, or a computed length"""
        lens = [e for e in env if e.k == 'int' and e.ty[0] == 'u' and not e.con]
        if self.p(.25):
            return E(self.small(env))
        if lens and self.p(.3):
            return L(self.r.choice(lens).id)
        ty, w = self.ity(unsigned=self.p(.8))
        f = I(self.fresh('n'), ty, w, con=self.ch(None, None, None, None, ('lte', 5), ('neq', 1)))
        fields.append(f)
        env.append(f)
        if self.p(.3):
            g = self.scalar(self.fresh())
            fields.append(g)
            env.append(g)
        return L(f.id)

    def bound(self):
        return self.ch(0, 0, 0, self.r.randint(1, 120))

    def box(self, id, env, fields, depth, alt=False):
        z = self.size(env, fields)
        k = self.r.randint(0, 4 if depth else 3)
        if k == 4:
            return VR(id, self.some_rec(depth, self.r.randint(1, 3)), z, bound=self.ch(0, 0, 200, 64))
        if k == 3:
            return S(id, z, bound=self.bound(), con=self.ch(None, None, None, ('szle', 4), ('firstne', 97)))
        ty = self.ch(*INTS)
        dims = [self.r.randint(1, 3)] if self.p(.15) and not alt else []
        return V(id, ty, z, *dims, bound=self.bound(), con=self.ch(None, None, None, ('szle', 4)) if not dims else None)

    def some_rec(self, depth, n):
        """a new record, or one this schema already uses elsewhere"""
        old = [r for d, r in self.pool if d <= depth - 1]
        if old and self.p(.3):
            return self.r.choice(old)
        r = self.rec(depth - 1, n)
        self.pool.append((depth - 1, r))
        return r

    def record(self, id, depth):
        return SUB(id, self.some_rec(depth, self.r.randint(1, 4))) if self.p(.6) else AR(id, self.some_rec(depth, self.r.randint(1, 3)), self.r.randint(1, 3))

    def tkey(self, f):
        if f.k == 'int':
            return f.ty
        if f.k == 'arr':
            return ('arr', f.ty, tuple(f.dims))
        if f.k == 'fstr':
            return ('fs', f.n)
        if f.k == 'vec':
            return ('vec', f.ty, tuple(f.dims))
        if f.k == 'str':
            return 'str'
        return (f.k, id(f.rec), f.n)

    def plain(self, id, env, fields, depth, alt=False):
        k = self.r.randint(0, 9)
        if k < 4:
            return self.scalar(id, alt)
        if k < 6:
            return self.buf(id, alt)
        if k < 8 or not depth:
            return self.box(id, env, fields, depth, alt)
        return self.record(id, depth)

    def union(self, id, env, fields, depth):
        n = self.r.randint(5, 10) if self.p(.12) else self.r.randint(1, 4)
        sel = self.r.randint(0, 3)
        alts, seen = [], set()
        disc = None
        if sel < 2:
            old = [e for e in env if e.k == 'int' and not e.con and e.ty != 'bool']
            if old and self.p(.2):
                disc = self.r.choice(old)
            else:
                ty, w = self.ity()
                disc = I(self.fresh('t'), ty, w)
                fields.append(disc)
                env.append(disc)
            lo, hi = (0, (1 << (8 * disc.w)) - 1) if disc.ty[0] == 'u' else (-(1 << (8 * disc.w - 1)), (1 << (8 * disc.w - 1)) - 1)
        for _ in range(n * 3):
            a = self.plain('', env, fields, depth, alt=True)
            if a.carr or a.cstr or self.tkey(a) in seen or len(alts) >= n:
                continue
            seen.add(self.tkey(a))
            alts.append(a)
        if sel < 2:
            keys = set()
            while len(keys) < len(alts):
                keys.add(self.ch(self.r.randint(lo, hi), max(lo, min(hi, self.r.randint(-2, 6))), self.r.randint(max(lo, -9), min(hi, 300))))
            keys = list(keys)
            self.r.shuffle(keys)
            kt = disc.ty if any(abs(k) >= 2**31 for k in keys) else None
            return UNI(id, MATCH(disc.id), list(zip(keys, alts)), keyty=kt)
        if sel == 2:
            keys = self.r.sample(range(0, 8 if len(alts) < 8 else 12), len(alts))
            return UNI(id, COMP(self.small(env), self.ch('u8', 'u16', 'i32', 'u64')), list(zip(keys, alts)))
        return UNI(id, LADDER, [(self.pred(env) if i + 1 < len(alts) or self.p(.5) else ('c', 1), a) for i, a in enumerate(alts)])

    def rec(self, depth, n):
        fields, env = [], []
        for _ in range(n):
            id = self.fresh(self.ch('a', 'b', 'f', 'long_name_'))
            k = self.r.randint(0, 9)
            if k < 6:
                f = self.plain(id, env, fields, depth)
            elif k < 8:
                for _ in range(20):
                    f = self.plain(id, env, fields, depth)
                    if not (f.carr or f.cstr):
                        break
                else:
                    f = self.scalar(id)
                f['con'] = None  # maybe takes no constraint
                f = OPT(f, self.pred(env), pk=self.ch('parse_if', 'predicate'))
            else:
                f = self.union(id, env, fields, depth)
            fields.append(f)
            env.append(f)
        r = R(*fields)
        return r


def hidden_(rec, g):
    """does this field become inaccessible (derived length)?"""
    out = [False]

    def sz(z):
        if z and z[0] == 'len' and z[1] == g.id:
            out[0] = True
    for f in rec.f:
        sz(f.get('size'))
        if f.k == 'opt':
            sz(f.field.get('size'))
        if f.k == 'uni':
            for _, a in f.alts:
                sz(a.get('size'))
    return out[0]


class Rec2(F):
    pass


F.hidden_ = lambda self, g: hidden_(self, g)


def build(seed, n, depth=2, start=0):
    out = []
    for i in range(start, start + n):
        g = Gen(f'{seed}/{i}')
        out.append((f'r{i}', g.rec(g.ch(0, 1, 1, depth), g.r.randint(12, 24) if g.p(.1) else g.r.randint(2, 7)), {'rnd': 1}))
    return out
