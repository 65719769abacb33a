"""Ill-formed schemas: a well-formed one with exactly one thing wrong in it.
Each comes with the well-formed schema it was made from, which has to be
accepted, so that a rejection is known to be about the one thing."""
import copy, random
import gen
from schema import *


def fields_of(f):
    """the field itself and what it wraps, for the ids they depend on"""
    if f.k == 'opt':
        yield f.field
    elif f.k == 'uni':
        for _, a in f.alts:
            yield a
    else:
        yield f


def deps(f):
    """[(kind, id, where in the field it is named first)]"""
    o = []
    for a, g in enumerate(fields_of(f)):
        z = g.get('size')
        if z and z[0] == 'len':
            o.append(('length', z[1], f'{g.k} {a > 0}'))
        elif z:
            o += [('computed length', i, f'{g.k} {a > 0} {x > 0}') for x, i in enumerate(ids_of(z[1], []))]
    if f.k == 'opt' and not f.always:
        o += [('presence', i, f'{f.field.k} {x > 0}') for x, i in enumerate(ids_of(f.pred, []))]
    if f.k == 'uni':
        if f.sel[0] == 'match':
            o.append(('discriminant', f.sel[1], ''))
        elif f.sel[0] == 'comp':
            o += [('computed type', i, f'{x > 0}') for x, i in enumerate(ids_of(f.sel[1], []))]
        else:
            for a, (k, _) in enumerate(f.alts):
                o += [('branch', i, f'{min(a, 2)} {x > 0}') for x, i in enumerate(ids_of(k, []))]
    return list({(k, i): (k, i, w) for k, i, w in reversed(o)}.values())


def swap(e, a, b):
    return tuple(swap(x, a, b) if isinstance(x, tuple) else b if i == 1 and x == a else x for i, x in enumerate(e))


def rename(f, id):
    """wherever the field names id, it names itself"""
    for g in fields_of(f):
        z = g.get('size')
        if z:
            g['size'] = L(f.id) if z == L(id) else (z[0], swap(z[1], id, f.id), *z[2:]) if z[0] != 'len' else z
    if f.k == 'opt' and not f.always:
        f['pred'] = swap(f.pred, id, f.id)
    if f.k == 'uni':
        if f.sel[0] == 'match':
            f['sel'] = MATCH(f.id if f.sel[1] == id else f.sel[1])
        elif f.sel[0] == 'comp':
            f['sel'] = (f.sel[0], swap(f.sel[1], id, f.id), *f.sel[2:])
        else:
            f['alts'] = [(swap(k, id, f.id), a) for k, a in f.alts]


def recs(r, out=None):
    """every record, innermost first, each once"""
    out = [] if out is None else out
    if any(r is x for x in out):
        return out
    for f in r.f:
        for g in fields_of(f):
            if g.rec:
                recs(g.rec, out)
    out.append(r)
    return out


def setid(f, id):
    f['id'] = id
    if f.k == 'opt':
        f.field['id'] = id


JUNK = ['5', 's2s::max_bytes<64>', '4_B', "vf::not_an_option{}"]


def mutants(rec):
    """[(kind, detail, mutate(copy of one of its records), index of the record)]"""
    out = []
    for i, f in enumerate(rec.f):
        for how in ('longer', 'shorter', 'otherwise'):
            id = {'longer': f.id + '_', 'shorter': f.id[:-1], 'otherwise': f.id[:-1] + ('x' if f.id[-1] != 'x' else 'y')}[how]
            if id and all(id != g.id for g in rec.f):
                def name(q, id=id): q['names'] = id
                out.append(('naming an id it does not have', f'{how} {f.k}', name, len(recs(rec)) - 1))
    for n, r in enumerate(recs(rec)):
        at = {f.id: i for i, f in enumerate(r.f)}
        # the same id twice
        for j in range(1, len(r.f)):
            for i in {0, j - 1, j // 2}:
                if i < j:
                    def dup(q, i=i, j=j): setid(q.f[j], q.f[i].id)
                    out.append(('duplicate id', f'{r.f[i].k} {r.f[j].k} {j - i > 1}', dup, n))
        for j, f in enumerate(r.f):
            for kind, id, where in deps(f):
                i = at[id]

                def later(q, i=i, j=j):
                    x = q.f.pop(i)
                    q.f.insert(j, x)

                def last(q, i=i):
                    q.f.append(q.f.pop(i))

                def gone(q, i=i):
                    q.f.pop(i)
                def own(q, j=j, id=id): rename(q.f[j], id)
                out.append((f'{kind} from the field itself', f'{f.k} {where}', own, n))
                out.append((f'{kind} from a later field', f'{f.k} {where} {j - i > 1}', later, n))
                if j + 1 < len(r.f):
                    out.append((f'{kind} from the last field', f'{f.k} {where}', last, n))
                out.append((f'{kind} from no field', f'{f.k} {where}', gone, n))
            for a, g in enumerate(fields_of(f)):
                if g.rec:
                    inner = {i for x in g.rec.f for _, i, _ in deps(x)}
                    for i, x in enumerate(g.rec.f):
                        if x.id in inner and x.id not in at and len(g.rec.f) > 1:
                            def outer(q, j=j, a=a, i=i):
                                h = list(fields_of(q.f[j]))[a].rec
                                q.f.insert(j, h.f.pop(i))
                            out.append(('dependency on a field of the enclosing record', f'{f.k} {x.k}', outer, n))
                # options that do not apply, or twice
                def opt(text):
                    def go(q, j=j, a=a): list(fields_of(q.f[j]))[a]['xopts'] = [text]
                    return go
                place = f'{f.k}.{g.k}' if f is not g else g.k
                if g.magic:
                    continue
                for x in ('5', 'vf::not_an_option{}', 's2s::max_bytes<64>'):
                    if x[0] != 's' or g.k not in ('vec', 'str', 'vrec'):
                        out.append((f'option that does not apply', f'{place} {x}', opt(x), n))
                if g.k in ('vec', 'str', 'vrec'):
                    if g.bound:
                        out.append(('two ceilings', place, opt('s2s::max_bytes<64>'), n))
                    out.append(('two sizes', place, opt(f's2s::len_from_field<{{{g.size[1]}}}>' if g.size[0] == 'len' else '4_B'), n))

                    def fixed(q, j=j, a=a): list(fields_of(q.f[j]))[a]['zfixed'] = '4_B'
                    def none(q, j=j, a=a): list(fields_of(q.f[j]))[a]['zfixed'] = ''
                    out.append(('fixed size for a container', place, fixed, n))
                    out.append(('container without a size', place, none, n))
                elif g.k == 'int':
                    if not g.nosize:
                        out.append(('two sizes', place, opt(f'{g.w}_B'), n))

                    def wide(q, j=j, a=a):
                        h = list(fields_of(q.f[j]))[a]
                        h['w'], h['nosize'] = BYTES[h.ty] + 1, False
                    out.append(('wider than its type', f'{place} {g.ty}', wide, n))
                else:
                    out.append(('option that does not apply', f'{place} 4_B', opt('4_B'), n))
                if g.con and g.k != 'uni':
                    out.append(('two constraints', place, opt('vf::c_yes{}'), n))
            if f.k == 'uni':
                if f.con:
                    def two(q, j=j): q.f[j]['xopts'] = ['vf::c_yes{}']
                    out.append(('two constraints', 'uni', two, n))
                for x in ('5', 's2s::max_bytes<64>', '4_B'):
                    def xo(q, j=j, x=x): q.f[j]['xopts'] = [x]
                    out.append(('option that does not apply', f'uni {x}', xo, n))
                m = len(f.alts)
                for b in range(1, m):
                    for a in {0, b - 1}:
                        if f.sel[0] != 'ladder':
                            def samekey(q, j=j, a=a, b=b): q.f[j].alts[b] = (q.f[j].alts[a][0], q.f[j].alts[b][1])
                            out.append(('duplicate case value', f'{f.sel[0]} {b - a > 1} {m > 8}', samekey, n))
                            if f.alts[a][0] >= 0:
                                def otherkey(q, j=j, a=a, b=b): q.f[j].alts[b] = (f'std::uint64_t({q.f[j].alts[a][0]}u)', q.f[j].alts[b][1])
                                out.append(('duplicate case value', f'{f.sel[0]} {b - a > 1} in another type', otherkey, n))

                        def samealt(q, j=j, a=a, b=b):
                            x = copy.deepcopy(q.f[j].alts[a][1])
                            if x.rec:
                                x['rec'] = q.f[j].alts[a][1].rec
                            q.f[j].alts[b] = (q.f[j].alts[b][0], x)
                        out.append(('duplicate alternative', f'{f.sel[0]} {f.alts[a][1].k} {b - a > 1}', samealt, n))
                        h = f.alts[a][1]
                        if h.k in ('vec', 'str', 'vrec') or h.k == 'int' and BYTES[h.ty] > 1 and not h.con:
                            def likealt(q, j=j, a=a, b=b):
                                x = copy.deepcopy(q.f[j].alts[a][1])
                                if x.rec:
                                    x['rec'] = q.f[j].alts[a][1].rec
                                if x.k == 'int':
                                    x['w'], x['nosize'] = (1 if x.w != 1 else 2), False
                                else:
                                    x['bound'] = 48 if x.bound else 96
                                q.f[j].alts[b] = (q.f[j].alts[b][0], x)
                            out.append(('duplicate alternative', f'{f.sel[0]} {h.k} {b - a > 1} other options', likealt, n))

                def nothing(q, j=j): q.f[j]['alts'] = []
                out.append(('union without alternatives', f.sel[0], nothing, n))
            if f.k == 'opt' and not f.always:
                def notbool(q, j=j): q.f[j]['pk'] = 'notbool'
                out.append(('presence that is no truth value', f.field.k, notbool, n))
    top = len(recs(rec)) - 1
    return [(k, d + ('' if n == top else ' nested'), fn, n) for k, d, fn, n in out]


def render(name, rec, j):
    """the whole program"""
    c = gen.Cpp(name, rec, lambda i: gen.prefix(j) + '_' + i)
    t = f'{name}::{c.top}'
    use = f'(void)x[s2s::field_accessor<"{gen.prefix(j)}_{rec.names}">{{}}];' if rec.get('names') else ''
    return 'namespace %s {\n%s\n}\nint main() { %s x{}; %s return sizeof x == 0; }\n' % (name, '\n'.join(c.lams), t, use)


def make(schemas, seed, count):
    """-> [(kind, detail, schema name, program of the well-formed one, program of the ill-formed one)] and how many places each kind has; every kind and place before any repeats"""
    rng = random.Random(f'ill/{seed}')
    by = {}
    for j, (name, rec, k) in enumerate(schemas):
        for m, (kind, detail, fn, n) in enumerate(mutants(rec)):
            by.setdefault(kind, {}).setdefault(detail, []).append((j, m, fn, n))
    for ds in by.values():
        for xs in ds.values():
            rng.shuffle(xs)
    kinds = sorted(by)
    order = []
    while len(order) < count and any(xs for ds in by.values() for xs in ds.values()):
        turn = {k: rng.sample(sorted(by[k]), len(by[k])) for k in kinds}       # one of each place, the kinds taking turns
        while any(turn.values()):
            for k in kinds:
                d = turn[k].pop() if turn[k] else None
                if d and by[k][d]:
                    order.append((k, d, *by[k][d].pop()))
    out = []
    for k, d, j, m, fn, n in order[:count]:
        name, rec, _ = schemas[j]
        bad = copy.deepcopy(rec)
        fn(recs(bad)[n])
        out.append((k, d, f'{name}#{m}', render(name, rec, j), render(name, bad, j)))
    return out, {k: len(by[k]) for k in kinds}
