"""Equivalent spellings of one schema (C20)."""
import catalogue
from schema import *


def deep(x, fn):
    """copy of a field/record tree with fn applied to every field"""
    if isinstance(x, F):
        y = F({k: deep(v, fn) for k, v in x.items() if k != '_cpp'})
        if y.k != 'rec':
            fn(y)
        return y
    if isinstance(x, list):
        return [deep(v, fn) for v in x]
    if isinstance(x, tuple):
        return tuple(deep(v, fn) for v in x)
    return x


def reverse(y): y['order'] = (2, 1, 0)
def rotate(y): y['order'] = (1, 2, 0)


def omit(y):
    if y.k == 'int' and y.w == BYTES[y.ty] and not y.magic:
        y['nosize'] = True


def explicit(y):
    """say what is otherwise left out"""
    if y.k != 'opt' and not y.con and not y.magic:
        y['nocon'] = True


def explicit_rev(y):
    explicit(y)
    y['order'] = (2, 0, 1)


def ceiling(y):
    if y.k in ('vec', 'str', 'vrec') and not y.bound:
        y['bound'] = 16 * 1024 * 1024


def unmagic(y):
    if y.magic:
        y['magic'] = None
        if y.k == 'int':
            y['order'] = (1, 0)


def magic(y):
    if y.con and not y.magic and y.k == 'int' and y.con[0] == 'eq' and y.ty != 'bool':
        y['magic'] = True
    if y.con and y.k == 'arr' and y.con[0] == 'aeq' and y.ty == 'u8' and len(y.dims) == 1 and not y.carr and not y.cstr:
        y['magic'] = True


SPELL = ['magics', 'pins', 'pins_nested', 'pins_alt', 'vecs', 'shared', 'vec_arr', 'len_widths', 'computed', 'arec', 'vrec', 'vrec_comp', 'opts_len', 'opts_rec', 'opts_comp', 'uni_all', 'uni_con', 'uni_con_own',
         'uni_ladder_con', 'uni_lens', 'con_u', 'con_s', 'con_arr', 'con_vec', 'con_rec', 'con_len', 'con_disc', 'ceil', 'ceil_def', 'ceil_uni', 'ceil_opt', 'ceil_nest', 'ceil_arr', 'wav', 'narrow', 'ints', 'nest']
WRAP = ['narrow', 'shared', 'pins', 'opts_derived', 'uni_all', 'ladder_derived', 'con_rec', 'ceil', 'vrec_tlv', 'opts_chain']


def build():
    cat = {n: (r, k) for n, r, k in catalogue.build()}
    out = []

    def add(name, rec, group, **k):
        out.append((name, rec, dict(k, twin=group)))

    def has(rec, pred):
        hit = []
        deep(rec, lambda y: hit.append(1) if pred(y) else None)
        return bool(hit)
    for n in SPELL:
        rec, k = cat[n]
        g = 'sp_' + n
        add(n + '_t0', deep(rec, lambda y: None), g)
        add(n + '_t1', deep(rec, reverse), g)
        add(n + '_t2', deep(deep(rec, explicit_rev), omit), g)
        if has(rec, lambda y: y.k in ('vec', 'str', 'vrec')):
            add(n + '_t3', deep(deep(rec, ceiling), rotate), g)
        if has(rec, lambda y: y.magic):
            add(n + '_t4', deep(rec, unmagic), g)
        if has(rec, lambda y: y.con and y.con[0] in ('eq', 'aeq')):
            # alternatives have no magic spelling
            def top_only(r):
                r2 = deep(r, lambda y: None)
                def walk(rr):
                    for y in rr.f:
                        magic(y)
                        if y.rec:
                            walk(y.rec)
                walk(r2)
                return r2
            add(n + '_t5', top_only(rec), g)
    # every order of three options
    from itertools import permutations
    rec, _ = cat['tri']
    for i, o in enumerate(permutations(range(3))):
        def put(y, o=o): y['order'] = o
        add(f'tri_p{i}', deep(rec, put), 'sp_tri')
        add(f'tri_q{i}', deep(deep(rec, explicit), put), 'sp_tri')
    for n in WRAP:
        rec, k = cat[n]
        g = 'wr_' + n
        cp = lambda: deep(rec, lambda y: None)
        add(n + '_w0', cp(), g)
        add(n + '_w1', R(SUB('wrap', cp())), g, wrap='wrapsub')
        add(n + '_w2', R(AR('wrap', cp(), 1)), g, wrap='wraparec')
        add(n + '_w3', R(OPT(SUB('wrap', cp()), ('c', 1), always=1)), g, wrap='wrapopt')
        add(n + '_w4', R(VR('wrap', cp(), E(('c', 1)))), g, wrap='wrapvrec')
        add(n + '_w5', R(UNI('wrap', LADDER, [(('c', 1), SUB('', cp()))])), g, wrap='wrapuni')
    return out
