"""Hand-written schemas: every descriptor, every combinator, and the corners
where they meet. Names are stable; the driver picks by feature."""
from schema import *


def f(x): return ('f', x)
def c(x): return ('c', x)
def bit(x, n): return ('and', ('shr', f(x), c(n)), c(1))


def build():
    o = []

    def add(name, *fields, **k):
        o.append((name, R(*fields), k))

    # ---- scalars, widths, buffers
    add('ints', I('a', 'u8'), I('b', 'u16'), I('c', 'u32'), I('d', 'u64'), I('e', 'i8'), I('f', 'i16'), I('g', 'i32'), I('h', 'i64'), I('i', 'bool'), I('j', 'char'), cx=1)
    add('narrow', I('a', 'u32', 3), I('b', 'u64', 5), I('c', 'u16', 1), I('d', 'u64', 7), I('e', 'u32', 2), I('f', 'u64', 3), I('g', 'u64', 6), I('h', 'u32', 1), cx=1)
    add('narrow_signed', I('a', 'i32', 3), I('b', 'i64', 5), I('c', 'i16', 1), I('d', 'i64', 7), I('e', 'i32', 2), I('z', 'i8'))
    add('arrays', A('a', 'u16', 3), A('b', 'u32', 2, 2), A('c', 'u16', 4, carr=1), A('d', 'i64', 2), A('e', 'bool', 2), CSTR('f', 4), A('g', 'u8', 5), A('h', 'i16', 2, 3, 2), cx=0)
    add('arrays_cx', A('a', 'u16', 3), A('b', 'u32', 2, 2), A('c', 'u16', 4, carr=1), A('d', 'i64', 2), CSTR('f', 4), A('g', 'u8', 5), cx=1)
    add('carrs', A('a', 'u32', 3, carr=1), A('b', 'u8', 3, carr=1), A('c', 'i16', 2, carr=1), CSTR('s', 1), A('d', 'u64', 2, carr=1))
    add('floats', I('n', 'u8'), A('a', 'f32', 2), A('b', 'f64', 1), V('v', 'f64', L('n')), V('w', 'f32', L('n')))
    add('floats_deep', I('t', 'u8'), I('n', 'u8'), OPT(A('a', 'f64', 2), bit('t', 0)), UNI('u', MATCH('t'), [(1, A('', 'f32', 2)), (2, V('', 'f64', E(f('n')))), (3, V('', 'f32', E(f('n'))))]), AR('r', R(A('p', 'f32', 1), I('q', 'u16')), 2), I('k', 'u8'), VR('vr', R(A('d', 'f64', 1)), L('k')), V('m', 'f32', E(('and', f('t'), c(3))), 2))
    add('fstrs', FS('a', 4), FS('b', 1), I('k', 'u16'), FS('c', 9), cx=1)
    add('wide', *[I('f%d' % i, ['u8', 'u16', 'u32', 'u64', 'i16', 'i32'][i % 6]) for i in range(22)])
    add('idents', I('x', 'u8'), I('xx', 'u16'), I('xxx', 'u8'), I('X', 'u8'), I('a_rather_long_identifier_that_goes_on_and_on', 'u16'),
        I('a_rather_long_identifier_that_goes_on_and_off', 'u16'), S('x_', L('xx')), V('xy', 'u8', L('xxx')))

    # ---- pinned
    add('magics', I('a', 'u32', con=('eq', 0xA1B2C3D4), magic=1), A('b', 'u8', 4, con=('aeq', 0x89, 0x50, 0x4e, 0x47), magic=1),
        FS('c', 4, con=('beq', b'RIFF'), magic=1), I('v', 'u16'), I('d', 'u32', 3, con=('eq', 0x010203)), cx=1)
    add('pins', I('a', 'u16', con=('eq', 0xFFFE)), A('b', 'u16', 3, con=('aeq', 1, 0x200, 0xFFFF)), FS('c', 5, con=('beq', b'a\0b\0c')), I('d', 'i32', con=('eq', -2)),
        A('e', 'u16', 2, 2, con=('aeq', 1, 2, 3, 4)), I('v', 'u8'), I('g', 'u64', con=('eq', 0x0102030405060708)), I('h', 'i8', con=('eq', -128)), I('b2', 'bool', con=('eq', 1)))
    add('pins_nested', I('n', 'u8'), SUB('hd', R(I('m', 'u16', con=('eq', 0x4D5A)), I('v', 'u8'))),
        VR('es', R(FS('t', 2, con=('beq', b'OK'), magic=1), I('v', 'u16'), A('q', 'u8', 2, con=('aeq', 7, 9), magic=1)), L('n')),
        AR('as', R(I('m', 'u8', con=('eq', 0x2E)), I('w', 'u8')), 2))
    add('pins_alt', I('t', 'u8'), I('n', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u32', con=('eq', 77))), (2, A('', 'u8', 2, con=('aeq', 5, 6))), (3, FS('', 2, con=('beq', b'hi'))), (4, S('', L('n'), con=('szle', 3)))]))

    # ---- containers and derived lengths
    add('vecs', I('n', 'u8'), V('v', 'u16', L('n')), I('m', 'u16'), S('s', L('m')), I('k', 'u32'), V('w', 'u64', L('k')), cx=1)
    add('vecs_more', I('n', 'u8'), V('v', 'i8', L('n')), I('m', 'u8'), V('x', 'i32', L('m')), I('k', 'u8'), V('c', 'char', L('k')), I('j', 'u8'), V('z', 'i64', L('j')), I('tail', 'u16'))
    add('shared', I('n', 'u8'), V('a', 'u8', L('n')), I('mid', 'u16'), S('b', L('n')), V('c', 'u32', L('n')))
    add('vec_arr', I('n', 'u8'), V('v', 'u16', L('n'), 2), I('m', 'u8'), V('w', 'u8', L('m'), 2, 2), I('t', 'u8'))
    add('len_widths', I('a', 'u32', 3), S('s', L('a')), I('b', 'u64', 5), V('v', 'u16', L('b')), I('c', 'u16', 1), S('t', L('c')), I('d', 'u64'), V('w', 'u8', L('d')))
    add('len_signed', I('a', 'i8'), S('s', L('a')), I('b', 'i16'), V('v', 'u16', L('b')), I('c', 'i32', 1), V('w', 'u8', L('c')), I('d', 'i64'), S('t', L('d')))
    add('len_cross', I('n1', 'u8'), I('n2', 'u16'), I('pad', 'u8'), V('v', 'u8', L('n2')), S('s', L('n1')), I('after', 'u32'))
    add('len_char', I('n', 'char'), S('s', L('n')), I('k', 'i16'), V('v', 'i16', L('k')), I('e', 'u8'))
    add('len_small', I('n', 'u8'), V('v', 'u8', L('n')), I('w', 'u8'), big=1)
    add('len_small_be', I('n', 'u32', 1), S('s', L('n')), I('k', 'i8'), V('v', 'u8', L('k')), big=1)
    add('computed', I('w', 'u8'), I('h', 'u8'), V('px', 'u16', E(('mul', f('w'), f('h')))), I('p', 'u8'), S('s', E(('add', f('p'), c(1)))), I('z', 'u16'))
    add('computed_sub', I('a', 'u8'), V('v', 'u8', ('expr', ('sub', f('a'), c(3)), 'long long')), I('b', 'u16'), S('s', ('expr', ('sub', f('b'), f('a')), 'int')))
    add('computed_chain', I('n', 'u8'), V('a', 'u8', L('n')), V('b', 'u16', E(('mul', f('n'), c(2)))), S('s', E(('add', ('sz', 'a'), ('sz', 'b')))), I('t', 'u8'))
    add('computed_rf', SUB('h', R(I('x', 'u8'), I('y', 'u16'))), V('v', 'u8', E(('rf', 'h', 'x'))), S('s', E(('and', ('rf', 'h', 'y'), c(7)))))
    add('computed_disc', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (3, I('', 'u16')), (5, I('', 'u32'))]), V('v', 'u8', E(f('t'))), I('m', 'u8', con=('eq', 2)), S('s', E(('add', f('m'), f('t')))))
    add('computed_con', I('k', 'u8', con=('lte', 4)), I('m', 'u8', con=('eq', 3)), V('v', 'u32', E(('add', f('k'), f('m')))), S('s', E(f('m'))))

    # ---- records
    add('nest', I('a', 'u16'), SUB('in', R(I('n', 'u8'), I('x', 'u32'), S('s', L('n')))), I('b', 'u16'), cx=1)
    add('same_ids', I('n', 'u8'), V('v', 'u8', L('n')), SUB('in', R(I('n', 'u16'), V('v', 'u16', L('n')), SUB('in', R(I('n', 'u8'), I('v', 'u8'))))), I('w', 'u8'))
    add('arec', AR('as', R(I('a', 'u16'), I('b', 'u32', 3), I('c', 'u8', con=('lt', 200))), 3), I('t', 'u8'), cx=1)
    add('vrec', I('n', 'u8'), VR('es', R(I('a', 'u16'), I('k', 'u8'), S('s', L('k')), I('m', 'u8', con=('eq', 0x7f))), L('n')), I('t', 'u16'))
    add('vrec_comp', I('a', 'u8'), I('b', 'u8'), VR('es', R(I('x', 'u32'), I('y', 'u8', con=('neq', 9))), E(('add', f('a'), f('b')))), I('e', 'u8'))
    add('vrec_shared', I('n', 'u8'), VR('es', R(I('x', 'u16')), L('n')), V('ws', 'u32', L('n')), VR('fs', R(I('y', 'u8'), I('z', 'i16')), L('n')))
    add('nest3', I('n', 'u8'), VR('a', R(I('m', 'u8'), VR('b', R(I('k', 'u8'), SUB('c', R(I('j', 'u8'), S('s', L('j')), I('q', 'u16'))), V('v', 'u16', L('k'))), L('m'))), L('n')), I('t', 'u8'))
    add('arec_uni', AR('as', R(I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u16')), (2, I('', 'u32'))]), I('o', 'u8'), OPT(I('p', 'u16'), bit('o', 0))), 2), I('z', 'u8'))
    add('vrec_tlv', I('n', 'u8'), VR('tlv', R(I('t', 'u8'), I('l', 'u8'), UNI('v', MATCH('t'), [(0, I('', 'u8')), (1, S('', L('l'))), (2, V('', 'u16', L('l'))), (9, A('', 'u8', 3))])), L('n')), I('crc', 'u32'))

    # ---- optionals
    add('opts', I('fl', 'u8'), OPT(I('a', 'u16'), bit('fl', 0)), OPT(A('b', 'u16', 2), bit('fl', 1)), OPT(I('c', 'u32', 3), bit('fl', 2)), OPT(FS('d', 3), bit('fl', 3)), I('t', 'u8'), cx=1)
    add('opts_len', I('fl', 'u8'), I('n', 'u8'), OPT(S('s', L('n')), bit('fl', 0)), I('m', 'u16', 1), OPT(V('v', 'u16', L('m')), ('gt', f('fl'), c(3))), I('t', 'u8'))
    add('opts_shared', I('fl', 'u8'), I('n', 'u8'), OPT(S('s', L('n')), bit('fl', 0)), OPT(V('v', 'u8', L('n')), bit('fl', 1)), I('t', 'u8'))
    add('opts_chain', I('x', 'u8'), OPT(I('a', 'u8'), ('gt', f('x'), c(10))), OPT(I('b', 'u16'), ('has', 'a')), OPT(I('d', 'u8'), ('not', ('has', 'b'))), I('e', 'u8'))
    add('opts_derived', I('n', 'u8'), V('v', 'u8', L('n')), OPT(I('a', 'u16'), ('gt', f('n'), c(2))), I('t', 'u8'), UNI('u', MATCH('t'), [(4, I('', 'u8')), (6, I('', 'u16'))]),
        OPT(I('b', 'u8'), ('eq', f('t'), c(6))), I('m', 'u16', con=('eq', 258)), OPT(I('d', 'u8'), ('eq', f('m'), c(258))), OPT(I('e', 'u8'), ('ne', f('m'), c(258))))
    add('opts_rec', I('fl', 'u8'), I('n', 'u8'), OPT(SUB('r', R(I('p', 'u16'), I('k', 'u8'), S('s', L('k')))), bit('fl', 0)), OPT(AR('as', R(I('w', 'u8', con=('neq', 3)), I('z', 'u16')), 2), bit('fl', 1)),
        OPT(VR('vs', R(I('g', 'u32')), L('n')), bit('fl', 2)))
    add('opts_expr', SUB('h', R(I('x', 'u16'), I('y', 'u8'))), I('n', 'u8'), S('s', L('n')), OPT(I('a', 'u8'), ('eq', ('rf', 'h', 'x'), c(513))), OPT(I('b', 'u16'), ('gt', ('sz', 's'), c(1))),
        OPT(I('d', 'u8'), ('land', ('lt', ('rf', 'h', 'y'), c(4)), ('ne', f('n'), c(0))), pk='predicate'))
    add('opts_wide', I('k', 'u32'), OPT(I('a', 'u8'), ('eq', f('k'), c(0x01000000))), I('s', 'i16'), OPT(I('b', 'u16'), ('gt', f('s'), c(0x7fffffff))), I('w', 'u64', 5), OPT(I('d', 'u8'), ('gt', f('w'), c(0xffffffff))))
    add('opts_comp', I('a', 'u8'), I('b', 'u8'), OPT(V('v', 'u16', E(('and', f('a'), c(3)))), ('lt', f('a'), f('b'))), OPT(S('s', E(('add', f('b'), c(1))), bound=8), bit('b', 0)), OPT(VR('r', R(I('q', 'u8')), E(c(2))), bit('a', 1)))
    add('opts_uni', I('t', 'u8'), I('n', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u16')), (2, S('', L('n')))]), OPT(I('a', 'u32'), ('eq', ('idx', 'u'), c(1))), I('z', 'u8'))
    add('opts_only', OPT(I('a', 'u16'), c(1), always=1), OPT(I('b', 'u8'), ('eq', ('has', 'a'), c(1))))
    add('opts_bool', I('y', 'bool'), OPT(I('a', 'u16'), f('y')), I('z', 'bool'), OPT(A('b', 'u8', 2), ('not', f('z'))), OPT(I('e', 'i32'), ('lor', f('y'), f('z'))))

    # ---- unions
    P1 = R(I('p', 'u16'), I('q', 'u8'))
    add('uni_all', I('t', 'u8'), I('n', 'u8'), UNI('u', MATCH('t'), [
        (1, I('', 'u32')), (2, I('', 'i16')), (3, S('', L('n'))), (4, SUB('', P1)), (5, A('', 'u16', 3)), (6, FS('', 3)), (7, AR('', R(I('aa', 'u8')), 2)),
        (8, V('', 'u32', L('n'))), (9, VR('', R(I('bb', 'u16'), I('cc', 'u8')), L('n')))]), I('z', 'u16'))
    add('uni_cx', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u32')), (2, I('', 'i16')), (5, A('', 'u16', 3)), (6, FS('', 3)), (4, SUB('', R(I('p', 'u16'), I('q', 'u8'))))]), I('z', 'u16'), cx=1)
    add('uni_wide', I('t', 'u32'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (257, I('', 'u16')), (65537, I('', 'u32')), (0xFFFFFFFE, I('', 'u64'))], keyty='u32'), I('s', 'u32', 3), UNI('w', MATCH('s'), [(0x10203, I('', 'u8')), (3, I('', 'u16'))]))
    add('uni_signed', I('t', 'i8'), UNI('u', MATCH('t'), [(-1, I('', 'u8')), (0, I('', 'u16')), (127, I('', 'u32')), (-128, I('', 'i8'))]), I('s', 'i32'), UNI('w', MATCH('s'), [(-1, I('', 'u8')), (-65536, I('', 'u16')), (255, I('', 'u32'))]))
    add('uni_u64', I('t', 'u64'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (0x100000001, I('', 'u16')), (0x8000000000000000, I('', 'u32'))], keyty='u64'), I('z', 'u8'))
    add('uni_oor', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (300, I('', 'u16')), (2, I('', 'u32'))]), I('s', 'u32', 2), UNI('w', MATCH('s'), [(70000, I('', 'u8')), (7, I('', 'u16'))]))
    add('uni_comp', I('a', 'u8'), I('b', 'u8'), UNI('u', COMP(('and', ('add', f('a'), f('b')), c(3)), 'u8'), [(0, I('', 'u8')), (1, I('', 'u16')), (2, A('', 'u8', 3))]), I('z', 'u8'))
    add('uni_comp_neg', I('a', 'u8'), UNI('u', COMP(('sub', f('a'), c(5)), 'i32'), [(-1, I('', 'u8')), (0, I('', 'u16')), (2, I('', 'u32'))]), UNI('w', COMP(('mul', f('a'), c(64)), 'u8'), [(0, I('', 'u8')), (64, I('', 'u16'))]))
    add('ladder', I('x', 'u16'), I('n', 'u8'), UNI('u', LADDER, [(('lt', f('x'), c(10)), I('', 'u8')), (('lt', f('x'), c(300)), S('', L('n'))), (('eq', f('x'), c(300)), I('', 'u32')), (('gt', f('x'), c(60000)), A('', 'u16', 2))]), I('z', 'u8'))
    add('ladder_overlap', I('x', 'u8'), UNI('u', LADDER, [(bit('x', 0), I('', 'u8')), (bit('x', 1), I('', 'u16')), (bit('x', 2), I('', 'u32')), (('gt', f('x'), c(100)), I('', 'u64'))]), cx=1)
    add('ladder_derived', I('n', 'u8'), S('s', L('n')), UNI('u', LADDER, [(('eq', f('n'), c(0)), I('', 'u8')), (('lt', f('n'), c(3)), I('', 'u16')), (('gt', ('sz', 's'), c(3)), V('', 'u8', E(f('n'))))]), OPT(I('o', 'u8'), ('eq', f('n'), c(1))))
    add('uni_two', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, I('', 'u16'))]), I('k', 'u8'), UNI('w', MATCH('t'), [(1, I('', 'i8')), (2, I('', 'i16')), (3, I('', 'i32'))]), UNI('y', MATCH('k'), [(7, I('', 'u8')), (0, SUB('', R(I('q', 'u8'), S('s', L('q')))))]))
    add('uni_con', I('t', 'u8'), I('n', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u32', con=('lte', 99))), (2, I('', 'i16', con=('gt', -5))), (3, S('', L('n'), con=('szle', 3))), (4, A('', 'u8', 2, con=('firstne', 0))), (5, FS('', 2, con=('bneq', b'no'))), (6, SUB('', R(I('p', 'u8'), I('q', 'u8')), con=('reclt', 'p', 100)))]), I('z', 'u8'))
    add('uni_con_own', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u32', con=('neq', 5))), (2, I('', 'i16')), (3, A('', 'u8', 2))], con=('idxne', 1)), I('z', 'u8'))
    add('uni_ladder_con', I('x', 'u8', con=('neq', 9)), UNI('u', LADDER, [(('lt', f('x'), c(10)), I('', 'u8', con=('any', 1, 2, 4, 8))), (('lt', f('x'), c(20)), V('', 'u16', E(('sub', f('x'), c(9))), bound=8)), (c(1), I('', 'u64', 3, con=('gte', 256)))]), I('z', 'u8'))
    add('disc_len', I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (3, I('', 'u16'))]), V('v', 'u8', L('t')))
    add('uni_lens', I('t', 'u8'), I('n', 'u16'), I('m', 'u8'), UNI('u', MATCH('t'), [(0, S('', L('n'))), (1, V('', 'u8', L('m'))), (2, V('', 'u16', L('n')))]), OPT(S('s', L('m')), ('eq', f('t'), c(0))), I('z', 'u8'))

    # ---- constraints
    add('con_u', I('a', 'u8', con=('lt', 10)), I('b', 'u16', con=('gt', 0x100)), I('c', 'u32', con=('lte', 0x10000)), I('d', 'u64', con=('gte', 0x100000000)), I('e', 'u8', con=('neq', 0)), I('g', 'u16', con=('any', 1, 256, 65535)), I('h', 'u8', con=('even',)), cx=1)
    add('con_s', I('a', 'i8', con=('lt', -10)), I('b', 'i16', con=('gt', -300)), I('c', 'i32', con=('lte', -1)), I('d', 'i64', con=('gte', -1)), I('e', 'i8', con=('neq', -1)), I('g', 'i32', con=('any', -1, 0, 255)))
    add('con_lit', I('a', 'u8', con=('lt', 300, 'i32')), I('b', 'u8', con=('gt', -1, 'i32')), I('c', 'u16', con=('lte', 5, 'u8')), I('d', 'u32', con=('gte', 7, 'i8')), I('e', 'u64', con=('lt', 0x1FFFFFFFF, 'u64')), I('g', 'u8', con=('any', 1, 300, 2, 'i32')),
        I('h', 'i32', con=('lt', 5, 'u32')), I('j', 'i8', con=('gte', 200, 'u8')) if False else I('j', 'i16', con=('gt', -2, 'i64')))
    add('con_lit2', I('a', 'u8', con=('neq', 256, 'i32')), I('b', 'u16', con=('neq', 65537, 'u32')), I('c', 'u32', 2, con=('lt', 40000)), I('d', 'i16', con=('lt', 0, 'i64')), I('e', 'u64', con=('gt', 5, 'i32')), I('g', 'i64', con=('lte', 4000000000, 'u32')), I('h', 'u32', con=('lte', 4294967295, 'i64')))
    add('con_arr', A('a', 'u8', 2, con=('aneq', 1, 2)), A('b', 'u16', 2, con=('firstne', 5)), FS('c', 2, con=('bneq', b'ab')), A('d', 'u8', 3, carr=1, con=('firstne', 7)), CSTR('e', 2, con=('firstne', 65)), A('g', 'u16', 2, 2, con=('aneq', 0, 0, 0, 0)))
    add('con_vec', I('n', 'u8'), V('v', 'u8', L('n'), con=('szle', 3)), I('m', 'u8'), S('s', L('m'), con=('firstne', 120)), I('k', 'u8'), V('w', 'u16', L('k'), con=('firstne', 258)), I('t', 'u8'))
    add('con_rec', SUB('r', R(I('x', 'u8'), I('y', 'u16', con=('gt', 3))), con=('reclt', 'x', 10)), I('n', 'u8'), VR('es', R(I('p', 'u16', con=('neq', 7)), I('q', 'u8')), L('n'), con=('allreclt', 'q', 50)), AR('as', R(I('w', 'i8', con=('gte', -3))), 2, con=('allreclt', 'w', 100)), I('t', 'u8'))
    add('con_nest', I('a', 'u8', con=('lt', 4)), SUB('r', R(I('a', 'u8', con=('gt', 3)), SUB('r', R(I('a', 'u8', con=('eq', 3)), I('b', 'i16', con=('lte', 0)))))), I('b', 'u8', con=('any', 1, 3)))
    add('con_any', I('a', 'u16', con=('any', 16, 8, 24)), I('b', 'i32', con=('any', 9, -4, 0, 77, -4)), I('c', 'u8', con=('any', 300, 2, 1, 'i32')), I('d', 'u64', con=('any', 0x8000000000000000, 1)), I('e', 'u32', 3, con=('any', 70000, 255, 256)),
        I('g', 'char', con=('any', 122, 97)), I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8', con=('any', 8, 1, 4, 2))), (2, A('', 'u8', 2, con=('aany', (9, 1), (1, 9)))), (3, FS('', 2, con=('bany', b'zz', b'ab', b'a\0')))]),
        SUB('r', R(I('x', 'i8', con=('any', 5, -5, 0)), I('y', 'u16', con=('any', 513)))), I('z', 'u8'), cx=1)
    add('con_order', A('a', 'u8', 3, con=('alt', 5, 7, 9)), A('b', 'u16', 2, con=('agt', 256, 3)), A('c', 'i16', 2, con=('alte', -1, 4)), A('d', 'u32', 2, con=('aany', (9, 9), (1, 2), (1, 0x10002))), FS('e', 3, con=('bany', b'GIF', b'BMP', b'A\0C')),
        A('g', 'u8', 2, 2, con=('alt', 1, 2, 3, 4)), I('h', 'u8'))
    add('con_len_any', I('n', 'u8', con=('any', 5, 1, 3)), V('v', 'u8', L('n')), I('t', 'u8', con=('any', 7, 2, 4)), UNI('u', MATCH('t'), [(4, I('', 'u8')), (2, I('', 'u16')), (7, I('', 'u32')), (9, I('', 'u64'))]), I('fl', 'u8', con=('any', 3, 0, 1)), I('m', 'u16', con=('any', 4, 0, 2)), OPT(S('s', L('m')), bit('fl', 0)))
    add('con_least', I('n', 'u8'), V('v', 'u16', L('n'), con=('szge', 1)), I('m', 'u8'), S('s', L('m'), con=('szge', 2)), I('k', 'u16'), VR('es', R(I('x', 'u8'), I('y', 'u16')), L('k'), con=('szge', 1)),
        S('q', E(('and', f('n'), c(3))), con=('lastne', 47)), V('w', 'i32', E(('and', f('m'), c(7))), con=('lastne', -1)), V('ww', 'u8', E(('and', f('k'), c(3))), con=('szge', 1), bound=8), I('z', 'u8', con=('neq', 0)))
    add('con_least_uni', I('n', 'u8'), I('t', 'u8'), UNI('u', MATCH('t'), [(1, V('', 'u8', L('n'), con=('szge', 1))), (2, S('', L('n'), con=('szge', 2))), (3, VR('', R(I('a', 'u8')), L('n'), con=('szge', 1))), (4, I('', 'u8', con=('neq', 0))), (5, A('', 'u8', 2, con=('aneq', 0, 0))), (6, V('', 'u16', L('n'), con=('lastne', 7)))]),
        I('k', 'u8'), UNI('w', MATCH('k'), [(0, I('', 'u8')), (1, I('', 'u16')), (2, S('', E(('and', f('k'), c(3)))))], con=('idxne', 0)), I('x', 'u8'),
        UNI('y', LADDER, [(('lt', f('x'), c(9)), S('', E(f('x')), con=('szge', 1))), (('lt', f('x'), c(99)), I('', 'i8', con=('neq', 0)))]), I('z', 'u8'))
    add('con_zero', I('a', 'u8', con=('neq', 0)), I('b', 'i64', con=('neq', 0)), I('c', 'u32', 3, con=('gt', 0)), A('d', 'u16', 2, con=('agt', 0, 0)), FS('e', 2, con=('bneq', b'\0\0')), I('g', 'bool', con=('neq', 0)), CSTR('h', 2, con=('firstne', 0)), A('i', 'u8', 2, carr=1, con=('firstne', 0)),
        SUB('r', R(I('x', 'u8', con=('neq', 0)))), AR('as', R(I('x', 'i16', con=('lt', 0))), 2), I('z', 'u8'))
    add('con_len', I('n', 'u8', con=('lte', 3)), V('v', 'u8', L('n')), I('m', 'u8', con=('any', 0, 2, 4)), S('s', L('m')), I('k', 'u16', con=('neq', 1)), V('w', 'u16', L('k')), I('t', 'u8'))
    add('con_len_eq', I('n', 'u8', con=('eq', 2)), V('v', 'u16', L('n')), I('fl', 'u8'), I('m', 'u8', con=('gt', 0)), OPT(S('s', L('m')), bit('fl', 0)), I('t', 'u8'))
    add('con_disc', I('t', 'u8', con=('any', 1, 2)), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, I('', 'u16')), (3, I('', 'u32'))]), I('k', 'i8', con=('lt', 0)), UNI('w', MATCH('k'), [(-1, I('', 'u8')), (0, I('', 'u16')), (-7, I('', 'u32'))]))

    # ---- ceilings
    add('ceil', I('n', 'u32'), V('v', 'u32', L('n'), bound=64), I('m', 'u64'), S('s', L('m'), bound=10), I('k', 'u16'), VR('es', R(I('x', 'u32'), I('y', 'u8')), L('k'), bound=100), I('t', 'u8'))
    add('ceil_def', I('n', 'u64'), V('v', 'u64', L('n')), I('m', 'i32'), S('s', L('m')), I('k', 'u64'), VR('es', R(I('x', 'u16')), L('k')))
    add('ceil_uni', I('t', 'u8'), I('n', 'u32'), UNI('u', MATCH('t'), [(1, V('', 'u32', L('n'), bound=16)), (2, S('', L('n'), bound=5)), (3, VR('', R(I('x', 'u64')), L('n'), bound=33)), (4, V('', 'u64', L('n'))), (5, V('', 'u8', E(('add', f('n'), c(1))), bound=7))]), I('z', 'u8'))
    add('ceil_opt', I('fl', 'u8'), I('n', 'u64'), OPT(S('s', L('n'), bound=6), bit('fl', 0)), OPT(V('v', 'u16', L('n'), bound=9), bit('fl', 1)), OPT(VR('r', R(I('x', 'u32')), L('n')), bit('fl', 2)), I('z', 'u8'))
    add('ceil_nest', I('n', 'u8'), VR('es', R(I('k', 'i32'), V('v', 'u16', L('k'), bound=8), I('j', 'u64'), S('s', E(('mul', f('j'), c(3))), bound=9)), L('n')), SUB('in', R(I('m', 'u64'), VR('q', R(I('w', 'u8')), L('m'), bound=4))), I('z', 'u8'))
    add('ceil_comp', I('w', 'u32'), I('h', 'u32'), V('v', 'u8', E(('mul', f('w'), f('h'))), bound=32), I('a', 'i8'), S('s', ('expr', ('add', f('a'), c(1)), 'long long'), bound=12), I('z', 'u8'))
    add('ceil_arr', I('n', 'u64'), V('v', 'u16', L('n'), 2, 2, bound=25), I('m', 'u16'), V('w', 'u64', L('m'), 3, bound=48), I('z', 'u8'))
    add('ceil_bounds', I('n', 'u8'), S('s', L('n'), bound=1), I('m', 'u8'), V('v', 'u64', L('m'), bound=7), I('k', 'u8'), V('w', 'u32', L('k'), bound=4), I('z', 'u8'))

    # ---- shapes: many fields, many levels, one record in many places
    tys = ['u8', 'u16', 'u32', 'u64', 'i16', 'i32']
    add('wide_pins', *[I('f%d' % i, tys[i % 6]) for i in range(16)], I('m0', 'u16', con=('eq', 0x1234)), FS('m1', 2, con=('beq', b'EX'), magic=1), *[I('g%d' % i, tys[(i + 2) % 6]) for i in range(10)],
        I('n', 'u8'), V('v', 'u16', L('n')), I('c0', 'u8', con=('lt', 250)), I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, I('', 'u16', con=('neq', 0)))]), OPT(I('o', 'u16'), bit('f0', 0)),
        *[I('h%d' % i, tys[(i + 4) % 6]) for i in range(6)], A('m2', 'u8', 2, con=('aeq', 0xCA, 0xFE), magic=1), I('k', 'u16'), S('s', L('k')), OPT(S('os', E(('and', f('g1'), c(3)))), ('eq', f('m0'), c(0x1234))), I('m3', 'i32', con=('eq', -7)), I('end', 'u8', con=('gte', 3)))
    PT = R(I('x', 'i16'), I('m', 'u8', con=('eq', 0x5A)), I('k', 'u8'), S('s', L('k')))
    add('reuse', I('fl', 'u8'), SUB('a', PT), I('n', 'u8'), VR('b', PT, L('n')), AR('d', PT, 2), OPT(SUB('e', PT), bit('fl', 0)), OPT(AR('g', PT, 2), bit('fl', 1)), I('t', 'u8'),
        UNI('u', MATCH('t'), [(1, SUB('', PT)), (2, AR('', PT, 2)), (3, VR('', PT, E(('and', f('fl'), c(3)))))]), I('z', 'u8'))
    d = R(I('n', 'u8'), S('s', L('n')), I('m', 'u16', con=('eq', 0xBEEF)), I('w', 'u32', 3, con=('lt', 0x800000)))
    for lv in range(5):
        d = R(I('lv%d' % lv, 'u16'), SUB('in', d) if lv % 2 else AR('in', d, 1), I('e', 'u8', con=('neq', lv)))
    add('deep', I('a', 'u8'), SUB('in', d), I('z', 'u16'))
    add('rows', I('n', 'u8'), V('a', 'u8', L('n'), 2), I('m', 'u16'), V('b', 'u16', L('m'), 2, 3), I('k', 'u8'), V('d', 'u32', L('k'), 3, 1, 2), A('e', 'u32', 2, 2, 2), A('g', 'u8', 3, 2), A('h', 'char', 2, 4), A('i', 'i64', 1, 1, 2), A('j', 'u16', 2, 1, 2, 2), I('z', 'u8'))
    add('rows_opt', I('t', 'u8'), I('n', 'u8'), UNI('u', MATCH('t'), [(1, A('', 'u16', 4)), (2, V('', 'u16', L('n')))]), I('fl', 'u8'), OPT(A('a', 'u32', 2, 2), bit('fl', 0)), OPT(V('b', 'u64', L('n'), 2), bit('fl', 1)), I('z', 'u8'))
    add('deps8', *[I('d%d' % i, 'u8') for i in range(8)], V('v', 'u8', E(('and', ('add', ('add', ('add', f('d0'), f('d1')), ('add', f('d2'), f('d3'))), ('add', ('add', f('d4'), f('d5')), ('add', f('d6'), f('d7')))), c(7)))),
        OPT(I('o', 'u16'), ('gt', ('add', f('d7'), ('mul', f('d3'), f('d5'))), ('add', f('d0'), f('d6')))),
        UNI('u', COMP(('and', ('add', ('sub', f('d6'), f('d1')), ('mul', f('d2'), f('d4'))), c(3)), 'u64'), [(3, I('', 'u8')), (1, I('', 'u16')), (0, I('', 'u32'))]), I('z', 'u8'))
    add('comp_one', I('t', 'u8'), UNI('u', COMP(('and', f('t'), c(1)), 'u64'), [(0, I('', 'u8')), (1, I('', 'u16'))]), I('k', 'i8'), UNI('w', COMP(('add', f('k'), c(1)), 'i8'), [(-128, I('', 'u8')), (127, I('', 'u16')), (0, I('', 'u32')), (1, S('', E(('and', f('t'), c(3)))))]),
        I('g', 'u32'), UNI('y', COMP(('shr', f('g'), c(8)), 'u16'), [(0, I('', 'u8')), (0xFFFF, I('', 'u16')), (0x100, I('', 'u32'))]))
    add('tri', I('n', 'u8'), V('v', 'u8', L('n'), con=('szle', 5), bound=7), S('s', L('n'), con=('firstne', 120), bound=6), I('m', 'u16'), VR('es', R(I('q', 'u8'), I('w', 'u16')), L('m'), con=('allreclt', 'q', 50), bound=24), I('t', 'u8'),
        UNI('u', MATCH('t'), [(1, V('', 'u16', L('m'), con=('szle', 3), bound=10)), (2, S('', E(('and', f('m'), c(15))), con=('firstne', 97), bound=9)), (3, VR('', R(I('r', 'u8')), L('m'), con=('allreclt', 'r', 9), bound=4)), (4, I('', 'u32', 3, con=('lt', 70000)))]),
        V('x', 'u32', E(('and', f('t'), c(31))), con=('firstne', 3), bound=40), I('z', 'u32', 3, con=('neq', 5)))
    add('opts_empty', I('fl', 'u8'), I('n', 'u8'), OPT(S('s', L('n')), bit('fl', 0)), OPT(V('v', 'u32', E(('and', f('fl'), c(2)))), bit('fl', 2)), OPT(VR('r', R(I('q', 'u8')), E(c(0))), bit('fl', 3)), OPT(SUB('e', R(OPT(I('w', 'u8'), c(0)))), bit('fl', 4)), I('z', 'u8'))
    add('bools', I('n', 'u8'), V('v', 'bool', L('n'), 2), A('a', 'bool', 2, 2), I('b', 'bool'), A('d', 'bool', 3, con=('firstne', 1)), AR('as', R(I('x', 'bool'), OPT(I('y', 'u8'), f('x'))), 2), I('t', 'u8'), UNI('u', MATCH('t'), [(0, I('', 'bool')), (1, A('', 'bool', 2))]), I('z', 'u8'))
    add('gaps', I('n', 'u8'), I('p0', 'u64'), A('p1', 'u16', 4), SUB('p2', R(I('n', 'u8'), S('s', L('n')))), I('t', 'u16'), OPT(I('p3', 'u32'), ('lt', f('n'), c(3))), V('v', 'u16', L('n')), I('p4', 'u8', con=('neq', 255)), UNI('u', MATCH('t'), [(0x101, I('', 'u8')), (0x1, SUB('', R(I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, I('', 'u16'))]))))]), S('s', L('n')), I('z', 'u8'))

    add('lens10', *[I('n%d' % i, ['u8', 'u16', 'u32'][i % 3]) for i in range(11)], *[(S('c%d' % i, L('n%d' % i)) if i % 2 else V('c%d' % i, ['u8', 'u16', 'i32'][i % 3], L('n%d' % i))) for i in reversed(range(11))], I('z', 'u8'))
    add('disc10', *[x for i in range(10) for x in (I('t%d' % i, ['u8', 'u16', 'i8'][i % 3]), UNI('u%d' % i, MATCH('t%d' % i), [(i + 1, I('', 'u8')), (i + 30, I('', 'u16'))]))], I('z', 'u8'))
    add('len_mixed', I('fl', 'u8'), I('n', 'u8'), V('v', 'u8', L('n')), OPT(S('s', L('n')), bit('fl', 0)), I('t', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, V('', 'u16', L('n'))), (3, S('', L('n')))]), I('m', 'u16', con=('lt', 40)), OPT(V('w', 'u32', L('m')), bit('fl', 1)), S('x', L('m')), I('z', 'u8'))
    LR = R(I('n', 'u8'), S('s', L('n')), I('m', 'u8', con=('eq', 9)))
    add('lost', I('t', 'u8'), I('k', 'u8'), UNI('u', MATCH('t'), [(1, I('', 'u8')), (2, SUB('', LR)), (5, SUB('', R(I('j', 'u8'), VR('es', LR, L('j')))))]), UNI('w', LADDER, [(('lt', f('k'), c(3)), SUB('', LR)), (('lt', f('k'), c(9)), I('', 'u16'))], con=('idxne', 1)),
        UNI('y', COMP(('and', f('k'), c(1)), 'u8'), [(0, SUB('', LR)), (1, I('', 'u16'))]), I('q', 'u8'), VR('vs', R(I('d', 'u8'), UNI('x', MATCH('d'), [(7, SUB('', LR)), (8, I('', 'u32'))])), L('q')), OPT(I('o', 'u8'), ('eq', f('t'), c(2))), I('z', 'u8'))

    # ---- the other integral types, large fixed buffers, many alternatives
    add('odd_ints', I('a', 'u8c'), I('b', 'u16c'), I('c', 'u32c', 3), I('d', 'i32w'), I('e', 'u64l'), I('f', 'i64l', con=('lt', 100)), I('n', 'u16c'), V('v', 'u16c', L('n')), A('g', 'u32c', 2, 2), A('h', 'i32w', 3, con=('firstne', 7)),
        I('t', 'u64l'), UNI('u', MATCH('t'), [(1, I('', 'u16c', con=('neq', 9))), (2, I('', 'i64l')), (0x100000002, I('', 'u64l')), (7, V('', 'u8c', E(('and', f('n'), c(3)))))], keyty='u64l'), I('k', 'u64l', 5), S('s', L('k')), OPT(I('o', 'u32c'), ('gt', f('b'), c(255))), A('i', 'i64l', 2, carr=1))
    add('big_fixed', A('a', 'u8', 300), A('b', 'u32', 70), FS('c', 130), CSTR('d', 65), A('e', 'i64', 33), A('g', 'u16', 12, 11), A('h', 'u16', 40, carr=1), AR('i', R(I('x', 'u16'), I('y', 'u8', con=('neq', 77))), 18), I('fl', 'u8'),
        OPT(A('j', 'u16', 100), bit('fl', 0)), OPT(FS('k', 64), bit('fl', 1)), I('t', 'u8'), UNI('u', MATCH('t'), [(1, A('', 'u32', 65)), (2, FS('', 90)), (3, AR('', R(I('w', 'u64')), 17)), (4, A('', 'u8', 256))]), I('z', 'u8'))
    add('big_pins', A('a', 'u8', 40, con=('aeq', *[(i * 37 + 5) & 255 for i in range(40)])), FS('b', 33, con=('beq', bytes(65 + i % 26 for i in range(33)))), A('c', 'u16', 20, con=('aneq', *range(20))), I('v', 'u8'),
        I('d', 'u16', con=('any', *[i * i * 7 + 1 for i in range(20)])), A('e', 'u32', 9, con=('alt', *[1 << 20] * 9)), FS('g', 17, con=('beq', b'A seventeen chars'), magic=1), I('w', 'u8'))
    ALTS = [I('', 'u8'), I('', 'u16'), I('', 'u32'), I('', 'u64'), I('', 'i8'), I('', 'i16', con=('neq', 3)), I('', 'i32'), I('', 'i64'), S('', L('n')), V('', 'u8', L('n')), V('', 'u16', L('n')), A('', 'u8', 3), A('', 'u16', 2), FS('', 2), FS('', 5),
            SUB('', R(I('p', 'u8'), I('q', 'u16', con=('lt', 60000)))), AR('', R(I('r', 'u8')), 2), VR('', R(I('y', 'u8'), I('w', 'i16')), L('n')), V('', 'u64', E(('and', f('n'), c(3))))]
    KEYS = [3, 900, 17, 0, 65535, 256, 255, 1, 2, 4096, 12, 11, 10, 9, 8, 7, 6, 5, 40]
    add('uni_many', I('t', 'u16'), I('n', 'u8'), UNI('u', MATCH('t'), list(zip(KEYS, ALTS))), I('z', 'u16'))
    add('uni_many_comp', I('t', 'u8'), I('n', 'u8'), UNI('u', COMP(('and', f('t'), c(31)), 'u8'), list(zip(range(18, -1, -1), ALTS))), I('z', 'u16'))
    add('expr_inside', A('a', 'u16', 3), FS('w', 3), I('n', 'u8'), V('v', 'i16', L('n')), S('s', L('n')), OPT(I('o', 'u8'), ('eq', ('el', 'a', 1), c(258))), A('k', 'u8', 2, con=('aeq', 3, 200)), A('ca', 'i8', 3, carr=1),
        OPT(V('x', 'u8', E(('and', ('el', 'a', 0), c(7)))), ('eq', ('el', 'w', 0), ('el', 'w', 2))), OPT(S('y', E(('el', 'k', 0))), ('lt', ('el', 'ca', 1), c(5))), S('t', E(('and', ('ov', 'o'), c(15)))),
        UNI('u', COMP(('and', ('bk', 'v'), c(3)), 'u8'), [(0, I('', 'u8')), (1, V('', 'u16', E(('and', ('add', ('bk', 's'), ('ov', 'o')), c(7))))), (3, S('', E(('and', ('el', 'a', 2), c(3)))))]),
        UNI('d', LADDER, [(('gt', ('ov', 'o'), c(200)), I('', 'u16')), (('eq', ('bk', 's'), c(65)), A('', 'u8', 2)), (('ne', ('el', 'a', 0), ('el', 'a', 2)), I('', 'i32', con=('gt', -4))), (c(1), I('', 'u8'))]), I('z', 'u8'))
    add('expr_inside_nest', I('m', 'u8'), VR('r', R(A('a', 'i32', 2), FS('k', 2, con=('beq', b'ok')), OPT(I('o', 'u16'), ('lt', ('el', 'a', 0), ('el', 'a', 1))), I('n', 'u8', con=('lte', 6)), V('v', 'u8', L('n')), S('s', E(('and', ('add', ('bk', 'v'), ('el', 'k', 1)), c(7)))), OPT(A('q', 'u8', 2), ('eq', ('ov', 'o'), c(0)))), L('m')), I('z', 'u8'))
    add('ladder_apart', I('a', 'u8'), I('b', 'i16'), S('s', L('a')), I('k', 'u32', 3), UNI('u', LADDER, [(('eq', f('a'), c(1)), I('', 'u8')), (('lt', f('b'), c(0)), V('', 'u16', E(f('a')))), (('eq', ('sz', 's'), c(2)), I('', 'u16', con=('lt', 9))), (('gt', f('k'), ('add', f('a'), c(5))), A('', 'u8', 3))]), OPT(V('v', 'u8', E(('and', ('add', f('a'), f('k')), c(7)))), ('lt', f('b'), f('k'))),
        UNI('w', COMP(('and', ('add', f('b'), f('k')), c(3)), 'u8'), [(0, I('', 'i8')), (1, S('', E(('and', ('add', f('k'), f('a')), c(15))))), (3, V('', 'u32', E(('and', ('add', f('a'), f('b')), c(3)))))]), I('z', 'u8'))
    add('ladder_many', I('t', 'u8'), I('n', 'u8'), UNI('u', LADDER, [(('lt', f('t'), c(5 * i + 5)), a) for i, a in enumerate(ALTS)]), I('z', 'u16'))
    inner = R(I('k', 'u8'), OPT(I('a', 'u16'), bit('k', 0)), OPT(SUB('r', R(I('j', 'u8'), OPT(S('s', E(('and', f('j'), c(7)))), bit('j', 3)), I('m', 'u8', con=('eq', 0x33)))), bit('k', 1)),
              UNI('u', COMP(('and', ('shr', f('k'), c(2)), c(3)), 'u8'), [(0, I('', 'u8')), (1, SUB('', R(I('t', 'u8'), UNI('in', MATCH('t'), [(1, I('', 'u16', con=('gt', 2))), (2, SUB('', R(I('n', 'u8'), V('v', 'u16', L('n')))))]), OPT(I('o', 'u8'), ('eq', f('t'), c(2)))))), (3, VR('', R(I('l', 'u8'), S('s', L('l'))), E(('shr', f('k'), c(6)))))]))
    add('mixed_deep', I('fl', 'u8'), OPT(SUB('o', inner), bit('fl', 0)), I('t', 'u8'), UNI('u', MATCH('t'), [(0, SUB('', inner)), (1, AR('', inner, 2)), (2, VR('', inner, E(('shr', f('fl'), c(6)))))]), OPT(VR('v', inner, E(('and', ('shr', f('fl'), c(4)), c(3)))), bit('fl', 1)), I('z', 'u8'))

    # ---- whole formats
    add('wav', FS('riff', 4, con=('beq', b'RIFF'), magic=1), I('size', 'u32'), A('fmt', 'u8', 4, con=('aeq', 0x66, 0x6d, 0x74, 0x20), magic=1), I('fsz', 'u32', con=('eq', 16)), I('af', 'u16', con=('eq', 1)), I('ch', 'u16', con=('any', 1, 2)),
        I('rate', 'u32', con=('gte', 8000)), I('bits', 'u16', con=('any', 8, 16, 24)), I('dlen', 'u32'), V('data', 'i16', L('dlen'), bound=4096))
    add('gz', A('magic', 'u8', 2, con=('aeq', 0x1f, 0x8b), magic=1), I('cm', 'u8', con=('eq', 8)), I('flg', 'u8', con=('lt', 32)), I('mtime', 'u32'), I('xfl', 'u8'), I('os', 'u8'), OPT(I('xlen', 'u16'), bit('flg', 2)), I('nlen', 'u8'), OPT(S('name', L('nlen')), bit('flg', 3)), I('isize', 'u32'))
    add('dns', I('id', 'u16'), I('fl', 'u16'), I('qd', 'u16'), I('an', 'u16'), VR('q', R(I('l', 'u8', con=('lt', 64)), S('name', L('l')), I('ty', 'u16'), I('cl', 'u16', con=('eq', 1))), L('qd')),
        VR('a', R(I('l', 'u8', con=('lt', 64)), S('name', L('l')), I('ty', 'u16'), I('ttl', 'u32'), I('rl', 'u16'), UNI('rd', MATCH('ty'), [(1, A('', 'u8', 4)), (28, A('', 'u16', 8)), (16, S('', L('rl')))])), L('an')))
    add('pkt', I('ver', 'u8', con=('eq', 4)), I('ihl', 'u8', con=('gte', 5)), I('proto', 'u8'), I('optn', 'u8'), V('opts', 'u32', E(('sub', f('ihl'), c(5))), bound=40), UNI('l4', MATCH('proto'), [(6, SUB('', R(I('sp', 'u16'), I('dp', 'u16'), I('seq', 'u32'), I('fl', 'u8'), OPT(I('urg', 'u16'), bit('fl', 5))))),
        (17, SUB('', R(I('sp', 'u16'), I('dp', 'u16'), I('ul', 'u16'), S('pl', L('ul'))))), (1, I('', 'u32'))]))
    return o
