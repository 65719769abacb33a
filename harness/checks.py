"""What each check builds and runs."""
import json, os, subprocess


# ------------------------------------------------------------------ features of a schema
def feats(rec, pre='', out=None):
    out = set() if out is None else out

    def one(f, p):
        out.add(p + f.k)
        if f.con:
            out.add('con')
            if f.con[0] in ('eq', 'aeq', 'beq'):
                out.add('pinned')
        if f.k in ('vec', 'str', 'vrec'):
            out.add('box')
            if f.size[0] == 'len':
                out.add('len')
        if f.k == 'opt':
            one(f.field, 'opt.')
        elif f.k == 'uni':
            if f.sel[0] == 'match':
                out.add('len')
            for _, a in f.alts:
                one(a, 'alt.')
        elif f.k in ('sub', 'arec', 'vrec'):
            feats(f.rec, '', out)
    for f in rec.f:
        one(f, '')
    return out


def w_any(*xs):
    return lambda s: any(x in s for x in xs)


# ------------------------------------------------------------------ the ordinary check
def plain(q_scale=1.0, t_scale=1.0, rq=32, rt=320, want=None, extra=False):
    def go(r):
        from run import Program, compile_all, log
        sc = r.schemas(rq, rt, want)
        p = Program(r, 'base', sc, extra=extra)
        compile_all(p.core + p.units)
        p.finish()
        r.compile_violations(p)
        log('built', len(p.schemas), 'schemas')
        r.shards(p, scale=t_scale if r.thorough else q_scale)
        r.notes['schemas'] = len(p.schemas) - len(p.bad)
    return go


# ------------------------------------------------------------------ C11: also under another default ceiling
def c11(r):
    from run import Program, compile_all, log
    want = w_any('box')
    sc = r.schemas(24, 240, want)
    p = Program(r, 'base', sc)
    q = Program(r, 'ceiling4096', sc if r.thorough else [s for s in sc if not s[2].get('rnd')], flags=['-DS2S_DEFAULT_MAX_BYTES=4096'])
    compile_all(p.core + p.units + q.units + q.core)
    p.finish(), q.finish()
    r.compile_violations(p)
    log('built')
    r.shards(p, scale=2 if r.thorough else 1.5)
    r.shards(q, scale=2 if r.thorough else 1.5, args=['--ceiling', '4096'])
    r.notes['schemas'] = len(p.schemas) - len(p.bad)


# ------------------------------------------------------------------ C12: address+undefined, memcheck
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g1']
ASAN_ENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:max_allocation_size_mb=4096', 'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1',
            'LSAN_OPTIONS': 'exitcode=77'}


def c12(r):
    from run import Program, compile_all, log, sh
    sc = r.schemas(20, 260)
    p = Program(r, 'asan', sc, per_tu=4, flags=ASAN, core_flags=ASAN, lflags=ASAN)
    # memcheck: no automatic initialisation here, or uninitialised reads would be hidden
    plainflags = ['-ftrivial-auto-var-init=uninitialized', '-g1', '-DVF_NO_NEW']
    q = Program(r, 'memcheck', sc if r.thorough else [s for i, s in enumerate(sc) if not s[2].get('rnd')], flags=plainflags, core_flags=plainflags)
    compile_all(p.core + q.core + p.units + q.units)
    p.finish(), q.finish()
    r.compile_violations(p)
    log('built')
    r.shards(p, scale=3, env=ASAN_ENV)
    log('address/undefined done')
    before = r.tot['evals']
    r.shards(q, plan='C12v', scale=1, wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite', '--child-silent-after-fork=yes', '--exit-on-first-error=yes'])
    r.notes['executions_under_memcheck'] = r.tot['evals'] - before
    r.notes['schemas'] = len(p.schemas) - len(p.bad)


# ------------------------------------------------------------------ C14: streams and constant evaluation
CT = ['-fconstexpr-ops-limit=400000000', '-fconstexpr-loop-limit=10000000', '-fconstexpr-depth=4096']


def boxes_inside(rec):
    """a container inside a record, an optional or a union, or a string anywhere"""
    def has(f):
        return f.k in ('vec', 'str', 'vrec') or any(has(x) for x in inner(f))

    def inner(f):
        return (f.rec.f if f.rec else []) + [a for _, a in f.alts or []] + ([f.field] if f.field else [])
    return any(f.k == 'str' or f.k == 'vrec' or any(has(x) for x in inner(f)) for f in rec.f)


def c14(r):
    from run import Program, Unit, compile_all, log, link, first_error, NoAnswer
    import gen
    sc = [(n, rec, {**k, 'cx': 1}) for n, rec, k in r.schemas(8, 120)]
    p = Program(r, 'streams', sc, per_tu=4, extra=True)
    compile_all(p.core + p.units)
    p.finish()
    r.compile_violations(p)
    log('built')
    r.shards(p, scale=1)
    if getattr(r, 'only', None) and r.only.get('work') and r.only['work'] != 'ct':
        return
    # cases for constant evaluation, chosen by the generator
    keep = dict(r.tot), dict(r.counters)
    only, r.only = getattr(r, 'only', None), None
    out = r.shards(p, plan='C14e', scale=1)
    r.only = only
    r.tot, r.counters = keep
    cases = {}
    for ln in out:
        f = ln.split()
        if len(f) == 6 and f[0] == 'K':
            cases.setdefault(f[1], []).append((f[2] == '1', f[3][:-1], f[4][:-1], f[5]))
    inc = p.inc
    use = [(j, x) for j, x in enumerate(sc) if cases.get(x[0])]

    def unit(items, t, flags=(), only=None):
        body, calls = '#include "cteval.hpp"\n', ''
        for j, (name, rec, k) in items:
            pre = '' if k.get('raw') else gen.prefix(j) + '_'
            c = gen.Cpp(name + '_ct' + ('' if only is None else f'_{only}'), rec, lambda i: pre + i)
            body += c.emit_ct(cases[name] if only is None else [cases[name][only]])
            calls += f'  ct_{c.name}();\n'
        u = Unit(body + f'void ct_run{t}() {{\n{calls}}}\n', [*CT, *flags], inc, [x[0] for _, x in items])
        u.items, u.t = items, t
        return u

    n = max(1, -(-len(use) // 5))
    us = [unit(use[t::n], t) for t in range(n)]
    compile_all(us)
    # what cannot be constant-evaluated but compiles otherwise is itself a difference
    bad = [u for u in us if u.err]
    if bad:
        singles = [unit([it], n + k) for k, it in enumerate(it for u in bad for it in u.items)]
        compile_all(singles)
        # of those, case by case: GCC loses track of strings and vectors moved inside aggregates
        # (it ends a lifetime early or frees twice where the machine does not)
        lost = ('outside its lifetime', '_M_allocated_capacity', 'already deallocated')
        each = [unit(u.items, 10000 + 100 * u.t + k, only=k) for u in singles if u.err for k in range(len(cases[u.names[0]]))]
        compile_all(each)
        for k, u in enumerate(each):
            if not u.err:
                continue
            item = u.items[0][1]
            if item[2].get('rnd') or (any(x in u.err for x in lost) and boxes_inside(item[1])):
                r.notes['cases_the_compiler_cannot_constant_evaluate'] = r.notes.get('cases_the_compiler_cannot_constant_evaluate', 0) + 1
                continue
            v = Unit(u.text, [*u.flags, '-DVF_NOCONST'], inc)
            compile_all([v])
            if not v.err:
                r.violation({'kind': 'consteval', 'schema': u.names[0], 'msg': 'runs, but is not a constant expression: ' + first_error(u.err), 'input': json.dumps(cases[u.names[0]][:4])}, p)
        singles += each
        us = [u for u in us if not u.err] + [u for u in singles if not u.err]
    main = Unit('#include "glue.hpp"\nnamespace vf { thread_local AllocState alloc_state; std::vector<Entry>& registry() { static std::vector<Entry> r; return r; } }\n' +
                ''.join(f'void ct_run{u.t}();\n' for u in us) + 'int main() {\n' + ''.join(f'  ct_run{u.t}();\n' for u in us) + '}\n', [], inc)
    model = p.core[1]
    compile_all([main])
    if main.err:
        raise NoAnswer(first_error(main.err))
    exe = os.path.join(r.tmp, 'ct')
    link(us + [main, model], exe)
    q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300)
    same = 0
    for ln in q.stdout.splitlines():
        if ln.startswith('SAME'):
            same += 1
        elif ln.startswith('DIFF'):
            r.violation({'kind': 'consteval', 'schema': ln.split()[1], 'msg': 'constant evaluation differs from the run: ' + ln[:1500], 'input': ln[:400]}, p)
    if q.returncode:
        r.violation({'kind': 'crash', 'schema': 'ct', 'msg': f'comparison program ended with {q.returncode}: ' + r.report(q.stderr), 'input': ''}, p)
    r.notes['constant_evaluations_compared'] = same
    r.tot['evals'] += same
    r.notes['schemas'] = len(p.schemas) - len(p.bad)


# ------------------------------------------------------------------ C18: threads
TSAN = ['-fsanitize=thread', '-g1']


def c18(r):
    from run import Program, compile_all, log
    sc = r.schemas(16, 200)
    p = Program(r, 'tsan', sc, flags=TSAN, core_flags=TSAN, lflags=TSAN)
    compile_all(p.core + p.units)
    p.finish()
    r.compile_violations(p)
    log('built')
    env = {'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1'}
    wrap = ['setarch', '-R'] if os.path.exists('/usr/bin/setarch') and subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    r.shards(p, scale=1 if r.thorough else 3, shards=4, env=env, wrap=wrap)
    r.notes['schemas'] = len(p.schemas) - len(p.bad)


# ------------------------------------------------------------------ C20: twins
def c20(r):
    from run import Program, compile_all, log
    import twins
    sc = twins.build()
    p = Program(r, 'twins', sc, per_tu=9)
    compile_all(p.core + p.units)
    p.finish()
    r.compile_violations(p)
    log('built', len(sc))
    r.shards(p, scale=4 if r.thorough else 8)
    r.notes['schemas'] = len(p.schemas) - len(p.bad)
    r.notes['equivalence_groups'] = len({s[2].get('twin') for s in sc})


# ------------------------------------------------------------------ C22: three header sets
def c22(r):
    from run import Program, compile_all, log, REPO, NoAnswer
    fresh = os.path.join(r.tmp, 'inc-fresh')
    os.makedirs(fresh)
    out = os.path.join(fresh, 's2s.hpp')
    g = subprocess.run(['python3', '-B', os.path.join(REPO, 'scripts/amalgam.py'), os.path.join(REPO, 'include'), os.path.join(REPO, 'include/s2s.hpp'), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=r.tmp)
    if g.returncode or not os.path.exists(out):
        r.violation({'kind': 'amalgam', 'schema': '', 'msg': 'the amalgamation script fails: ' + g.stdout[-600:], 'input': ''})
    ship = os.path.join(r.tmp, 'inc-shipped')
    os.makedirs(ship)
    try:
        with open(os.path.join(REPO, 'single_header/s2s.hpp')) as f, open(os.path.join(ship, 's2s.hpp'), 'w') as o:
            o.write(f.read())
    except OSError as e:
        r.violation({'kind': 'missing', 'schema': '', 'msg': str(e), 'input': ''})
    incs = {'modular': os.path.join(REPO, 'include'), 'shipped': ship, 'fresh': fresh}
    incs = {k: v for k, v in incs.items() if os.path.exists(os.path.join(v, 's2s.hpp'))}
    sc = [(n, rec, k if i % 2 else {**k, 'noextra': 1}) for i, (n, rec, k) in enumerate(r.schemas(6, 80))]      # the other kinds of stream for every second one
    small = [s for s in sc if 'box' in feats(s[1])][::3]
    progs = {}
    for k, v in incs.items():
        progs[k] = Program(r, k, sc, per_tu=8, inc=v, extra='rt')
        progs[k + '4096'] = Program(r, k + '4096', small, per_tu=6, inc=v, flags=['-DS2S_DEFAULT_MAX_BYTES=4096'])
    compile_all([u for p in progs.values() for u in p.core[:0] + p.units] + next(iter(progs.values())).core)
    core = next(iter(progs.values())).core
    dead = {}
    for k, p in progs.items():
        p.core = core
        try:
            p.finish()
        except NoAnswer as e:
            dead[k] = str(e)
    if dead:
        if len(dead) == len(progs):
            raise NoAnswer(next(iter(dead.values())))
        for k, e in dead.items():
            r.violation({'kind': 'header', 'schema': k, 'msg': f'programs build against the other headers but not against {k}: {e}', 'input': k})
        progs = {k: p for k, p in progs.items() if k not in dead}
    log('built')
    for suffix in ('', '4096'):
        ks = [k for k in incs if k + suffix in progs]
        if len(ks) < 2:
            continue
        bad = {k: set(progs[k + suffix].bad) for k in ks}
        for k in ks:
            for n in sorted(bad[k] - set.intersection(*bad.values())):
                r.violation({'kind': 'compile', 'schema': n, 'msg': f'compiles against some headers but not {k}: ' + progs[k + suffix].bad[n], 'input': n}, progs[k + suffix])
        digs = {}
        for k in ks if not (getattr(r, 'only', None) and r.only.get('kind') == 'judged') else []:
            keep = {x: v for x, v in r.tot.items()}
            nv = len(r.violations)
            lines = r.shards(progs[k + suffix], scale=1, args=['--ceiling', '4096'] if suffix else [])
            digs[k] = {tuple(ln.split()[1:4]): ln.split()[4] for ln in lines if ln.startswith('D ')}
            if k != ks[0]:
                r.tot['distinct'], r.tot['classes'] = keep['distinct'], keep['classes']
            del nv
        common = set.intersection(*(set(d) for d in digs.values())) if digs else set()
        r.notes['digests_compared' + suffix] = len(common)
        for key in sorted(common):
            if len({d[key] for d in digs.values()}) > 1:
                texts = {}
                for k in ks:
                    c = [progs[k + suffix].exe, '--prop', 'C22', '--seed', str(r.seed), '--tier', r.tier, '--schema', key[0], '--work', key[1], '--case', key[2], '--verbose', '1'] + (['--ceiling', '4096'] if suffix else [])
                    q = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
                    texts[k] = next((ln.split(' ', 5)[-1][:1200] for ln in q.stdout.splitlines() if ln.startswith('D ')), '?')
                r.violation({'kind': 'digest', 'schema': key[0], 'work': key[1], 'case': int(key[2]), 'msg': 'outcomes differ: ' + json.dumps(texts), 'input': ' '.join(key) + suffix}, progs[ks[0] + suffix])
                break
    judged(r, {k: progs[k] for k in incs if k in progs})
    judged(r, {k: progs[k + '4096'] for k in incs if k + '4096' in progs}, ['--ceiling', '4096'])
    r.notes['schemas'] = len(sc)
    r.notes['header_sets'] = sorted(incs)


def c23(r):
    """The schema checks run in the compiler: they are run there on generated
    ill-formed schemas, and on the well-formed one each was made from."""
    import illformed
    from run import CXX, H, JOBS, REPO, NoAnswer, log
    from concurrent.futures import ThreadPoolExecutor
    ms, places = illformed.make(r.schemas(10, 120), r.seed, 6000 if r.thorough else 800)
    only = getattr(r, 'only', None)
    if only:
        ms = [m for m in ms if m[2] == only['schema']]
    pre = os.path.join(r.tmp, 'pre.hpp')
    with open(pre, 'w') as f:
        f.write('#include "glue.hpp"\n')
    cmd = [CXX, '-std=c++23', '-w', '-fmax-errors=1', '-fno-diagnostics-show-caret', '-I', os.path.join(REPO, 'include'), '-I', H]
    g = subprocess.run(cmd + ['-x', 'c++-header', pre, '-o', pre + '.gch'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if g.returncode:
        raise NoAnswer('the headers do not compile: ' + g.stdout[-600:])

    def compiles(src):
        for again in (1, 0):
            p = subprocess.run(cmd + ['-fsyntax-only', '-include', pre, '-x', 'c++', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
            if p.returncode == 0:
                return True, ''
            if p.returncode == 1 and 'error:' in p.stdout and 'internal compiler error' not in p.stdout:
                return False, next(ln for ln in p.stdout.splitlines() if 'error:' in ln)
        return None, p.stdout[-300:]
    good = list(dict.fromkeys(m[3] for m in ms))
    with ThreadPoolExecutor(JOBS) as ex:
        ok = dict(zip(good, ex.map(compiles, good)))
        log(f'{len(good)} well-formed schemas: {sum(v[0] is True for v in ok.values())} accepted')
        left = [m for m in ms if ok[m[3]][0]]
        got = list(ex.map(lambda m: compiles(m[4]), left))
    r.tot['skipped'] += len(ms) - len(left)
    why = set()
    for (kind, detail, name, _, src), (acc, text) in zip(left, got):
        if acc is None:
            r.tot['skipped'] += 1
            continue
        r.tot['evals'] += 1
        r.counters[('accepted: ' if acc else 'rejected: ') + kind] = r.counters.get(('accepted: ' if acc else 'rejected: ') + kind, 0) + 1
        why.add((kind, detail))
        if acc:
            r.violation({'kind': 'accepted', 'schema': name, 'msg': f'compiles: {kind} ({detail})', 'input': f'{name} {kind} {detail}'})
        elif len(r.samples) < 12 and kind not in [x['kind'] for x in r.samples]:
            r.samples.append({'kind': kind, 'where': detail, 'schema': name, 'compiler': text[:200]})
    if len(left) * 2 < len(ms):
        raise NoAnswer('most of the well-formed schemas are rejected')
    r.tot['distinct'] = len({m[4] for m in left})
    r.tot['classes'] = len(why)
    r.notes['well_formed_accepted'] = sum(v[0] is True for v in ok.values())
    r.notes['kinds'] = len(places)


def judged(r, progs, args=[]):
    """every other property's workloads, judged by the model, under each header set: a case that fails under some sets only"""
    if len(progs) < 2 or getattr(r, 'only', None) and r.only.get('kind') != 'judged':
        return
    bad = {}
    for k, p in progs.items():
        before = len(r.violations)
        r.shards(p, plan='C22j', scale=2 if r.thorough else 3, args=args)
        new, r.violations[before:] = r.violations[before:], []
        for v in new:
            bad.setdefault((v.get('schema'), v.get('work'), v.get('case')), {})[k] = v
    r.notes['judged_cases_failing_everywhere'] = 0
    for (schema, work, case), vs in sorted(bad.items(), key=lambda x: str(x[0]))[:40]:
        k, v = next(iter(vs.items()))
        fine = []
        for o, p in progs.items():
            if o in vs:
                continue
            before = len(r.violations)
            c = [p.exe, '--prop', 'C22j', '--seed', str(r.seed), '--tier', r.tier, '--schema', schema or '', '--work', work or '', '--case', str(case), '--scratch', r.tmp, '--shm', os.path.join(r.tmp, 'shmj'), *args]
            r.execute(c, p, None, 120, 0)
            if len(r.violations) == before:
                fine.append(o)
            del r.violations[before:]
        if fine:
            r.violation({**{x: v.get(x) for x in ('schema', 'work', 'case', 'input')}, 'kind': 'judged', 'msg': f'right under {fine}, but under {sorted(vs)}: {v.get("kind")}: {v.get("msg")}'}, progs[k])
            break
        r.notes['judged_cases_failing_everywhere'] += 1


EXP = 'exploration'
COMMON = ['the reference model in harness/model.cpp states the documented encoding correctly', 'the compiler and standard library are correct', 'schemas outside the catalogue and the random generator behave alike']


def C(go, level=EXP, **k):
    return {'go': go, 'level': level, 'assumptions': k.get('assumptions', COMMON)}


OPT_, UNI_, CON_, BOX_ = w_any('opt'), w_any('uni'), w_any('con'), w_any('box')
CHECKS = {
    'C01': C(plain(6, 2)), 'C02': C(plain(5, 2)), 'C03': C(plain(5, 2, extra='std')), 'C04': C(plain(8, 2, extra='std')), 'C05': C(plain(8, 2)), 'C06': C(plain(6, 2, extra='std')), 'C07': C(plain(5, 2)),
    'C08': C(plain(8, 2, want=w_any('len'))), 'C09': C(plain(8, 3, want=w_any('pinned'))), 'C10': C(plain(4, 2, want=CON_)),
    'C11': C(c11), 'C12': C(c12), 'C13': C(plain(6, 2, extra='std'), 'fault_enumeration'), 'C14': C(c14),
    'C15': C(plain(5, 2, want=OPT_)), 'C16': C(plain(5, 2, want=UNI_)), 'C17': C(plain(8, 2)), 'C18': C(c18), 'C19': C(plain(6, 2)), 'C20': C(c20), 'C21': C(plain(8, 2)), 'C22': C(c22), 'C23': C(c23),
}
_r = ('Schemas: a hand-written catalogue of every descriptor, option and dependency, plus schemas drawn at random from VERIF_SEED. Inputs: ')
RULES = {
    'C01': _r + 'encodings of generated values with random tails, sweeps of every field over its edge values, and mutations of encodings. A read is non-trivial when the model decodes it or consumed at least one byte before failing; distinct by schema, byte order and input bytes.',
    'C02': _r + 'mutated encodings, every truncation of an encoding, sweeps of every steering field. Non-trivial and distinct as in C01.',
    'C03': _r + 'sequences of records on one stream, every truncation, mutated encodings, large containers, on the instrumented stream and on std::istream over a recording buffer; every byte asked for is recorded. Non-trivial and distinct as in C01.',
    'C04': _r + 'generated consistent structs built field by field in random order, and edit histories on one object. Distinct by schema, byte order and struct value.',
    'C05': _r + 'structs perturbed in one to three places, edit histories, default-constructed structs. Distinct by schema, byte order and struct value.',
    'C06': _r + 'as C05, plus a stream that refuses after every byte budget. Distinct by schema, byte order, value (and fault point).',
    'C07': _r + 'structs written and read back, accepted bytes written again, chains of read, modify, write. Non-trivial when the first step succeeds.',
    'C08': _r + 'edit histories, perturbed structs and container sizes around each capacity of the length field. Distinct by schema, order, value.',
    'C09': _r + 'every byte and bit of every pinned field changed on the wire and in the struct. Distinct by schema, order, input.',
    'C10': _r + 'values at and around each constraint literal, and its aliases modulo powers of two, in every constrained field at every level, both directions. Distinct by schema, order, input.',
    'C11': _r + 'claimed lengths at, below and above each ceiling, products that overflow, negative lengths; operator new records every block. Two builds: default ceiling and S2S_DEFAULT_MAX_BYTES=4096. Distinct by schema, order, input.',
    'C12': _r + 'hostile bytes from exactly-sized heap buffers, failing and throwing streams, then inspect, copy, move, edit, write, destroy, under address+undefined+leak sanitizers and, on a smaller workload, memcheck. Every execution is non-trivial; distinct by schema, order, input.',
    'C13': _r + 'for each case, the fault is placed at every byte budget and every stream operation (refuse or throw), and every allocation index; on a custom stream and on standard streams whose buffer refuses or throws at every byte, with and without an exception mask, and that had already failed. Distinct by schema, order, input and fault point.',
    'C14': _r + 'the same case through a stringstream, an fstream, a minimal custom stream, a constexpr stream at run time and in constant evaluation; the four run-time results and both evaluations are compared. Distinct by schema, order, input.',
    'C15': _r + 'sweeps of every field a predicate reads, hostile bytes, unbalanced structs, edit histories, on schemas with optionals. Distinct by schema, order, input.',
    'C16': _r + 'sweeps of every selector, hostile bytes, unbalanced structs, edit histories, on schemas with unions. Distinct by schema, order, input.',
    'C17': _r + 'consistent and inconsistent structs written repeatedly in both orders to full and failing sinks, the object and its heap blocks snapshotted around each write. Distinct by schema, order, value.',
    'C18': _r + 'eight threads casting a mixed job list on shared const structs and private streams, under the thread sanitizer, each outcome compared with the outcome alone; casts stepped one stream operation at a time in a random order (distinct by schedule); casts nested in the stream of another; and repetition after histories. Distinct by schema and job.',
    'C19': _r + 'pairs of runs in the two byte orders on inputs mirrored integer by integer. Distinct by schema and input.',
    'C20': 'Groups of schemas that differ only in spelling (option order, omissions, magic vs eq, wrapping) run on the same inputs; outcomes, values and bytes must agree. Distinct by group and input.',
    'C21': _r + 'the access each operator[] grants, addresses of the fields, and assigned values as seen by later reads and writes. Distinct by schema and value.',
    'C22': _r + 'the same program built against include/, single_header/ and a fresh amalgamation; digests of outcome, values and bytes compared case by case. Distinct by case.',
    'C23': 'Schemas of the catalogue and random ones with exactly one thing wrong in them, and the well-formed schema each was made from: the library\'s schema checks are run on both (they run in the compiler) and must accept the one and reject the other. Only counted when the well-formed one is accepted. Distinct by program.',
}
