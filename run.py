#!/usr/bin/env python3
"""Runs one check:  run.py C01 [quick|thorough]      replays one: run.py --replay FILE

Builds instrumented programs from the current working tree of /repo, runs the
workloads of the property under their monitors, writes evidence/<id>.json.
exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: no answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(ROOT, 'harness')
sys.path.insert(0, H)
sys.dont_write_bytecode = True
sys.modules.setdefault('run', sys.modules[__name__])
import catalogue, gen, rnd, twins  # noqa: E402
from checks import CHECKS, RULES, feats  # noqa: E402

BUILD = os.path.join(ROOT, '.build')
CXX = shutil.which('g++-14') or shutil.which('g++')
JOBS = os.cpu_count() or 4
BASE = ['-std=c++23', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-fno-diagnostics-show-caret']
T0 = time.time()


class NoAnswer(Exception):
    pass


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, file=sys.stderr, flush=True)


def sh(x):
    return hashlib.sha256(x if isinstance(x, bytes) else x.encode()).hexdigest()[:24]


def tree_hash(d):
    h = hashlib.sha256()
    for p, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.pyc'):
                continue
            q = os.path.join(p, f)
            h.update(os.path.relpath(q, d).encode() + b'\0')
            with open(q, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def prune():
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    es = sorted(((e.stat().st_mtime, e.stat().st_size, e.path) for e in os.scandir(d)), reverse=True)
    tot = 0
    for m, s, p in es:
        tot += s
        if tot > 3 << 30:
            try:
                os.unlink(p)
            except OSError:
                pass


class Unit:
    """one translation unit: text, flags, include directory; names of schemas in it"""
    def __init__(self, text, flags, inc, names=(), lang='schema', opt='-O0'):
        self.text, self.flags, self.inc, self.names = text, list(flags), inc, list(names)
        self.opt, self.lang = opt, lang
        self.obj = self.err = None


_hash = {}
_locks, _guard = {}, threading.Lock()


def inc_hash(d):
    if d not in _hash:
        _hash[d] = tree_hash(d)
    return _hash[d]


def compile_unit(u):
    key = sh('\0'.join([CXX, u.opt, *BASE, *u.flags, inc_hash(u.inc) if u.lang == 'schema' else '', inc_hash(H), u.text]))
    with _guard:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:      # two programs may hold the same unit
        return compile_key(u, key)


def compile_key(u, key, again=True):
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        u.obj = obj
        return u
    src = os.path.join(BUILD, 'src', key + '.cpp')
    with open(src, 'w') as f:
        f.write(u.text)
    tmp = obj + f'.{os.getpid()}.tmp'
    p = subprocess.run([CXX, *BASE, u.opt, *u.flags, '-I' + u.inc, '-I' + H, '-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode == 0:
        os.replace(tmp, obj)
        u.obj = obj
        try:
            os.unlink(src)
        except OSError:
            pass
    elif again and (p.returncode < 0 or 'Killed' in p.stdout or 'cannot allocate' in p.stdout or 'No space left' in p.stdout):
        time.sleep(2)
        return compile_key(u, key, False)
    else:
        if os.path.exists(tmp):
            os.unlink(tmp)
        u.err = p.stdout
    return u


def compile_all(units):
    os.makedirs(os.path.join(BUILD, 'src'), exist_ok=True)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_unit, units))


def first_error(err):
    m = re.search(r'^.*error:.*$', err or '', re.M)
    return (m.group(0) if m else (err or '')[:300])[:600]


def link(units, out, flags=()):
    p = subprocess.run([CXX, *flags, *[u.obj for u in units], '-pthread', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise NoAnswer('link failed: ' + p.stdout[-2000:])


def core_units(flags=()):
    """driver and model: no library code in them"""
    o = []
    for f in ('driver.cpp', 'model.cpp'):
        o.append(Unit(f'#include "{H}/{f}"\n', flags, H, lang='core', opt='-O1'))
    return o


def schema_units(schemas, per_tu, flags, inc, extra=False):
    """[(name, rec, opts)] -> units, indices as in the list (they name the prefix)"""
    n = max(1, -(-len(schemas) // per_tu))
    out = []
    for t in range(n):
        idx = range(t, len(schemas), n)
        out.append(one_unit(schemas, idx, flags, inc, extra))
    return out


def one_unit(schemas, idx, flags, inc, extra):
    body = '#include "glue.hpp"\n' + ('#include "streams.hpp"\n' if extra else '')
    for j in idx:
        name, rec, k = schemas[j]
        body += gen.render(name, rec, k, j, extra, k.get('twin'))
    u = Unit(body, flags, inc, [schemas[j][0] for j in idx])
    u.idx = list(idx)
    return u


class Program:
    """a driver linked with a set of schemas; schemas that do not compile are set aside"""
    def __init__(self, run, label, schemas, per_tu=6, flags=(), inc=None, extra=False, core_flags=None, lflags=()):
        self.run, self.label, self.schemas = run, label, schemas
        self.inc = inc or os.path.join(REPO, 'include')
        self.flags, self.extra, self.lflags = list(flags), extra, list(lflags)
        self.units = schema_units(schemas, per_tu, flags, self.inc, extra)
        self.core = core_units(core_flags if core_flags is not None else [])
        self.exe = os.path.join(run.tmp, label)
        self.bad = {}

    def finish(self):
        """after compile_all: split failing units, link"""
        for u in self.core:
            if u.err:
                raise NoAnswer('harness does not compile: ' + first_error(u.err))
        fails = [u for u in self.units if u.err]
        if fails:
            singles = [one_unit(self.schemas, [j], self.flags, self.inc, self.extra) for u in fails for j in u.idx]
            compile_all(singles)
            self.units = [u for u in self.units if not u.err] + singles
        for u in self.units:
            if u.err:
                self.bad[u.names[0]] = first_error(u.err)
        if len(self.bad) * 2 > len(self.schemas):
            raise NoAnswer(f'{len(self.bad)} of {len(self.schemas)} schemas do not compile: ' + next(iter(self.bad.values())))
        self.ok = [u for u in self.units if not u.err]
        link(self.ok + self.core, self.exe, self.lflags)
        return self


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.cfg = CHECKS[prop]
        os.makedirs(BUILD, exist_ok=True)
        prune()
        self.tmp = tempfile.mkdtemp(prefix=f'run-{prop}-', dir=BUILD)
        self.violations, self.samples = [], []
        self.tot = {'evals': 0, 'distinct': 0, 'classes': 0, 'skipped': 0}
        self.counters, self.features, self.notes = {}, {}, {}
        self.schemas_used = 0

    thorough = property(lambda self: self.tier == 'thorough')

    # ---- schemas
    def schemas(self, rnd_quick=None, rnd_thorough=None, want=None):
        out = [s for s in catalogue.build() if not want or want(feats(s[1]))]
        n = rnd_thorough if self.thorough else rnd_quick
        if n:
            made, k = [], 0
            while len(made) < n and k < n * 6:
                for s in rnd.build(f'{self.seed}', n, start=k):
                    if len(made) < n and (not want or want(feats(s[1]))):
                        made.append(s)
                k += n
            out += made
        return out

    # ---- execution
    def shards(self, prog, plan=None, scale=1.0, shards=None, args=(), env=None, wrap=(), timeout=None, label=None):
        plan = plan or self.prop
        n = shards or JOBS
        if getattr(self, 'only', None) and self.only.get('work'):
            args = [*args, '--schema', self.only['schema'], '--work', self.only['work'], '--case', str(self.only['case'])]
            n = 1
        timeout = timeout or (5400 if self.thorough else 420)
        outs = []

        def one(i):
            cmd = [*wrap, prog.exe, '--prop', plan, '--seed', str(self.seed), '--tier', self.tier, '--shard', f'{i}/{n}', '--scale', str(scale),
                   '--scratch', self.tmp, '--shm', os.path.join(self.tmp, f'shm{i}'), *args]
            return self.execute(cmd, prog, env, timeout, i)
        with ThreadPoolExecutor(n) as ex:
            for lines in ex.map(one, range(n)):
                outs += lines
        return outs

    def shm(self, cmd):
        try:
            with open(cmd[cmd.index('--shm') + 1], 'rb') as f:
                b = f.read()
            s = lambda x: x.split(b'\0')[0].decode('latin1')
            return {'schema': s(b[:64]), 'work': s(b[64:96]), 'what': s(b[96:496]), 'case': int.from_bytes(b[496:504], 'little')}
        except Exception:
            return {}

    def execute(self, cmd, prog, env, timeout, shard, again=True):
        e = dict(os.environ, **(env or {}))
        hung = False
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, timeout=timeout, cwd=self.tmp)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            hung, rc = True, None
            out = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
            err = ''
        lines, summary = [], None
        for ln in out.splitlines():
            if ln.startswith('{"violation"'):
                try:
                    self.violation(json.loads(ln), prog, cmd)
                except ValueError:
                    self.violation({'kind': 'garbled', 'msg': ln[:500]}, prog, cmd)
            elif ln.startswith('{"summary"'):
                summary = json.loads(ln)
            elif ln:
                lines.append(ln)
        if summary:
            self.add(summary)
        if rc in (0, 1) and (summary or any(True for v in self.violations if v.get('_cmd') == cmd)):
            return lines
        if rc == 2:
            raise NoAnswer('driver refused: ' + err[-800:])
        at = self.shm(cmd)
        if hung:
            # one case alone, with the whole budget, before a hang is called one
            c2 = self.single(cmd, at)
            try:
                subprocess.run(c2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=120, cwd=self.tmp)
                raise NoAnswer(f'shard {shard} timed out, but its current case finishes alone: {at}')
            except subprocess.TimeoutExpired:
                self.violation({'kind': 'hang', 'msg': 'a cast does not return', 'input': at.get('what', ''), **at}, prog, cmd)
                return lines
        if rc == -9 and again:       # ended from outside, most likely memory
            log('shard killed; running it again alone')
            return self.execute(cmd, prog, env, timeout, shard, False)
        if rc == -9:
            raise NoAnswer('shard killed twice')
        self.violation({'kind': 'crash', 'msg': f'terminated with status {rc}: ' + self.report(err), 'input': at.get('what', ''), **at}, prog, cmd)
        return lines

    @staticmethod
    def report(err):
        m = re.search(r'(ERROR: AddressSanitizer.*|runtime error:.*|WARNING: ThreadSanitizer.*|ERROR: LeakSanitizer.*|Assertion .*|terminate called.*(?:\n.*what.*)?)', err)
        at = re.findall(r'(?:include|single_header)/[\w/]+\.hpp:\d+', err)
        return ((m.group(1) if m else err.strip()[-300:]) + (' at ' + ', '.join(dict.fromkeys(at[:4])) if at else ''))[:700]

    @staticmethod
    def single(cmd, at):
        c = []
        i = 0
        while i < len(cmd):
            if cmd[i] == '--shard':
                i += 2
                continue
            c.append(cmd[i])
            i += 1
        return c + ['--schema', at.get('schema', ''), '--work', at.get('work', ''), '--case', str(at.get('case', 0))]

    def violation(self, v, prog=None, cmd=None):
        v = dict(v)
        v['program'] = prog.label if prog else ''
        v['_cmd'] = cmd
        self.violations.append(v)

    def add(self, s):
        for k in self.tot:
            self.tot[k] += s.get(k, 0)
        for k, v in s.get('counters', {}).items():
            self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith('max:') else self.counters.get(k, 0) + v
        for k, v in s.get('features', {}).items():
            if k:
                self.features[k] = max(self.features.get(k, 0), v)
        if len(self.samples) < 12:
            self.samples += s.get('samples', [])[:2]

    def compile_violations(self, prog):
        """a catalogue schema is documented usage: it has to compile"""
        for name, err in prog.bad.items():
            s = next(x for x in prog.schemas if x[0] == name)
            if s[2].get('rnd'):
                self.notes['random_schemas_set_aside'] = self.notes.get('random_schemas_set_aside', 0) + 1
                continue
            self.violation({'kind': 'compile', 'schema': name, 'msg': 'a documented schema no longer compiles: ' + err, 'input': name}, prog)

    # ---- verdict
    def known(self):
        out = []
        try:
            for ln in open(os.path.join(ROOT, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) kind=(\S+) schema=(\S+) input=(\S+) (.*)', ln)
                if m:
                    out.append(m.groups())
        except OSError:
            pass
        return out

    def finish(self):
        known = self.known()
        fresh, seen = [], []
        for v in self.violations:
            k = next((k for k in known if k[0] == self.prop and k[1] == v.get('kind') and k[2] == v.get('schema') and k[3] == sh(v.get('input', ''))), None)
            (seen if k else fresh).append((v, k))
        for t in sorted({k[4] for _, k in seen}):
            print(f'KNOWN-FINDING: property={self.prop} {t}')
        cov = {'evaluations': self.tot['evals'], 'distinct_nontrivial': self.tot['distinct'], 'rule': RULES[self.prop], 'samples': self.samples[:12],
               'outcome_classes': self.tot['classes'], 'cases_skipped_as_unsettled': self.tot['skipped'], 'observed': self.counters, 'schemas_with_feature': self.features, **self.notes}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg['level'], 'coverage': cov, 'assumptions': self.cfg.get('assumptions', []),
              'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fresh:
            v = fresh[0][0]
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            p = os.path.join(ROOT, 'replays', f'{self.prop}-{sh(json.dumps([v.get("kind"), v.get("schema"), v.get("input")]))[:10]}.json')
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'violation': {k: x for k, x in v.items() if k != '_cmd'}, 'command': v.get('_cmd') and self.single(v['_cmd'], v),
                           'replay': f'python3 run.py --replay {os.path.relpath(p, ROOT)}', 'others': [{k: x for k, x in o.items() if k in ('kind', 'schema', 'msg')} for o, _ in fresh[1:12]]}, f, indent=1)
            for o, _ in fresh[:6]:
                log(f"{o.get('kind')} {o.get('program')} {o.get('schema')} {o.get('work', '')}#{o.get('case', '')}: {o.get('msg', '')[:400]} | {str(o.get('input', ''))[:300]}")
            print(f'VIOLATION property={self.prop} replay={p}', flush=True)
            return 1
        if not self.tot['evals']:
            raise NoAnswer('nothing was observed')
        log(f"{self.prop}: held on {self.tot['evals']} executions ({self.tot['distinct']} distinct), {self.tot['skipped']} skipped")
        return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        import schema  # noqa: F401
        p = subprocess.run([CXX, '--version'], stdout=subprocess.PIPE, text=True)
        print(p.stdout.splitlines()[0])
        return 0
    only = None
    if a and a[0] == '--replay':
        only = json.load(open(a[1]))
        a = [only['property'], only['tier']]
        os.environ['VERIF_SEED'] = str(only['seed'])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    r = Run(a[0], tier)
    try:
        r.only = only and only['violation']
        r.cfg['go'](r)
        return r.finish()
    except NoAnswer as e:
        if r.violations:
            return r.finish()
        print(f'NO-ANSWER property={r.prop}: {e}', file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
