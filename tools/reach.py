#!/usr/bin/env python3
"""Which lines of the library the workloads reach (gcov).  reach.py [plan ...]
An audit of the workloads, not a check: lines listed are instantiated but never executed."""
import collections, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run, catalogue, rnd  # noqa: E402

plans = sys.argv[1:] or ['C22j', 'C08', 'C05', 'C13', 'C15', 'C16']
inc = os.path.join(run.REPO, 'include')
t = tempfile.mkdtemp(prefix='reach-')
try:
    os.chdir(t)
    us = run.schema_units(catalogue.build() + rnd.build('1', 12, start=0), 6, [], inc, True)

    def one(x):
        i, u = x
        open(f'u{i}.cpp', 'w').write(u.text)
        subprocess.run([run.CXX, *run.BASE, '-O0', '--coverage', '-I' + inc, '-I' + run.H, '-c', f'u{i}.cpp', '-o', f'u{i}.o'], check=True)
    with ThreadPoolExecutor(run.JOBS) as ex:
        list(ex.map(one, enumerate(us)))
    for f in ('driver', 'model'):
        subprocess.run([run.CXX, *run.BASE, '-O1', '-c', f'{run.H}/{f}.cpp', '-o', f'{f}.o'], check=True)
    subprocess.run([run.CXX, '--coverage', *glob.glob('*.o'), '-pthread', '-o', 'drv'], check=True)
    os.mkdir('scr')
    for p in plans:
        ps = [subprocess.Popen(['./drv', '--prop', p, '--seed', '1', '--scratch', t + '/scr', '--shard', f'{i}/{run.JOBS}'], stdout=subprocess.DEVNULL) for i in range(run.JOBS)]
        print(p, [x.wait() for x in ps])
    hit = collections.defaultdict(collections.Counter)
    for f in glob.glob('u*.gcda'):
        for d in subprocess.run([shutil.which('gcov-14') or 'gcov', '-j', '-t', f], capture_output=True).stdout.splitlines():
            for x in json.loads(d)['files']:
                if x['file'].startswith(inc):
                    for l in x['lines']:
                        hit[x['file']][l['line_number']] += l['count']
    for f in sorted(hit):
        src = open(f).read().split('\n')
        un = sorted(n for n, c in hit[f].items() if not c)
        print(os.path.relpath(f, inc), len(hit[f]), 'lines,', len(un), 'never')
        for n in un:
            print('   ', n, src[n - 1].strip())
finally:
    os.chdir('/')
    shutil.rmtree(t)
