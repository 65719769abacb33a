"""Emits translation units binding schemas to the driver."""
import random
from schema import Cpp
import catalogue


def prefix(i):
    """a short per-schema id prefix, so that no two schemas share a record type"""
    a = 'abcdefghijklmnopqrstuvwxyz'
    s = ''
    i += 1
    while i:
        s += a[i % 26]
        i //= 26
    return s


def render(name, rec, k, idx, extra=False, twin=None):
    p = '' if k.get('raw') else prefix(idx) + '_'
    c = Cpp(name, rec, lambda i: p + i)
    tags = [t for t in ('cx', 'big', 'rnd') if k.get(t)] + ([k['wrap']] if k.get('wrap') else [])
    return c.emit(tags, extra='std' if extra == 'std' else ('cx' if k.get('cx') else 'rt') if extra and not k.get('noextra') else False, twin=twin)


def tus(schemas, per_tu, outdir, extra=False, stem='tu'):
    """schemas: [(name, rec, opts)] -> list of file paths"""
    import os
    out = []
    n = max(1, -(-len(schemas) // per_tu))
    for t in range(n):
        body = '#include "glue.hpp"\n' + ('#include "streams.hpp"\n' if extra else '')
        for j in range(t, len(schemas), n):
            name, rec, k = schemas[j]
            body += render(name, rec, k, j, extra, k.get('twin'))
        p = os.path.join(outdir, f'{stem}{t}.cpp')
        open(p, 'w').write(body)
        out.append(p)
    return out


def ct_tus(schemas, cases, per_tu, outdir):
    """cases: name -> [(be, hexA, hexB, mask)]"""
    import os
    out = []
    use = [(j, x) for j, x in enumerate(schemas) if cases.get(x[0])]
    n = max(1, -(-len(use) // per_tu))
    for t in range(n):
        body, calls = '#include "cteval.hpp"\n', ''
        for j, (name, rec, k) in use[t::n]:
            p = '' if k.get('raw') else prefix(j) + '_'
            c = Cpp(name + '_ct', rec, lambda i: p + i)
            body += c.emit_ct(cases[name])
            calls += f'  ct_{c.name}();\n'
        body += f'void ct_run{t}() {{\n{calls}}}\n'
        p = os.path.join(outdir, f'ct{t}.cpp')
        open(p, 'w').write(body)
        out.append(p)
    p = os.path.join(outdir, 'ctmain.cpp')
    open(p, 'w').write('#include "glue.hpp"\nnamespace vf { thread_local AllocState alloc_state; std::vector<Entry>& registry() { static std::vector<Entry> r; return r; } }\n' +
                       ''.join(f'void ct_run{t}();\n' for t in range(n)) + 'int main() {\n' + ''.join(f'  ct_run{t}();\n' for t in range(n)) + '}\n')
    return out + [p]


if __name__ == '__main__':
    import sys
    print(tus(catalogue.build(), int(sys.argv[2]), sys.argv[1]))
