#!/usr/bin/env python3
"""Development aid: analyse every entry once on a tree and list the properties violated.
usage: matrix.py TREE [--types] [--entries SUBSTR]   (TREE contains include/ktl)"""
import os, sys
tree = os.path.abspath(sys.argv[1])
os.environ['KTL_REPO'] = tree
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'engine'))
import check, passes, tempfile, shutil
import multiprocessing as mp, multiprocessing.pool


def main():
    sub = sys.argv[sys.argv.index('--entries') + 1] if '--entries' in sys.argv else ''
    tmp = tempfile.mkdtemp(prefix='ktlmx.')
    hit, und = {}, []
    try:
        jobs, U = [], check.units()
        pm = {(u, e): ps for u, es in U.items() for e, ps, fl in es}
        M = [('c++17', False), ('c++17', True)]
        with mp.pool.ThreadPool(8) as tp:
            comp = dict(zip([(u, m) for u in U for m in M], tp.map(lambda a: check.compile_unit(a[0], a[1], tmp), [(u, m) for u in U for m in M])))
        for (u, m), (bc, diag) in comp.items():
            if bc is None:
                for e, ps, fl in U[u]:
                    for p in ps:
                        hit.setdefault(p, set()).add('does-not-compile ' + u)
                continue
            for e, ps, fl in U[u]:
                if 'thorough' in fl or ('nodebug' in fl and m[1]) or ('debugonly' in fl and not m[1]) or sub not in e:
                    continue
                o = {'time': 240.0, 'prop': 'ALL'}
                for x in fl:
                    if x.startswith('loops='):
                        o['loop_cap'] = int(x[6:])
                jobs.append((bc, u, e, m, o))
        with mp.Pool(8, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(check.run_entry, jobs, chunksize=1):
                if r['error']:
                    und.append(('error', r['entry'], r['error'].strip().splitlines()[-1]))
                for v in r['violations']:
                    ps = check.label_props(v['label']) or check.rule_props(v['rule'], pm[(r['unit'], r['entry'])])
                    if r['mode'].endswith('asserts'):
                        ps = ps & {'C32'}
                    else:
                        ps = ps - {'C32'}
                    for p in ps:
                        hit.setdefault(p, set()).add(r['entry'])
                for v in r.get('undecided', []):
                    if not r['mode'].endswith('asserts'):
                        und.append(('undecided', r['entry'], v['label'] or v['rule']))
        if '--types' in sys.argv:
            for p in ('C29', 'C30', 'C31'):
                for v in passes.run(p, 'quick', tmp, tree)['violations']:
                    hit.setdefault(p, set()).add(v['rule'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for p in sorted(hit):
        print(p, *sorted(hit[p])[:6])
    for x in und[:12]:
        print('  ', *x)


main()
