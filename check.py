#!/usr/bin/env python3
"""Decide one property:  check.py <property-id>

Compiles the witness units of the property against /repo's current headers (IR only,
nothing is linked or run), analyses the entries that belong to the property, runs the
property's structural passes, and reports.
exit 0: held on everything analysed; 1: violated (VIOLATION line); 2: analysis broken.
"""
import sys, os, re, json, time, hashlib, subprocess, tempfile, shutil, traceback
import multiprocessing as mp
import multiprocessing.pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('KTL_REPO', '/repo')
INC = os.path.join(REPO, 'include')
LL = '/usr/lib/llvm-18/bin/'
WIT = os.path.join(HERE, 'witness')
EVID = os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = int(os.environ.get('KTL_JOBS', str(min(8, os.cpu_count() or 1))))

ENTRY = re.compile(r'^\s*HARNESS\(\s*(\w+)\s*,\s*"([^"]*)"\s*(?:,\s*"([^"]*)"\s*)?\)', re.M)
TENTRY = re.compile(r'^\s*HARNESS_T\(\s*(\w+)\s*,\s*"([^"]*)"', re.M)


def units():
    """{unit: [(entry, set(props), set(flags))]}"""
    out = {}
    for f in sorted(os.listdir(WIT)):
        if not f.endswith('.cpp'):
            continue
        src = open(os.path.join(WIT, f)).read()
        es = []
        for m in ENTRY.finditer(src):
            es.append((m.group(1), set(m.group(2).split()), set((m.group(3) or '').split())))
        if es:
            out[f] = es
    return out


# ------------------------------------------------------------------ compilation
def compile_unit(unit, mode, tmp):
    """mode = (std, debug). Returns (bcpath, None) or (None, diagnostics)"""
    std, dbg = mode
    out = os.path.join(tmp, f"{unit}.{std}.{int(dbg)}.bc")
    cmd = [LL + 'clang++', f'-std={std}', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-g', '-w', '-c',
           '-emit-llvm', '-I' + INC, '-I' + WIT, os.path.join(WIT, unit), '-o', out]
    if dbg:
        cmd.insert(1, '-DKTL_DEBUG_ASSERT')
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    r = subprocess.run([LL + 'opt', '-passes=sroa', out, '-o', out], capture_output=True, text=True)
    if r.returncode:
        return None, 'opt: ' + r.stderr
    return out, None


def repo_errors(diag):
    """(file, line, message) of the errors whose primary location is in the analysed headers"""
    out = []
    for m in re.finditer(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', diag, re.M):
        f = os.path.normpath(m.group(1))
        out.append((f, int(m.group(2)), m.group(3)))
    inside = [e for e in out if e[0].startswith(INC)]
    return inside, out


# ------------------------------------------------------------------ one entry
def run_entry(job):
    bc, unit, entry, mode, opts = job
    import llvmir, lin, absint, models  # noqa
    t = time.time()
    res = {'unit': unit, 'entry': entry, 'mode': f"{mode[0]}{'+asserts' if mode[1] else ''}"}
    I = None
    try:
        lin.Sym.reset()
        m = llvmir.Module(bc)
        o = dict(opts)
        o['repo'] = INC
        if 'until' in o:        # the whole check has to finish in time: what is left is shared, late entries are cut short
            o['time'] = max(5.0, min(o['time'], o['until'] - time.time()))
        I = absint.Interp(m, entry, o)
        I.run()
        res.update(violations=list(I.violations.values()), undecided=list(I.undecided.values()), checks=I.checks,
                   states=I.nstates, steps=I.steps, paths=I.paths, splits=I.splits, memchecks=I.memchecks,
                   truncated=I.truncated, unknown=I.ext_unknown, notes=I.notes, fix=I.fixstat,
                   funcs=sorted(f for f in I.funcs), sites=sorted(I.sites), error=None)
    except Exception:
        res['error'] = traceback.format_exc()
        res['violations'] = list(I.violations.values()) if I else []
    res['wall'] = time.time() - t
    return res


# ------------------------------------------------------------------ attribution
LAB = re.compile(r'^((?:[A-Z]\d\d)(?:[ ,]+[A-Z]\d\d)*)\s*:')


def label_props(label):
    if not label:
        return None
    m = LAB.match(label)
    if not m:
        return None
    return set(re.findall(r'[A-Z]\d\d', m.group(1)))


RULES = {'terminate': {'C30'}, 'assertion-fired': {'C32'}, 'live-block-modified': {'C02', 'C06', 'C22'},
         'live-block-released': {'C02', 'C10', 'C12', 'C21'}}


def rule_props(rule, entry_props):
    """properties an unlabelled violation of a built-in rule counts against"""
    if rule == 'endless-loop':
        return entry_props | {'C34'}
    r = RULES.get(rule)
    if r is None:
        return entry_props
    return (r & entry_props) or (entry_props if rule.startswith('live') else r)


def demangle(names):
    names = sorted(set(names))
    if not names:
        return {}
    r = subprocess.run([LL + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def short(n):
    n = re.sub(r'\b(std|ktl|detail)::', '', n)
    return n if len(n) < 200 else n[:200] + '...'


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main():
    if len(sys.argv) < 2:
        print('usage: check.py <property>')
        return 2
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='ktlchk.')
    try:
        return decide(prop, only, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, only, t0, tmp):
    import passes
    sel = []
    for u, es in units().items():
        for e, ps, fl in es:
            if (prop in ps or prop in ('C32', 'C34')) and (only is None or only in e) and ('thorough' not in fl or TIER == 'thorough'):
                sel.append((u, e, ps, fl))
    modes = passes.modes(prop, TIER)
    problems = []      # analysis broken
    viol = []          # dicts
    undec = []
    unexplored, errors = [], []
    compiled = {}
    need = sorted({(u, m) for u, e, ps, fl in sel for m in modes})
    if need:
        with mp.pool.ThreadPool(JOBS) as tp:
            for (u, m), (bc, diag) in zip(need, tp.map(lambda a: compile_unit(a[0], a[1], tmp), need)):
                if bc is None:
                    inside, allerr = repo_errors(diag)
                    if inside:
                        f, l, msg = inside[0]
                        viol.append({'rule': 'does-not-compile', 'message': f"{msg} (valid use in witness/{u}, {m[0]})",
                                     'loc': (f, l, ''), 'chain': [], 'label': None, 'entry': u, 'unit': u, 'mode': m[0],
                                     'witness': [], 'trace': diag.split('\n')[:40]})
                    else:
                        problems.append(f"witness/{u} does not compile ({m[0]}): {diag[:1500]}")
                compiled[(u, m)] = bc
    jobs = []
    opts = {'time': 240.0 if TIER == 'quick' else 800.0, 'prop': prop, 'until': t0 + (560 if TIER == 'quick' else 7000)}
    for u, e, ps, fl in sel:
        for m in modes:
            if compiled.get((u, m)) is None:
                continue
            if ('debugonly' in fl and not m[1]) or ('nodebug' in fl and m[1]):
                continue
            o = dict(opts)
            for x in fl:
                if x.startswith('loops='):
                    o['loop_cap'] = int(x[6:])
            jobs.append((compiled[(u, m)], u, e, m, o))
    results = []
    if jobs:
        with mp.Pool(min(JOBS, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(run_entry, jobs, chunksize=1):
                results.append(r)
    results.sort(key=lambda r: (r['unit'], r['entry'], r['mode']))
    pmap = {(u, e): ps for u, e, ps, fl in sel}
    checks = {}
    for r in results:
        if r['error']:      # the engine has no model for something this entry uses: not explored, reported, not counted
            unexplored.append(f"{r['unit']}/{r['entry']} ({r['mode']}): {r['error'].strip().splitlines()[-1][:300]}")
            errors.append(r['error'])
            for v in r['violations']:
                lp = label_props(v['label']) or rule_props(v['rule'], pmap[(r['unit'], r['entry'])])
                if prop in lp:
                    viol.append(dict(v, entry=r['entry'], unit=r['unit'], mode=r['mode']))
            continue
        for lab, (n, ok) in r['checks'].items():
            c = checks.setdefault((r['unit'], r['entry'], lab), [0, 0])
            c[0] += n
            c[1] += ok
        for v in r['violations']:
            lp = label_props(v['label']) or rule_props(v['rule'], pmap[(r['unit'], r['entry'])])
            if prop in lp:
                viol.append(dict(v, entry=r['entry'], unit=r['unit'], mode=r['mode']))
        for v in r['undecided']:
            lp = label_props(v['label']) or rule_props(v['rule'], pmap[(r['unit'], r['entry'])])
            if prop in lp:
                undec.append(dict(v, entry=r['entry'], unit=r['unit'], mode=r['mode']))
    if errors and len(errors) == len(results):
        problems.append('no entry could be analysed: ' + errors[0])
    extra = passes.run(prop, TIER, tmp, REPO)      # structural passes
    viol += extra['violations']
    problems += extra['problems']
    mine = {k: v for k, v in checks.items() if (label_props(k[2]) is None or prop in label_props(k[2]))}
    # obligations written for this property in the selected units that no path of the analysis reached
    unreached = []
    for u in sorted({u for u, e, ps, fl in sel}):
        got = {k[2] for k in mine if k[0] == u}
        for lab in sorted(set(re.findall(r'"(C\d\d(?:,C\d\d)*: [^"\n]+)"', open(os.path.join(WIT, u)).read()))):
            if prop in label_props(lab) and lab not in got:
                unreached.append(f'{u}: {lab}')
    if only is None and sel and not mine and not viol and not unexplored and prop not in ('C13', 'C32', 'C34', *passes.REG):
        problems.append('no obligation was reached')
    names = set()
    for v in viol + undec:
        for c in v.get('chain') or []:
            names.add(c[0])
        if v.get('loc') and v['loc'][2]:
            names.add(v['loc'][2])
    dem = demangle(names)
    for v in viol + undec:
        v['function'] = short(dem.get(v['loc'][2], v['loc'][2])) if v.get('loc') and v['loc'][2] else ''
        v['chain'] = [f"{short(dem.get(c[0], c[0]))} {c[1]}:{c[2]}" for c in v.get('chain') or []]
    # known findings
    known = [k for k in load_known() if k['property'] == prop and k['status'] == 'finding']
    hit = {}
    fresh = []
    for v in viol:
        k = next((k for k in known if matches(k, v)), None)
        if k is not None:
            hit.setdefault(k['id'], []).append(v)
        else:
            fresh.append(v)
    out = []
    seen = set()
    for v in fresh:
        key = (v['rule'], v.get('label'), v.get('loc') and tuple(v['loc'][:2]))
        if key not in seen:
            seen.add(key)
            out.append(v)
    wall = time.time() - t0
    vpath = os.path.join(EVID, f"{prop}.violation.json")
    if os.path.exists(vpath):
        os.unlink(vpath)
    if out:
        json.dump(out, open(vpath, 'w'), indent=1, default=str)
    funcs = set()
    sites = set()
    for r in results:
        if not r['error']:
            funcs |= set(r['funcs'])
            sites |= {tuple(x) for x in r['sites']}
    fd = demangle(funcs)
    ktlf = sorted({short(fd[f]) for f in funcs if 'ktl' in f})
    evaluated = sum(v[0] for v in mine.values())
    held = sum(v[1] for v in mine.values())
    fixed = [r for r in results if not r['error'] and r['fix']['heads']]
    closed = [r['entry'] for r in fixed if r['fix']['bounded'] == 0 and not r['truncated']]
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'other', 'wall_s': round(wall, 2),
        'coverage': {
            'explanation': passes.explain(prop),
            'entries': [{'unit': r['unit'], 'entry': r['entry'], 'mode': r['mode'], 'abstract_states': r.get('states'),
                         'abstract_transitions': r.get('steps'), 'paths_ended': r.get('paths'), 'partitions': r.get('splits'),
                         'memory_accesses_checked': r.get('memchecks'), 'loop_heads': r.get('fix'),
                         'truncated': r.get('truncated'), 'over_approximated': r.get('notes'),
                         'wall_s': round(r['wall'], 2)} for r in results],
            'obligations_by_site': [{'unit': k[0], 'entry': k[1], 'obligation': k[2], 'evaluations': v[0], 'held': v[1]}
                                    for k, v in sorted(mine.items())],
            'obligation_instances': evaluated, 'obligation_instances_held': held,
            'closed_by_fixpoint': closed,
            'repo_functions_analysed': len(ktlf), 'repo_functions': ktlf[:400],
            'repo_lines_reached': len(sites),
            'structural': extra['coverage'],
            'undecided': [{'rule': v['rule'], 'message': v['message'], 'label': v.get('label'), 'entry': v.get('entry'),
                           'loc': v.get('loc')} for v in undec[:20]],
            'unexplored': unexplored,
            'obligations_never_reached': unreached,
            'problems': problems,
        },
        'assumptions': passes.assumptions(prop),
        'violations': len(out),
    }
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), 'w'), indent=1, default=str)
    print(f"{prop} [{TIER}]: {len(results)} entries, {len(ktlf)} functions of /repo, {len(sites)} source lines reached, "
          f"{evaluated} obligation instances ({len(mine)} sites), {sum(r.get('states', 0) for r in results if not r['error'])} abstract states, "
          f"{len(closed)}/{len(fixed)} client loops closed by fixpoint, {wall:.1f}s")
    for l in extra['log']:
        print('  ' + l)
    for v in undec[:10]:
        print(f"UNDECIDED {v.get('entry')} {v['rule']}: {v['message']} at {v.get('loc')}")
    if unreached:
        print(f"  {len(unreached)} written obligations were not reached in this tier (listed in the evidence)")
    for u in unexplored:
        print('UNEXPLORED ' + u)
    for k in known:
        if k['id'] in hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v in out[:20]:
        where = f"{os.path.relpath(v['loc'][0], REPO)}:{v['loc'][1]} in {v['function']}" if v.get('loc') else 'harness'
        print(f"  {v['rule']}: {v['message']}\n    at {where}\n    entry {v.get('entry')} ({v.get('unit')}, {v.get('mode')})"
              + (f"\n    with {', '.join(f'{a} = {b}' for a, b in v['witness'][:12])}" if v.get('witness') else '')
              + (f"\n    path: {' ; '.join(v['trace'][-12:])}" if v.get('trace') and v['rule'] != 'does-not-compile' else ''))
    if out:
        print(f"VIOLATION property={prop} replay={vpath}")
        return 1
    if problems:
        for p_ in problems:
            print('ANALYSIS-BROKEN: ' + p_)
        return 2
    return 0


def matches(k, v):
    if k.get('rule') and k['rule'] != v['rule']:
        return False
    if k.get('entry') and k['entry'] != v.get('entry'):
        return False
    if k.get('label') and k['label'] != v.get('label'):
        return False
    if k.get('function') and k['function'] not in v.get('function', ''):
        return False
    return True


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
