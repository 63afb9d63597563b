"""Passes decided by the type checkers of the installed compilers and by rules over the emitted IR:
stand-alone headers and instantiations (C29), noexcept conditions (C30), capabilities and misuse (C31)."""
import os, re, subprocess
from multiprocessing.pool import ThreadPool
from passes import register
import misuse
import alone

HERE = os.path.dirname(os.path.abspath(__file__))
INST = os.path.join(HERE, '..', 'inst')
CLANG = '/usr/lib/llvm-18/bin/clang++'
GCC = 'g++'
JOBS = int(os.environ.get('KTL_JOBS', str(min(8, os.cpu_count() or 1))))
# helper headers: they have to stand alone too, but may be reorganised
UTILITY = ['utility/' + x for x in 'aligned_malloc.h alignment.h assert.h bits.h builder.h empty_base.h meta.h'.split()]
# headers the documentation lets users include one by one
PUBLIC = ['ktl.h', 'ktl_alloc_fwd.h', 'ktl_container_fwd.h'] + ['allocators/' + a + s for a in
          'cascading fallback freelist global linear_allocator mallocator overflow reference segragator shared stack_allocator threaded type_allocator'.split()
          for s in ('.h', '_fwd.h')] + ['allocators/null_allocator.h'] + \
    ['containers/' + c for c in 'binary_heap.h binary_heap_fwd.h packed_ptr.h packed_ptr_fwd.h trivial_array.h trivial_array_fwd.h trivial_buffer.h trivial_vector.h trivial_vector_fwd.h'.split()]


class Err:
    def __init__(self, file, line, msg):
        self.file, self.line, self.msg = file, line, msg


def compile_(cc, std, dbg, repo, src=None, text=None, extra=()):
    """syntax and type check one translation unit; (returncode, diagnostics)"""
    cmd = [cc, f'-std={std}', '-fsyntax-only', '-w', '-I' + os.path.join(repo, 'include'), '-I' + INST] + list(extra)
    if cc == CLANG:
        cmd += ['-ferror-limit=0', '-fno-caret-diagnostics']
    else:
        cmd += ['-fno-diagnostics-show-caret', '-fdiagnostics-color=never']
    if dbg:
        cmd.append('-DKTL_DEBUG_ASSERT')
    cmd += [src] if src else ['-x', 'c++', '-']
    r = subprocess.run(cmd, input=text, capture_output=True, text=True)
    return r.returncode, r.stderr


def errors(diag):
    out = []
    for m in re.finditer(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', diag, re.M):
        out.append(Err(os.path.normpath(m.group(1)), int(m.group(2)), m.group(3)))
    return out


def repo_place(diag, repo, at=None):
    """the first place in the repository that the diagnostic names"""
    inc = os.path.join(repo, 'include')
    for m in re.finditer(r'(%s/\S+?\.h):(\d+)' % re.escape(inc), diag):
        return m.group(1), int(m.group(2)), ''
    return None


def violation(rule, msg, loc, entry, mode, diag=''):
    return {'rule': rule, 'message': msg, 'loc': loc, 'chain': [], 'label': None, 'entry': entry, 'unit': entry, 'mode': mode,
            'witness': [], 'trace': diag.split('\n')[:40]}


def modename(cc, std, dbg):
    return f"{'clang++' if cc == CLANG else 'g++'} {std}{' KTL_DEBUG_ASSERT' if dbg else ''}"


def pmap(f, xs):
    with ThreadPool(JOBS) as p:
        return p.map(f, xs, chunksize=1)


def unit_violations(prop, unit, cc, std, dbg, diag, repo):
    """one violation per failed static assertion, or one for the first compile error"""
    es = errors(diag)
    out = []
    seen = set()
    for e in es:
        m = re.search(r'(C\d\d: .*)$', e.msg)
        if 'static' in e.msg and m:
            if m.group(1) not in seen:
                seen.add(m.group(1))
                out.append(violation('static-assertion', m.group(1), (e.file, e.line, ''), unit, modename(cc, std, dbg), diag))
    if not out and es:
        e = next((e for e in es if e.file.startswith(repo)), es[0])
        place = (e.file, e.line, '') if e.file.startswith(repo) else repo_place(diag, repo) or (e.file, e.line, '')
        out.append(violation('does-not-compile', f"{e.msg} (valid use in {unit}:{next((x.line for x in es if not x.file.startswith(repo)), '') or used_at(diag, unit)})",
                             place, unit, modename(cc, std, dbg), diag))
    return out


def used_at(diag, unit):
    m = re.search(r'%s:(\d+)' % re.escape(os.path.basename(unit)), diag)
    return m.group(1) if m else '?'


def instances(prop, units, configs, repo):
    jobs = [(u, cc, std, dbg) for u in units for cc, std, dbg in configs]
    res = pmap(lambda j: compile_(j[1], j[2], j[3], repo, src=os.path.join(INST, j[0])), jobs)
    out = {'violations': [], 'problems': [], 'coverage': {}, 'log': []}
    for (u, cc, std, dbg), (rc, diag) in zip(jobs, res):
        if rc:
            v = unit_violations(prop, u, cc, std, dbg, diag, repo)
            if v:
                out['violations'] += v
            else:
                out['problems'].append(f"inst/{u} ({modename(cc, std, dbg)}): compiler failed without an error: {diag[:400]}")
    out['coverage'] = {'instantiation_units': [{'unit': u, 'mode': modename(cc, std, dbg), 'accepted': rc == 0} for (u, cc, std, dbg), (rc, _) in zip(jobs, res)]}
    return out


ALLCONF = [(cc, std, dbg) for cc in (GCC, CLANG) for std in ('c++17', 'c++20') for dbg in (False, True)]


# ------------------------------------------------------------------ C29
@register('C29')
def headers(prop, tier, tmp, repo):
    out = {'violations': [], 'problems': [], 'coverage': {}, 'log': []}
    inc = os.path.join(repo, 'include', 'ktl')
    found = {os.path.relpath(os.path.join(d, f), inc) for sub in ('', 'allocators', 'containers') for d in [os.path.join(inc, sub)] if os.path.isdir(d)
             for f in os.listdir(d) if f.endswith('.h')}
    for h in PUBLIC:
        if h not in found:
            out['violations'].append(violation('missing-header', f'the documented header ktl/{h} does not exist', (os.path.join(inc, h), 0, ''), 'headers', ''))
    hs = sorted(found | {h for h in UTILITY if os.path.exists(os.path.join(inc, h))})
    jobs = [(h, c) for h in hs for c in ALLCONF]
    # included twice, and with its forward header on either side
    res = pmap(lambda j: compile_(*j[1], repo, text=f'#include "ktl/{j[0]}"\n#include "ktl/{j[0]}"\nint main() {{}}\n'), jobs)
    n = 0
    for (h, c), (rc, diag) in zip(jobs, res):
        if rc:
            e = (errors(diag) or [Err(h, 0, diag[:200])])[0]
            out['violations'].append(violation('header-not-standalone', f'ktl/{h} does not compile on its own: {e.msg}', (e.file, e.line, ''), f'#include "ktl/{h}"', modename(*c), diag))
        else:
            n += 1
    pairs = [(h, h[:-2] + '_fwd.h') for h in hs if h[:-2] + '_fwd.h' in hs]
    allh = '\n'.join(f'#include "ktl/{h}"' for h in sorted(PUBLIC) if h in found)
    allr = '\n'.join(f'#include "ktl/{h}"' for h in sorted(PUBLIC, reverse=True) if h in found)
    texts = [(f'{a}, {b}', f'#include "ktl/{a}"\n#include "ktl/{b}"\n') for x in pairs for a, b in (x, x[::-1])] + [('all headers, ascending', allh), ('all headers, descending', allr)]
    jobs2 = [(t, c) for t in texts for c in [(GCC, 'c++17', False), (CLANG, 'c++17', False)]]
    for ((name, _), c), (rc, diag) in zip(jobs2, pmap(lambda j: compile_(*j[1], repo, text=j[0][1]), jobs2)):
        if rc:
            e = (errors(diag) or [Err(name, 0, diag[:200])])[0]
            out['violations'].append(violation('headers-conflict', f'{name} do not compile together: {e.msg}', (e.file, e.line, ''), name, modename(*c), diag))
        else:
            n += 1
    # the members of each class need no other header
    jobs3 = [(k, c) for k in alone.cases() for c in [(GCC, 'c++17', False), (GCC, 'c++17', True), (CLANG, 'c++17', False), (CLANG, 'c++20', True)]]
    for ((h, code), c), (rc, diag) in zip(jobs3, pmap(lambda j: compile_(*j[1], repo, text=f'#include "ktl/{j[0][0]}"\n' + j[0][1]), jobs3)):
        if rc:
            e = next((x for x in errors(diag) if x.file.startswith(repo)), None) or (errors(diag) or [Err(h, 0, diag[:200])])[0]
            place = (e.file, e.line, '') if e.file.startswith(repo) else repo_place(diag, repo) or (os.path.join(inc, h), 1, '')
            out['violations'].append(violation('header-not-sufficient', f'with only ktl/{h} included its documented members do not compile: {e.msg}', place, f'#include "ktl/{h}"', modename(*c), diag))
        else:
            n += 1
    # nothing in a header may define a strong symbol: two translation units could not both include it
    strong = 0
    ll = subprocess.run([CLANG, '-std=c++17', '-O0', '-w', '-S', '-emit-llvm', '-I' + os.path.join(repo, 'include'), '-x', 'c++', '-', '-o', '-'], input='#include "ktl/ktl.h"\n', capture_output=True, text=True)
    if ll.returncode == 0:
        for m in re.finditer(r'^(?:define (?!(?:linkonce|weak|internal|available|private)).*?(@[\w.$"]+)\(|(@[\w.$"]+) = (?!(?:linkonce|weak|internal|available|private|external|appending|comdat))(?:dso_local |hidden |unnamed_addr |local_unnamed_addr )*(?:global|constant) )', ll.stdout, re.M):
            strong += 1
            out['violations'].append(violation('strong-definition', f'including ktl/ktl.h defines {m.group(1) or m.group(2)} with external linkage, so two translation units cannot both include it',
                                               (os.path.join(inc, 'ktl.h'), 1, ''), 'ktl.h', 'clang++ c++17'))
    r = instances(prop, ['members.cpp', 'aliases.cpp'], ALLCONF, repo)
    out['violations'] += r['violations']
    out['problems'] += r['problems']
    src = ''.join(open(os.path.join(INST, u)).read() for u in ('members.cpp', 'aliases.cpp'))
    out['coverage'] = dict(r['coverage'], headers=hs, header_compilations=len(jobs) + len(jobs2) + len(jobs3), header_compilations_accepted=n, configurations=[modename(*c) for c in ALLCONF],
                           explicit_class_instantiations=len(re.findall(r'template (?:class|struct) ktl::', src)), strong_symbols=strong)
    out['log'] = [f"{len(hs)} headers x {len(ALLCONF)} configurations alone, {len(texts)} combinations, {len(jobs3)} uses of one header alone, {2 * len(ALLCONF)} instantiation compilations"]
    return out


# ------------------------------------------------------------------ C30, C31
@register('C30')
def noexcepts(prop, tier, tmp, repo):
    conf = [(GCC, 'c++17', False), (CLANG, 'c++17', False), (CLANG, 'c++20', False)] + ([(GCC, 'c++20', False), (CLANG, 'c++17', True), (GCC, 'c++17', True)] if tier == 'thorough' else [])
    r = instances(prop, ['noexcept.cpp'], conf, repo)
    src = open(os.path.join(INST, 'noexcept.cpp')).read()
    r['coverage']['noexcept_rows'] = len(re.findall(r'static_assert\(|ROWX?\("', src)) - 2
    r['coverage']['throwing_operations_tried'] = 15
    r['log'] = [f"{r['coverage']['noexcept_rows']} noexcept rows x 17 throwing patterns, {len(conf)} configurations"]
    return r


@register('C31')
def capabilities(prop, tier, tmp, repo):
    conf = [(GCC, 'c++17', False), (CLANG, 'c++17', False)] + ([(GCC, 'c++20', False), (CLANG, 'c++20', False), (CLANG, 'c++17', True), (GCC, 'c++17', True)] if tier == 'thorough' else [])
    out = instances(prop, ['detect.cpp'], conf, repo)
    cases = misuse.cases()
    mconf = [(GCC, 'c++17', False), (CLANG, 'c++17', False)] if tier == 'quick' else [(cc, s, False) for cc in (GCC, CLANG) for s in ('c++17', 'c++20')]

    def controls(c):
        text = misuse.PRE + '\n'.join(f'namespace case{i} {{ using namespace ktl;\n{g}\n}}' for i, (_, _, g) in enumerate(cases))
        return compile_(*c, repo, text=text)
    for c, (rc, diag) in zip(mconf, pmap(controls, mconf)):
        if rc:      # find which
            for (name, _, good), (rc1, d1) in zip(cases, pmap(lambda k: compile_(*c, repo, text=misuse.PRE + k[2] + '\n'), cases)):
                if rc1:
                    e = (errors(d1) or [Err('?', 0, d1[:200])])
                    e = next((x for x in e if x.file.startswith(repo)), e[0])
                    place = (e.file, e.line, '') if e.file.startswith(repo) else repo_place(d1, repo) or (os.path.join(repo, 'include/ktl/ktl.h'), 0, '')
                    out['violations'].append(violation('valid-use-rejected', f'valid use is rejected (counterpart of "{name}"): {good} : {e.msg}', place, name, modename(*c), d1))
    jobs = [(k, c) for k in cases for c in mconf]
    rej = 0
    for ((name, bad, good), c), (rc, diag) in zip(jobs, pmap(lambda j: compile_(*j[1], repo, text=misuse.PRE + j[0][1] + '\n'), jobs)):
        if rc == 0:
            out['violations'].append(violation('misuse-compiles', f'misuse compiles: {name}: {bad}', (place_of(bad, repo), 0, ''), name, modename(*c)))
        else:
            rej += 1
    out['coverage'].update(misuse_cases=len(cases), misuse_rejected=rej, misuse_compilations=len(jobs), misuse_names=[k[0] for k in cases],
                           capability_rows='16 capability sets of one part, 256 pairs for fallback and segragator, type-dependent construct/destroy, copyability table')
    out['log'] = [f"{len(cases)} misuses with a valid counterpart x {len(mconf)} configurations; capability tables in {len(conf)} configurations"]
    return out


def place_of(code, repo):
    for n in 'segragator_builder fallback_builder'.split():
        if n in code:
            return os.path.join(repo, 'include/ktl/allocators', n.split('_')[0] + '_fwd.h')
    for d, ns in (('containers', 'trivial_vector trivial_array trivial_buffer binary_heap packed_ptr'), ('allocators', 'type_allocator cascading fallback freelist global overflow reference segragator atomic_shared shared threaded stack_allocator linear_allocator')):
        for n in ns.split():
            if n in code:
                return os.path.join(repo, 'include/ktl', d, n.replace('atomic_', '') + '.h')
    return os.path.join(repo, 'include/ktl/ktl.h')


@register('C36')
def loops(prop, tier, tmp, repo):
    """operations whose control flow, with everything of the library inlined or followed, has no cycle: their work is bounded
    for every history. Where a cycle is found the histories of witness/cost.cpp decide; a cycle is no violation in itself."""
    out = {'violations': [], 'problems': [], 'coverage': {}, 'log': []}
    bc = os.path.join(tmp, 'loops.bc')
    src = os.path.join(INST, 'loops.cpp')
    r = subprocess.run([CLANG, '-std=c++17', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-DNDEBUG', '-w', '-c', '-emit-llvm', '-I' + os.path.join(repo, 'include'), src, '-o', bc],
                       capture_output=True, text=True)
    if r.returncode:
        out['log'] = ['inst/loops.cpp does not compile: no operation was shown to be free of cycles']
        out['coverage'] = {'cycle_free_operations': [], 'cycle_analysis': r.stderr[:500]}
        return out
    opt = os.path.dirname(CLANG) + '/opt'
    lp = subprocess.run([opt, '-passes=print<loops>', '-disable-output', bc], capture_output=True, text=True).stderr
    cyc, cur = set(), None
    for l in lp.split('\n'):
        m = re.match(r"Loop info for function '(.*)':", l)
        if m:
            cur = m.group(1)
        elif 'Loop at depth' in l:
            cyc.add(cur)
    txt = subprocess.run([opt, '-S', bc, '-o', '-'], capture_output=True, text=True).stdout
    calls = {}
    for m in re.finditer(r'^define .*?@("[^"]*"|[\w.$]+)\(.*?^}', txt, re.M | re.S):
        calls[m.group(1).strip('"')] = {c.strip('"') for c in re.findall(r'(?:call|invoke)\b[^@\n]*@("[^"]*"|[\w.$]+)\(', m.group(0))}
    free, not_free = [], []
    for f in sorted(calls):
        k = re.match(r'_Z\d+k_(\w+?)[PRmvi]', f)
        if not k:
            continue
        # depth first over the functions defined here: a loop anywhere, or recursion, is a cycle
        state = {}

        def visit(g):
            if g not in calls:
                return True
            if g in state:
                return state[g] == 2
            state[g] = 1
            if g in cyc or not all(visit(h) for h in calls[g]):
                return False
            state[g] = 2
            return True
        name = re.match(r'_Z(\d+)', f)
        n = f[len(name.group(0)):][:int(name.group(1))][2:]
        (free if visit(f) else not_free).append(n)
    out['coverage'] = {'cycle_free_operations': free, 'operations_with_cycles': not_free,
                       'cycle_rule': 'no natural loop and no recursion in the optimised IR of the operation and of every function it calls, the underlying allocator being external'}
    out['log'] = [f"{len(free)} of {len(free) + len(not_free)} constant-time operations have no cycle in their control flow" + (f"; with cycles: {', '.join(not_free)}" if not_free else '')]
    return out
