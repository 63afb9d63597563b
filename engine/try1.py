import sys, time, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/..')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import check, llvmir, absint, lin, models
# try1.py unit entry [std] [dbg]   (development runner)
unit, entry = sys.argv[1], sys.argv[2]
mode = (sys.argv[3] if len(sys.argv) > 3 else 'c++17', len(sys.argv) > 4)
tmp = tempfile.mkdtemp()
bc, diag = check.compile_unit(unit, mode, tmp)
if bc is None:
    print(diag[:1200]); sys.exit(7)
t = time.time()
I = absint.Interp(llvmir.Module(bc), entry, {'time': float(os.environ.get('T', '120')), 'repo': check.INC, 'loop_cap': int(os.environ.get('LC', '140'))})
I.run()
print("fix", I.fixstat)
print(f"== {entry}: paths {I.paths} states {I.nstates} steps {I.steps} {time.time()-t:.1f}s splits {I.splits} mem {I.memchecks} trunc {I.truncated} unk {I.ext_unknown} notes {I.notes}")
for k, v in I.checks.items(): print('   ', k, v)
for tg, nm in ((I.violations, 'VIOL'), (I.undecided, 'UNDEC')):
    for k, v in list(tg.items())[:12]:
        print('  ', nm, v['rule'], '|', v['message'], '|', v['loc'], '| wit', v['witness'], v['trace'][-30:])
        if os.environ.get('F'): print('      ', v.get('facts'), v.get('chain'))
import shutil; shutil.rmtree(tmp)
