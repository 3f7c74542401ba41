import sys, time, pickle, os, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ir, symex
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    r = build.build_ir()
    if not r['ll']:
        print(r['error']); return
    if r['blanked']: print('BLANKED', r['blanked'], r['errors'])
    text = open(r['ll']).read()
    m = ir.Module(r['ll'])
    hs = [h for hs in r['contracts'].values() for h in hs if any(h.startswith(a) for a in args)]
    for h in hs:
        t = time.time()
        e = symex.Engine(m, r['dem'])
        try:
            res = e.run_harness('@' + h)
        except (Exception, symex.Budget) as x:
            print(h, 'EXC', type(x).__name__, str(x)[:300], getattr(x, 'where', ''), getattr(x, 'vals', ''), 'paths', e.res.paths)
            if '-v' in sys.argv: traceback.print_exc()
            res = e.res
        print('%s paths=%d panics=%d %.1fs missing=%s' % (h, res.paths, res.panics, time.time() - t, getattr(res, 'missing', None)))
        for k, v in res.ob.items():
            print('   ', k, 'proved', v['proved'], v['how'], 'FAILED %d' % len(v['failed']) if v['failed'] else '')
            for f in v['failed'][:2 if '-v' in sys.argv else 1]:
                print('        ', f['detail'][:400]); print('        path:', [str(x)[:200] for x in f['path'][:6]])
main()
