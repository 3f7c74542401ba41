"""Decides one property: discharges every obligation of its contracts on the
current text of /repo.   usage: check.py <property> [--tier quick|thorough]"""
import sys, os, json, time, re, subprocess, multiprocessing as mp, multiprocessing.connection as mpc, traceback, threading, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

ROOT = build.ROOT
NPROC = 8

def worker(args):
    ll, dem, h, limits = args
    import symex, ir, resource
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = dict(harness=h, ob={}, error=None, paths=0, panics=0)
    e = None
    def on_alarm(*a):
        signal.alarm(5)  # the exception is lost if it arrives inside of a destructor
        raise symex.Budget('time limit of %d s' % limits['time'])
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        m = worker.mod.get(ll)
        if m is None:
            m = worker.mod[ll] = ir.Module(ll)
        e = symex.Engine(m, dem, max_paths=limits['paths'], rlimit=limits['rlimit'])
        left = max(5, min(limits['time'], int(limits['deadline'] - time.time())))
        e.sh.deadline = time.time() + left
        signal.alarm(left)
        def on_fail(secs):
            # the verdict is known: the remaining paths only add to the report
            left = signal.alarm(0)
            left = max(1, min(left, secs))
            e.sh.deadline = time.time() + left
            signal.alarm(left)
            e.on_fail = None
        e.on_fail = on_fail
        res = e.run_harness('@' + h)
    except (Exception, symex.Budget) as x:
        out['error'] = '%s: %s' % (type(x).__name__, str(x)[:600])
        if not isinstance(x, (symex.Unsupported, symex.Budget)):
            out['trace'] = traceback.format_exc()[-1500:]
        res = e.res if e is not None else None
    finally:
        signal.alarm(0)
    if e is not None and res is not None:
        out.update(ob=res.ob, paths=res.paths, panics=res.panics, missing=sorted(getattr(res, 'missing', ())),
                   called=sorted(e.called), assumed=sorted(e.assumed), trusted=sorted(e.trusted), bounds=sorted(getattr(e, 'bounds', ())),
                   queries=e.sh.queries, solver_s=round(e.sh.time, 3), unknown=e.sh.unknowns)
    out['wall_s'] = round(time.time() - t, 2)
    return out
worker.mod = {}

def known_findings(prop):
    out = {}
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2).replace('_', ' ') if False else m.group(2)] = m.group(3)
    except OSError:
        pass
    return out

def native_search(exe, h, seed, iters, ms, hints):
    d = os.path.join(ROOT, 'build', 'search')
    os.makedirs(d, exist_ok=True)
    hf = os.path.join(d, h + '.hints')
    of = os.path.join(d, h + '.json')
    with open(hf, 'w') as f:
        for m in hints[0][:60]:
            for k, v in m.items():
                f.write('%s %s\n' % (k, v if isinstance(v, str) else repr(float(v))))
            f.write('--\n')
        for c in sorted(hints[1])[:60]:
            f.write('const %r\n' % c)
    if os.path.exists(of):
        os.remove(of)
    try:
        subprocess.run([exe, 'search', h, str(seed), str(iters), str(ms), of, hf], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=ms / 1000 + 20)
        return json.load(open(of))
    except (subprocess.TimeoutExpired, OSError, ValueError) as x:
        return dict(harness=h, runs=0, failures=[], error=str(x)[:200])

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    r = build.build_ir()
    if not r['ll']:
        print('the crate does not build with the contracts:\n' + r['error'], file=sys.stderr)
        return 2
    pre = 'vh_%s_' % prop.lower()
    src = {}
    for f in os.listdir(os.path.join(ROOT, 'contracts')):
        for h in re.findall(r'#\[no_mangle\]\s*pub fn (vh_\w+)', open(os.path.join(ROOT, 'contracts', f)).read()):
            src[h] = f[:-3]
    want = sorted(h for h in src if h.startswith(pre))
    have = [h for hs in r['contracts'].values() for h in hs if h.startswith(pre)]
    if not want:
        print('no contracts for ' + prop, file=sys.stderr)
        return 2
    limits = dict(deadline=t0 + (330 if tier == 'quick' else 620), time=260 if tier == 'quick' else 650, paths=6000 if tier == 'quick' else 40000, rlimit=3000000 if tier == 'quick' else 12000000)
    results = []
    ctx = mp.get_context('fork')
    import ir
    worker.mod[r['ll']] = ir.Module(r['ll'])
    todo = list(have)
    running = {}
    while todo or running:
        while todo and len(running) < NPROC:
            h = todo.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=lambda b=b, h=h: b.send(worker((r['ll'], r['dem'], h, limits))), daemon=True)
            pr.start()
            b.close()
            running[a] = (pr, h, time.time() + max(5, min(limits['time'], limits['deadline'] - time.time())) + 40)
        for a in mpc.wait(list(running), 5):
            pr, h, end = running.pop(a)
            try:
                results.append(a.recv())
            except EOFError:
                results.append(dict(harness=h, ob={}, error='the verifier died', paths=0, panics=0))
            pr.join()
        for a, (pr, h, end) in list(running.items()):
            if time.time() > end:
                del running[a]
                pr.kill()
                pr.join()
                results.append(dict(harness=h, ob={}, error='Budget: killed after its time limit', paths=0, panics=0))
    results.sort(key=lambda o: o['harness'])
    meta = {}
    try:
        meta = json.load(open(os.path.join(ROOT, 'engine', 'levels.json'))).get(prop, {})
    except OSError:
        pass
    # contracts over inputs of bounded size: checked, not counted as proved
    small = meta.get('bounded', {})
    small_ob = {}
    lost = [h for h in want if h not in have]
    known = known_findings(prop)
    obligations, discharged, undischarged, notes = 0, 0, [], []
    backends = {}
    need_search = {}
    for o in results:
        h = o['harness']
        for n, d in sorted(o['ob'].items()):
            if h in small:
                c = small_ob.setdefault(h, dict(bound=small[h], obligations=0, discharged=0))
                c['obligations'] += d['proved'] + len(d['failed'])
                c['discharged'] += d['proved']
            else:
                obligations += d['proved'] + len(d['failed'])
                discharged += d['proved']
            for k, v in d['how'].items():
                backends[k] = backends.get(k, 0) + v
            if d['failed']:
                need_search.setdefault(h, {})[n] = d['failed']
        if o['error']:
            need_search.setdefault(h, {})
            notes.append('%s: not fully explored (%s)' % (h, o['error']))
        if not o['ob'] and not o['error']:
            need_search.setdefault(h, {})
            notes.append('%s: no obligation was reached (vacuous)' % h)
        if o.get('missing'):
            notes.append('%s: no function named %s to attach a contract to' % (h, ', '.join(o['missing'])))
    violations = []
    searched = {}
    unresolved = []
    if need_search or lost:
        exe, err = build.build_native()
        if exe is None:
            notes.append('the replay runner does not build: ' + err[:500])
        budget = 20000 if tier == 'quick' else 120000
        jobs = []
        for h, obs in need_search.items():
            hints = ([], set())
            for n, fl in obs.items():
                for f in fl:
                    if f.get('inputs'):
                        hints[0].append(f['inputs'])
                    hints[1].update(f.get('consts', []))
            jobs.append((h, hints))
        if exe:
            lock = threading.Semaphore(NPROC)
            def go(h, hints):
                with lock:
                    searched[h] = native_search(exe, h, seed, 2000000 if tier == 'quick' else 20000000, budget, hints)
            ths = [threading.Thread(target=go, args=j) for j in jobs]
            [t.start() for t in ths]
            [t.join() for t in ths]
        for h, obs in sorted(need_search.items()):
            s = searched.get(h, {})
            found = {f['obligation']: f for f in s.get('failures', [])}
            err = next((o['error'] for o in results if o['harness'] == h), None)
            for n in sorted(set(obs) | set(found)):
                key = h[len(pre):] + ':' + n.replace(' ', '_')
                if key in known:
                    print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[key], key))
                    continue
                if n in found:
                    violations.append((h, n, found[n], obs.get(n, [])[:3]))
                elif any(f.get('refuted') for f in obs.get(n, [])):
                    violations.append((h, n, None, obs[n][:3]))
                else:
                    unresolved.append('%s:%s' % (h, n))
            if err and not found:
                unresolved.append('%s: %s' % (h, err))
    # evidence
    fns = sorted({c for h in have for c in build.reachable(r, h)})
    used_contracts = sorted({c for o in results for c in o.get('called', []) if c.startswith('contract of')})
    assumed = sorted({a for o in results for a in o.get('assumed', [])} | {a for o in results for a in o.get('trusted', [])})
    bounds = sorted({b for o in results for b in o.get('bounds', [])})
    bounded = bool(unresolved or lost or bounds)
    std = ['machine floating point is read as exact real arithmetic (inputs finite; NaN and infinities produced on the way are tracked symbolically); literals are read as the decimal number written',
           'rustc and LLVM (no-optimisation code generation, then sroa/early-cse/simplifycfg/inline) preserve the meaning of the source',
           'the deductive engine in /verif/engine (symbolic execution, normal forms, sign rules) and z3 are correct',
           'heap allocation succeeds and printing does nothing observable']
    level = 'bounded' if bounded else meta.get('level', 'proof')
    cov = dict(kind='contract verification', obligations=obligations, discharged=discharged,
               obligations_by_contract={o['harness']: {n: dict(discharged=d['proved'], failed=len(d['failed'])) for n, d in sorted(o['ob'].items())} for o in results},
               back_ends=backends, solver_queries=sum(o.get('queries', 0) for o in results), solver_s=round(sum(o.get('solver_s', 0) for o in results), 2),
               solver_unknown=sum(o.get('unknown', 0) for o in results),
               paths=sum(o['paths'] for o in results), functions_under_contract=fns, callee_contracts_used=used_contracts,
               checker_cmd='python3-vt engine/check.py %s' % prop,
               trusted_base=['rustc/LLVM front end', 'engine/*.py', 'z3'], bounds=bounds + meta.get('bounds', []), bounded_checks=small_ob,
               undischarged=unresolved, contracts_lost={h: r['errors'].get(src[h], '') for h in lost},
               native_search={h: {k: s.get(k) for k in ('runs', 'rejected', 'checks', 'error') if k in s} for h, s in searched.items()}, notes=notes)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=std + assumed + meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=0)
    rc = 0
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for i, (h, n, found, fl) in enumerate(violations):
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, h, i))
        doc = dict(property=prop, contract=h, contract_file='contracts/%s.rs' % src.get(h), obligation=n,
                   verifier_output=[dict(detail=f['detail'][:1500], path_condition=f['path'][:25], counterexample=f.get('inputs')) for f in fl])
        if found:
            doc['failing_input'] = found['inputs']
            doc['native_result'] = found['detail']
            vf = path[:-5] + '.values'
            with open(vf, 'w') as f:
                for k, v in found['inputs']:
                    f.write('%s %s\n' % (k, v))
            doc['replay'] = 'build/native/debug/verif-runner replay %s %s' % (h, vf)
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
        if not found:
            line += ' no-failing-input-found'
        print('obligation %s of contract %s fails%s' % (n, h, ': ' + found['detail'] if found else ''))
        print(line)
        ev['violations'] += 1
        cov.setdefault('violated', []).append(dict(obligation='%s:%s' % (h, n), replay=path, failing_input=bool(found)))
        rc = 1
    for u in unresolved:
        print('undischarged (no counterexample; covered by the bounded native check only): ' + u[:300])
    for h in lost:
        print('contract lost (does not compile against the current text): ' + h)
    if obligations == 0 and not small_ob and not violations:
        print('no obligation was generated', file=sys.stderr)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d contracts, %d functions, %.1f s%s' % (prop, obligations, discharged, len(results), len(fns), time.time() - t0,
          '; bounded: %d of %d' % (sum(c['discharged'] for c in small_ob.values()), sum(c['obligations'] for c in small_ob.values())) if small_ob else ''))
    return rc

if __name__ == '__main__':
    sys.exit(main())
