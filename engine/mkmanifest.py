import json, os, subprocess, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(ROOT + '/engine/levels.json'))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
commits = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if 'verification hooks' in l]
checks, na = [], []
for p in props:
    n = notes.get(p['id'])
    if n and n.get('claimed', True):
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                           technique=n.get('technique', 'function contracts on the real code, every obligation discharged by a deductive verifier (symbolic execution of the compiled functions, algebraic normal forms, z3)'),
                           level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=p['id'], reason=(n or {}).get('reason', 'contracts not written yet')))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='cfg(verif)', enable='cargo rustc ... --cfg verif (IR build) / RUSTFLAGS="--cfg verif" (replay runner), with VERIF_CONTRACTS=/verif/build/contracts; see engine/build.py', source_commits=commits), checks=checks, not_applicable=na)
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
