"""Builds the verified text: the crate in /repo plus the contracts, as LLVM IR."""
import os, re, subprocess, shutil, glob, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
CONTRACTS = os.path.join(BUILD, 'contracts')

def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.decode('utf8', 'replace').split('=', 1)
                if k.startswith('CARGO') or k.startswith('RUST'):
                    e[k] = v
    except OSError:
        pass
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'):
        e.pop(k, None)
    e['VERIF_CONTRACTS'] = CONTRACTS
    return e

def llvm_bin():
    out = subprocess.run(['rustc', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    c = glob.glob(out + '/lib/rustlib/*/bin/opt')
    if not c:
        raise RuntimeError('llvm tools not found under ' + out)
    return os.path.dirname(c[0])

def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)

STUB = 'use super::*;\n'

def stage_contracts(blank=()):
    """copies the contracts into build/contracts; files in `blank` are emptied"""
    os.makedirs(CONTRACTS, exist_ok=True)
    names = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.rs'))):
        b = os.path.basename(f)[:-3]
        t = open(f).read()
        if b in blank:
            t = STUB
        names[b] = re.findall(r'#\[no_mangle\]\s*pub fn (vh_\w+)', t)
        write_if_changed(os.path.join(CONTRACTS, b + '.rs'), t)
    allh = [h for b in names for h in names[b]]
    t = 'extern "Rust" {\n' + ''.join('    fn %s();\n' % h for h in allh) + '}\n'
    t += 'pub const HARNESSES: &[(&str, unsafe fn())] = &[\n' + ''.join(
        '    ("%s", { unsafe fn w() { unsafe { %s() } } w }),\n' % (h, h) for h in allh) + '];\n'
    write_if_changed(os.path.join(CONTRACTS, 'harness_list.rs'), t)
    return names

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def seed_lock():
    for d in (os.path.join(ROOT, 'runner'),):
        lock = os.path.join(d, 'Cargo.lock')
        if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
            shutil.copy('/opt/vp/Cargo.lock', lock)

def compile_ir(outdir):
    e = env()
    e['CARGO_TARGET_DIR'] = outdir
    e['CARGO_INCREMENTAL'] = '1'
    e['CARGO_PROFILE_DEV_PANIC'] = 'abort'
    e['CARGO_PROFILE_DEV_OPT_LEVEL'] = '0'
    # bodies of the dependencies' non-generic functions must be in the IR
    e['RUSTC_BOOTSTRAP'] = '1'
    e['RUSTFLAGS'] = '-Zcross-crate-inline-threshold=always'
    seed_lock()
    for g in glob.glob(outdir + '/debug/deps/sim-*') + glob.glob(outdir + '/debug/.fingerprint/sim-*'):
        shutil.rmtree(g) if os.path.isdir(g) else os.remove(g)
    p = run(['cargo', 'rustc', '--offline', '-p', 'sim', '--lib', '--', '--emit=llvm-ir', '-C', 'opt-level=2',
             '-C', 'codegen-units=1', '-C', 'no-prepopulate-passes', '-C', 'incremental=' + outdir + '/inc',
             '-C', 'overflow-checks=on', '-C', 'debug-assertions=off', '-C', 'debuginfo=0', '--cfg', 'verif', '-A', 'warnings'],
            cwd=os.path.join(ROOT, 'runner'), env=e)
    ll = glob.glob(outdir + '/debug/deps/sim-*.ll')
    return p, (ll[0] if p.returncode == 0 and ll else None)

def build_ir(outdir=None, log=None):
    """returns dict(ll=path, dem={mangled: demangled}, blanked=[...], contracts={file: [harness]})"""
    outdir = outdir or os.path.join(BUILD, 'ir')
    blank = set()
    errors = {}
    while True:
        names = stage_contracts(blank)
        p, ll = compile_ir(outdir)
        if ll:
            break
        bad = set(re.findall(r'--> %s/(\w+)\.rs' % re.escape(CONTRACTS), p.stderr))
        # keep only files named in error (not warning) reports
        bad2 = set()
        for m in re.finditer(r'^error.*?(?=^error|^warning|\Z)', p.stderr, re.S | re.M):
            for b in re.findall(r'--> %s/(\w+)\.rs' % re.escape(CONTRACTS), m.group(0))[:1]:
                bad2.add(b)
        bad2 -= blank | {'rt'}
        if not bad2:
            return dict(ll=None, error=p.stderr[-6000:], blanked=sorted(blank), contracts=names, errors=errors)
        for b in bad2:
            errors[b] = '\n'.join(re.findall(r'^error.*$', p.stderr, re.M)[:5])
        blank |= bad2
    B = llvm_bin()
    text = open(ll).read()
    contracts_txt = ''.join(open(f).read() for f in glob.glob(CONTRACTS + '/*.rs'))
    keep = set(re.findall(r'with_contract\(\s*"([^"]+)"', contracts_txt)) | set(re.findall(r'//@ keep: (.*)', contracts_txt))
    bc = os.path.join(outdir, 'raw.bc')
    run([B + '/llvm-as', ll, '-o', bc], check=True)
    m1 = [l.split()[-1] for l in run([B + '/llvm-nm', bc]).stdout.splitlines()]
    m2 = [l for l in run([B + '/llvm-nm', '--demangle', bc]).stdout.splitlines()]
    dem = {}
    for a, l in zip(m1, m2):
        d = re.sub(r'^\s*[0-9a-f-]*\s*\w ', '', l)
        dem['@' + a] = d
    out = []
    for l in text.splitlines():
        if l.startswith('define '):
            m = re.search(r'@("?[\w.$]+"?)\(', l)
            d = dem.get('@' + m.group(1).strip('"')) if m else None
            if d in keep:
                l = re.sub(r'\) (unnamed_addr )?(#\d+)', lambda k: ') ' + (k.group(1) or '') + 'noinline ' + k.group(2), l, count=1) if re.search(r'\) (unnamed_addr )?#\d+', l) else l
                l = l.replace(' alwaysinline', '')
        out.append(l)
    mk = os.path.join(outdir, 'marked.ll')
    open(mk, 'w').write('\n'.join(out) + '\n')
    opt = os.path.join(outdir, 'opt.ll')
    p = run([B + '/opt', '-S', '-passes=function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce',
             '--inline-threshold=500', mk, '-o', opt])
    if p.returncode:
        return dict(ll=None, error=p.stderr[-4000:], blanked=sorted(blank), contracts=names, errors=errors)
    graph = {}
    cur = None
    for l in text.splitlines():
        if l.startswith('define '):
            m = re.search(r'@("?[\w.$]+"?)\(', l)
            cur = graph.setdefault('@' + m.group(1).strip('"'), set()) if m else None
        elif cur is not None and '@' in l and l.startswith('  '):
            cur.update('@' + x for x in re.findall(r'@"?([\w.$]+)', l))
    return dict(ll=opt, raw=ll, dem=dem, graph=graph, blanked=sorted(blank), contracts=names, errors=errors)

def reachable(r, h):
    """functions of the crate in the verified text of contract h"""
    seen = set()
    st = ['@' + h]
    while st:
        f = st.pop()
        if f in seen or f not in r['graph']:
            continue
        seen.add(f)
        st.extend(r['graph'][f])
    out = set()
    for f in seen:
        d = r['dem'].get(f, '')
        if re.match(r'<*sim::', d) and 'verif_' not in d:
            out.add(re.sub(r'::\{closure#\d+\}.*', '', d))
    return out

def build_native(outdir=None):
    outdir = outdir or os.path.join(BUILD, 'native')
    e = env()
    e['CARGO_TARGET_DIR'] = outdir
    e['RUSTFLAGS'] = '--cfg verif -A warnings'
    seed_lock()
    for g in glob.glob(outdir + '/debug/deps/libsim-*') + glob.glob(outdir + '/debug/.fingerprint/sim-*'):
        shutil.rmtree(g) if os.path.isdir(g) else os.remove(g)
    p = run(['cargo', 'build', '--offline'], cwd=os.path.join(ROOT, 'runner'), env=e)
    exe = outdir + '/debug/verif-runner'
    if p.returncode:
        return None, p.stderr[-4000:]
    return exe, ''

if __name__ == '__main__':
    t = time.time()
    r = build_ir()
    print({k: v for k, v in r.items() if k not in ('dem', 'contracts')}, time.time() - t)

