#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/plant/bugs/<id>.py and confirms it in a scratch copy of /repo.

usage: plant.py [ID...]    (all by default)
A bug file defines: property, needs, breaks, edits = [(file, old, new), ...], demo (Rust, after prelude.rs).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, re
here = os.path.dirname(os.path.abspath(__file__))
seeded = '/verif/seeded'
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(here + '/bugs') if f.endswith('.py'))
baseline = json.load(open('/opt/vp/BASELINE.json'))
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
prelude = open(here + '/prelude.rs').read()
mine = {}
def my_lines(path):
    if path not in mine:
        out = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', path], text=True).splitlines()
        mine[path] = {i + 1 for i, l in enumerate(out) if not l.lstrip('^').startswith('ff011b8'[:7])}
    return mine[path]
for bid in ids:
    b = runpy.run_path(f'{here}/bugs/{bid}.py')
    tmp = tempfile.mkdtemp(prefix='plant-')
    repo = tmp + '/repo'
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        own = []
        for f, old, new in b['edits']:
            p = f'{repo}/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f'{bid}: {s.count(old)} matches in {f} of:\n{old}')
            open(p, 'w').write(s.replace(old, new))
        subprocess.run(['cargo', 'fmt', '--manifest-path', repo + '/Cargo.toml', '--check', '-q'], cwd=repo, capture_output=True)
        diff = subprocess.check_output(['git', '-C', repo, 'diff', '--', 'src'], text=True)
        path = None; ln = 0
        removed = 0
        for l in diff.splitlines():
            if l.startswith('--- a/'): path = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if path and ln:
                if l.startswith('-') and not l.startswith('---'):
                    removed += 1
                    if ln in my_lines(path): own.append((path, ln))
                    ln += 1
                elif l.startswith(' '): ln += 1
        r = subprocess.run(['cargo', 'test', '--offline', '--', '--test-threads', '8'], cwd=repo, env=dict(env, CARGO_TARGET_DIR=tmp + '/t'), capture_output=True, text=True, timeout=600)
        m = re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
        tests = f'{m[0] if m else r.stderr[-1500:]}'
        good = bool(m) and m[0] == ('ok', '29', '0')
        d = f'{seeded}/{bid}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(prelude + b['demo'].lstrip('\n'))
        text = open(here + '/demo.sh').read()
        if b.get('release'):  # as users build it
            text = text.replace('build --offline', 'build --release --offline').replace('target/debug/', 'target/release/')
        open(d + '/demo.sh', 'w').write(text); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        lay = tmp + '/lay'; os.makedirs(lay)
        for f in ('main.rs', 'demo.sh'): shutil.copy(d + '/' + f, lay)
        bad = subprocess.run(['bash', lay + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        ok = subprocess.run(['bash', lay + '/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
        verdict = 'KEEP' if good and bad.returncode not in (0, 2, 3) and ok.returncode == 0 and removed and not own else 'DROP'
        if bad.returncode == 2 and b.get('compile_demo') and good and ok.returncode == 0: verdict = 'KEEP'
        print(f'{verdict} {bid} [{b["property"]}] tests={tests} patched={bad.returncode} clean={ok.returncode} removed={removed} own={own}')
        print('   ', (bad.stderr + bad.stdout).strip()[:300].replace('\n', '\n    '))
        if ok.returncode: print('    CLEAN:', (ok.stderr + ok.stdout)[:1500])
        if verdict == 'DROP': shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
    sys.stdout.flush()
