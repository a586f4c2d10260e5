#!/usr/bin/env python3
"""mkseed.py DIR...  builds /verif/seeded/<id> from DIR/<id>.py (edits + demo) and confirms it:
the patch applies to /repo's HEAD, builds, passes the stable tests, and the demo tells the two trees apart.

A seed file defines: prop, needs, breaks, edits = [(file, old, new)], demo (Rust), header (bool)."""
import sys, os, json, subprocess, shutil, tempfile, runpy
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedlib')
W = '/tmp/seedwork'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(W):
        sh(f'cp -a /repo {W}')
    sh(f'git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
ENV = 'export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; '
def tests():
    shutil.copy('/opt/vp/lock/completed.Cargo.lock', W + '/Cargo.lock')
    r = sh(ENV + f'cd {W} && timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    sh(f'git -C {W} checkout -q -- Cargo.lock')
    ok = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')]
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return len(ok), bad, r.stderr[-1500:] if not ok else ''
def main(path):
    s = runpy.run_path(path)
    sid = os.path.basename(path)[:-3]
    fresh()
    for f, old, new in s['edits']:
        p = os.path.join(W, 'src', f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh(f'git -C {W} diff -- src').stdout
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(LIB + '/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy('/opt/vp/lock/completed.Cargo.lock', d + '/Cargo.lock')
    code = open(LIB + '/rec.rs').read()
    if s.get('header'):
        code += '\n' + open(LIB + '/hdr.rs').read()
    code += '\n' + s['demo']
    open(d + '/demo.rs', 'w').write(code)
    n, bad, err = tests()
    r = sh(f'cd {W} && bash {d}/demo.sh')
    with_rc = r.returncode
    out1 = r.stdout[-1200:]
    fresh()
    r = sh(f'cd {W} && bash {d}/demo.sh')
    good = n == 36 and not bad and with_rc not in (0, 3) and r.returncode == 0
    print(sid, 'OK' if good else 'BAD', 'tests', n, bad, 'demo patched', with_rc, 'unpatched', r.returncode, flush=True)
    if not good or '-v' in sys.argv:
        print(err, out1, r.stdout[-1500:], r.stderr[-300:])
    return good
if __name__ == '__main__':
    for a in sys.argv[1:]:
        if a != '-v':
            main(a)
