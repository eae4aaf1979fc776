"""Build and validate planted bugs (development aid; no check reads the result).
usage: seedlib.py SPECFILE [id..]; SPECFILE defines SEEDS = {id: dict(property, file(s), edits, needs, breaks, main, features, deps, fail)}
"""
import json, os, subprocess, sys, tempfile, shutil, runpy
SEEDED = '/verif/seeded'
DEMO = r'''#!/bin/bash
# Exit 0 when the demonstration programs behave as the property demands. Run with cwd /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2025-03-20 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
[ -f /opt/vp/ws/Cargo.lock ] && cp /opt/vp/ws/Cargo.lock "$work/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$work/Cargo.toml"
cp "$here/main.rs" "$work/src/main.rs"
cd "$work" || exit 2
cargo run --offline --quiet || exit 1
for f in "$here"/fail_*.rs; do
  [ -f "$f" ] || continue
  cp "$f" src/main.rs
  if cargo build --offline --quiet 2> "$work/err"; then echo "$(basename "$f") was accepted"; exit 1; fi
  want=$(sed -n 's|^// expect: ||p' "$f")
  if [ -n "$want" ] && ! grep -qF -- "$want" "$work/err"; then echo "$(basename "$f"): no such error: $want"; exit 1; fi
done
exit 0
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(specs)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        s = specs[i]
        assert sh('git -C /repo status --porcelain').stdout == '', 'dirty repo'
        d = f'{SEEDED}/{i}'
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d+'/demo.sh', 'w').write(DEMO); os.chmod(d+'/demo.sh', 0o755)
        feats = s.get('features', [])
        toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nauto_enums = { path = "@REPO@", features = %s }\n%s' % (json.dumps(feats), s.get('deps', ''))
        open(d+'/demo.toml', 'w').write(toml)
        open(d+'/main.rs', 'w').write(s['main'])
        for n, t in s.get('fail', {}).items(): open(f'{d}/fail_{n}.rs', 'w').write(t)
        ok = True
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r.returncode != 0: print(i, 'DEMO FAILS ON BASE', (r.stdout+r.stderr)[-1500:]); continue
        try:
            for f, old, new in s['edits']:
                p = '/repo/'+f; t = open(p).read()
                if t.count(old) != 1: print(i, 'EDIT', f, t.count(old), repr(old[:60])); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok: continue
            open(d+'/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'BUILD', b.stderr[-800:]); ok = False; continue
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            out = json.load(open('/tmp/seed_out.json'))
            def passed(o):
                for k in ('passed', 'pass', 'stable'):
                    if k in o: return set(map(str, o[k]))
                return {k for k, v in o.get('tests', o).items() if v in ('passed', 'pass', True, 'ok')}
            bp, op = passed(base), passed(out)
            if bp - op: print(i, 'TESTS FAIL', sorted(bp-op)[:4]); ok = False; continue
            r = sh(f'bash {d}/demo.sh', cwd='/repo')
            if r.returncode == 0: print(i, 'DEMO PASSES WITH PATCH'); ok = False; continue
            print(i, 'OK', (r.stdout+r.stderr).strip().splitlines()[-1:][:1])
        finally:
            sh('git -C /repo checkout -- .')
            if not ok: shutil.rmtree(d)
            else: json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json', 'w'), indent=1)
main()
