"""Run the quick check of each planted bug's property on /repo with the bug applied (development aid)."""
import json, os, subprocess, sys, time
man = json.load(open('/verif/MANIFEST.json'))
cmd = {c['property']: c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in man['checks']}
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = f'/verif/seeded/{i}'; p = json.load(open(d+'/meta.json'))['property']
    assert subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout == ''
    t = time.time()
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', d+'/patch.diff'], check=True)
        r = subprocess.run(cmd[p], shell=True, cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', v[:1], f'{time.time()-t:.0f}s', '' if r.returncode in (0, 1) else (r.stdout+r.stderr)[-300:], flush=True)
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True)
