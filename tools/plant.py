#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in a scratch copy of /repo: the patch applies, the tree
builds, its tests pass, and the demonstration passes without and fails with it. Not used by any check."""
import subprocess, sys, os, re
WT = '/tmp/wt'
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=WT + '/target')
def run(cmd, cwd=WT, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(WT):
    subprocess.check_call(['cp', '-a', '/repo', WT])
else:
    run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD')
for i in sys.argv[1:]:
    d = f'/verif/seeded/{i}'
    run('git checkout -q -f .')
    a = run(f'bash {d}/demo.sh')
    p = run(f'git apply {d}/patch.diff')
    t = run('RUST_BACKTRACE=0 cargo test --workspace --offline')
    ok = len(re.findall(r'test result: .*ok', t.stdout))
    bad = [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')]
    b = run(f'RUST_BACKTRACE=0 bash {d}/demo.sh')
    run('git checkout -q -f .')
    good = a.returncode == 0 and p.returncode == 0 and ok == 23 and not bad and b.returncode != 0
    print(i, 'OK' if good else 'BAD', 'demo', a.returncode, b.returncode, 'apply', p.returncode, 'suites', ok, bad[:3], flush=True)
    if not good:
        fails = [l for l in t.stdout.splitlines() if re.match(r'error|---- |thread |.*FAILED|.*left:|.*right:', l)]
        print(a.stdout[-400:] if a.returncode else '', p.stdout, '\n'.join(fails[:12]) if ok != 23 else '', flush=True)
        print('DEMO', [l for l in b.stdout.splitlines() if 'panicked' in l or 'error' in l][:3])
    else:
        print('   ', [l for l in b.stdout.splitlines() if 'panicked' in l or 'error' in l or 'left' in l or 'right' in l][:3])
