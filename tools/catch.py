#!/usr/bin/env python3
"""catch.py ID...: apply planted bugs to /repo one after another, run the check of their property
(or those given with -p C01,C02), and undo them. Not used by any check."""
import subprocess, sys, json, time
args = sys.argv[1:]
props = None
if args and args[0] == '-p':
    props = args[1].split(','); args = args[2:]
for i in args:
    d = f'/verif/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['/verif/check.sh', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sig = [l for l in r.stdout.splitlines() if l.startswith('signature')]
            print(i, p, 'exit', r.returncode, 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'missed', f'{time.time()-t:.0f}s', sig[:2], flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
