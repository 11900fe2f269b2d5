#!/opt/venv/bin/python
"""plant.py spec.py [--nocheck] : spec defines id, prop, needs, breaks, edits, demo."""
import sys, os, subprocess, shutil, json, importlib.util, time
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def run(spec, check=True):
    ns = {}; exec(open(spec).read(), ns)
    id = ns['id']; w = f'/tmp/pw/{id}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/pw', exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',w])
    for f, old, new in ns['edits']:
        p = f'{w}/d42/{f}'; s = open(p).read()
        if s.count(old) != 1: print(id, 'EDIT MISMATCH', f, s.count(old), old[:60]); return
        # removed lines must come from the base commit
        open(p,'w').write(s.replace(old, new))
    rc, diff = sh('git diff', w)
    base_missing = []
    cur = None
    for line in diff.splitlines():
        if line.startswith('--- a/'): cur = subprocess.run(['git','show','c098809:'+line[6:]],cwd=w,capture_output=True,text=True).stdout.splitlines()
        elif line.startswith('-') and not line.startswith('---') and line[1:].strip():
            if line[1:] not in cur: base_missing.append(line)
    out = f'/verif/seeded/{id}'; os.makedirs(out, exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.py','w').write(ns['demo'].lstrip('\n'))
    open(out+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1
exec timeout 120 "$PY" "$here/demo.py"
''')
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(out+'/meta.json','w'),indent=1)
    d0,o0 = sh(f'bash {out}/demo.sh','/repo'); d1,o1 = sh(f'bash {out}/demo.sh', w)
    rc,o = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -4', w, {'PYTHONPATH':w})
    tests = o.strip().splitlines()[-1]
    res = ''
    if check:
        t=time.time()
        c,co = sh(f'./check.py {ns["prop"]} --tier quick', '/verif', {'VP_REPO':w,'VERIF_SEED':'1','VERIF_TIER':'quick','VP_OUT':'/tmp/pw/out'})
        v=[l for l in co.splitlines() if l.startswith('VIOLATION')]
        res = f'check rc={c} {len(v)} violation lines {time.time()-t:.0f}s'
        if c not in (0,1): res += '\n' + co[-600:]
    ok = d0==0 and d1!=0 and 'passed' in tests and 'failed' not in tests and not base_missing
    print(f"{'OK ' if ok else 'BAD'} {id} {ns['prop']} demo {d0}/{d1} tests: {tests} | {res}", flush=True)
    if base_missing: print('   not base lines:', base_missing)
    if d0: print('   demo clean:', o0[-500:])
    if 'failed' in tests: print(o)
    shutil.rmtree(w)
if __name__=='__main__':
    ck = '--nocheck' not in sys.argv
    for s in sys.argv[1:]:
        if s.endswith('.py'):
            try: run(s, ck)
            except Exception as e: print(s, 'ERR', repr(e))
