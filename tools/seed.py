"""development helper: plant one bug (patch made from a text edit), confirm it, and file it under seeded/.
usage: seed.py FILE.py   with ID, PROP, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO (C++ source), NP, [SRC flags]"""
import json, os, subprocess, sys, runpy
R = '/repo'
m = runpy.run_path(sys.argv[1])
d = '/verif/seeded/' + m['ID']
os.makedirs(d, exist_ok=True)
run = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
np = m.get('NP', 0)
open(d + '/demo.cpp', 'w').write(m['DEMO'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=/repo/_build
mpicxx -std=c++11 -O1 -g -w -mavx -mfma -isystem /usr/include/mkl -I/repo/include -I$B/include -I$B/install/include "$H/demo.cpp" -o $T/demo -L$B/install/lib -lheffte -Wl,-rpath,$B/install/lib %s || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl_base_warn_component_unused=0 OMPI_MCA_oob_tcp_if_include=lo
timeout 120 %s$T/demo
''' % (m.get('LIBS', ''), 'mpirun --oversubscribe -np %d ' % np if np else ''))
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': m['PROP'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
assert run('git -C /repo status --short').stdout.strip() == ''
def stable():
    out = '/tmp/w/seedtest%d.json' % os.getpid()
    run('bash /opt/vp/test.sh ' + out)
    b = json.load(open('/opt/vp/BASELINE.json'))
    r = json.load(open(out))
    ok = set(b.get('stable') or b.get('passed') or b.get('tests') or [])
    ps = set(r.get('passed', []))
    return sorted(ok - ps), len(ok)
skip = '-n' in sys.argv
try:
    run('bash /opt/vp/build.sh')
    a = run('bash %s/demo.sh' % d, cwd=R)
    print('demo unchanged ->', a.returncode, a.stdout[-300:] if a.returncode else '')
    for f, old, new in m['EDITS']:
        s = open(R + '/' + f).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(R + '/' + f, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(run('git -C /repo diff').stdout)
    b = run('bash /opt/vp/build.sh')
    if b.returncode:
        print('BUILD FAILED', b.stdout[-800:])
    b = run('bash %s/demo.sh' % d, cwd=R)
    print('demo patched ->', b.returncode, b.stdout[-300:])
    if not skip:
        print('failing stable tests:', stable())
    t = run('VERIF_TIER=quick VERIF_SEED=1 python3-vt check.py %s' % m['PROP'], cwd='/verif')
    print('check ->', t.returncode, t.stdout[-700:])
finally:
    run('git -C /repo checkout -- .')
    run('bash /opt/vp/build.sh')
