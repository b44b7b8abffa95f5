"""check.py <property id>: decides one property on /repo's current working tree.

1. clang parses the driver of every contract unit (drivers/*.cpp includes the real headers and sources), the
   engine (dv/) generates the obligations of every unit and the solvers discharge them;
2. the bounded harness of the property (harness/*.cpp, compiled from /repo's current sources) runs: it replays
   the property on concrete inputs against an independent oracle.  It is the search for a failing input when an
   obligation fails, and the labelled bounded stand-in for functions outside the verifier's reach.

exit 0: every obligation discharged (or, for units the verifier cannot reach, UNDECIDED is printed and the
bounded stand-in is clean); exit 1: VIOLATION line."""
import os, sys, time, json, importlib, subprocess, tempfile, shutil, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')

from dv import drv, spec, harness  # noqa


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e['property'] == pid and e['status'] == 'open':
                out.append(e)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    mod = importlib.import_module('contracts.' + pid.lower())
    limit = 3000 if thorough else 700
    # ---- the bounded harness is compiled and run while the obligations are generated
    hs = harness.Harness(getattr(mod, 'HARNESS', []), pid, tier, seed)
    hs.start()
    results, load_err = [], {}
    drivers = []
    for u in mod.UNITS:
        d = getattr(u, 'driver', None) or mod.DRIVER
        if d not in drivers:
            drivers.append(d)
    for d in drivers:
        us = [u for u in mod.UNITS if (getattr(u, 'driver', None) or mod.DRIVER) == d]
        try:
            ast = drv.load(d)
        except Exception as e:
            load_err[d] = '%s: %s' % (type(e).__name__, str(e)[:600])
            results += [{'unit': u.name, 'obligations': [], 'error': 'the driver does not compile: ' + load_err[d]} for u in us]
            continue
        budget = max(60, limit - (time.time() - t0) - 60)
        rs = spec.run_units(ast, us, thorough=thorough, jobs=6, budget=budget)
        # an obligation without an answer may be the load of the machine: those units run again, alone, with more time
        again = [i for i, r in enumerate(rs) if r is not None and (any(o['status'] == 'unknown' for o in r['obligations']) or 'time budget' in (r.get('error') or ''))]
        if again and not any(h['failures'] for h in hs.out):
            for i in again:
                us[i].timeout *= 4
            left = limit - (time.time() - t0) - 60
            if left > 60:
                for i, r in zip(again, spec.run_units(ast, [us[i] for i in again], thorough=thorough, jobs=2, budget=left)):
                    if r is not None and sum(o['status'] != 'proved' for o in r['obligations']) <= sum(o['status'] != 'proved' for o in (rs[i] or {'obligations': []})['obligations']) or (rs[i] or {}).get('error'):
                        rs[i] = r
        results += rs
    results = [r if r is not None else {'unit': '?', 'obligations': [], 'error': 'no result'} for r in results]
    hres = hs.finish(max(60, limit + 120 - (time.time() - t0)))
    kf = known(pid)
    # ---- verdict
    nobl = ndis = 0
    failed, undecided = [], []
    by = {}
    stime = 0.0
    for r in results:
        for o in r['obligations']:
            nobl += 1
            stime += o['time']
            if o['status'] == 'proved':
                ndis += 1
                by[o['solver']] = by.get(o['solver'], 0) + 1
            else:
                if any(e.get('unit') == r['unit'] and e.get('obligation') == o['name'] for e in kf):
                    continue
                failed.append((r['unit'], o))
        if r.get('error'):
            undecided.append((r['unit'], r['error'], r.get('trace')))
    hfail = []
    for h in hres:
        for f in h['failures']:
            if any(e.get('input') and e['input'] in f for e in kf):
                continue
            hfail.append((h, f))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for e in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    code = 0
    if failed or hfail:
        path = os.path.join(rdir, pid + '.json')
        rep = {'property': pid,
               'failed_obligations': [{'unit': u, 'obligation': o['name'], 'where': o['where'], 'verifier_output': o['status'], 'goal': o.get('goal'), 'counterexample': o.get('model'), 'solver_time_s': o['time']} for u, o in failed],
               'failing_inputs': [{'harness': h['name'], 'command': h['cmd'], 'failure': f} for h, f in hfail[:20]],
               'harness': [{k: h[k] for k in ('name', 'cmd', 'status', 'cases')} for h in hres]}
        json.dump(rep, open(path, 'w'), indent=1)
        for u, o in failed[:8]:
            print('failed obligation: [%s] %s @ %s (%s)' % (u, o['name'], o['where'], o['status']))
        for h, f in hfail[:5]:
            print('failing input: [%s] %s' % (h['name'], f[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if hfail else ' no-failing-input-found'))
        code = 1
    for u, e, tr in undecided:
        print('UNDECIDED: [%s] %s (bounded stand-in: %s)' % (u, e[:300], '; '.join('%s %s %d cases' % (h['name'], h['status'], h['cases']) for h in hres) or 'none'))
    for h in hres:
        if h['status'] == 'error':
            print('note: harness %s gave no answer: %s' % (h['name'], h['note'][:300]))
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'python3-vt check.py %s (obligations by dv/ from the clang AST of the current /repo tree; z3 %s in process, z3-new and cvc5 processes)' % (pid, spec.z3.get_version_string()),
            'trusted_base': TRUSTED + getattr(mod, 'ASSUMES', []),
            'functions_under_contract': [r['unit'] for r in results if not r.get('error')],
            'functions_verified_inline': sorted({x for r in results for x in r.get('inlined', [])}),
            'undecided_units': [{'unit': u, 'reason': e[:300]} for u, e, _ in undecided],
            'assumptions_recorded': sorted({str(x) for r in results for x in r.get('assumptions', [])}),
            'library_models_used': sorted({x for r in results for x in r.get('models', [])}),
            'contracts_assumed_at_calls': sorted({x for r in results for x in r.get('contracts', [])}),
            'discharged_by': by, 'solver_time_s': round(stime, 2),
            'vacuity_checks': sum(len(r.get('vacuity', [])) for r in results),
            'vacuity_sat': sum(1 for r in results for x in r.get('vacuity', []) if x[1] == 'sat'),
            'loops_summarised': sum(len(r.get('loops', [])) for r in results),
            'bounded_cross_check': [{k: h[k] for k in ('name', 'status', 'cases', 'distinct', 'bound', 'cmd', 'note')} for h in hres],
            'samples': [{'unit': r['unit'], 'obligation': o['name'], 'where': o['where'], 'status': o['status'], 'solver': o['solver']} for r in results for o in r['obligations'][:2]][:30],
            'evaluations': sum(h['cases'] for h in hres),
            'distinct_nontrivial': sum(h['distinct'] for h in hres),
            'rule': getattr(mod, 'RULE', 'bounded harness cases: counted by the harness; distinct = different generated inputs that reach the comparison with the oracle'),
            'explanation': getattr(mod, 'EXPLAIN', ''),
        },
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if code == 0:
        print('OK property=%s obligations=%d discharged=%d undecided_units=%d bounded_cases=%d wall=%.1fs' % (pid, nobl, ndis, len(undecided), sum(h['cases'] for h in hres), time.time() - t0))
    return code


TRUSTED = [
    'clang 18 front end (AST of the real translation unit) and the symbolic engine in dv/ (statement and loop rules)',
    'z3 and cvc5',
    'models of the C++ standard library, MPI and BLAS calls listed in library_models_used (dv/stdmodel.py)',
    'machine integers treated as mathematical integers unless an obligation names overflow',
    'termination is not proved',
]

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
