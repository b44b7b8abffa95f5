"""MANIFEST.json from the contract modules that exist"""
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
    'C21': 'accuracy in floating point: neither the engine (exact rationals) nor any deductive back end here can bound rounding errors of FFTs of arbitrary length, and heFFTe gives no numeric bound to specify',
    'C22': 'absence of deadlock is a liveness property of several processes under every MPI progress behaviour; a function-by-function contract has no notion of it (the safety half, agreement on groups, counts and partners, is C09 and C10)',
}
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'contracts', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
        continue
    m = importlib.import_module('contracts.' + i.lower())
    checks.append({
        'property': i, 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': getattr(m, 'TECHNIQUE', 'contracts on the real functions, obligations generated from the clang AST by a symbolic deductive verifier, discharged by z3/cvc5; bounded replay harness as cross-check'),
        'level': getattr(m, 'LEVEL', 'proof'), 'level_note': getattr(m, 'NOTE', 'every obligation of the contract units is discharged for all inputs; models of the standard library and MPI, the engine and the solvers are trusted; integers are mathematical')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
