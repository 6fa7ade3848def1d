"""Writes MANIFEST.json from the list of properties that have a check."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V+'/properties.jsonl')]
NA = {
 'C21': 'No contract within reach: the property relates runs on different numbers of communicating processes; the verifier executes one process with a trusted communicator, and the installed deductive tools have no MPI semantics. Local obligations (rank-0 guards, no zero wavenumber off rank 0) are part of C10.',
 'C22': 'Convergence and floating-point accuracy are limit statements about discretisation and round-off; contracts over exact arithmetic (as discharged here) cannot state or decide them.',
 'C23': 'Crash consistency depends on HDF5/ShenfunFile and the file system, which are outside the verified text; no contract on the repository code can decide it.',
}
NOTE = ('Every obligation is generated from the current source text and discharged by normal-form arithmetic and z3 for all inputs '
        '(all modes, shapes, coefficients; no bound); assumes exact arithmetic and the trusted contracts listed in the evidence '
        '(shenfun transforms/matrices, work-array cache). A bounded numeric run of the real code accompanies it to replay failures; it is not counted as proof.')
LEVEL = {}
TECH = {}
for f in glob.glob(V+'/tools/notes.json'):
    d = json.load(open(f))
    LEVEL.update(d.get('level', {})); TECH.update(d.get('technique', {})); NA.update(d.get('na', {}))
    NOTES = d.get('note', {})
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V+'/contracts/%s.py' % i) and i not in NA:
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3-vt vc/run.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt vc/run.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, 'contracts on the real functions; generated verification conditions discharged by polynomial normal form + z3'),
                           level=LEVEL.get(i, 'proof'), level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for this property yet.')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy" && /opt/venv/bin/python -c "import numpy"', checks=checks, not_applicable=na,
         notes='Generator and contracts: vc/, contracts/; bounded replay of the real code: replay/. No hooks in /repo.')
json.dump(m, open(V+'/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
