"""Writes MANIFEST.json from properties.jsonl and the table below. Run by hand."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'runtime monitoring: oracle on observed get_full_operator results (entry-by-entry embedding model)',
 'C02': 'runtime monitoring: trace oracle replaying the extracted gate list, device execution counter',
 'C03': 'runtime monitoring: cross-check of measured values against reference expectation values',
 'C04': 'runtime monitoring: oracle on every element of returned operator bases, mutation probes',
 'C05': 'runtime monitoring: state monitor on the algebra tables over call histories',
 'C06': 'runtime monitoring: oracle on reported gradients (commutator model and finite differences)',
 'C07': 'runtime monitoring: oracle on observed shifted differences',
 'C08': 'runtime monitoring: online step-by-step reference model of the trajectory',
 'C09': 'runtime monitoring: trace specification on cost sequences',
 'C10': 'runtime monitoring: consistency checker over the recorded return lists of every flag subset',
 'C11': 'runtime monitoring: unitarity and equivariance invariants on every layer call',
 'C12': 'runtime monitoring: online reference model of each layer call',
 'C13': 'runtime monitoring: offline checker over the log of drawn directions and step matrices',
 'C14': 'runtime monitoring: invariant monitor on every line-search step',
 'C15': 'runtime monitoring: gate-log replay checker and disjointness monitor',
 'C16': 'runtime monitoring: ansatz-growth log checker with a recording optimizer',
 'C17': 'runtime monitoring: phase-machine trace checker',
 'C18': 'runtime monitoring: stopping-rule checker over recorded cost trajectories with scripted layers',
 'C19': 'runtime monitoring: gradient-descent relation checked on consecutive recorded parameters',
 'C20': 'runtime monitoring: fault injection of invalid arguments with device execution counter',
 'C21': 'runtime monitoring: purity snapshots, random-state monitor, history differential',
 'C22': 'runtime monitoring: matrix shadow values on symbolic expression trees',
 'C23': 'runtime monitoring: matrix shadow values of every live object after every operation',
 'C24': 'runtime monitoring: relational contract monitor over pairs and triples',
 'C25': 'runtime monitoring: selection and colouring checker with termination watchdog',
 'C26': 'runtime monitoring: round-trip oracle at and around the poles',
 'C27': 'runtime monitoring: read-back of the drawn curves against reference gradients',
 'C29': 'runtime monitoring: ansatz decomposition of every returned unitary and optimality oracle on its angles',
 'C30': 'runtime monitoring: read-back of printed forms and listings over object and layer histories',
 'C31': 'runtime monitoring: pixels of the rendered landscape read back through its colour bar',
 'C32': 'runtime monitoring: closure graphs of the symbolic algebra against a bit-vector model',
 'C33': 'runtime monitoring: conflict table of the running heuristic compared with the colours after every step',
 'C28': 'runtime monitoring: injected file-system interleavings and barrier-started processes',
}
NOTE = ('Runs the real code of /repo on generated, hostile inputs (boundary values, stationary and degenerate states, histories) and '
        'judges every observed event with an independent reference model; nothing is claimed about inputs that were not run. '
        'Trusts PyPy, numpy/scipy, the PennyLane simulator and vlib/ref.py.')
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i,
                       evidence_file='evidence/%s.json' % i, technique=T[i], level='exploration', level_note=NOTE))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, pennylane, networkx, matplotlib"', checks=checks, not_applicable=[],
               notes='No hooks in /repo: all observation happens at public boundaries or by wrapping objects from the harness. Known findings: known_findings.txt (only repaired defects).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
