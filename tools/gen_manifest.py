#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import REG
BASE = 'abstract interpretation of the typed program over a value-graph domain: '
HOW = {
    'C01': 'queue-machine refinement of the loader on all short call histories',
    'C02': 'queue-machine refinement of the loader; effect comparison of one backend step',
    'C03': 'queue-machine refinement; value-graph equality of shifted time stamps',
    'C04': 'queue-machine refinement; value-graph equality of the interpolated sample',
    'C05': 'track model refinement over message and marginalization histories',
    'C06': 'observation counting over histories; shape of the stacked equation',
    'C07': 'window model refinement over histories; lookups by id',
    'C08': 'agreement of window, tracks and covariance on every marginalization exit',
    'C09': 'block dimension analysis of the covariance on every exit',
    'C10': 'value-graph equality of every covariance block with the moved block',
    'C11': 'value-graph symmetry under perturbed matrix inverses',
    'C12': 'unit-norm effect analysis of every store to an attitude',
    'C13': 'value-graph equality with the midpoint strapdown equations',
    'C14': 'value-graph equality with the error-state linearization',
    'C15': 'value-graph equality of the projected normal matrix with that of the reference Jacobians',
    'C16': 'value-graph equality of the corrected state and covariance with the Kalman update',
    'C17': 'value-graph equality of recomputed states; typestate of the propagation queue',
    'C18': 'typestate of initialization status, window and queues on every exit of a backend step',
    'C19': 'dataflow of samples and biases, value-graph equality of each integration',
    'C20': 'dataflow from file slots to consumers; stream model of the matrix reader',
    'C21': 'argument comparison at every triangulation call',
    'C22': 'value-graph equality of each iteration with the reference normal equations',
    'C23': 'value-graph comparison of returned hypothesis, score and flags',
    'C24': 'guard analysis on every success exit of the geometric solvers',
    'C25': 'loop ranking analysis over the syntax tree of every loop',
    'C26': 'memory-safety obligations at every access of the interpreted program',
    'C27': 'value-graph equality of published state; mod-set',
    'C28': 'overwrite-before-read analysis of static scratch',
    'C29': 'value-graph equality with the complementary filter equations',
    'C30': 'equivalence of the decision condition with the thresholds',
    'C31': 'value-graph equality with the definitions',
    'C32': 'value-graph equality of each damped iteration; monotonicity of the accepted cost',
    'C33': 'set comparison of used, triangulated and visible features on every exit',
    'C34': 'value-graph equality of the start state; guard analysis of the success exit',
    'C35': 'mod-set analysis of queries and diagnostics',
    'C36': 'constructor field-flow comparison',
}
NOTE = ('Decided from the source alone, which is parsed afresh on every run. Entry states partition the discrete structure (numbers of frames, cameras, features, queue lengths) up to the small '
        'bounds listed in the evidence and DESIGN.md; all numbers in them are symbolic. Equality of value-graph terms is decided by identity or random interpretation (one-sided: a violation '
        'always has a numeric witness). Arithmetic is real arithmetic in double precision; the models of the Eigen and standard library operations are trusted.')
NOTES = {
    'C12': 'Structural part is unbounded: every store to an attitude in the source. ' + NOTE,
    'C25': 'Unbounded: every loop of the source needs a recognised ranking argument; a loop without one is undecided unless the analysis finds it cannot make progress.',
}
NA = {
    'N01': 'An error bound over all motions and noises is a statement about stochastic runtime quantities; no static argument in reach bounds it.',
    'N02': 'Needs a rounding-error analysis of unbounded sequences of matrix products in single precision; no sound static bound in reach.',
    'N03': 'Convergence within the iteration limit depends on the basin of a nonlinear least-squares problem, which no static analysis of the source bounds.',
    'N04': 'Worst-case execution time on the target hardware is not a property of the source alone.',
    'N05': 'A statistical property of the output distribution; not decidable from the source.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash front/build.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in REG:
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt run.py %s quick' % i, 'thorough_cmd': 'python3-vt run.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': (BASE if i not in ('C25',) else '') + HOW[i], 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
