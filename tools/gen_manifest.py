"""Writes /verif/MANIFEST.json for the properties that have a check module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based testing: generated stacks against exact arbitrary-precision integer sums',
    'C02': 'property-based testing: grammar-generated descriptors, round trip through text noise',
    'C03': 'property-based testing and fuzzing: mutated and token-fuzzed descriptors against an independent grammar parser',
    'C04': 'property-based testing: generated image files against exact reference reductions',
    'C05': 'property-based testing with generated fault injection: one fault per data set, with the fault-free twin as control',
    'C06': 'property-based testing: exact rational pair statistics as reference model, metamorphic relations',
    'C07': 'property-based testing: two-pass reference model on raw stacks',
    'C08': 'property-based testing: known-component images, exact recovery and metamorphic relations',
    'C09': 'property-based testing: generated series against an independent saturation definition',
    'C10': 'property-based testing: generated series against extended-precision least squares',
    'C11': 'property-based testing: reference formulas over generated series',
    'C12': 'property-based testing: reference model of the linearity method',
    'C13': 'property-based testing: reference regression over generated dark series',
    'C14': 'property-based testing: pixel-by-pixel counting against histograms of generated images',
    'C15': 'property-based testing: sums over shifted copies as reference, linearity and invariance relations',
    'C16': 'property-based testing: explicit Fourier sums, Parseval identity, cosines of known frequency',
    'C17': 'property-based testing: catalogue of documented quantities against generated results, round trip through files',
    'C18': 'property-based testing: round trips and single-difference mutation of result files',
    'C19': 'statistical property-based testing: 8-sigma tests of generated cameras against the documented noise model',
    'C20': 'stateful model-based property testing: call histories against a settings model and twin cameras',
    'C21': 'property-based testing: physical formula, inverse and scaling laws',
    'C22': 'property-based testing: generated plans and data sets against an independent plan definition and camera model',
    'C23': 'statistical property-based testing: end-to-end recovery of generated camera parameters',
    'C24': 'property-based testing: generated report histories, rendered output parsed and compared with results',
    'C25': 'property-based testing: drawn artists compared with reference data over generated results',
    'C26': 'stateful property testing: query histories against fresh evaluations',
    'C27': 'property-based testing: index-arithmetic reference for tilings, filters and efficiencies',
    'C28': 'property-based testing: set-difference oracle on injected bad pixels',
    'C29': 'metamorphic property-based testing: repackaged data sets give identical results',
    'C30': 'statistical property-based testing: chosen settings against independently simulated dark images of every offered one',
    'C31': 'property-based testing: generated classes and docstrings, listed quantities against the generated tags and values',
    'C33': 'metamorphic property-based testing: masked data sets against other values under the mask and the valid pixels alone',
    'C32': 'metamorphic property-based testing: transformed data sets against the predicted change of every result',
}
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'vlib', 'props', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python -B check.py %s --tier %s'
        checks.append({'property': i, 'quick_cmd': cmd % (i, 'quick'), 'thorough_cmd': cmd % (i, 'thorough'),
                       'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'seeded search over generated cases with an explicit oracle and shrinking; bounds, oracle '
                                     'and tolerances in DESIGN.md, counts and case distribution in the evidence file'})
    else:
        missing.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B tools/selfcheck.py', 'checks': checks, 'not_applicable': missing,
     'notes': 'No hooks in /repo. Known findings and repaired defects: known_findings.json. Replay one failure with '
              'check.py <ID> --replay <file>.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
