"""Writes MANIFEST.json from the checks that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLA+ specification model-checked with TLC'
NOTES = {
    'C01': (f'{MC} (SigBuild); its states replayed into the real constructors, '
            'real constructions validated as traces (SigTrace)', 'model_checking',
            'Exhaustive for the specified bounds of the construction machine (both '
            'directions of acceptance), sampled beyond them (up to 8 parameters, 4 '
            'alternatives). Trusts the projection in driver/sig_lib.py.'),
    'C02': (f'{MC} (PyCall, SigTables); answer tables printed by TLC compared with '
            'the real ones, recorded histories validated by TLC (SigTrace)',
            'model_checking',
            'All signatures and argument shapes within the bounds of SigTables are '
            'compared; larger ones sampled. The binding rules of the specification '
            'are themselves compared with real Python functions in every run.'),
    'C03': (f'{MC} (PyCall with completion steps, SigTables); tables and recorded '
            'histories against the code', 'model_checking', 'As C02; completability '
            'is a liveness property of PyCall, compared with search over real calls.'),
    'C04': (f'{MC} (PyCall, SigLife); bind histories of real signatures validated '
            'by TLC (SigTrace)', 'model_checking',
            'Chains of binds of bounded length; oracle functools.partial of real '
            'functions agrees with the specification in every run.'),
    'C05': (f'{MC} (SigLife); recorded bind histories validated by TLC (SigTrace)',
            'model_checking', 'As C04, looking at the parameters of the results.'),
    'C06': (f'{MC} (SigLife); recorded overloaded histories validated by TLC '
            '(SigTrace)', 'model_checking', 'As C04, 2 to 4 alternatives, nested '
            'binds.'),
    'C07': (f'{MC} (Respell over annotation terms); all terms rebuilt as real '
            'annotations and compared pairwise, random groups validated by TLC '
            '(EqTrace)', 'model_checking',
            'All pairs of the enumerated terms; random groups of respelled and '
            'nearly equal parameters and signatures.'),
    'C08': ('round trips recorded from the real code validated by TLC (SigTrace)',
            'model_checking', 'Sampled signatures, all pickle protocols from 2, '
            'same and separate process.'),
    'C09': ('texts of real signatures validated by TLC against the rendering '
            'operator of the specification (SigTrace)', 'model_checking',
            'Sampled signatures with distinct texts of annotations and defaults.'),
}


def load_extra():
    path = os.path.join(VERIF, 'lib', 'manifest_notes.json')
    try:
        with open(path) as file:
            return {k: tuple(v) for k, v in json.load(file).items()}
    except FileNotFoundError:
        return {}


def main():
    notes = {**NOTES, **load_extra()}
    with open(os.path.join(VERIF, 'properties.jsonl')) as file:
        ids = [json.loads(line)['id'] for line in file]
    checks, missing = [], []
    for prop in ids:
        script = f'checks/{prop.lower()}.py'
        if prop in notes and os.path.exists(os.path.join(VERIF, script)):
            technique, level, note = notes[prop]
            checks.append({'property': prop,
                           'quick_cmd': f'python3 {script}',
                           'thorough_cmd': f'VERIF_TIER=thorough python3 {script}',
                           'technique': technique, 'level': level,
                           'level_note': note})
        else:
            missing.append({'property': prop, 'reason': 'check not built yet'})
    manifest = {'version': 1, 'setup_cmd': 'python3 lib/setup_check.py',
                'checks': checks, 'not_applicable': missing,
                'notes': 'Specifications in spec/ (TLA+, checked with TLC), drivers '
                         'that run the code under test in driver/, checks in '
                         'checks/ and lib/. No hooks in /repo are needed.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as file:
        json.dump(manifest, file, indent=1)
        file.write('\n')


main()
