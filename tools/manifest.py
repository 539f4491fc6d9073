"""writes MANIFEST.json from contracts/props.py"""
import os, sys, json, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
import props
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
m = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'hooks': {'guard': '--cfg frozen_verif', 'enable': "RUSTFLAGS='--cfg frozen_verif' cargo build --offline in /verif/harness", 'source_commits': hooks},
    'checks': [], 'not_applicable': props.NOT_APPLICABLE,
    'notes': 'See DESIGN.md. Known findings and fixed defects: known-findings.txt.',
}
for id, p in sorted(props.PROPS.items()):
    note = p['note']
    if p.get('bounded'): note += ' Bounded, not proved: ' + '; '.join(p['bounded']) + '.'
    m['checks'].append({'property': id, 'quick_cmd': f'python3 check.py {id}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {id}',
                        'evidence_file': f'evidence/{id}.json',
                        'technique': p.get('technique', 'Verus contracts on the functions of /repo, extracted on every run; failing inputs by evaluating the contracts on the compiled crate'),
                        'level': p['level'], 'level_note': note})
json.dump(m, open(os.path.join(os.path.dirname(HERE), 'MANIFEST.json'), 'w'), indent=1)
