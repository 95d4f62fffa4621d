"""Writes /verif/MANIFEST.json from the property modules that exist and known reasons for the rest."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)['id'] for l in (V/'properties.jsonl').read_text().splitlines()]
pure = 'no schedule, clock, fault, I/O or multi-party behaviour enters: a pure function of its input, so not a simulation target'
na = {'C19': pure + ' (expression algebra)', 'C20': pure + ' (placement algebra; its composition into run-time coordinates is exercised by C07)',
      'C21': pure + ' (parsing text)', 'C22': pure + ' (parsing C declarations)', 'C23': pure + ' (range arithmetic; its use per scan point is part of C10)'}
note = json.loads((V/'tools'/'levels.json').read_text())
checks = []
missing = []
for i in ids:
    if (V/'props'/f'{i.lower()}.py').exists() and i in note:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': note[i][0], 'level': 'exploration', 'level_note': note[i][1]})
    elif i in na:
        missing.append({'property': i, 'reason': na[i]})
    else:
        missing.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 
     'hooks': {'guard': 'none: the seams are the libc interface (LD_PRELOAD), the HTTP transport adapter, environment variables and executables, so /repo carries no hooks',
               'enable': 'nothing to enable', 'source_commits': []},
     'checks': checks, 'not_applicable': missing,
     'notes': 'Deterministic simulation with fault injection; see DESIGN.md. Failures are replayed with: python3 check.py <id> --replay <file>'}
(V/'MANIFEST.json').write_text(json.dumps(m, indent=1)+'\n')
