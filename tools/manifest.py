"""Write MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT = ('model_checking: bounded exhaustive enumeration of operation sequences / inputs on the real code, '
           'every execution compared with an independent reference model')
TECH = {
    'C19': 'model_checking: exhaustive exploration of thread interleavings of the real code at source line '
           'granularity under a controlled scheduler with a preemption bound',
    'C22': 'model_checking: exhaustive fault injection at every file library call of the real code, with retries',
    'C20': 'model_checking: exhaustive exploration of call histories up to a depth on the real code, '
           'compared with a cache-free reference',
    'C05': 'model_checking: exhaustive exploration of call histories on pipelines that share nodes',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'mc', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'bash run.sh {pid} quick',
            'thorough_cmd': f'bash run.sh {pid} thorough',
            'technique': TECH.get(pid, DEFAULT),
            'level': 'model_checking',
            'level_note': 'exhaustive within the bounds stated per family in the evidence file; see DESIGN.md',
        })
    else:
        na.append({'property': pid, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks drive the public API of /repo in process; no hooks are needed in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
