"""
Development tool: record every violating case of one family as a known finding.
usage: python3 tools/known.py ID PROPERTY FAMILY MESSAGE_REGEX "what fails"
(run with PYTHONPATH=/verif; checks never call it)
"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def main():
    import importlib
    from mc import core
    kid, prop, famname, regex, what = sys.argv[1:6]
    mod = importlib.import_module('mc.' + prop.lower())
    fam = [f for f in mod.families('thorough') if f.name == famname][0]
    if fam.setup:
        fam.setup()
    cases = []
    for case in fam.cases():
        try:
            core.execute(fam, case)
        except core.Violation as ex:
            if re.search(regex, str(ex)):
                cases.append(case)
            else:
                print('not matching:', case, ex)
    fpath = os.path.join(ROOT, 'known_findings.json')
    d = json.load(open(fpath))
    d['findings'] = [f for f in d['findings'] if f['id'] != kid]
    d['findings'].append({'id': kid, 'property': prop, 'family': famname, 'match': regex, 'what': what, 'cases': cases})
    with open(fpath, 'w') as f:
        f.write('{\n "findings": [\n')
        for i, k in enumerate(d['findings']):
            head = {x: y for x, y in k.items() if x != 'cases'}
            t = json.dumps(head, indent=2)[:-2]
            t += ',\n  "cases": [\n' + ',\n'.join('   ' + json.dumps(c) for c in k['cases']) + '\n  ]\n }'
            f.write(t + (',' if i + 1 < len(d['findings']) else '') + '\n')
        f.write(' ],\n "fixed": ' + json.dumps(d['fixed'], indent=1) + '\n}\n')
    print(kid, len(cases), 'cases')


main()
os._exit(0)
