import importlib
import json
import os
import sys


def main():
    argv = sys.argv[1:]
    from mc import core
    if argv[0] != 'replay':
        prop = argv[0]
    else:
        with open(argv[1]) as f:
            prop = json.load(f)['property']
    mod = importlib.import_module('mc.' + prop.lower())
    getattr(mod, 'before_import', lambda: None)()
    import delayed_image
    src = os.path.realpath(delayed_image.__file__)
    want = os.environ.get('MC_REPO', core.REPO)
    if not src.startswith(os.path.realpath(want) + os.sep):
        sys.stderr.write(f'delayed_image is imported from {src}, not {want}\n')
        return 3
    if argv[0] == 'replay':
        with open(argv[1]) as f:
            rec = json.load(f)
        for fam in mod.families(rec.get('tier', 'quick')):
            if fam.name == rec['family']:
                if fam.setup:
                    fam.setup()
                try:
                    core.execute(fam, rec['case'])
                except core.Violation as ex:
                    print('REPRODUCED:', ex)
                    return 1
                print('the case passes')
                return 0
        print('no such family')
        return 3
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    fams = mod.families(tier)
    only = os.environ.get('MC_ONLY')
    if only:
        fams = [f for f in fams if f.name in only.split(',')]
    return core.run_check(prop, getattr(mod, 'LEVEL', 'model_checking'), fams,
                          tier, assumptions=getattr(mod, 'ASSUMPTIONS', ()),
                          explain=getattr(mod, 'RULE', ''))


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
