#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current tree."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['TZ'] = os.environ.get('TZ', 'UTC')


def main(argv):
    from pyvc import prop
    if argv and argv[0] == '--replay':
        return prop.replay(argv[1])
    if argv and argv[0] == '--proof':
        # debugging aid: run one proof in this process
        import json
        import importlib
        m = importlib.import_module(prop.modname(argv[1]))
        for i, p in enumerate(m.PROPERTY.proofs):
            if len(argv) < 3 or argv[2] in p.name:
                r = prop.run_proof(prop.modname(argv[1]), i)
                print(json.dumps(r, indent=1, default=repr)[:int(argv[3]) if len(argv) > 3 else 4000])
        return 0
    if argv and argv[0] == '--kind':
        import importlib
        m = importlib.import_module(prop.modname(argv[1]))
        for i, k in enumerate(m.PROPERTY.kinds):
            if len(argv) < 3 or argv[2] in k.name:
                print(prop.run_kind(prop.modname(argv[1]), i, 60, k.n or 400))
        return 0
    rc = 0
    for a in argv:
        rc |= prop.check(a)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
