"""check.py <ID> [--replay PATH]: run one property's monitors (see harness/core.py)"""
import sys, os, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness import core


def run():
    prop = sys.argv[1]
    core.prepare_process()
    mod = importlib.import_module('checks.' + prop.lower())
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return core.replay(prop, mod.GROUPS, sys.argv[3])
    groups = mod.GROUPS
    for g in groups:
        g.hang = min(g.hang, getattr(mod, 'HANG', g.hang))     # processor seconds per case
    if len(sys.argv) > 3 and sys.argv[2] == '--only':
        groups = [g for g in groups if g.name in sys.argv[3].split(',')]
    return core.main(prop, groups, mod.RULE, getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    code = run()
    sys.stdout.flush()
    os._exit(code)
