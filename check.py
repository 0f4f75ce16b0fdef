#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import threading
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        args = [a for a in args if a != tier]
    from sa import core
    from sa.checks import REGISTRY
    prop = args[0]
    mod, fn = REGISTRY[prop]
    m = importlib.import_module('sa.checks.' + mod)
    status = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: status.append(core.run(prop, getattr(m, fn), tier, getattr(m, 'ASSUME', {}).get(prop, m.__dict__.get('ASSUMPTIONS', ())))))
    t.start()
    t.join()
    sys.exit(status[0] if status else 2)


if __name__ == '__main__':
    main()
