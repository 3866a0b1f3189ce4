"""python3-vt -m symex.main <property id> [-v] [-k substring]"""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import build, check
    try:
        build.ensure_build()
        mod = importlib.import_module('props.' + pid)
        build.prepare(getattr(mod, 'MODULES', None))
        tasks = mod.tasks(tier)
        if '-k' in sys.argv:
            k = sys.argv[sys.argv.index('-k') + 1]
            tasks = [t for t in tasks if k in t.describe() or k in t.name]
        return check.run_property(pid, tasks, tier, seed, mod.BOUNDS, getattr(mod, 'ASSUME', ()),
                                  getattr(mod, 'STUBS', ()), verbose=verbose)
    except build.BuildError as e:
        print('BUILD FAILED', e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.exit(main())
