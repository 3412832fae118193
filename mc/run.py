"""usage: run.py PID [--tier quick|thorough] [--only SCENARIO] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'PROJ_NETWORK': 'OFF',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'TZ': 'UTC', 'HOME': os.environ.get('HOME', '/root')}


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv(sys.executable, [sys.executable, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    from mc import core
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        import resippy
        assert os.path.abspath(resippy.__file__).startswith(os.path.abspath(REPO) + os.sep)
        mod = importlib.import_module('mc.checks.%s' % a.pid.lower())
    except Exception as e:
        # the code under test does not even import: nothing it promises can hold
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(core.VERIF, 'evidence', 'replay_%s_import.json' % a.pid)
        with open(rp, 'w') as f:
            f.write('{"property": "%s", "message": "import failed"}\n' % a.pid)
        print('VIOLATION property=%s replay=%s' % (a.pid, rp))
        print('  import failed: %s' % e)
        return 1
    if a.replay:
        return core.replay(mod.CHECK, a.replay)
    return core.run_check(mod.CHECK, a.tier, seed, jobs=a.jobs, only=a.only)


if __name__ == '__main__':
    sys.exit(main())
