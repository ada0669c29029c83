"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]"""
import os, sys
# Before numpy and the code under test are imported
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/rmon'      # never read a stale compiled copy of the code under test
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.path.realpath(os.environ.get('RMON_REPO', '/repo') + '/src'))
import argparse, json, signal


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--seconds', type=float, help='stop generating cases after this time')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from rmon import core, catalog
    prop = catalog.load(a.prop)
    import general_robotics_toolbox as rox
    if not os.path.realpath(rox.__file__).startswith(core.REPO_SRC):
        print('the code under test was not imported from /repo/src but from', rox.__file__)
        return 3
    if a.replay:
        d = json.load(open(a.replay))
        w = [w for w in prop.workloads if w.name == d['workload']][0]
        signal.signal(signal.SIGVTALRM, core._alarm)
        v = core.run_case(core.Monitor(prop.pid), prop, w, d['seed'], d['case'])
        if v is None:
            print('the case passes')
            return 0
        print(json.dumps(v, indent=1))
        print(v['traceback'])
        print('VIOLATION property=%s replay=%s' % (prop.pid, a.replay))
        return 1
    limit = a.seconds or (500 if a.tier == 'quick' else 480)   # stop generating, then judge what was observed
    return core.run_prop(prop, a.tier, a.seed, limit, a.scale)


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
