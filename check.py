#!/opt/venv/bin/python
"""check.py <property> <quick|thorough>   run one property's check
   check.py --replay <file>               show and re-run the obligation of a replay file"""
import sys
import os
import time
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True


def main():
    import importlib
    from vk import core
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        print(json.dumps(d, indent=1)[:4000])
        prop = d['property']
        tier = 'quick'
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('checks.' + prop.lower())
    jobs = mod.jobs(tier)
    only = os.environ.get('VK_ONLY')
    if only:
        jobs = [j for j in jobs if only in '%s %s' % (j['fn'], j['params'])]
    t = time.time()
    verbose = os.environ.get('VK_VERBOSE')

    def log(j, o):
        if verbose:
            print('  job %s %s %.1fs %s' % (j['fn'], j['params'], o.get('wall', 0), o.get('error', '')), flush=True)
    res = core.run_jobs(jobs, prop, tier, seed, nproc=int(os.environ.get('VK_PROCS', '8')),
                        deadline=780 if tier == 'quick' else 3 * 3600, log=log)
    rc = core.report(prop, tier, seed, res, time.time() - t, mod.TECH, mod.ASSUMPTIONS,
                     os.environ.get('VK_EVIDENCE'))
    sys.exit(rc)


if __name__ == '__main__':
    main()
