"""Jobs, results, worker pool, evidence and reporting."""
import os
import sys
import json
import time
import traceback
import hashlib
import multiprocessing as mp
import signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class PublicFailure(Exception):
    """an admissible public call of the code under test fails: a violation by itself"""

    def __init__(self, key, what, replay=None):
        super().__init__(what)
        self.key, self.what, self.replay = key, what, replay or {}


class R:
    """what one job found"""

    def __init__(self, prop, job, tier, seed):
        self.prop, self.job, self.tier, self.seed = prop, job, tier, seed
        self.obl = []          # (name, status)
        self.viol = []         # dict(key, what, replay)
        self.inconcl = []
        self.funcs = {}
        self.samples = []
        self.validated = 0
        self.bounds = []
        self.notes = []
        self.elements = 0

    def ok(self, name, n=1):
        self.obl.append((name, 'proved'))
        self.elements += n

    def inconclusive(self, name, why):
        self.obl.append((name, 'inconclusive'))
        self.inconcl.append('%s: %s' % (name, str(why)[:300]))

    def violation(self, key, what, replay=None):
        self.obl.append((key, 'violated'))
        self.viol.append(dict(key=key, what=what, replay=replay or {}))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def encoding(self):
        return Encoding(self)


class Encoding:
    """records which functions of /repo/kymatio execute while symbolic values flow (sys.monitoring)"""
    TOOL = 4

    def __init__(self, r):
        self.r = r

    def __enter__(self):
        from .shim import REPO
        root = REPO.rstrip('/') + '/kymatio/'
        seen = self.r.funcs
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'vk')
        except ValueError:
            self.active = False
            return self
        self.active = True

        def start(code, off):
            f = code.co_filename
            if f.startswith(root):
                k = f[len(REPO) + 1:] + ':' + code.co_qualname
                if k not in seen:
                    seen[k] = hashlib.sha1(code.co_code).hexdigest()[:8]
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self.active:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.PY_START, None)
            mon.free_tool_id(self.TOOL)


def _worker(conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.path.insert(0, VERIF)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        modname, fname, params, prop, tier, seed = msg
        t = time.time()
        out = {}
        try:
            import importlib
            from vk import engine
            engine.STATS.__init__()
            mod = importlib.import_module(modname)
            r = R(prop, fname, tier, seed)
            try:
                getattr(mod, fname)(r, **params)
            except PublicFailure as e:
                r.violation(e.key, e.what, e.replay)
            except Exception as e:
                r.inconclusive('%s%s' % (fname, params), 'job error %s: %s %s' % (
                    type(e).__name__, e, traceback.format_exc()[-600:]))
            out = dict(obl=r.obl, viol=r.viol, inconcl=r.inconcl, funcs=r.funcs, samples=r.samples,
                       validated=r.validated, bounds=r.bounds, notes=r.notes, elements=r.elements,
                       stats=dict(engine.STATS.__dict__))
        except BaseException as e:
            out = dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        out['wall'] = time.time() - t
        try:
            conn.send(out)
        except Exception as e:
            conn.send(dict(error='unpicklable result %s' % e, wall=time.time() - t))


class Worker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.start()

    def start(self):
        self.conn, child = self.ctx.Pipe()
        self.p = self.ctx.Process(target=_worker, args=(child,), daemon=True)
        self.p.start()
        child.close()
        self.job = None
        self.t0 = None
        self.tags = set()

    def stop(self):
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:
            pass


def run_jobs(jobs, prop, tier, seed, nproc=8, deadline=780, log=None):
    """jobs: list of dict(mod, fn, params, limit, tag).  Jobs sharing a tag (backend) prefer one worker."""
    ctx = mp.get_context('spawn')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'TF_NUM_INTRAOP_THREADS',
              'TF_NUM_INTEROP_THREADS'):
        os.environ[k] = '1'
    t0 = time.time()
    todo = sorted(jobs, key=lambda j: -j.get('cost', 1))
    nproc = max(1, min(nproc, len(todo)))
    ws = [Worker(ctx) for _ in range(nproc)]
    results = []
    from multiprocessing.connection import wait
    try:
        while todo or any(w.job for w in ws):
            now = time.time()
            if now - t0 > deadline:
                for w in ws:
                    if w.job:
                        results.append((w.job, dict(error='check deadline')))
                for j in todo:
                    results.append((j, dict(error='check deadline (not started)')))
                break
            for w in ws:
                if w.job is None and todo:
                    # prefer a job whose tag this worker has already loaded
                    # jobs are grouped by tag so that an expensive import is done by few workers
                    best = None
                    for idx, j in enumerate(todo):
                        if j.get('tag') in w.tags:
                            best = idx
                            break
                    if best is None:
                        busy = {}
                        for v in ws:
                            for tg in v.tags:
                                busy[tg] = busy.get(tg, 0) + 1
                        rem = {}
                        for j in todo:
                            rem[j.get('tag')] = rem.get(j.get('tag'), 0) + j.get('cost', 1)
                        best = max(range(len(todo)), key=lambda i: rem[todo[i].get('tag')] / (
                            1 + busy.get(todo[i].get('tag'), 0)))
                    j = todo.pop(best)
                    w.tags.add(j.get('tag'))
                    w.job, w.t0 = j, time.time()
                    w.conn.send((j['mod'], j['fn'], j['params'], prop, tier, seed))
            ready = wait([w.conn for w in ws if w.job], timeout=1.0)
            for w in ws:
                if w.job is None:
                    continue
                if w.conn in ready:
                    try:
                        out = w.conn.recv()
                    except (EOFError, OSError):
                        out = dict(error='worker died (exit %s)' % w.p.exitcode)
                        results.append((w.job, out))
                        w.stop()
                        w.start()
                        continue
                    results.append((w.job, out))
                    if log:
                        log(w.job, out)
                    w.job = None
                elif time.time() - w.t0 > w.job.get('limit', 300):
                    results.append((w.job, dict(error='time limit')))
                    w.stop()
                    w.start()
                elif not w.p.is_alive():
                    results.append((w.job, dict(error='worker died')))
                    w.stop()
                    w.start()
    finally:
        for w in ws:
            w.stop()
    return results


def known():
    """{(property, key)} of recorded findings"""
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=C01 key=<key> :: description
                head, _, desc = line[len('finding:'):].partition(' :: ')
                p, _, k = head.strip().partition(' ')
                out[(p.split('=', 1)[1], k.split('=', 1)[1].strip())] = desc
    except FileNotFoundError:
        pass
    return out


def report(prop, tier, seed, results, wall, technique_note, assumptions, evid_dir=None):
    evid_dir = evid_dir or os.path.join(VERIF, 'evidence')
    os.makedirs(evid_dir, exist_ok=True)
    kn = known()
    obl, viol, inconcl, funcs, samples, bounds, notes = [], [], [], {}, [], [], []
    stats = {}
    validated = elements = 0
    for j, o in results:
        name = '%s%s' % (j['fn'], json.dumps(j['params'], sort_keys=True, default=str))
        if 'error' in o:
            inconcl.append('%s: %s' % (name, o['error'][:400]))
            obl.append((name, 'inconclusive'))
            continue
        obl += o['obl']
        viol += o['viol']
        inconcl += o['inconcl']
        funcs.update(o['funcs'])
        samples += o['samples']
        bounds += [b for b in o['bounds'] if b not in bounds]
        notes += [b for b in o['notes'] if b not in notes]
        validated += o['validated']
        elements += o['elements']
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
    new, seen, reported = [], set(), set()
    for v in viol:
        if v['key'] in reported:
            continue
        reported.add(v['key'])
        if (prop, v['key']) in kn:
            if v['key'] not in seen:
                seen.add(v['key'])
                print('KNOWN-FINDING: property=%s %s (%s)' % (prop, v['key'], kn[(prop, v['key'])]))
        else:
            new.append(v)
    proved = sum(1 for _, s in obl if s == 'proved')
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=stats.get('paths', 0) + elements,
            transitions=stats.get('branches', 0) + stats.get('queries', 0),
            traces_validated_against_impl=validated,
            states_meaning='symbolic execution paths completed plus scalar obligations compared symbolically',
            transitions_meaning='branch decisions plus solver queries',
            obligations=len(obl), discharged=proved,
            obligations_violated=len(viol), obligations_inconclusive=len(inconcl),
            queries=stats.get('queries', 0), queries_unsat=stats.get('unsat', 0), queries_sat=stats.get('sat', 0),
            queries_unknown=stats.get('unknown', 0), solver_seconds=round(stats.get('solver_s', 0.0), 3),
            paths=stats.get('paths', 0), branches=stats.get('branches', 0),
            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
            bounds=bounds, samples=samples[:12], inconclusive=inconcl[:40], notes=notes[:20],
            technique=technique_note),
        assumptions=assumptions, wall_s=round(wall, 2), violations=len(new))
    json.dump(ev, open(os.path.join(evid_dir, prop + '.json'), 'w'), indent=1, default=str)
    for n, v in enumerate(new[:20]):
        rp = os.path.join(evid_dir, '%s.replay%d.json' % (prop, n))
        json.dump(dict(property=prop, **v), open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s: %s' % (v['key'], str(v['what'])[:600]))
    print('%s %s: %d obligations, %d discharged, %d violated (%d known), %d inconclusive, %d queries, %.1fs solver, %.1fs wall'
          % (prop, tier, len(obl), proved, len(viol), len(viol) - len([v for v in viol if (prop, v['key']) not in kn]),
             len(inconcl), stats.get('queries', 0), stats.get('solver_s', 0.0), wall))
    for s in inconcl[:8]:
        print('  inconclusive: %s' % s[:500])
    return 1 if new else 0
