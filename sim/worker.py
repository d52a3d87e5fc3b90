"""Simulation worker: worker.py PROPERTY; reads one JSON request per line, writes one JSON answer per line.

Requests: {"seed": n, "tier": t}                 generate a plan from the seed and run it
          {"plan": {...}}                        run a given plan (replay, minimisation)
          {"seed": n, "genonly": 1}              only generate the plan
"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
import json
import random
import traceback


class Env(object):
    """What a scenario sees of a run."""

    def __init__(self, plan):
        self.plan = plan
        self.viol = []
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.sim = None
        self.sims = []
        self.info = {}

    def make_sim(self, **kw):
        import dst
        spec = dict(self.plan.get('sched', {}))
        n = len(self.sims)
        if n:
            spec['seed'] = spec.get('seed', 0) + n * 7919
            ov = spec.get('more_overrides', {})
            if 'overrides' in spec:
                spec['overrides'] = ov.get(str(n), [])
        kw.setdefault('max_steps', 400000)
        self.sim = dst.Sim(dst.Policy(spec), **kw)
        self.sims.append(self.sim)
        self.sim.on_exception = self.on_exception
        return self.sim

    def on_exception(self, task, exc):
        self.exc_violation('uncaught', exc, 'in ' + task.name)

    def exc_violation(self, cls, exc, what=''):
        if issubclass(exc[0], __import__('dst').HarnessError):
            raise exc[1]
        where = ''
        tb = exc[2]
        while tb is not None:
            code = tb.tb_frame.f_code
            if '/pyslet/pyslet/' in code.co_filename:
                where = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
            tb = tb.tb_next
        self.violation('%s %s at %s' % (cls, getattr(exc[0], '__name__', str(exc[0])), where),
                       '%s: %s %s' % (getattr(exc[0], '__name__', str(exc[0])), safe(exc[1]), what), exc)

    def violation(self, cls, msg, exc=None, tb=''):
        v = {'cls': cls, 'msg': safe(msg)[:2000]}
        if tb:
            v['tb'] = safe(tb)[-3000:]
        if exc is not None:
            v['tb'] = safe(''.join(traceback.format_exception(*exc)))[-3000:]
        self.viol.append(v)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def mark(self, *what):
        """Something observed that distinguishes this run's history from others."""
        if self.sim is not None:
            self.sim.hash.update(repr(what))
            self.sim.syncsig.update(repr(what))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n


def native(x):
    """JSON data with plain ASCII text as native strings."""
    if isinstance(x, unicode):
        try:
            return x.encode('ascii')
        except UnicodeEncodeError:
            return x
    if isinstance(x, list):
        return [native(y) for y in x]
    if isinstance(x, dict):
        return dict((native(k), native(v)) for k, v in x.items())
    return x


def safe(x):
    try:
        s = x if isinstance(x, basestring) else str(x)
    except Exception:
        s = repr(type(x))
    if isinstance(s, unicode):
        return s.encode('ascii', 'backslashreplace')
    return ''.join([c if 32 <= ord(c) < 127 or c == '\n' else '\\x%02x' % ord(c) for c in s])


def default_sched(rng, quick=True):
    """A scheduling policy drawn for a run (swarm)."""
    r = rng.random()
    s = {'seed': rng.randrange(1 << 30)}
    if r < 0.15:
        s.update(mode='rand', p_sync=rng.choice([0.05, 0.2, 0.5]), p_line=0.0)
    elif r < 0.65:
        s.update(mode='rand', p_sync=rng.choice([0.02, 0.1, 0.3, 0.6]), p_line=rng.choice([0.001, 0.005, 0.02, 0.1]))
    elif r < 0.95:
        s.update(mode='pct', d=rng.choice([1, 2, 3, 5]), horizon=rng.choice([300, 1000, 4000, 12000]))
    else:
        s.update(mode='none')
    return s


def run_plan(scen, plan):
    boot.seed(int(plan.get('rnd', 1)))
    env = Env(plan)
    err = None
    try:
        scen.execute(plan, env)
    except __import__('dst').SimExit:
        env.violation('simexit', 'SimExit outside task')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        exc = sys.exc_info()
        if issubclass(exc[0], __import__('dst').HarnessError):
            err = safe(traceback.format_exc())
        else:
            env.exc_violation('exception', exc, 'outside tasks')
    res = {'viol': env.viol, 'faults': env.faults, 'probes': env.probes, 'stats': env.stats, 'info': env.info}
    h = ''
    steps = switches = 0
    simtime = 0.0
    clean = True
    sig = ''
    taken = {}
    for i, s in enumerate(env.sims):
        if s.running or not getattr(s, 'clean', True):
            clean = False
        h += s.hash.hexdigest()
        sig += s.syncsig.hexdigest()
        steps += s.nsteps
        switches += s.nswitch
        simtime += s.now()
        taken[str(i)] = s.taken
    import hashlib
    h = hashlib.md5(h + repr(sorted(env.info.items())) + repr([v['cls'] for v in env.viol])).hexdigest()
    res.update(hash=h, sig=hashlib.md5(sig).hexdigest(), steps=steps, switches=switches, simtime=simtime, clean=clean)
    if env.viol or plan.get('want_taken'):
        res['taken'] = taken
    if err:
        res['harness_error'] = err
    return res


def main():
    prop = sys.argv[1].lower()
    out = os.fdopen(os.dup(1), 'w') if hasattr(os, 'dup') and False else sys.stdout
    sys.stdout = sys.stderr
    sys.path.insert(0, os.path.join(boot.HERE, 'scen'))
    scen = __import__(prop)
    scen.setup()
    out.write(json.dumps({'ready': prop}) + '\n')
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = native(json.loads(line))
        if 'cov' in req:
            import SimTrace
            out.write(json.dumps({'cov': dict(SimTrace.coverage()), 'viol': [], 'id': None}) + '\n')
            out.flush()
            continue
        if 'simplify' in req:
            f = getattr(scen, 'simplify', None)
            out.write(json.dumps({'plans': list(f(req['simplify'])) if f else [], 'viol': []}) + '\n')
            out.flush()
            continue
        if 'plan' in req:
            plan = req['plan']
        else:
            rng = random.Random(int(req['seed']) * 1000003 + 17)
            plan = scen.generate(rng, req.get('tier', 'quick'))
            plan.setdefault('sched', default_sched(rng))
            plan.setdefault('rnd', rng.randrange(1 << 30))
            plan['seed'] = req['seed']
            plan['shrink'] = getattr(scen, 'SHRINK', ['ops', 'faults'])
            plan = native(json.loads(json.dumps(plan)))
        if req.get('genonly'):
            res = {'plan': plan}
        else:
            try:
                res = run_plan(scen, plan)
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException:
                res = {'harness_error': safe(traceback.format_exc()), 'viol': []}
            if res['viol'] or req.get('wantplan'):
                res['plan'] = plan
        res['id'] = req.get('id')
        out.write(json.dumps(res) + '\n')
        out.flush()
        if not res.get('clean', True):
            break
    from java.lang import Runtime
    out.flush()
    boot.clean_scratch()
    Runtime.getRuntime().halt(0)


if __name__ == '__main__':
    main()
