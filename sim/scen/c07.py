"""C07: an in-memory entity set shared by threads is linearizable against a dictionary."""
import boot
import odlib
import lin
import httputil as hu

XML = odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="Things" EntityType="Sim.Thing"/></EntityContainer>
<EntityType Name="Thing"><Key><PropertyRef Name="ID"/></Key>
<Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="A" Type="Edm.Int32"/><Property Name="B" Type="Edm.String"/>
<Property Name="P" Type="Sim.Pair" Nullable="false"/></EntityType>
<ComplexType Name="Pair"><Property Name="X" Type="Edm.Int32"/><Property Name="Y" Type="Edm.Int32"/></ComplexType>
''' + odlib.TAIL


def setup():
    boot.install()
    odlib.setup()
    odlib.load(XML)


def generate(rng, tier):
    nt = rng.choice([2, 2, 3, 3, 4])
    nk = rng.choice([1, 1, 2, 3])
    ops = []
    vid = 1
    kinds = rng.choice([['insert', 'get', 'update', 'delete', 'len', 'contains', 'iter'],
                        ['insert', 'delete', 'get'], ['iter', 'delete', 'insert'], ['insert', 'insert', 'len', 'iter'], ['update', 'get', 'partial', 'selget', 'iter'],
                        ['insert', 'delete', 'update', 'partial', 'get', 'iter', 'filter']])
    pre = [k for k in range(nk) if rng.random() < 0.6]
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 4]) if nt < 4 else rng.choice([1, 2, 3])):
            ops.append(dict(t=t, op=rng.choice(kinds), k=rng.randrange(nk), v=vid, how=rng.randrange(4)))
            vid += 1
    return dict(nt=nt, nk=nk, pre=pre, ops=ops)


SHRINK = ['ops']


def fill(e, v, select=None):
    e['A'].SetFromValue(v)
    if select is None:
        e['B'].SetFromValue(u'v%d' % v)
        e['P']['X'].SetFromValue(v)
        e['P']['Y'].SetFromValue(v)


def fields(e):
    return (e['A'].value, e['B'].value and int(e['B'].value[1:]), e['P']['X'].value, e['P']['Y'].value)


def apply(state, o):
    d = dict(state)
    kind, k, v = o.op
    res = o.res
    if kind == 'insert':
        if res == 'ok':
            if k not in d:
                d[k] = (v, v, v, v)
                yield tuple(sorted(d.items()))
        elif k in d:
            yield state
    elif kind == 'get':
        if d.get(k) == res:
            yield state
    elif kind == 'selget':
        if (res is None) == (k not in d) and (res is None or res == d[k][0]):
            yield state
    elif kind in ('update', 'partial'):
        if res == 'ok':
            if k in d:
                d[k] = (v, v, v, v) if kind == 'update' else (v,) + d[k][1:]
                yield tuple(sorted(d.items()))
        elif k not in d:
            yield state
    elif kind == 'delete':
        if res == 'ok':
            if k in d:
                del d[k]
                yield tuple(sorted(d.items()))
        elif k not in d:
            yield state
    elif kind == 'len':
        if len(d) == res:
            yield state
    elif kind == 'contains':
        if (k in d) == res:
            yield state


def execute(plan, env):
    edm = odlib.edm
    doc = odlib.load(XML)
    sim = env.make_sim(max_time=3600.0)
    cont = odlib.container(doc)
    es = doc.root.DataServices.defaultContainer['Things']
    with es.OpenCollection() as c:
        for k in plan['pre']:
            e = c.NewEntity()
            e['ID'].SetFromValue(k)
            fill(e, -1 - k)
            c.InsertEntity(e)
    init = tuple(sorted((k, (-1 - k,) * 4) for k in plan['pre']))
    hist = []
    iters = []

    def do(t, o, coll, sel):
        k, v = o['k'], o['v']
        kind = o['op']

        def rec(op, fn):
            call = sim.seq()
            try:
                r = fn()
            except KeyError:
                r = 'KeyError'
            except edm.ConstraintError:
                r = 'Constraint'
            hist.append(lin.Op(t, call, sim.seq(), op, r))
            sim.log(t, op, r)
            return r
        if kind == 'insert':
            e = coll.NewEntity()
            if o['how'] % 2:
                e.SetKey(k)
            else:
                e['ID'].SetFromValue(k)
            fill(e, v)

            def ins():
                coll.InsertEntity(e)
                if not e.exists:
                    env.violation('exists flag', 'inserted entity does not exist')
                return 'ok'
            rec((kind, k, v), ins)
        elif kind == 'get':
            def get():
                e = coll.get(k) if o['how'] == 0 else coll[k]
                if e is None:
                    return None
                if e.Key() != k or not e.exists:
                    env.violation('wrong entity', 'asked for %d got %r' % (k, e.Key()))
                return fields(e)
            r = rec((kind, k, v), get)
            if r == 'KeyError':
                hist[-1].res = None
        elif kind == 'selget':
            r = rec((kind, k, v), lambda: sel[k]['A'].value)
            if r == 'KeyError':
                hist[-1].res = None
        elif kind in ('update', 'partial'):
            c = coll if kind == 'update' else sel
            try:
                e = c[k]
            except KeyError:
                return
            fill(e, v, None if kind == 'update' else 1)

            def upd():
                if o['how'] % 2:
                    c.UpdateEntity(e)
                else:
                    e.Update()
                return 'ok'
            rec((kind, k, v), upd)
        elif kind == 'delete':
            def dele():
                if o['how'] == 0:
                    coll[k].Delete()
                else:
                    del coll[k]
                return 'ok'
            rec((kind, k, v), dele)
        elif kind == 'len':
            rec((kind, k, v), lambda: len(coll))
        elif kind == 'contains':
            rec((kind, k, v), lambda: k in coll)
        elif kind in ('iter', 'filter'):
            call = sim.seq()
            if o['how'] == 0:
                r = [(e.Key(), fields(e)) for e in coll.itervalues()]
            elif o['how'] == 1:
                r = [(x, None) for x in coll.keys()]
            elif o['how'] == 2:
                r = [(x, fields(e)) for x, e in coll.iteritems()]
            else:
                r = [(e.Key(), fields(e)) for e in coll.values()]
            iters.append((t, call, sim.seq(), r))
            sim.log(t, r)

    def thread(t):
        with es.OpenCollection() as coll:
            with es.OpenCollection() as sel:
                sel.Expand(None, {u'A': None})
                for o in plan['ops']:
                    if o['t'] == t:
                        do(t, o, coll, sel)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    with es.OpenCollection() as c:
        last = tuple(sorted((e.Key(), fields(e)) for e in c.itervalues()))
        if len(c) != len(last):
            env.violation('count', 'count %d but %d entities' % (len(c), len(last)))
    try:
        ok = lin.check(hist, init, apply, lambda s: s == last)
    except lin.Budget:
        env.probe('budget')
        ok = True
    if not ok:
        env.violation('not linearizable', 'start %r, end %r: %s' % (init, last, lin.text(hist)))
        return
    check_iters(plan, env, hist, iters, init)
    env.stat('ops', len(hist) + len(iters))
    if len([o for o in hist if o.res in ('KeyError', 'Constraint')]):
        env.probe('lost_race')


def check_iters(plan, env, hist, iters, init):
    """Iterations: every entity present throughout, none twice, none that was not there, no mixtures."""
    partial = [o for o in hist if o.op[0] == 'partial']
    writes = [lin.Op('init', -1, -1, ('insert', k, f[0]), 'ok') for k, f in init]
    writes += [o for o in hist if o.op[0] in ('insert', 'update', 'delete', 'partial') and o.res == 'ok']
    for t, call, ret, r in iters:
        ks = [k for k, f in r]
        if len(set(ks)) != len(ks):
            env.violation('iteration repeats', '%r' % (r,))
        for k, f in r:
            w = [o for o in writes if o.op[1] == k and o.call < ret]
            cand = [o for o in w if o.op[0] != 'delete' and not [x for x in w if x is not o and x.op[0] != 'partial' and o.ret < x.call and x.ret < call]]
            if not cand:
                env.violation('iteration yields what is not there', 'key %d: %s' % (k, lin.text(hist)))
            elif f is not None and not partial:
                if len(set(f)) != 1 or f[0] not in [o.op[2] for o in cand]:
                    env.violation('iteration yields a wrong value', 'key %d %r, candidates %r' % (k, f, cand))
        for o in writes:
            if o.op[0] == 'insert' and o.ret < call and o.op[1] not in ks:
                if not [x for x in writes if x.op[0] == 'delete' and x.op[1] == o.op[1] and x.ret > o.call and x.call < ret]:
                    env.violation('iteration misses an entity', 'key %d: %r; %s' % (o.op[1], r, lin.text(hist)))
