"""C08: automatically assigned keys of an in-memory entity set are unique."""
import boot
import odlib
import lin
import httputil as hu

TYPES = ['Int32', 'Int64', 'Int16', 'Byte', 'Int32']
LOW = {'Int32': -3, 'Int64': -3, 'Int16': -3, 'Byte': 0}


def xml(kt):
    return odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="P" EntityType="Sim.TP"/><EntitySet Name="Q" EntityType="Sim.TQ"/>
<AssociationSet Name="PQ" Association="Sim.PQA"><End Role="P" EntitySet="P"/><End Role="Q" EntitySet="Q"/></AssociationSet></EntityContainer>
<EntityType Name="TP"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.%s" Nullable="false"/><Property Name="V" Type="Edm.Int32"/>
<NavigationProperty Name="Qs" Relationship="Sim.PQA" FromRole="P" ToRole="Q"/></EntityType>
<EntityType Name="TQ"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.%s" Nullable="false"/><Property Name="V" Type="Edm.Int32"/>
<NavigationProperty Name="Ps" Relationship="Sim.PQA" FromRole="Q" ToRole="P"/></EntityType>
<Association Name="PQA"><End Role="P" Type="Sim.TP" Multiplicity="*"/><End Role="Q" Type="Sim.TQ" Multiplicity="*"/></Association>''' % (kt, kt) + odlib.TAIL


def setup():
    boot.install()
    odlib.setup()


def generate(rng, tier):
    kt = rng.choice(TYPES)
    lo = LOW[kt]
    nt = rng.choice([2, 2, 3, 4])
    pre = [[rng.choice('PQ'), rng.randrange(lo, 4)] for i in range(rng.choice([0, 0, 1, 2, 3]))]
    kinds = rng.choice([['auto'], ['auto', 'key'], ['auto', 'auto', 'key', 'delete'], ['nav', 'auto'], ['deep', 'auto', 'key'], ['deep', 'nav', 'auto', 'key', 'delete']])
    ops = []
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3])):
            ops.append(dict(t=t, op=rng.choice(kinds), s=rng.choice('PPQ'), k=rng.randrange(lo, 6), n=rng.choice([1, 2]), how=rng.randrange(3)))
    return dict(kt=kt, nt=nt, pre=pre, ops=ops)


SHRINK = ['ops', 'pre']


def apply(state, o):
    kind = o.op[0]
    if o.res == 'fail':
        if kind == 'key' and (o.op[1], o.op[2]) in state:
            yield state
        elif kind in ('delete', 'nav') and (o.op[1], o.op[2]) not in state:
            yield state
        return
    if kind == 'delete':
        if (o.op[1], o.op[2]) in state:
            yield state - set([(o.op[1], o.op[2])])
        return
    if kind == 'nav' and (o.op[1], o.op[2]) not in state:
        return
    new = o.res
    if len(set(new)) == len(new) and not state & set(new):
        yield state | set(new)


def execute(plan, env):
    edm = odlib.edm
    doc = odlib.load(xml(plan['kt']))
    sim = env.make_sim(max_time=3600.0)
    cont = odlib.container(doc)
    sets = doc.root.DataServices.defaultContainer
    NAV = {'P': ('Qs', 'Q'), 'Q': ('Ps', 'P')}
    init = set()
    for s, k in plan['pre']:
        if (s, k) in init:
            continue
        init.add((s, k))
        with sets[s].OpenCollection() as c:
            e = c.NewEntity()
            e['ID'].SetFromValue(k)
            c.InsertEntity(e)
    hist = []

    def do(t, o):
        kind, s, k = o['op'], o['s'], o['k']
        nav, s2 = NAV[s]
        with sets[s].OpenCollection() as coll:
            made = []
            if kind == 'nav':
                try:
                    src = coll[k]
                except KeyError:
                    return
                with sets[s2].OpenCollection() as c2:
                    e = c2.NewEntity()
                made.append((s2, e))
            elif kind != 'delete':
                e = coll.NewEntity()
                made.append((s, e))
                if kind == 'key':
                    if o['how']:
                        e.SetKey(k)
                    else:
                        e['ID'].SetFromValue(k)
                e['V'].SetFromValue(k)
                if kind == 'deep':
                    with sets[s2].OpenCollection() as c2:
                        for i in range(o['n']):
                            x = c2.NewEntity()
                            x['V'].SetFromValue(i)
                            e[nav].BindEntity(x)
                            made.append((s2, x))
            call = sim.seq()
            op = (kind, s, k)
            try:
                if kind == 'delete':
                    del coll[k]
                elif kind == 'nav':
                    with src[nav].OpenCollection() as nc:
                        nc.InsertEntity(e)
                else:
                    coll.InsertEntity(e)
                r = tuple((x, y.Key()) for x, y in made)
            except (KeyError, edm.ConstraintError, edm.NonExistentEntity), err:
                if kind in ('auto', 'deep'):
                    env.violation('automatic key failed', '%r: %s' % (o, err))
                if kind == 'nav' and isinstance(err, edm.ConstraintError):
                    env.violation('automatic key failed', '%r: %s' % (o, err))
                r = 'fail'
            hist.append(lin.Op(t, call, sim.seq(), op, r))
            sim.log(t, op, r)
            if r != 'fail':
                for x, y in made:
                    if not y.exists:
                        env.violation('exists flag', '%r' % (o,))
                env.probe('made_' + kind)

    def thread(t):
        for o in plan['ops']:
            if o['t'] == t:
                do(t, o)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    last = set()
    for s in 'PQ':
        with sets[s].OpenCollection() as c:
            ks = [e.Key() for e in c.itervalues()]
            if len(c) != len(ks) or len(set(ks)) != len(ks):
                env.violation('count', '%d entities, keys %r' % (len(c), ks))
            last.update((s, k) for k in ks)
    try:
        ok = lin.check(hist, frozenset(init), apply, lambda s: s == last)
    except lin.Budget:
        env.probe('budget')
        ok = True
    if not ok:
        env.violation('keys', 'start %r end %r: %s' % (sorted(init), sorted(last), lin.text(hist)))
    env.stat('ops', len(hist))
