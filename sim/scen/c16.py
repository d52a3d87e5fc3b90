"""C16: concurrency tokens of the SQL store."""
import sys
import dst
import lin
import odlib
import sqllib
import httputil as hu

KINDS = [
    ('I16', 'Edm.Int16', ''), ('I32', 'Edm.Int32', ''), ('I64', 'Edm.Int64', ''), ('Guid', 'Edm.Guid', ''),
    ('Str', 'Edm.String', ' MaxLength="64"'), ('StrS', 'Edm.String', ' MaxLength="20"'), ('StrF', 'Edm.String', ' MaxLength="70" FixedLength="true"'),
    ('Bin', 'Edm.Binary', ' MaxLength="32"'), ('BinS', 'Edm.Binary', ' MaxLength="10"'), ('BinF', 'Edm.Binary', ' MaxLength="40" FixedLength="true"'),
    ('DT', 'Edm.DateTime', ''), ('DTO', 'Edm.DateTimeOffset', ''), ('Two', 'Edm.Int32', '')]


def xml():
    sets, types = [], []
    for name, ty, facets in KINDS:
        sets.append('<EntitySet Name="%s" EntityType="Sim.T%s"/>' % (name, name))
        types.append('''<EntityType Name="T%s"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<Property Name="V" Type="Edm.Int32"/><Property Name="W" Type="Edm.String" MaxLength="20"/><Property Name="Tok" Type="%s"%s ConcurrencyMode="Fixed"/>%s%s</EntityType>
''' % (name, ty, facets, '<Property Name="Tok2" Type="Edm.Guid" ConcurrencyMode="Fixed"/>' if name == 'Two' else '',
       '<NavigationProperty Name="Up" Relationship="Sim.PI" FromRole="ri" ToRole="rp"/>' if name == 'I32' else
       '<NavigationProperty Name="Ups" Relationship="Sim.PG" FromRole="rg" ToRole="rq"/>' if name == 'Guid' else ''))
    return odlib.HEAD + '<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="P" EntityType="Sim.TP"/>' + '\n'.join(sets) + '''
<AssociationSet Name="PI" Association="Sim.PI"><End Role="rp" EntitySet="P"/><End Role="ri" EntitySet="I32"/></AssociationSet>
<AssociationSet Name="PG" Association="Sim.PG"><End Role="rq" EntitySet="P"/><End Role="rg" EntitySet="Guid"/></AssociationSet></EntityContainer>
<EntityType Name="TP"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<NavigationProperty Name="Items" Relationship="Sim.PI" FromRole="rp" ToRole="ri"/><NavigationProperty Name="Gs" Relationship="Sim.PG" FromRole="rq" ToRole="rg"/></EntityType>
<Association Name="PI"><End Role="rp" Type="Sim.TP" Multiplicity="0..1"/><End Role="ri" Type="Sim.TI32" Multiplicity="*"/></Association>
<Association Name="PG"><End Role="rq" Type="Sim.TP" Multiplicity="*"/><End Role="rg" Type="Sim.TGuid" Multiplicity="*"/></Association>
''' + '\n'.join(types) + odlib.TAIL

XML = None
NAV = {'I32': ('Items', 'Up'), 'Guid': ('Gs', 'Ups')}


def setup():
    global XML
    sqllib.setup()
    XML = xml()
    odlib.load(XML)


def generate(rng, tier):
    kind = rng.choice([k[0] for k in KINDS] + ['DT', 'DTO', 'I32', 'Guid'])
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    nk = rng.choice([1, 1, 2])
    ops = []
    v = 10
    pf = rng.choice([0, 0, 0.2, 0.4])
    gaps = rng.choice([[0], [0, 0, 0.3], [0, 0.9, 1.0, 1.1], [0.5, 5.0]])
    dele = rng.random() < 0.2
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 4])):
            o = dict(t=t, k=rng.randrange(nk), via=rng.choice(['coll', 'coll', 'entity', 'nav', 'navent', 'iter', 'slow']), gap=rng.choice(gaps), w=[])
            for j in range(rng.choice([0, 1, 1, 1, 2, 3])):
                v += 1
                w = dict(v=v, text=rng.choice([None, 'x', 'abc']), gap=rng.choice(gaps), bind=rng.random() < 0.15)
                if rng.random() < pf:
                    w['f'] = [rng.choice(['execute', 'execute', 'commit', 'memory']), rng.randrange(1, 3)]
                o['w'].append(w)
            if dele and rng.random() < 0.25:
                o['delete'] = True
            ops.append(o)
    jumps = []
    if rng.random() < 0.3:
        jumps = [[rng.choice([0.0, 0.001, 0.3, 1.0, 3.0]), rng.choice([-1.0, -2.0, -0.5, 1.0, -3600.0, 3600.0, -86400.0])] for i in range(rng.choice([1, 1, 2, 4]))]
    return dict(jumps=jumps, kind=kind, nt=nt, nk=nk, ops=ops, mx=rng.choice([nt + 1, nt + 1, 1, 2]), busy=rng.choice([5, 5, 0.1, 0]), start=rng.choice([0, 0.2, 0.9, 0.999]))


SHRINK = ['ops', 'jumps']


def simplify(plan):
    for i, o in enumerate(plan['ops']):
        for j in range(len(o['w'])):
            p = dict(plan, ops=[dict(x, w=list(x['w'])) for x in plan['ops']])
            del p['ops'][i]['w'][j]
            yield p
            for key in ('f', 'gap', 'bind'):
                if o['w'][j].get(key):
                    p = dict(plan, ops=[dict(x, w=[dict(y) for y in x['w']]) for x in plan['ops']])
                    p['ops'][i]['w'][j][key] = None
                    yield p
        if o['gap']:
            p = dict(plan, ops=[dict(x) for x in plan['ops']])
            p['ops'][i]['gap'] = 0
            yield p


GONE = 'gone'


def apply(state, o):
    """The state is the value of V, which is different in every version."""
    kind = o.op[0]
    if kind == 'read':
        return [state] if o.res == 'failed' or o.res == (GONE if state is None else state) else []
    if kind == 'write':
        base, v = o.op[1:]
        if o.res == 'ok':
            return [v] if state == base else []
        if o.res == 'refused':
            return [state] if state != base else []
        return [state]
    if kind == 'delete':
        if o.res == 'ok':
            return [None] if state is not None else []
        if o.res == GONE:
            return [state] if state is None else []
        return [state]


def execute(plan, env):
    edm, simsql, sqlds = odlib.edm, sqllib.simsql, sqllib.sqlds
    doc = odlib.load(XML)
    sets = doc.root.DataServices.defaultContainer
    simsql.world.reset()
    p = sqllib.fresh('main.db')
    kind = plan['kind']
    es = sets[kind]
    nav = NAV.get(kind)
    sim = env.make_sim(max_time=7200.0)
    cont = sqllib.container(doc, p, maxConnections=plan['mx'], sqlite_options={'timeout': plan['busy']})
    flt = {}

    def hook(when, conn, op, n, sql):
        f = flt.get(sim.cur)
        if f and when == 'before' and (f[0] == op or f[0] == 'memory' and op == 'execute'):
            f[1] -= 1
            if f[1] == 0:
                env.fault('%s error' % f[0])
                if f[0] == 'memory':
                    raise MemoryError('simulated')
                raise simsql.OperationalError('simulated error in ' + op)

    hist = dict((k, []) for k in range(plan['nk']))

    def tokens(e):
        return tuple([unicode(e[n]) if e[n] else None for n in ('Tok', 'Tok2') if n in e.data])
    written = {}       # value: tokens of the version

    def rec(t, k, op, fn):
        call = sim.seq()
        try:
            r = fn()
        except KeyError:
            r = GONE
        except edm.ConcurrencyError:
            r = 'refused'
        except edm.NavigationError:
            # already linked (to that)
            r = 'failed'
            env.probe('already linked')
        except (dst.SimExit, dst.HarnessError):
            raise
        except (sqlds.SQLError, simsql.Error, MemoryError), x:
            r = 'failed'
            if 'simulated' not in str(x) and 'locked' not in str(x) and 'busy' not in str(x).lower() and not isinstance(x, sqlds.DatabaseBusy):
                env.exc_violation('unexpected', sys.exc_info(), repr(op))
        except Exception:
            env.exc_violation('unexpected', sys.exc_info(), repr(op))
            r = 'failed'
        hist[k].append(lin.Op(t, call, sim.seq(), op, r))
        sim.log(t, k, op, r)
        return r

    def opened(s):
        while 1:
            try:
                return s()
            except (sqlds.DatabaseBusy, sqlds.SQLError):
                sim.sleep(0.5)

    def navigation(k):
        with opened(sets['P'].OpenCollection) as cp:
            e = opened(lambda: cp[0])
        return opened(e[nav[0]].OpenCollection)

    def do(t, o):
        k, via = o['k'], o['via']
        if via.startswith('nav') and not nav:
            via = 'entity'
        if o.get('delete'):
            with opened(es.OpenCollection) as c:
                def dele():
                    del c[k]
                    return 'ok'
                rec(t, k, ('delete',), dele)
            return
        got = []
        coll = navigation(k) if via.startswith('nav') else opened(es.OpenCollection)
        try:
            def read():
                if via == 'iter':
                    e = None
                    for x in coll.itervalues():
                        if x.Key() == k:
                            e = x
                    if e is None:
                        raise KeyError(k)
                else:
                    e = coll[k]
                got.append(e)
                if written.get(e['V'].value, tokens(e)) != tokens(e):
                    env.violation('wrong token', 'version %r read with the token %r, but was stored with %r' % (e['V'].value, tokens(e), written[e['V'].value]))
                return e['V'].value
            r = rec(t, k, ('read',), read)
            if not got:
                if via.startswith('nav') and hist[k][-1].res == GONE:
                    hist[k][-1].res = 'failed'    # it may be linked elsewhere
                return
            if via in ('entity', 'navent', 'slow'):
                coll.close()
                coll = None
            e = got[0]
            base = e['V'].value
            for w in o['w']:
                if w['gap']:
                    sim.sleep(w['gap'])
                if via == 'slow' and coll is None:
                    coll = opened(es.OpenCollection)
                e['V'].SetFromValue(w['v'])
                if w['text'] is None:
                    e['W'].SetFromValue(None)
                else:
                    e['W'].SetFromValue(w['text'] + str(w['v']))
                if w.get('bind') and nav:
                    e[nav[1]].BindEntity(1)

                def upd():
                    flt[sim.cur] = list(w['f']) if w.get('f') else None
                    try:
                        if via in ('entity', 'navent'):
                            e.Update()
                        else:
                            coll.UpdateEntity(e)
                    finally:
                        flt[sim.cur] = None
                    return 'ok'
                r = rec(t, k, ('write', base, w['v']), upd)
                if r == 'ok':
                    base = w['v']
                    if None in tokens(e):
                        env.violation('no token', 'after a successful update: %r' % (tokens(e),))
                    written[base] = tokens(e)
                    env.probe('written')
                else:
                    env.probe(r)
                    if e[nav[1]].bindings if nav else False:
                        e[nav[1]].ClearBindings()
        finally:
            if coll is not None:
                coll.close()

    done = []

    def thread(t):
        for o in plan['ops']:
            if o['t'] == t:
                if o['gap']:
                    sim.sleep(o['gap'])
                do(t, o)
        done.append(t)

    def main():
        cont.CreateAllTables()
        with sets['P'].OpenCollection() as cp, es.OpenCollection() as c:
            for k in range(2):
                e = cp.NewEntity()
                e.SetKey(k)
                cp.InsertEntity(e)
            for k in range(plan['nk']):
                e = c.NewEntity()
                e.SetKey(k)
                e['V'].SetFromValue(k)
                if nav:
                    e[nav[1]].BindEntity(0)
                c.InsertEntity(e)
                if None in tokens(e):
                    env.violation('no token', 'after inserting: %r' % (tokens(e),))
                written[k] = tokens(e)
        now = sim.now()
        sim.sleep(plan['start'] + 1 - now % 1)
        simsql.world.hook = hook
        for when, delta in plan['jumps']:
            def jump(delta=delta):
                sim.wall_skew += delta
                env.fault('clock jump')
            sim.after(when, jump)
        for t in range(plan['nt']):
            sim.spawn(lambda t=t: thread(t), 't%d' % t)
        while len(done) < plan['nt']:
            sim.sleep(1.0)
            if sim.now() > 3000:
                env.violation('no progress', '%r done' % (done,))
                return
        cont.close()
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        simsql.world.reset()
        return
    last = dict((r[0], r[1]) for r in sqllib.rows(p, 'SELECT ID,V FROM %s' % kind))
    cont = sqllib.container(doc, p)
    with es.OpenCollection() as c:
        for e in c.itervalues():
            if e['V'].value in written and tokens(e) != written[e['V'].value]:
                env.violation('wrong token', 'version %r ends with the token %r, but was stored with %r' % (e['V'].value, tokens(e), written[e['V'].value]))
            x = e['W'].value
            want = [w['text'] + str(w['v']) if w['text'] else None for o in plan['ops'] for w in o['w'] if w['v'] == e['V'].value] or [None]
            if x != want[0]:
                env.violation('mixed versions', 'V=%r but W=%r' % (e['V'].value, x))
    cont.close()
    simsql.world.reset()
    env.probe('kind ' + kind)
    for k in range(plan['nk']):
        end = last.get(k)
        try:
            ok = lin.check(hist[k], k, apply, lambda s: s == end)
        except lin.Budget:
            env.probe('budget')
            continue
        if not ok:
            env.violation('lost update', 'entity %d of %s, at the end %r: %s' % (k, kind, end, lin.text(hist[k])))
        env.stat('ops', len(hist[k]))
