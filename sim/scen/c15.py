"""C15: the pool of database connections of a SQL container."""
import sys
import boot
import dst
import odlib
import sqllib

XML = odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="A" EntityType="Sim.TA"/><EntitySet Name="B" EntityType="Sim.TB"/>
<AssociationSet Name="AB" Association="Sim.AB"><End Role="ra" EntitySet="A"/><End Role="rb" EntitySet="B"/></AssociationSet>
<AssociationSet Name="MM" Association="Sim.MM"><End Role="ma" EntitySet="A"/><End Role="mb" EntitySet="B"/></AssociationSet></EntityContainer>
<EntityType Name="TA"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="V" Type="Edm.Int32"/>
<NavigationProperty Name="Bs" Relationship="Sim.AB" FromRole="ra" ToRole="rb"/><NavigationProperty Name="Ms" Relationship="Sim.MM" FromRole="ma" ToRole="mb"/></EntityType>
<EntityType Name="TB"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="V" Type="Edm.Int32"/>
<NavigationProperty Name="Up" Relationship="Sim.AB" FromRole="rb" ToRole="ra"/><NavigationProperty Name="Ws" Relationship="Sim.MM" FromRole="mb" ToRole="ma"/></EntityType>
<Association Name="AB"><End Role="ra" Type="Sim.TA" Multiplicity="0..1"/><End Role="rb" Type="Sim.TB" Multiplicity="*"/></Association>
<Association Name="MM"><End Role="ma" Type="Sim.TA" Multiplicity="*"/><End Role="mb" Type="Sim.TB" Multiplicity="*"/></Association>
''' + odlib.TAIL

SLACK = 0.5


def setup():
    sqllib.setup()
    odlib.load(XML)
    cls = odlib.edm.EntityCollection
    expand = cls.ExpandEntities

    def ExpandEntities(self, it):
        # a generator that is dropped is closed at once, as by reference counting
        gen = expand(self, it)
        try:
            for e in gen:
                yield e
        finally:
            for g in (gen, it):
                if hasattr(g, 'close'):
                    g.close()
    cls.ExpandEntities = ExpandEntities


def generate(rng, tier):
    nt = rng.choice([2, 3, 3, 4, 5, 6])
    mx = rng.choice([1, 1, 2, 2, 3])
    ts = rng.choice([0, 1, 1, 1, 2])
    kinds = rng.choice([['read', 'iter', 'get', 'insert'], ['read', 'nested', 'nav'], ['iter', 'nav', 'nested', 'insert', 'update', 'delete', 'get', 'read'],
                        ['read'], ['insert', 'update']])
    ops = []
    vid = 1
    pf = rng.choice([0, 0, 0.2, 0.5])
    hold = rng.choice([[0], [0, 0, 1.0], [0, 0.5, 3.0], [0, 2.0, 40.0]])
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 4])):
            vid += 1
            o = dict(t=t, op=rng.choice(kinds), k=rng.randrange(4), v=vid, n=rng.randrange(1, 4), hold=rng.choice(hold), gap=rng.choice([0, 0, 0, 0.2, 2.0]))
            if rng.random() < pf:
                o['f'] = [rng.choice(['connect', 'execute', 'execute', 'fetch', 'commit', 'memory']), rng.randrange(1, 4)]
            ops.append(o)
    leak = []
    if rng.random() < 0.15:
        leak = [t for t in range(nt) if rng.random() < 0.3][:mx]
    close = None
    if rng.random() < 0.45:
        close = [rng.choice([0.0001, 0.001, 0.003, 0.5, 1.0, 2.5, 10.0]), rng.choice([1, 5, 5, 20]), rng.randrange(2)]
    return dict(nt=nt, mx=mx, ts=ts, ops=ops, leak=leak, close=close)


SHRINK = ['ops', 'leak']


def simplify(plan):
    for i, o in enumerate(plan['ops']):
        for k in ('f', 'hold', 'gap'):
            if o.get(k):
                p = dict(plan, ops=[dict(x) for x in plan['ops']])
                p['ops'][i][k] = None if k == 'f' else 0
                yield p


def execute(plan, env):
    edm, simsql, sqlds = odlib.edm, sqllib.simsql, sqllib.sqlds
    doc = odlib.load(XML)
    sets = doc.root.DataServices.defaultContainer
    simsql.world.reset()
    p = sqllib.fresh('main.db')
    mod = sys.modules['sqlite3']
    mod.threadsafety = 1
    c0 = sqllib.container(doc, p)
    c0.CreateAllTables()
    with sets['A'].OpenCollection() as ca, sets['B'].OpenCollection() as cb:
        for k in range(4):
            for c in (ca, cb):
                e = c.NewEntity()
                e.SetKey(k)
                e['V'].SetFromValue(k)
                if c is cb:
                    e['Up'].BindEntity(k % 2)
                    e['Ws'].BindEntity(k)
                c.InsertEntity(e)
    c0.close()
    mod.threadsafety = plan['ts']
    mx = 1 if plan['ts'] == 0 else plan['mx']
    kw = {}
    if plan['ts'] == 2:
        kw['sqlite_options'] = {'check_same_thread': False}
    sim = env.make_sim(max_time=7200.0)
    cont = sqllib.container(doc, p, maxConnections=plan['mx'], **kw)
    total = simsql.world.opened

    held = {}               # connection: [task, count]
    changes = [(0.0, 0)]    # (time, number of threads holding a connection)
    waits = []
    state = dict(closing=None, closed=None)
    flt = {}

    def on_share(conn, t1, t2):
        env.violation('connection used by two threads', 'a cursor of %s is open on a connection that %s uses' % (t1.name, t2.name))

    def hook(when, conn, op, n, sql):
        t = sim.cur
        if op == 'connect':
            if when == 'before':
                if len(simsql.world.open) >= mx:
                    env.violation('too many connections', '%d open and one more is being opened, the limit is %d' % (len(simsql.world.open), mx))
                if state['closed'] is not None:
                    env.violation('connection opened after close', 'by %s' % t.name)
        elif t is not None and conn in held and held[conn][0] is not t and op != 'close':
            env.violation('connection used by two threads', '%s uses the connection that %s has' % (t.name, held[conn][0].name))
        f = flt.get(t)
        if f and when == 'before' and (f[0] == op or f[0] == 'memory' and op == 'execute'):
            f[1] -= 1
            if f[1] == 0:
                env.fault('%s error' % f[0])
                if f[0] == 'memory':
                    raise MemoryError('simulated')
                raise simsql.OperationalError('simulated error in ' + op)
    simsql.world.hook = hook
    simsql.world.on_share = on_share

    def grab(fn, depth):
        """Opens a collection, noting when its connection was asked for and obtained."""
        t0 = sim.now()
        me = sim.cur
        outer = depth == 0
        opening.append(me)
        try:
            c = fn()
        except BaseException:
            if outer:
                waits.append((t0, sim.now(), me.name, False))
            opening.remove(me)
            raise
        opening.remove(me)
        if outer:
            waits.append((t0, sim.now(), me.name, True))
        conn = c.dbc
        h = held.get(conn)
        if h is not None and h[0] is not me:
            env.violation('connection used by two threads', '%s got the connection that %s has' % (me.name, h[0].name))
        elif h is not None:
            h[1] += 1
        else:
            held[conn] = [me, 1]
            note()
        return c

    def drop(c):
        conn = c.dbc
        h = held.get(conn)
        if h is not None and h[0] is sim.cur:
            h[1] -= 1
            if not h[1]:
                del held[conn]
                late.append(conn)
        try:
            c.close()
        finally:
            if conn in late:
                late.remove(conn)
                note()
    late = []
    opening = []

    def note():
        changes.append((sim.now(), len(set(h[0] for h in held.values())) + len(late)))

    def work(o, depth=0):
        kind = o['op']
        coll = grab(lambda: sets['AB'[o['v'] % 2]].OpenCollection(), depth)
        try:
            if o['hold']:
                sim.sleep(o['hold'])
            for i in range(o['n']):
                if kind == 'read':
                    len(coll)
                elif kind == 'get':
                    coll[o['k']]
                elif kind == 'iter':
                    it = coll.itervalues()
                    try:
                        for j in range(o['k'] + 1):
                            try:
                                it.next()
                            except StopIteration:
                                break
                            if o['hold'] and j == 0:
                                sim.sleep(0.1)
                    finally:
                        it.close()
                elif kind == 'insert':
                    e = coll.NewEntity()
                    e.SetKey(100 + o['v'] * 10 + i)
                    e['V'].SetFromValue(o['v'])
                    coll.InsertEntity(e)
                elif kind == 'update':
                    e = coll[o['k']]
                    e['V'].SetFromValue(o['v'])
                    coll.UpdateEntity(e)
                elif kind == 'delete':
                    del coll[o['k']]
                elif kind == 'nested':
                    work(dict(o, op='read', n=1, v=o['v'] + 1), depth + 1)
                elif kind == 'nav':
                    e = coll[o['k']]
                    nm = ['Bs', 'Ms'] if 'Bs' in e.data else ['Up', 'Ws']
                    try:
                        nc = grab(lambda: e[nm[i % 2]].OpenCollection(), depth + 1)
                    except KeyError:
                        continue
                    try:
                        [x for x in nc.itervalues()]
                    finally:
                        drop(nc)
        finally:
            drop(coll)
    done = []

    def thread(t):
        me = sim.cur
        for o in plan['ops']:
            if o['t'] != t:
                continue
            if o['gap']:
                sim.sleep(o['gap'])
            flt[me] = list(o['f']) if o.get('f') else None
            try:
                work(o)
                env.probe('ok')
            except (dst.SimExit, dst.HarnessError):
                raise
            except sqlds.DatabaseBusy:
                env.probe('busy')
            except edm.EDMError:
                env.probe('edm error')
            except (KeyError, MemoryError, sqlds.SQLError, simsql.Error), e:
                env.probe(e.__class__.__name__)
            except Exception:
                exc = sys.exc_info()
                env.exc_violation('unexpected', exc, repr(o))
            flt[me] = None
        if t in plan['leak']:
            try:
                grab(lambda: sets['A'].OpenCollection(), 0)
                env.fault('thread ends without closing')
            except (sqlds.SQLError, simsql.Error):
                pass
        done.append(t)

    def close(timeout):
        state['closing'] = sim.now()
        inuse = list(held) + late + opening
        cont.close(timeout)
        state['closed'] = sim.now()
        left = []
        for conn in simsql.world.open:
            h = held.get(conn)
            if h is None and conn not in late:
                left.append('one that was not in use')
            elif h is not None and h[0].state == dst.DONE:
                left.append('one of the finished thread ' + h[0].name)
        if left:
            env.violation('connection left open', 'after close(%s): %s' % (timeout, ', '.join(left)))
        spent = state['closed'] - state['closing']
        if not inuse and spent > SLACK:
            env.violation('slow close', '%.2f s with no connection in use' % spent)
        elif spent > timeout * (len(inuse) + 1) + SLACK:
            env.violation('slow close', '%.2f s, timeout %s, %d connections in use' % (spent, timeout, len(inuse)))

    def main():
        ts = [sim.spawn(lambda t=t: thread(t), 't%d' % t) for t in range(plan['nt'])]
        if plan['close']:
            sim.sleep(plan['close'][0])
            close(plan['close'][1])
            env.probe('closed while in use' if len(done) < plan['nt'] else 'closed')
        while len(done) < plan['nt']:
            sim.sleep(1.0)
            if sim.now() > 3000:
                env.violation('no progress', 'threads are still waiting: %r done' % (done,))
                return
        if not plan['close']:
            # every connection is back: as many threads as there are connections get one each at once
            n = mx - len([t for t in plan['leak']])
            got = []

            def probe(i):
                try:
                    c = grab(lambda: sets['A'].OpenCollection(), 0)
                except (sqlds.SQLError, simsql.Error):
                    got.append(None)
                    return
                got.append(c)
                while len(got) < n:
                    sim.sleep(0.1)
                drop(c)
            before = sim.now()
            for i in range(n):
                sim.spawn(lambda i=i: probe(i), 'probe%d' % i)
            while len(got) < n and sim.now() < before + 5:
                sim.sleep(0.05)
            if n > 0 and (len(got) < n or None in got):
                env.violation('connection not returned', '%d of %d connections are to be had after all threads finished' % (len([g for g in got if g is not None]), n))
                return
            sim.sleep(0.5)
            close(5)
        try:
            c = sets['A'].OpenCollection()
            c.close()
            env.violation('usable after close', 'OpenCollection succeeded')
        except sqlds.DatabaseBusy:
            pass
        if held and not plan['leak']:
            raise dst.HarnessError('held %r' % held)
        left = [conn for conn in simsql.world.open]
        if plan['close'] and left:
            env.probe('left open by close', len(left))
    sim.spawn(main, 'main')
    sim.run()
    if sim.verdict:
        env.violation('no progress: ' + sim.verdict, 'stuck: %s after %.1f s' % (sim.stuck, sim.now()), tb=sim.stuck_stack)
    elif not env.viol:
        # a thread never waits while a connection is to be had
        end = sim.now()
        closing = state['closing']
        for t0, t1, name, ok in waits:
            if closing is not None and t1 > closing:
                t1 = closing
            if t1 - t0 <= SLACK:
                continue
            env.probe('waited')
            for i, (t, n) in enumerate(changes):
                nxt = changes[i + 1][0] if i + 1 < len(changes) else end
                a, b = max(t, t0), min(nxt, t1)
                if n < mx and b - a > SLACK:
                    env.violation('waiting for nothing', '%s waited from %.3f to %.3f, but from %.3f to %.3f only %d of %d connections were in use' % (
                        name, t0, t1, a, b, n, mx))
                    break
    simsql.world.reset()
    mod.threadsafety = 1
    env.stat('ops', len(plan['ops']))
    env.probe('threadsafety %d' % plan['ts'])
