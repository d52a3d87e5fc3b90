"""C14: every operation of the SQL data service is all-or-nothing under database errors, locks and crashes."""
import sys
import os
import boot
import dst
import odlib
import sqllib
import c09

MULT = [('*', '*'), ('*', '*'), ('1', '*'), ('*', '1'), ('0..1', '*'), ('*', '0..1'), ('1', '0..1'), ('0..1', '1'), ('1', '1'), ('0..1', '0..1')]
KINDS = ['error', 'error', 'error', 'late', 'crash', 'crash', 'late', 'integrity', 'memory', 'full', 'lock', 'rlock']


def setup():
    sqllib.setup()


def key(plan, s, k):
    return (k // 2, u'xy'[k % 2]) if s in plan['ck'] else k


def unkey(t):
    return t[0] * 2 + 'xy'.index(t[1]) if len(t) > 1 else t[0]


def xml(plan):
    x = c09.xml(plan)
    for s in plan['sets']:
        a = '<EntityType Name="T%s"><Key><PropertyRef Name="ID"/></Key>' % s
        b = a
        if s in plan['ck']:
            b = a.replace('</Key>', '<PropertyRef Name="K2"/></Key><Property Name="K2" Type="Edm.String" Nullable="false" MaxLength="5"/>')
        assert a in x
        x = x.replace(a, b)
    # the unbound end's role is used as a name in queries: not one that is a table's too
    return x.replace('Role="', 'Role="role')


class Model(c09.Model):
    """Adds the value of a property of each entity."""

    def __init__(self, plan, state=None):
        if state is not None:
            self.vals = dict(state[0])
            c09.Model.__init__(self, plan, (list(self.vals), state[1]))
        else:
            self.vals = {}
            c09.Model.__init__(self, plan)
        self.v = None

    def state(self):
        return (frozenset(self.vals.items()), tuple(frozenset(x) for x in self.links))

    def insert(self, s, k, b, ignore=None):
        c09.Model.insert(self, s, k, b, ignore)
        self.vals[(s, k)] = self.v

    def delete(self, s, k):
        c09.Model.delete(self, s, k)
        self.vals.pop((s, k), None)

    def run(self, o):
        self.v = o.get('v')
        if o['op'] == 'update' and (o['s'], o['k']) in self.vals:
            self.vals[(o['s'], o['k'])] = self.v
        c09.Model.run(self, o)


def outcomes(plan, st, o):
    """The states the operation may lead to; empty when the model refuses it."""
    m = Model(plan, st)
    orders = [()]
    if o['op'] == 'delete' and len(m.assocs) > 1:
        for s in m.sets:
            orders += [x + (s,) for x in orders]
    r = []
    for rev in orders:
        m = Model(plan, st)
        m.rev = rev
        try:
            m.run(o)
            if m.state() not in r:
                r.append(m.state())
        except c09.Fail:
            pass
    return r


def generate(rng, tier):
    shape = rng.choice(['two', 'two', 'two', 'chain', 'chain', 'self', 'double', 'star'])
    pairs = {'two': ['AB'], 'chain': ['AB', 'BC'], 'self': ['AA', 'AB'], 'double': ['AB', 'AB'], 'star': ['AB', 'AC']}[shape]
    assocs = []
    for p in pairs:
        m = list(rng.choice(MULT))
        nav = [True, True]
        if p == 'AA':
            m = list(rng.choice([('*', '*'), ('0..1', '*'), ('*', '0..1')]))
        else:
            b = rng.choice([0, 0, 0, 1, 2])
            if b:
                nav[b - 1] = False
        assocs.append(dict(ends=list(p), m=m, nav=nav))
    sets = sorted(set(''.join(pairs)))
    seen = set()
    for a in assocs:
        for end in (0, 1):
            if not a['nav'][end] and a['m'][1 - end] == '1':
                if a['ends'][end] in seen:
                    a['nav'][end] = True
                seen.add(a['ends'][end])
    # one key reference to each other's tables would make them impossible to create
    plan = dict(sets=sets, assocs=assocs, ck=[s for s in sets if rng.random() < 0.3])
    nv = c09.navs_of(plan)
    nk = rng.choice([2, 3, 4])

    def rkey():
        return rng.randrange(nk)

    def binds(s, depth, avoid=None):
        r = []
        for name, i, end in nv[s]:
            to = assocs[i]['ends'][1 - end]
            need = assocs[i]['m'][1 - end] == '1'
            if (i, end) == avoid and rng.random() < 0.9:
                continue
            if need and rng.random() < 0.9 or not need and rng.random() < 0.4:
                for c in range(rng.choice([1, 1, 2]) if assocs[i]['m'][1 - end] == '*' else 1):
                    if depth and rng.random() < 0.6:
                        r.append([name, None, dict(k=rkey(), b=binds(to, depth - 1, (i, 1 - end)))])
                    else:
                        r.append([name, rkey(), None])
        return r
    vid = [0]

    def op(kinds):
        s = rng.choice(sets)
        kind = rng.choice(kinds)
        vid[0] += 1
        o = dict(op=kind, s=s, k=rkey(), how=rng.randrange(4), v=vid[0])
        if kind == 'insert':
            o['b'] = binds(s, 2)
        elif kind == 'update':
            o['b'] = binds(s, 1)
        elif kind != 'delete':
            if not nv[s]:
                o['op'] = 'insert'
                o['b'] = binds(s, 2)
                return o
            name, i, end = rng.choice(nv[s])
            o['nav'] = name
            o['to'] = rkey()
            if kind == 'navinsert':
                o['b'] = binds(assocs[i]['ends'][1 - end], 1, (i, 1 - end))
        return o
    m = Model(plan)

    def good(kinds, tries):
        for j in range(tries):
            o = op(kinds)
            m2 = Model(plan, m.state())
            try:
                m2.run(o)
                if m2.state() == m.state() and j < tries - 1:
                    continue
                m.ents, m.vals, m.links = m2.ents, m2.vals, m2.links
                return o
            except c09.Fail:
                pass
        return o
    ops = [good(['insert', 'insert', 'navinsert', 'link'], 8) for i in range(rng.choice([2, 4]))]
    kinds = rng.choice([['insert', 'link', 'unlink', 'replace', 'delete', 'navinsert', 'update'], ['insert', 'delete', 'update'],
                        ['navinsert', 'delete', 'insert'], ['insert', 'update', 'delete', 'replace'], ['link', 'unlink', 'replace', 'insert']])
    ops += [good(kinds, rng.choice([2, 10, 20])) for i in range(rng.choice([4, 8, 12]))]
    p = rng.choice([0.2, 0.5, 0.8])
    for o in ops[1:]:
        if rng.random() < p:
            o['f'] = [rng.choice(KINDS), rng.randrange(1000), rng.choice([0.5, 3.0, 30.0])]
    plan.update(ops=ops, sched=dict(mode='none', seed=1))
    return plan


SHRINK = ['ops']


def execute(plan, env):
    edm, simsql, sqlds = odlib.edm, sqllib.simsql, sqllib.sqlds
    import Sqlite
    x = xml(plan)
    docs = [odlib.load(x), odlib.load(x + '\n')]
    allsets = [d.root.DataServices.defaultContainer for d in docs]
    base = Model(plan)
    sim = env.make_sim(max_time=36000.0, trace=False)
    simsql.world.reset()
    cur = dict(path=sqllib.fresh('main0.db'), n=0)
    cont = sqllib.container(docs[0], cur['path'])
    cont.CreateAllTables()

    # ---- what is in a database file
    def cols(c, s):
        return ['ID', 'K2'] if s in plan['ck'] else ['ID']
    queries = []
    mn = cont.mangledNames
    for s in plan['sets']:
        queries.append(('ent', s, 'SELECT %s,%s FROM %s' % (','.join([mn[(s, c)] for c in cols(cont, s)]), mn[(s, 'V')], mn[(s,)])))
    for i, a in enumerate(plan['assocs']):
        asn = 'AS%d' % i
        if asn in cont.auxTable:
            ea, pa, eb, pb, u = cont.auxTable[asn]
            ca = [mn[(asn, ea.name, pa, c)] for c in cols(cont, ea.name)]
            cb = [mn[(asn, eb.name, pb, c)] for c in cols(cont, eb.name)]
            if pa[-1] == 'b':
                ca, cb = cb, ca
            queries.append(('link', i, len(ca), 'SELECT %s FROM %s' % (','.join(ca + cb), mn[(asn,)])))
        else:
            for es in plan['sets']:
                for le in cont.fkTable[es]:
                    if le.parent.name == asn:
                        role = 'ab'.index(le.name[-1])
                        to = a['ends'][1 - role]
                        mine = [mn[(es, c)] for c in cols(cont, es)]
                        other = [mn[(es, asn, c)] for c in cols(cont, to)]
                        ca, cb = (mine, other) if role == 0 else (other, mine)
                        queries.append(('link', i, len(ca), 'SELECT %s FROM %s WHERE %s IS NOT NULL' % (','.join(ca + cb), mn[(es,)], other[0])))

    def dump(p):
        ents = {}
        links = [[] for a in plan['assocs']]
        for q in queries:
            for r in sqllib.rows(p, q[-1]):
                if q[0] == 'ent':
                    ents[(q[1], unkey(r[:-1]))] = r[-1]
                elif None in r:
                    links[q[1]].append(r)
                else:
                    links[q[1]].append((unkey(r[:q[2]]), unkey(r[q[2]:])))
        return (frozenset(ents.items()), tuple(frozenset(x) for x in links))

    def show(st):
        return '%r %r' % (sorted(st[0]), [sorted(x) for x in st[1]])

    # ---- operations
    def new(sets, s, k, b, v):
        with sets[s].OpenCollection() as c:
            e = c.NewEntity()
        e.SetKey(key(plan, s, k))
        e['V'].SetFromValue(v)
        bindall(sets, e, s, b, v)
        return e

    def bindall(sets, e, s, b, v):
        for name, tk, deep in b:
            i, end = base.byname[name]
            to = plan['assocs'][i]['ends'][1 - end]
            if deep is not None:
                e[name].BindEntity(new(sets, to, deep['k'], deep['b'], v))
            else:
                e[name].BindEntity(key(plan, to, tk))

    def do(sets, o):
        kind, s, k, how = o['op'], o['s'], o['k'], o['how']
        kk = key(plan, s, k)
        with sets[s].OpenCollection() as coll:
            if kind == 'insert':
                coll.InsertEntity(new(sets, s, k, o['b'], o['v']))
                return 'ok'
            if kind == 'delete':
                if how % 2:
                    coll[kk].Delete()
                else:
                    del coll[kk]
                return 'ok'
            try:
                e = coll[kk]
            except KeyError:
                return 'none'
            if kind == 'update':
                e['V'].SetFromValue(o['v'])
                bindall(sets, e, s, o['b'], o['v'])
                if how % 2:
                    e.Update()
                else:
                    coll.UpdateEntity(e)
                return 'ok'
            name = o['nav']
            i, end = base.byname[name]
            to = plan['assocs'][i]['ends'][1 - end]
            tk = key(plan, to, o['to'])
            with e[name].OpenCollection() as nc:
                if kind in ('link', 'replace'):
                    with sets[to].OpenCollection() as tc:
                        try:
                            te = tc[tk]
                        except KeyError:
                            return 'none'
                    if kind == 'link':
                        nc[tk] = te
                    else:
                        nc.Replace(te)
                elif kind == 'unlink':
                    del nc[tk]
                elif kind == 'navinsert':
                    nc.InsertEntity(new(sets, to, o['to'], o['b'], o['v']))
            return 'ok'

    def attempt(sets, o):
        try:
            return do(sets, o), None
        except (dst.HarnessError, dst.SimExit):
            raise
        except Exception:
            return 'fail', sys.exc_info()

    # ---- faults
    class F(object):
        on = False
        cnt = 0
        at = 0
        kind = None
        hit = None
        snap = None
        dt = 1.0
        sticky = 0
    f = F()

    def hold(p, mode, dt):
        rc, db = Sqlite.open(p)
        done = []

        def stmt(sql):
            rc, st = Sqlite.prepare(db, sql)
            if not rc:
                rc = Sqlite.step(st)
                Sqlite.finalize_(st)
            return rc
        if mode == 'lock':
            rc = stmt('BEGIN IMMEDIATE')
        else:
            rc = stmt('BEGIN')
            rc = stmt('SELECT COUNT(*) FROM sqlite_master')

        def release():
            if not done:
                done.append(1)
                Sqlite.close(db)
        if rc & 255 not in (0, Sqlite.DONE, Sqlite.ROW):
            release()
            return None
        sim.after(dt, release)
        return release

    def hook(when, conn, op, n, sql):
        if not f.on:
            return
        if when == 'before':
            f.cnt += 1
        if f.cnt != f.at or f.hit is not None or op in ('rollback', 'close'):
            return
        if f.kind in ('lock', 'rlock'):
            f.release = hold(conn.path, f.kind, f.dt)
            f.hit = op
            env.fault(f.kind)
        elif f.kind == 'crash':
            if (when == 'after') == (f.dt > 1):
                f.snap = sqllib.fresh('main%d.db' % (1 - cur['n']))
                simsql.copy(conn.path, f.snap)
                f.hit = op
                env.fault('crash at ' + op)
        elif (when == 'after') == (f.kind == 'late'):
            f.hit = op
            env.fault('%s at %s' % (f.kind, op))
            if f.kind == 'memory':
                raise MemoryError('simulated')
            if f.kind == 'integrity':
                raise simsql.IntegrityError('simulated constraint failure')
            if f.kind == 'full':
                if conn._intrans:
                    conn._run('ROLLBACK')
                raise simsql.OperationalError('database or disk is full')
            raise simsql.OperationalError('simulated disk I/O error')
    simsql.world.hook = hook

    def api(st):
        """What the container's own connections see."""
        sets = allsets[0]
        ents = {}
        links = [([], []) for a in plan['assocs']]
        for s in plan['sets']:
            with sets[s].OpenCollection() as c:
                es = list(c.itervalues())
                if len(c) != len(es):
                    return 'set %s: %d entities, length %d' % (s, len(es), len(c))
            for e in es:
                k = ekey(e)
                ents[(s, k)] = e['V'].value
                for name, i, end in base.navs[s]:
                    with e[name].OpenCollection() as nc:
                        ts = sorted([ekey(x) for x in nc.itervalues()])
                        n = len(nc)
                        for t in ts[:1]:
                            if ekey(nc[key(plan, plan['assocs'][i]['ends'][1 - end], t)]) != t:
                                return 'wrong entity'
                    if n != len(ts):
                        return '%s of %s%d: %d links, length %d' % (name, s, k, len(ts), n)
                    for t in ts:
                        links[i][end].append((k, t) if end == 0 else (t, k))
        if frozenset(ents.items()) != st[0]:
            return 'the container sees %s' % sorted(ents.items())
        for i, a in enumerate(plan['assocs']):
            for end in (0, 1):
                if a['nav'][end] and sorted(links[i][end]) != sorted(st[1][i]):
                    return 'association %d end %d: the container sees %s' % (i, end, sorted(links[i][end]))

    def ekey(e):
        kk = e.Key()
        return unkey(kk if isinstance(kk, tuple) else (kk,))

    def main():
        st = dump(cur['path'])
        c = cont
        for o in plan['ops']:
            twin = sqllib.fresh('twin.db')
            simsql.copy(cur['path'], twin)
            c2 = sqllib.container(docs[1], twin)
            f.on, f.cnt, f.at, f.hit, f.snap, f.release = True, 0, -1, None, None, None
            res2, exc2 = attempt(allsets[1], o)
            calls = f.cnt
            f.on = False
            c2.close()
            after = dump(twin)
            tag = '%s -> %s' % (repr(sorted(o.items())), res2 if exc2 is None else '%s: %s' % (exc2[0].__name__, exc2[1]))
            sim.log('twin', tag)
            if res2 != 'ok' and after != st:
                env.violation('failed operation changed data', '%s: before %s after %s' % (tag, show(st), show(after)), exc2)
                return
            exp = outcomes(plan, st, o)
            if res2 == 'ok' and exp and after not in exp:
                env.violation('wrong result', '%s: before %s after %s expected %s' % (tag, show(st), show(after), show(exp[0])))
                return
            env.probe('%s_%s%s' % (o['op'], res2, '' if exp else '_refused'))
            if exc2 is not None:
                env.probe('%s %s' % (o['op'], exc2[0].__name__) + (' unexpected' if exp else ''))
                if exp and os.environ.get('VERIF_SHOW'):
                    sys.stderr.write('%s %r\n   %s\n' % (tag, plan['assocs'], show(st)))
            ft = o.get('f')
            if ft:
                f.kind, f.dt = ft[0], ft[2]
                f.at = 1 + ft[1] % max(1, calls)
            f.cnt, f.hit, f.on = 0, None, True
            res, exc = attempt(allsets[0], o)
            f.on = False
            if f.release:
                f.release()
            got = dump(cur['path'])
            tag = '%s fault %s at %s %s -> %s' % (repr(sorted(o.items())), ft, f.at if f.hit else None, f.hit,
                                                  res if exc is None else '%s: %s' % (exc[0].__name__, exc[1]))
            sim.log('main', tag, show(got))
            text = '%s: before %s found %s' % (tag, show(st), show(got))
            if f.snap:
                snap = dump(f.snap)
                if snap not in (st, after):
                    env.violation('crash left a partial operation', '%s, after the crash %s' % (text, show(snap)))
                    return
            if f.hit is None or f.kind == 'crash':
                if res != res2 or got != after:
                    env.violation('differs from a fresh container', '%s, expected %s %s' % (text, res2, show(after)), exc)
                    return
            elif res == 'ok':
                if got != after or res2 != 'ok':
                    env.violation('reported success', '%s, expected %s' % (text, show(after)))
                    return
            elif got != st and not (f.kind == 'late' and f.hit == 'commit' and got == after):
                env.violation('failed operation changed data', '%s, complete %s' % (text, show(after)), exc)
                return
            if f.snap:
                c.close()
                cur['n'] = 1 - cur['n']
                cur['path'] = f.snap
                c = sqllib.container(docs[0], f.snap)
                got = snap
            st = got
            seen = api(st)
            if seen:
                env.violation('uncommitted data', '%s: %s' % (text, seen))
                return
        c.close()
    sim.spawn(main, 'main')
    sim.run()
    if sim.verdict:
        env.violation('no progress: ' + sim.verdict, 'stuck: %s' % sim.stuck, tb=sim.stuck_stack)
    simsql.world.reset()
    env.stat('ops', len(plan['ops']))
