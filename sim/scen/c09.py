"""C09: links between in-memory entities, against a sequential model of the entity data model's rules."""
import boot
import odlib
import lin
import httputil as hu

MULT = ['1', '0..1', '*']


def navs_of(plan):
    """{set: [(nav name, assoc index, my end)]} in declaration order."""
    r = {}
    for s in plan['sets']:
        r[s] = []
    for i, a in enumerate(plan['assocs']):
        for end in (0, 1):
            if a['nav'][end]:
                r[a['ends'][end]].append(('N%d%s' % (i, 'ab'[end]), i, end))
    return r


def xml(plan):
    out = [odlib.HEAD, '<EntityContainer Name="C" m:IsDefaultEntityContainer="true">']
    for s in plan['sets']:
        out.append('<EntitySet Name="%s" EntityType="Sim.T%s"/>' % (s, s))
    for i, a in enumerate(plan['assocs']):
        out.append('<AssociationSet Name="AS%d" Association="Sim.A%d"><End Role="a" EntitySet="%s"/><End Role="b" EntitySet="%s"/></AssociationSet>' % (i, i, a['ends'][0], a['ends'][1]))
    out.append('</EntityContainer>')
    nv = navs_of(plan)
    for s in plan['sets']:
        out.append('<EntityType Name="T%s"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="V" Type="Edm.Int32"/>' % s)
        for name, i, end in nv[s]:
            out.append('<NavigationProperty Name="%s" Relationship="Sim.A%d" FromRole="%s" ToRole="%s"/>' % (name, i, 'ab'[end], 'ba'[end]))
        out.append('</EntityType>')
    for i, a in enumerate(plan['assocs']):
        out.append('<Association Name="A%d"><End Role="a" Type="Sim.T%s" Multiplicity="%s"/><End Role="b" Type="Sim.T%s" Multiplicity="%s"/></Association>' % (
            i, a['ends'][0], a['m'][0], a['ends'][1], a['m'][1]))
    out.append(odlib.TAIL)
    return ''.join(out)


def setup():
    boot.install()
    odlib.setup()


def generate(rng, tier):
    shape = rng.choice(['two', 'two', 'two', 'chain', 'self', 'double'])
    pairs = {'two': ['AB'], 'chain': ['AB', 'BC'], 'self': ['AA', 'AB'], 'double': ['AB', 'AB']}[shape]
    assocs = []
    for p in pairs:
        m = [rng.choice(MULT), rng.choice(MULT)]
        nav = [True, True]
        if p == 'AA':
            m = [rng.choice(['0..1', '*']) for x in (0, 1)]
        else:
            b = rng.choice([0, 0, 0, 1, 2])
            if b:
                nav[b - 1] = False
        assocs.append(dict(ends=list(p), m=m, nav=nav))
    # csdl allows one unbound principal per set
    sets = sorted(set(''.join(pairs)))
    seen = set()
    for a in assocs:
        for end in (0, 1):
            if not a['nav'][end] and a['m'][1 - end] == '1':
                if a['ends'][end] in seen:
                    a['nav'][end] = True
                seen.add(a['ends'][end])
    plan = dict(sets=sets, assocs=assocs)
    nv = navs_of(plan)
    nt = rng.choice([1, 1, 2, 2, 3])
    nk = rng.choice([2, 2, 3]) if nt == 1 else rng.choice([1, 2])
    n = rng.choice([6, 12, 20]) if nt == 1 else rng.choice([2, 3, 4])

    def rkey():
        return rng.randrange(nk)

    def binds(s, depth, avoid=None):
        r = []
        for name, i, end in nv[s]:
            to = assocs[i]['ends'][1 - end]
            need = assocs[i]['m'][1 - end] == '1'
            if (i, end) == avoid and rng.random() < 0.9:
                continue
            if need and rng.random() < 0.85 or not need and rng.random() < 0.3:
                for c in range(rng.choice([1, 1, 2]) if assocs[i]['m'][1 - end] == '*' else 1):
                    if depth and rng.random() < 0.6:
                        k = rkey()
                        r.append([name, None, dict(k=k, b=binds(to, depth - 1, (i, 1 - end)))])
                    else:
                        r.append([name, rkey(), None])
        return r

    def op(t, kinds):
        s = rng.choice(sets)
        kind = rng.choice(kinds)
        o = dict(t=t, op=kind, s=s, k=rkey(), how=rng.randrange(4))
        if kind == 'insert':
            o['b'] = binds(s, 2)
        elif kind in ('delete',):
            pass
        elif kind == 'update':
            o['b'] = [b for b in binds(s, 1)]
        else:
            if not nv[s]:
                o['op'] = 'insert'
                o['b'] = binds(s, 2)
                return o
            name, i, end = rng.choice(nv[s])
            o['nav'] = name
            o['to'] = rkey()
            if kind == 'navinsert':
                o['b'] = binds(assocs[i]['ends'][1 - end], 1, (i, 1 - end))
        return o
    m = Model(plan)

    def good(t, kinds, tries):
        """An operation that succeeds in the model, if one is found soon."""
        for j in range(tries):
            o = op(t, kinds)
            if o['op'] in ('count', 'find', 'iter'):
                if (o['s'], o['k']) in m.ents or j == tries - 1:
                    return o
                continue
            m2 = Model(plan, m.state())
            try:
                m2.run(o)
                if m2.state() == m.state() and j < tries - 1:
                    continue
                m.ents, m.links = m2.ents, m2.links
                return o
            except Fail:
                pass
        return o
    pre = [good(0, ['insert', 'insert', 'navinsert', 'link'], 8) for i in range(rng.choice([2, 4, 6]))]
    kinds = rng.choice([['insert', 'link', 'unlink', 'replace', 'delete', 'navinsert', 'update', 'count', 'find'],
                        ['link', 'replace', 'unlink', 'count'], ['insert', 'delete', 'link', 'count'], ['navinsert', 'delete', 'count'],
                        ['link', 'delete', 'replace'], ['insert', 'update', 'delete', 'replace', 'iter']])
    ops = []
    for t in range(nt):
        for i in range(n):
            ops.append(good(t, kinds, rng.choice([1, 4, 8])))
    plan.update(nt=nt, pre=pre, ops=ops)
    return plan


SHRINK = ['ops', 'pre']


# ------------------------------------------------------------- the model
class Fail(Exception):
    pass


class Model(object):

    def __init__(self, plan, state=None):
        self.sets = plan['sets']
        self.assocs = plan['assocs']
        self.navs = navs_of(plan)
        self.byname = {}
        for s in self.sets:
            for name, i, end in self.navs[s]:
                self.byname[name] = (i, end)
        if state is None:
            self.ents = set()
            self.links = [set() for a in self.assocs]
        else:
            self.ents = set(state[0])
            self.links = [set(x) for x in state[1]]
        self.deleting = set()
        self.rev = ()               # sets whose associations are cascaded in reverse order

    def state(self):
        return (frozenset(self.ents), tuple(frozenset(x) for x in self.links))

    def targets(self, i, end, k):
        return [p[1 - end] for p in self.links[i] if p[end] == k]

    def pair(self, end, k, t):
        return (k, t) if end == 0 else (t, k)

    def insert(self, s, k, b, ignore=None):
        if (s, k) in self.ents:
            raise Fail('exists')
        bound = set(self.byname[x[0]] for x in b)
        for i, a in enumerate(self.assocs):
            for end in (0, 1):
                if a['ends'][end] == s and a['m'][1 - end] == '1' and (i, end) != ignore and (i, end) not in bound:
                    raise Fail('required')
        self.ents.add((s, k))
        for name, i, end in self.navs[s]:
            mine = [x for x in b if x[0] == name]
            if self.assocs[i]['m'][1 - end] != '*':
                mine = mine[-1:]
            for x in mine:
                self.bind(s, k, i, end, x)

    def bind(self, s, k, i, end, x):
        to = self.assocs[i]['ends'][1 - end]
        if x[2] is not None:
            self.navinsert(s, k, i, end, x[2]['k'], x[2]['b'])
        else:
            if (to, x[1]) not in self.ents:
                raise Fail('no target')
            if self.assocs[i]['m'][1 - end] == '*':
                self.link(s, k, i, end, x[1])
            else:
                self.replace(s, k, i, end, x[1])

    def navinsert(self, s, k, i, end, tk, b):
        if (s, k) not in self.ents:
            raise Fail('no source')
        to = self.assocs[i]['ends'][1 - end]
        self.insert(to, tk, b, (i, 1 - end))
        self.link(s, k, i, end, tk)

    def link(self, s, k, i, end, tk):
        a = self.assocs[i]
        pair = self.pair(end, k, tk)
        if pair in self.links[i]:
            return
        if (s, k) not in self.ents or (a['ends'][1 - end], tk) not in self.ents:
            raise Fail('missing')
        if a['m'][1 - end] != '*' and self.targets(i, end, k):
            raise Fail('multiplicity to')
        if a['m'][end] != '*' and self.targets(i, 1 - end, tk):
            raise Fail('multiplicity from')
        self.links[i].add(pair)

    def replace(self, s, k, i, end, tk):
        a = self.assocs[i]
        old = self.targets(i, end, k)
        if old == [tk]:
            return
        if a['m'][end] == '1' and old:
            raise Fail('required link')
        if tk not in old:
            if (s, k) not in self.ents or (a['ends'][1 - end], tk) not in self.ents:
                raise Fail('missing')
            if a['m'][end] != '*' and self.targets(i, 1 - end, tk):
                raise Fail('multiplicity from')
        for t in old:
            self.links[i].discard(self.pair(end, k, t))
        self.links[i].add(self.pair(end, k, tk))

    def unlink(self, s, k, i, end, tk):
        a = self.assocs[i]
        if '1' in a['m']:
            raise Fail('required link')
        pair = self.pair(end, k, tk)
        if pair not in self.links[i]:
            raise Fail('no link')
        self.links[i].remove(pair)

    def delete(self, s, k):
        if (s, k) in self.deleting:
            return
        if (s, k) not in self.ents:
            raise Fail('missing')
        self.deleting.add((s, k))
        order = list(enumerate(self.assocs))
        if s in self.rev:
            order.reverse()
        for i, a in order:
            for end in (0, 1):
                if a['ends'][end] == s and a['m'][end] == '1':
                    for t in self.targets(i, end, k):
                        other = (a['ends'][1 - end], t)
                        if self.pair(end, k, t) not in self.links[i]:
                            continue
                        if not a['nav'][end] and other not in self.deleting:
                            raise Fail('cascade without navigation')
                        self.links[i].remove(self.pair(end, k, t))
                        self.delete(*other)
        for i, a in enumerate(self.assocs):
            for end in (0, 1):
                if a['ends'][end] == s:
                    self.links[i] = set(p for p in self.links[i] if p[end] != k)
        self.ents.discard((s, k))
        self.deleting.discard((s, k))

    def invariant(self):
        for i, a in enumerate(self.assocs):
            for p in self.links[i]:
                for end in (0, 1):
                    if (a['ends'][end], p[end]) not in self.ents:
                        return 'dangling link %r' % (p,)
            for end in (0, 1):
                for s, k in self.ents:
                    if s == a['ends'][end]:
                        n = len(self.targets(i, end, k))
                        if n > 1 and a['m'][1 - end] != '*' or n < 1 and a['m'][1 - end] == '1':
                            return '%s%d has %d links in association %d' % (s, k, n, i)

    def run(self, o):
        kind, s, k = o['op'], o['s'], o['k']
        if kind == 'insert':
            self.insert(s, k, o['b'])
        elif kind == 'delete':
            self.delete(s, k)
        elif kind == 'update':
            if (s, k) not in self.ents:
                raise Fail('missing')
            for name, i, end in self.navs[s]:
                mine = [x for x in o['b'] if x[0] == name]
                if self.assocs[i]['m'][1 - end] != '*':
                    mine = mine[-1:]
                for x in mine:
                    self.bind(s, k, i, end, x)
        else:
            i, end = self.byname[o['nav']]
            if kind == 'link':
                self.link(s, k, i, end, o['to'])
            elif kind == 'unlink':
                self.unlink(s, k, i, end, o['to'])
            elif kind == 'replace':
                self.replace(s, k, i, end, o['to'])
            elif kind == 'navinsert':
                self.navinsert(s, k, i, end, o['to'], o['b'])


_plan = None


def apply(state, op):
    o, res = op.op, op.res
    kind = o['op']
    m = Model(_plan, state)
    if kind == 'count':
        i, end = m.byname[o['nav']]
        if len(m.targets(i, end, o['k'])) == res:
            yield state
        return
    if kind == 'find':
        i, end = m.byname[o['nav']]
        if (o['to'] in m.targets(i, end, o['k'])) == res:
            yield state
        return
    if kind == 'get':
        if ((o['s'], o['k']) in m.ents) == res:
            yield state
        return
    # the order in which associations are cascaded is not specified, it can decide whether a delete is possible
    orders = [()]
    if kind == 'delete' and len(m.assocs) > 1:
        for s in m.sets:
            orders += [x + (s,) for x in orders]
    seen = []
    for rev in orders:
        m = Model(_plan, state)
        m.rev = rev
        try:
            m.run(o)
            r = ('ok', m.state())
        except Fail:
            r = ('fail', state)
        if r[0] == res and r[1] not in seen:
            seen.append(r[1])
            yield r[1]


def execute(plan, env):
    global _plan
    _plan = plan
    edm = odlib.edm
    doc = odlib.load(xml(plan))
    sim = env.make_sim(max_time=3600.0)
    cont = odlib.container(doc)
    sets = doc.root.DataServices.defaultContainer
    base = Model(plan)
    navs = base.navs
    hist = []
    iters = []
    ERR = (KeyError, edm.EDMError)

    def new(s, k, b):
        with sets[s].OpenCollection() as c:
            e = c.NewEntity()
        e.SetKey(k)
        e['V'].SetFromValue(k)
        bindall(e, s, b)
        return e

    def bindall(e, s, b):
        for name, tk, deep in b:
            i, end = base.byname[name]
            to = plan['assocs'][i]['ends'][1 - end]
            if deep is not None:
                e[name].BindEntity(new(to, deep['k'], deep['b']))
            else:
                e[name].BindEntity(tk)

    def do(t, o):
        kind, s, k = o['op'], o['s'], o['k']

        def rec(o2, fn):
            call = sim.seq()
            try:
                r = fn()
            except ERR, err:
                r = 'fail'
            hist.append(lin.Op(t, call, sim.seq(), o2, r))
            sim.log(t, repr(sorted(o2.items())), r)
            return r
        with sets[s].OpenCollection() as coll:
            if kind == 'insert':
                e = new(s, k, o['b'])

                def ins():
                    coll.InsertEntity(e)
                    return 'ok'
                rec(o, ins)
                return
            if kind == 'delete':
                def dele():
                    if o['how'] == 0:
                        coll[k].Delete()
                    else:
                        del coll[k]
                    return 'ok'
                rec(o, dele)
                return
            try:
                e = coll[k]
            except KeyError:
                return
            if kind == 'update':
                bindall(e, s, o['b'])

                def upd():
                    if o['how'] % 2:
                        e.Update()
                    else:
                        coll.UpdateEntity(e)
                    return 'ok'
                rec(o, upd)
                return
            name = o['nav']
            i, end = base.byname[name]
            to = plan['assocs'][i]['ends'][1 - end]
            with e[name].OpenCollection() as nc:
                if kind in ('link', 'replace'):
                    with sets[to].OpenCollection() as tc:
                        try:
                            te = tc[o['to']]
                        except KeyError:
                            return

                    def lnk():
                        if kind == 'link':
                            nc[o['to']] = te
                        else:
                            nc.Replace(te)
                        return 'ok'
                    rec(o, lnk)
                elif kind == 'unlink':
                    def unl():
                        del nc[o['to']]
                        return 'ok'
                    rec(o, unl)
                elif kind == 'navinsert':
                    te = new(to, o['to'], o['b'])

                    def nin():
                        nc.InsertEntity(te)
                        return 'ok'
                    rec(o, nin)
                elif kind == 'count':
                    rec(o, lambda: len(nc))
                elif kind == 'find':
                    rec(o, lambda: o['to'] in nc)
                elif kind == 'iter':
                    call = sim.seq()
                    if o['how'] % 2 or plan['assocs'][i]['m'][1 - end] == '*':
                        r = [x.Key() for x in nc.itervalues()]
                    else:
                        x = e[name].GetEntity()
                        r = [x.Key()] if x is not None else []
                    iters.append((t, call, sim.seq(), i, end, k, r))
                    sim.log(t, name, k, r)

    def dump():
        """The state as seen from both ends of every association."""
        ents = set()
        for s in plan['sets']:
            with sets[s].OpenCollection() as c:
                ks = [e.Key() for e in c.itervalues()]
                if len(c) != len(ks):
                    env.violation('count', 'set %s: %d but %r' % (s, len(c), ks))
                ents.update((s, k) for k in ks)
        links = []
        for i, a in enumerate(plan['assocs']):
            views = []
            for end in (0, 1):
                if not a['nav'][end]:
                    continue
                v = set()
                name = 'N%d%s' % (i, 'ab'[end])
                for s, k in ents:
                    if s != a['ends'][end]:
                        continue
                    with sets[s].OpenCollection() as c:
                        e = c[k]
                    with e[name].OpenCollection() as nc:
                        ts = [x.Key() for x in nc.itervalues()]
                        if len(nc) != len(ts):
                            env.violation('dangling link', '%s of %s%d has %d links but yields %r' % (name, s, k, len(nc), ts))
                        for x in ts:
                            v.add((k, x) if end == 0 else (x, k))
                views.append(v)
            if len(views) == 2 and views[0] != views[1]:
                env.violation('the two ends differ', 'association %d: %r and %r' % (i, sorted(views[0]), sorted(views[1])))
            links.append(frozenset(views[0]))
        return (frozenset(ents), tuple(links))

    def show(st):
        return '%r %r' % (sorted(st[0]), [sorted(x) for x in st[1]])

    def seq_check(ops):
        """Runs operations one at a time, comparing with the model after each."""
        st = (frozenset(), tuple(frozenset() for a in plan['assocs']))
        if ops and dump() != st:
            st = dump()
        for o in ops:
            n = len(hist)
            do(0, o)
            m = Model(plan, st)
            exp = st
            if len(hist) > n:
                op = hist[-1]
                nxt = list(apply(st, op))
                if not nxt:
                    env.violation('wrong outcome', '%r gave %r in state %s' % (op.op, op.res, show(st)))
                    return None
                exp = nxt[0]
            got = dump()
            if env.viol:
                return None
            if got != exp:
                fail = len(hist) > n and hist[-1].res == 'fail'
                env.violation('failed operation changed data' if fail else 'wrong state',
                              '%r %r: expected %s found %s, before %s' % (o, hist[-1:], show(exp), show(got), show(st)))
                return None
            bad = Model(plan, got).invariant()
            if bad:
                env.violation('invariant', '%s after %r' % (bad, o))
                return None
            st = got
        return st
    st = seq_check(plan['pre'])
    if st is None:
        return
    del hist[:]
    del iters[:]
    if plan['nt'] == 1:
        sim.spawn(lambda: seq_check(plan['ops']), 't0')
        sim.run()
        hu.verdict(env, sim)
    else:
        def thread(t):
            for o in plan['ops']:
                if o['t'] == t:
                    do(t, o)
        for t in range(plan['nt']):
            sim.spawn(lambda t=t: thread(t), 't%d' % t)
        sim.run()
        hu.verdict(env, sim)
        if env.viol:
            return
        last = dump()
        if env.viol:
            return
        bad = Model(plan, last).invariant()
        if bad:
            env.violation('invariant', '%s: start %s; %s' % (bad, show(st), lin.text(hist)))
            return
        try:
            ok = lin.check(hist, st, apply, lambda s: s == last, 60000)
        except lin.Budget:
            env.probe('budget')
            ok = True
        if not ok:
            env.violation('not linearizable', 'start %s end %s: %s' % (show(st), show(last), lin.text(hist)))
    for t, call, ret, i, end, k, r in iters:
        if len(set(r)) != len(r) or plan['assocs'][i]['m'][1 - end] != '*' and len(r) > 1:
            env.violation('iteration', 'association %d end %d key %d: %r' % (i, end, k, r))
    env.stat('ops', len(hist))
    for o in hist:
        if o.res == 'fail':
            env.probe('fail_' + o.op['op'])
        elif o.res == 'ok':
            env.probe('ok_' + o.op['op'])
