"""C10: media streams in memory are whole, match their metadata and survive failing sources."""
import hashlib
import boot
import odlib
import lin
import httputil as hu

TYPES = ['text/plain', 'application/octet-stream', 'image/png', 'text/plain; charset=utf-8']


def xml(token):
    tok = '<Property Name="H" Type="Edm.Binary" ConcurrencyMode="Fixed"/>' if token == 'binary' else (
        '<Property Name="H" Type="Edm.Int32" ConcurrencyMode="Fixed"/>' if token == 'int' else '')
    return odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="Docs" EntityType="Sim.Doc"/></EntityContainer>
<EntityType Name="Doc" m:HasStream="true"><Key><PropertyRef Name="ID"/></Key>
<Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="A" Type="Edm.Int32"/>%s</EntityType>''' % tok + odlib.TAIL


def setup():
    boot.install()
    odlib.setup()


def generate(rng, tier):
    nt = rng.choice([1, 2, 2, 3])
    nk = rng.choice([1, 1, 2])
    kinds = rng.choice([['read', 'write'], ['read', 'read', 'write', 'delete', 'insert'], ['write', 'fail', 'read'], ['write', 'write', 'read', 'fail', 'delete', 'insert']])
    ops = []
    v = 1
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 4])):
            ch = [rng.choice([0, 1, 2, 10, 300, 5000]) for j in range(rng.choice([0, 1, 1, 2, 3, 6]))]
            ops.append(dict(t=t, op=rng.choice(kinds), k=rng.randrange(nk), v=v, chunks=ch, fail=rng.randrange(len(ch) + 1), slow=rng.choice([0, 0, 1]),
                            type=rng.choice(TYPES), order=rng.randrange(6), exc=rng.choice(['IOError', 'ValueError', 'KeyError'])))
            v += 1
    return dict(nt=nt, nk=nk, token=rng.choice([None, 'binary', 'binary', 'int']), pre=[k for k in range(nk) if rng.random() < 0.8], ops=ops)


SHRINK = ['ops']
EMPTY = ('application/octet-stream', '')


def blocks(o):
    r = []
    n = 0
    for c in o['chunks']:
        r.append(''.join(chr((o['v'] * 37 + (n + j) * 7 + (n + j) // 256) % 256) for j in range(c)))
        n += c
    return r


class Boom(Exception):
    pass


def apply(state, op):
    d = dict(state)
    kind, k, val = op.op
    if kind == 'read':
        if d.get(k) == op.res:
            yield state
    elif kind == 'write':
        if op.res == 'ok':
            if k in d:
                d[k] = val
                yield tuple(sorted(d.items()))
        elif k not in d:
            yield state
    elif kind == 'delete':
        if op.res == 'ok':
            if k in d:
                del d[k]
                yield tuple(sorted(d.items()))
        elif k not in d:
            yield state
    elif kind == 'insert':
        if op.res == 'ok':
            if k not in d:
                d[k] = val
                yield tuple(sorted(d.items()))
        elif k in d:
            yield state


def execute(plan, env):
    edm = odlib.edm
    import pyslet.rfc2616 as http
    doc = odlib.load(xml(plan['token']))
    sim = env.make_sim(max_time=3600.0)
    cont = odlib.container(doc)
    es = doc.root.DataServices.defaultContainer['Docs']
    hist = []
    written = {}
    binary = plan['token'] == 'binary'

    def new(coll, k):
        e = coll.NewEntity()
        e['ID'].SetFromValue(k)
        e['A'].SetFromValue(k)
        coll.InsertEntity(e)

    def look(e, order):
        """The stream of e: (type, bytes, token)."""
        n = tt = d = None
        for c in ['tsd', 'std', 'dts', 'dst', 'tds', 'sdt'][order]:
            if c == 't':
                tt = str(e.GetStreamType())
            elif c == 's':
                n = e.GetStreamSize()
            else:
                d = ''.join(e.GetStreamGenerator())
        if n != len(d):
            env.violation('torn stream', 'size %r but %d bytes' % (n, len(d)))
        if binary and e['H'].value is not None and e['H'].value != hashlib.sha256(d).digest():
            env.violation('hash', 'the token does not match the %d bytes read' % len(d))
        if binary and e['H'].value is None and d:
            env.violation('hash', 'no token for %d bytes' % len(d))
        return (tt, hashlib.md5(d).hexdigest()[:6], len(d))

    def val(tt, d):
        return (tt, hashlib.md5(d).hexdigest()[:6], len(d))

    def do(t, o, coll):
        kind, k = o['op'], o['k']
        call = sim.seq()
        opv = val(str(http.MediaType.FromString(o['type'])), ''.join(blocks(o)))
        try:
            if kind == 'read':
                try:
                    e = coll[k]
                except KeyError:
                    e = None
                r = None if e is None else look(e, o['order'])
                if r is not None and r != val(*EMPTY) and r not in written.values():
                    env.violation('wrong stream', 'read %r, written %r' % (r, written))
                op = ('read', k, None)
            elif kind in ('write', 'fail'):
                try:
                    e = coll[k]
                except KeyError:
                    return
                call = sim.seq()
                written[o['v']] = opv if kind == 'write' else None

                def src():
                    for i, b in enumerate(blocks(o)):
                        if kind == 'fail' and i == o['fail']:
                            env.fault('source_error')
                            raise Boom()
                        if o['slow']:
                            sim.sleep(0.01)
                        yield b
                    if kind == 'fail' and o['fail'] >= len(o['chunks']):
                        env.fault('source_error')
                        raise Boom()
                op = ('write', k, opv)
                try:
                    e.SetStreamFromGenerator(http.MediaType.FromString(o['type']), src())
                    if kind == 'fail':
                        env.violation('source error lost', 'no exception after %d of %d blocks' % (o['fail'], len(o['chunks'])))
                        return
                    r = 'ok'
                    now = look(e, o['order'])
                    if now != opv:
                        env.violation('wrong stream', 'the entity written reports %r, not %r' % (now, opv))
                except Boom:
                    if kind != 'fail':
                        raise
                    sim.log(t, 'fail', k)
                    return
                except KeyError:
                    r = 'missing'
            elif kind == 'delete':
                op = ('delete', k, None)
                try:
                    del coll[k]
                    r = 'ok'
                except KeyError:
                    r = 'missing'
            else:
                op = ('insert', k, val(*EMPTY))
                try:
                    new(coll, k)
                    r = 'ok'
                except edm.ConstraintError:
                    r = 'exists'
        finally:
            pass
        hist.append(lin.Op(t, call, sim.seq(), op, r))
        sim.log(t, op, r)

    with es.OpenCollection() as coll:
        for k in plan['pre']:
            new(coll, k)
    init = tuple(sorted((k, val(*EMPTY)) for k in plan['pre']))

    def thread(t):
        with es.OpenCollection() as coll:
            for o in plan['ops']:
                if o['t'] == t:
                    do(t, o, coll)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    last = []
    with es.OpenCollection() as coll:
        for e in coll.itervalues():
            last.append((e.Key(), look(e, 0)))
    last = tuple(sorted(last))
    try:
        ok = lin.check(hist, init, apply, lambda s: s == last)
    except lin.Budget:
        env.probe('budget')
        ok = True
    if not ok:
        env.violation('not linearizable', 'start %r end %r: %s' % (init, last, lin.text(hist)))
    env.stat('ops', len(hist))
