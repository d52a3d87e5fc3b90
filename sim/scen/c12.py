# coding: utf-8
"""C12: what the OData client sees over a faulty network is what a local copy of the data would give."""
import random
import sys
import urllib
import boot
import odlib
import httputil as hu
import httpsim
from httpsim import Response

XML = odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="Things" EntityType="Sim.Thing"/><EntitySet Name="Cats" EntityType="Sim.Cat"/><EntitySet Name="Details" EntityType="Sim.Detail"/><EntitySet Name="Tags" EntityType="Sim.Tag"/><EntitySet Name="Docs" EntityType="Sim.Doc"/>
<AssociationSet Name="TC" Association="Sim.TCA"><End Role="T" EntitySet="Things"/><End Role="C" EntitySet="Cats"/></AssociationSet>
<AssociationSet Name="TD" Association="Sim.TDA"><End Role="T" EntitySet="Things"/><End Role="D" EntitySet="Details"/></AssociationSet>
<AssociationSet Name="OT" Association="Sim.OTA"><End Role="O" EntitySet="Tags"/><End Role="T" EntitySet="Things"/></AssociationSet>
</EntityContainer>
<EntityType Name="Thing"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<Property Name="A" Type="Edm.Int32"/><Property Name="S" Type="Edm.String"/><Property Name="B" Type="Edm.Boolean"/>
<Property Name="W" Type="Edm.DateTime" Precision="3"/><Property Name="M" Type="Edm.Decimal" Precision="10" Scale="3"/><Property Name="F" Type="Edm.Double"/><Property Name="G" Type="Edm.Guid"/><Property Name="L" Type="Edm.Int64"/>
<Property Name="X" Type="Edm.Binary"/><Property Name="T" Type="Edm.Time" Precision="0"/><Property Name="O" Type="Edm.DateTimeOffset" Precision="3"/><Property Name="P" Type="Sim.Pair" Nullable="false"/>
<NavigationProperty Name="Cat" Relationship="Sim.TCA" FromRole="T" ToRole="C"/><NavigationProperty Name="Detail" Relationship="Sim.TDA" FromRole="T" ToRole="D"/>
<NavigationProperty Name="Tags" Relationship="Sim.OTA" FromRole="T" ToRole="O"/></EntityType>
<EntityType Name="Cat"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/><Property Name="A" Type="Edm.Int32"/>
<NavigationProperty Name="Things" Relationship="Sim.TCA" FromRole="C" ToRole="T"/></EntityType>
<EntityType Name="Detail"><Key><PropertyRef Name="ID"/><PropertyRef Name="K"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="K" Type="Edm.String" Nullable="false"/><Property Name="A" Type="Edm.Int32"/>
<NavigationProperty Name="Thing" Relationship="Sim.TDA" FromRole="D" ToRole="T"/></EntityType>
<EntityType Name="Tag"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="A" Type="Edm.Int32"/><Property Name="S" Type="Edm.String" m:FC_TargetPath="SyndicationTitle" m:FC_KeepInContent="false"/>
<NavigationProperty Name="Things" Relationship="Sim.OTA" FromRole="O" ToRole="T"/></EntityType>
<EntityType Name="Doc" m:HasStream="true"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="A" Type="Edm.Int32"/></EntityType>
<ComplexType Name="Pair"><Property Name="U" Type="Edm.Int32"/><Property Name="V" Type="Edm.String"/></ComplexType>
<Association Name="TCA"><End Role="T" Type="Sim.Thing" Multiplicity="*"/><End Role="C" Type="Sim.Cat" Multiplicity="0..1"/></Association>
<Association Name="TDA"><End Role="T" Type="Sim.Thing" Multiplicity="1"/><End Role="D" Type="Sim.Detail" Multiplicity="0..1"/></Association>
<Association Name="OTA"><End Role="O" Type="Sim.Tag" Multiplicity="*"/><End Role="T" Type="Sim.Thing" Multiplicity="*"/></Association>
''' + odlib.TAIL

SETS = ['Things', 'Cats', 'Details', 'Tags']
PROPS = {'Things': dict(A='Int32', S='String', B='Boolean', W='DateTime', M='Decimal', F='Double', G='Guid', L='Int64', X='Binary', T='Time', O='DateTimeOffset', P='Pair'),
         'Cats': dict(A='Int32'), 'Details': dict(A='Int32'), 'Tags': dict(A='Int32', S='Title')}
NAVS = {'Things': {'Cat': 'Cats', 'Detail': 'Details', 'Tags': 'Tags'}, 'Cats': {'Things': 'Things'}, 'Details': {'Thing': 'Things'}, 'Tags': {'Things': 'Things'}}
MANY = ('Things', 'Tags')
CATS = [u'a', u'b c', u"o'e", u'\xe9', u'x?y#z', u'1+1=2&3', u'50%', u'']

server = client = core = rfc2616 = None


def setup():
    global server, client, core
    boot.install()
    odlib.setup()
    hu.setup()
    import pyslet.odata2.server as m
    import pyslet.odata2.client as k
    import pyslet.odata2.core as c
    import pyslet.odata2.edmx
    server, client, core = m, k, c
    m.traceback = Quiet()
    boot.warm_xml()
    import SimTrace
    for n in ('/xml20081126/', '/odata2/csdl', '/odata2/core', '/odata2/metadata', '/odata2/edmx', '/odata2/memds', '/odata2/server', '/rfc4287', '/rfc5023', '/xsdatatypes', '/unicode5', '/iso8601', '/rfc2396', '/xmlnames'):
        SimTrace.skip(n)    # one client at a time
    import logging
    logging.disable(logging.CRITICAL)


class Quiet(object):
    def print_exception(self, *a, **k):
        pass


def key(rng, s, new=False):
    if not new and rng.random() < 0.75:
        # one there at the start, unless it has been deleted
        return {'Cats': rng.choice(CATS[:3]), 'Details': [1, u'a']}.get(s, rng.randrange(2))
    if new and rng.random() < 0.6:
        return {'Cats': rng.choice(CATS[3:]), 'Details': [rng.choice([0, 2]), rng.choice([u'a', u"a'b", u'a,b', u'x=y'])]}.get(s, rng.choice([3, 4, 5]))
    if s == 'Cats':
        return rng.choice(CATS[:-1] if rng.random() < 0.5 else CATS[:2])
    if s == 'Details':
        return [rng.randrange(3), rng.choice([u'a', u'b', u"a'b", u'a,b', u'x=y'])]
    return rng.randrange(4)


TEXT = [u'', u'x', u'hello', u'a<b&"c"', u'\xe9t\xe9', u'line\nbreak', u' pad ', u'q' * 30, u"it's", u'\u3042\u20ac', u'tab\there', u']]>', u'<b>x</b>', u'&amp;', u'\n', u'  ']


def value(rng, t):
    if t != 'Title' and rng.random() < 0.12:
        return None
    if t == 'Int32':
        return rng.choice([0, 1, -1, 2, 3, 7, 2 ** 31 - 1, -2 ** 31])
    if t == 'String':
        return rng.choice(TEXT)
    if t == 'Title':
        return rng.choice([u'x', u'a<b&"c"', u'\xe9t\xe9', u"it's", u'q' * 30, u'\u3042'])
    if t == 'Boolean':
        return rng.random() < 0.5
    if t == 'DateTime':
        return '20%02d-0%d-1%dT1%d:00:0%d.%03d' % (rng.randrange(100), rng.randrange(1, 10), rng.randrange(10), rng.randrange(10), rng.randrange(10), rng.choice([0, 500, 125]))
    if t == 'DateTimeOffset':
        return '20%02d-0%d-1%dT1%d:00:0%d.500%s' % (rng.randrange(100), rng.randrange(1, 10), rng.randrange(10), rng.randrange(10), rng.randrange(10), rng.choice(['+00:00', '+01:00', '-05:30']))
    if t == 'Decimal':
        return rng.choice(['0', '1.5', '-3.125', '99.999', '1234567.001'])
    if t == 'Double':
        return rng.choice([0.0, 1.5, -2.25, 1e10, 1e-5, 1e300, 0.1, 12345678.9])
    if t == 'Guid':
        return '00000000-0000-0000-0000-%012d' % rng.randrange(1000)
    if t == 'Int64':
        return rng.choice([0, 1, -1, 2 ** 40, 2 ** 63 - 1, -2 ** 63])
    if t == 'Binary':
        return ''.join('%02x' % rng.randrange(256) for i in range(rng.choice([0, 1, 5])))
    if t == 'Time':
        return '%02d:%02d:%02d' % (rng.randrange(24), rng.randrange(60), rng.randrange(60))


def props(rng, s, p=0.6):
    d = {}
    for n, t in sorted(PROPS[s].items()):
        if rng.random() < p:
            d[n] = [value(rng, 'Int32'), value(rng, 'String')] if t == 'Pair' else value(rng, t)
        elif t == 'Title':
            d[n] = u'title'
    return d


FILTERS = {'Things': ["A gt 1", "S eq 'x'", "substringof('a',S)", "not (B eq true)", "A add 1 lt 5 or S eq null", "startswith(S,'h') and A ne 2", "M gt 1.5M", "F le 1.5", "L eq 1099511627776L", "length(S) gt 2",
                      u"S eq '\xe9t\xe9'", "S eq 'it''s'", "P/U eq 3", "-A gt 0", "A mul 2 sub 1 ge 3", "A mod 2 eq 1", "W gt datetime'2050-01-01T00:00:00'", "(A eq 1 or A eq 2) and not (S eq 'x')",
                      "tolower(S) eq 'hello'", "concat(S,'z') eq 'xz'", "S eq 'a<b&\"c\"'", "ID lt 2", "year(W) gt 2050", "G eq guid'00000000-0000-0000-0000-000000000001'"],
           'Cats': ["A gt 1", "K eq 'b c'", "K eq 'o''e'", u"K eq '\xe9'", "K gt 'a'"], 'Details': ["A gt 1", "ID eq 1", "K eq 'a'"], 'Tags': ["A gt 1", "S eq 'x'", "A lt 3 and S ne 'x'"]}
ORDERS = {'Things': ["A desc,ID asc", "ID desc", "S asc,ID desc", "A add ID asc,ID asc"], 'Cats': ["K desc", "A asc,K asc"], 'Details': ["ID asc,K desc"], 'Tags': ["S desc,ID asc", "ID asc"]}


def one(rng):
    s = rng.choice(['Things', 'Things', 'Things', 'Cats', 'Details', 'Tags'])
    k = rng.choice(['insert', 'insert', 'update', 'update', 'delete', 'get', 'get', 'list', 'list', 'list', 'len', 'in', 'page', 'nav', 'nav', 'nav', 'link', 'link', 'unlink', 'replace', 'navinsert', 'deep', 'media'])
    o = dict(k=k, s=s, key=key(rng, s, k in ('insert', 'deep')))
    n = rng.choice(sorted(NAVS[s]))
    to = NAVS[s][n]
    if k in ('insert', 'deep'):
        o['v'] = props(rng, s)
        o['b'] = []
        for n, to in sorted(NAVS[s].items()):
            if rng.random() < (0.95 if n == 'Thing' else 0.3):
                o['b'].append([n, key(rng, to)])
        if k == 'deep':
            to = NAVS[s][n]
            if to == 'Details':
                to, n = 'Cats', 'Cat'
            if n == 'Thing' or n not in NAVS[s]:
                o['k'] = 'insert'
            else:
                o['b'] = [x for x in o['b'] if x[0] != n]
                o['d'] = [n, to, key(rng, to, True), props(rng, to)]
    elif k == 'update':
        o['v'] = props(rng, s, 0.4)
        o['b'] = [[n, key(rng, to)] for n, to in sorted(NAVS[s].items()) if n == 'Cat' and rng.random() < 0.3]
    elif k in ('list', 'get', 'page', 'len'):
        if rng.random() < 0.5 and k != 'get':
            o['f'] = rng.choice(FILTERS[s])
        if rng.random() < 0.5 or k == 'page':
            o['o'] = rng.choice(ORDERS[s])
        if k == 'page':
            o['top'] = rng.choice([None, 1, 2, 5])
            o['skip'] = rng.choice([None, 0, 1, 2])
            o['o'] = {'Things': 'ID asc', 'Cats': 'K desc', 'Details': 'ID asc,K desc', 'Tags': 'ID asc'}[s] if rng.random() < 0.5 else o['o']
        if rng.random() < 0.3 and k != 'len':
            o['e'] = sorted(rng.sample(sorted(NAVS[s]), rng.choice([1, 1, len(NAVS[s])])))
        elif rng.random() < 0.3 and k != 'len':
            o['sel'] = sorted(rng.sample(sorted(PROPS[s]), 1))
    elif k in ('nav', 'link', 'unlink', 'replace', 'navinsert'):
        o.update(n=n, to=to, t=key(rng, to, k == 'navinsert'))
        if k == 'nav':
            o['how'] = rng.choice(['list', 'len', 'get', 'entity', 'in', 'filter'])
            if o['how'] == 'filter':
                o['f'] = rng.choice(FILTERS[to])
        if k == 'navinsert':
            o['v'] = props(rng, to)
    return o


def generate(rng, tier):
    ops = [one(rng) for i in range(rng.choice([1, 3, 6, 12]))]
    for o in ops:
        if rng.random() < rng.choice([0, 0.3]):
            o['x'] = [rng.choice(['cut', 'cut', 'rst', 'reqcut', 'reqrst', 'refuse', '503', 'idle', 'lost']), rng.random(), rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2, 9])]
    return dict(base=rng.choice([0, 1, 2, 2, 2]), ops=ops, topmax=rng.choice([1, 2, 3, 100]), seg=rng.choice([None, None, 3, 50, 1000]), framing=rng.choice(['cl', 'cl', 'chunked', 'close']),
                lat=rng.choice([0.0, 0.001, 0.1]), send=rng.choice([None, None, 7, 200]), recv=rng.choice([None, None, 5, 300]), window=rng.choice([None, None, 200]))


SHRINK = ['ops']


def pykey(k):
    return tuple(k) if isinstance(k, list) else k


def setval(e, v):
    for n, x in sorted(v.items()):
        if n == 'P':
            e['P']['U'].SetFromValue(x[0])
            e['P']['V'].SetFromValue(x[1])
        elif x is None:
            e[n].SetFromValue(None)
        elif n == 'X':
            e[n].SetFromValue(x.decode('hex'))
        elif n in 'WOTMG':
            e[n].SetFromLiteral(str(x))
        else:
            e[n].SetFromValue(x)


def show(v):
    if v.value is None:
        return None
    if isinstance(v, (odlib.edm.DateTimeValue, odlib.edm.DateTimeOffsetValue, odlib.edm.TimeValue)):
        return unicode(v)
    if isinstance(v, odlib.edm.BinaryValue):
        return str(v.value).encode('hex')
    if isinstance(v, odlib.edm.DecimalValue):
        return repr(v.value.normalize())
    if isinstance(v, (odlib.edm.Int32Value, odlib.edm.Int64Value)):
        return long(v.value)
    if isinstance(v, odlib.edm.StringValue):
        return unicode(v.value)
    return repr(v.value)


def values(e, only=None):
    r = []
    for k, v in e.DataItems():
        if only is not None and k not in only and k not in e.entitySet.keys:
            continue
        if isinstance(v, odlib.edm.Complex):
            r.append((str(k), tuple((str(x), show(y)) for x, y in v.iteritems())))
        else:
            r.append((str(k), show(v)))
    return tuple(r)


def expanded(e, names):
    r = []
    for n in names or ():
        d = e[n]
        if not d.isExpanded:
            r.append((n, 'not expanded'))
            continue
        with d.OpenCollection() as nc:
            r.append((n, tuple(sorted(values(x) for x in nc.itervalues()))))
    return tuple(r)


def options(c, o):
    if o.get('f'):
        c.Filter(core.CommonExpression.FromString(o['f']))
    if o.get('o'):
        c.OrderBy(core.CommonExpression.OrderByFromString(o['o']))
    if o.get('e') or o.get('sel'):
        c.Expand(dict((n, None) for n in o['e']) if o.get('e') else None, dict((n, None) for n in o['sel']) if o.get('sel') else None)


def apply(sets, o, topmax=None):
    """Does one operation through the API, on the client's entity sets or on the local copy's."""
    k = o['k']
    ky = pykey(o['key'])
    with sets[o['s']].OpenCollection() as c:
        if k in ('insert', 'deep'):
            e = c.NewEntity()
            e.SetKey(ky)
            setval(e, o['v'])
            for n, t in o['b']:
                e[n].BindEntity(pykey(t))
            if 'd' in o:
                n, to, t, v = o['d']
                with sets[to].OpenCollection() as c2:
                    x = c2.NewEntity()
                x.SetKey(pykey(t))
                setval(x, v)
                e[n].BindEntity(x)
            c.InsertEntity(e)
            return values(e), e.exists
        if k == 'get':
            options(c, o)
            e = c[ky]
            return values(e, o.get('sel')), expanded(e, o.get('e'))
        if k == 'list':
            options(c, o)
            r = [(values(e, o.get('sel')), expanded(e, o.get('e'))) for e in c.itervalues()]
            return r if o.get('o') else sorted(r)
        if k == 'page':
            options(c, o)
            if topmax:
                c.TopMax(topmax)
            c.SetPage(o['top'], o['skip'])
            return [(values(e, o.get('sel')), expanded(e, o.get('e'))) for e in c.iterpage()]
        if k == 'len':
            options(c, o)
            return len(c)
        if k == 'in':
            return ky in c
        if k == 'update':
            e = c[ky]
            setval(e, o['v'])
            for n, t in o['b']:
                e[n].BindEntity(pykey(t))
            c.UpdateEntity(e)
            return None
        if k == 'delete':
            del c[ky]
            return None
        e = c[ky]
        with e[o['n']].OpenCollection() as nc:
            t = pykey(o['t'])
            if k == 'nav':
                h = o['how']
                if h in ('list', 'filter'):
                    if h == 'filter' and e[o['n']].isCollection:
                        # the server applies a filter to a collection only
                        nc.Filter(core.CommonExpression.FromString(o['f']))
                    return sorted(values(x) for x in nc.itervalues())
                if h == 'len':
                    return len(nc)
                if h == 'get':
                    return values(nc[t])
                if h == 'in':
                    return t in nc
                if e[o['n']].isCollection:
                    return len(nc)
                x = e[o['n']].GetEntity()
                return None if x is None else values(x)
            if k == 'unlink':
                if not e[o['n']].isCollection:
                    # the client cannot name the key of a single link
                    ks = list(nc.keys())
                    if ks != [t]:
                        raise KeyError(t)
                del nc[t]
                return None
            if k == 'navinsert':
                x = nc.NewEntity()
                x.SetKey(t)
                setval(x, o['v'])
                nc.InsertEntity(x)
                return None
            with sets[o['to']].OpenCollection() as c2:
                x = c2[t]
            if k == 'link':
                nc[t] = x
            else:
                nc.Replace(x)
            return None


def snapshot(sets):
    r = []
    for s in SETS:
        with sets[s].OpenCollection() as c:
            for e in c.itervalues():
                links = []
                for n in e.NavigationKeys():
                    with e[n].OpenCollection() as nc:
                        links.append((n, tuple(sorted(repr(x) for x in nc.keys()))))
                r.append((s, values(e), tuple(links)))
    return tuple(sorted(r))


class Store(object):

    def __init__(self, base, copy=''):
        self.doc = odlib.load(XML + copy)   # each side has its own model
        self.cont = odlib.container(self.doc)
        self.sets = self.doc.root.DataServices.defaultContainer
        self.docs = {}
        if base:
            for o in ([dict(k='insert', s='Cats', key=k, v=dict(A=i), b=[]) for i, k in enumerate(CATS[:2 + base])] +
                      [dict(k='insert', s='Things', key=i, v=dict(A=i, S=[u'x', u'h\xe9', u'a z'][i], P=[i + 2, u'v'], L=2 ** 40, W='2060-01-01T00:00:00.000'), b=[['Cat', 'a']] if i else []) for i in range(1 + base)] +
                      [dict(k='insert', s='Tags', key=i, v=dict(S=u'tag'), b=[['Things', 1]] if i else []) for i in range(1 + base)] +
                      [dict(k='insert', s='Details', key=[1, 'a'], v={}, b=[['Thing', 1]])]):
                apply(self.sets, o)
        with self.sets['Docs'].OpenCollection() as c:
            for i, (t, d) in enumerate([('text/plain', 'hello'), ('image/png', ''.join(map(chr, range(256))) * 5), ('application/octet-stream', '')]):
                e = c.NewEntity()
                e.SetKey(i)
                c.InsertEntity(e)
                e.SetStreamFromGenerator(hu.rfc2616.MediaType.FromString(t), [d])
                self.docs[i] = t, d


class Handler(httpsim.ConnHandler):
    """Breaks the connection once so many bytes of a request have come."""

    def on_data(self, data):
        v = self.server.svc
        self.got = getattr(self, 'got', 0) + len(data)
        x = v.fault
        if x and x[0] in ('reqcut', 'reqrst') and v.arm():
            n = int(x[1] * 500) - (self.got - len(data))
            v.env.fault('request_' + x[0])
            if n < len(data):
                self.buf += data[:max(0, n)]
                self.closing = True
                if x[0] == 'reqrst':
                    self.conn.abort(0.001)
                else:
                    self.conn.close(0.001)
                return
        if not self.closing:
            httpsim.ConnHandler.on_data(self, data)


class Service(object):

    def __init__(self, plan, env, sim, net):
        self.env, self.sim, self.net, self.plan = env, sim, net, plan
        self.store = Store(plan['base'])
        self.app = server.Server('http://host.example/svc')
        self.app.topmax = plan['topmax']
        self.app.SetModel(self.store.doc)
        self.fault = None
        self.skip = self.left = 0
        self.applied = 0
        self.srv = httpsim.Server(net, env, 'host.example', self.respond, seg=plan['seg'], rnd=int(plan['rnd']))
        self.srv.svc = self
        net.listen('host.example', 80, self.accept)
        self.conns = []
        net.connect_fault = self.connect

    def accept(self, net, conn):
        h = Handler(self.srv, conn)
        self.conns.append(h)
        return h

    def set(self, x):
        self.fault = x
        if x:
            self.skip, self.left = x[2], x[3]

    def arm(self):
        if self.skip:
            self.skip -= 1
            return False
        if not self.left:
            return False
        self.left -= 1
        return True

    def connect(self, n, address):
        if self.fault and self.fault[0] == 'refuse' and self.arm():
            self.env.fault('connection_refused')
            import simnet
            return simnet._errno.ECONNREFUSED
        return None

    def respond(self, r):
        import dst
        x = self.fault
        hit = x and x[0] in ('cut', 'rst', '503', 'lost') and self.arm()
        if hit and x[0] == '503':
            self.env.fault('status_503')
            return Response(503, 'Service Unavailable', [('Content-Type', 'text/html')], '<html>busy</html>' if x[1] < 0.5 else '')
        path, q, query = r.target.partition('?')
        environ = {'REQUEST_METHOD': r.method, 'SCRIPT_NAME': '', 'PATH_INFO': urllib.unquote(path), 'SERVER_NAME': 'host.example', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
                   'wsgi.input': hu.Stream(r.body), 'CONTENT_LENGTH': str(len(r.body))}
        if q:
            environ['QUERY_STRING'] = query
        for k, v in r.headers:
            k = k.upper().replace('-', '_')
            if k == 'CONTENT_TYPE':
                environ[k] = v
            elif k != 'CONTENT_LENGTH':
                environ['HTTP_' + k] = v
        got = []
        with dst.nopreempt():
            body = ''.join(self.app(environ, lambda s, h, x=None: got.append((s, h))))
        st, hs = got[0]
        self.sim.log(r.method, r.target, st)
        if self.env.trace:
            sys.stderr.write('  %s %s %s -> %s %r\n' % (r.method, r.target, r.body[-600:], st, body[-300:]))
        if r.method == 'HEAD':
            body = 'x' * int(dict(hs).get('Content-Length', '0'))   # not sent
        hs = [h for h in hs if h[0] not in ('Content-Length',)]
        res = Response(int(st[:3]), st[4:], hs, body, framing='cl' if r.method == 'HEAD' else self.plan['framing'])
        if hit:
            head, b = res.bytes(r.method)
            n = len(head + b)
            # a body that ends with the connection cannot be told from a cut one
            top = n if self.plan['framing'] != 'close' or x[0] == 'rst' else len(head)
            res.cut = int(x[1] * top) if x[0] != 'lost' else 0
            if res.cut >= n:
                res.cut = n - 1
            res.cutkind = 'rst' if x[0] == 'rst' else 'eof'
        return res

    def idle(self):
        for h in self.conns:
            if not h.closing:
                h.closing = True
                h.conn.close()
                self.env.fault('idle_close')


NETERR = ()


def execute(plan, env):
    sim = env.make_sim(max_time=7200.0, max_steps=6000000)
    env.trace = plan.get('trace')
    net = hu.network(sim, env, plan)
    svc = Service(plan, env, sim, net)
    local = Store(plan['base'], '\n')

    def faults():
        return sum(v for k, v in env.faults.items() if k != 'segment')

    def main():
        try:
            c = client.Client('http://host.example/svc/')
        except Exception, e:
            env.violation('cannot load service', repr(e), exc=sys.exc_info())
            return
        feeds = c.feeds
        for s in SETS + ['Docs']:
            if s not in feeds:
                env.violation('missing feed', s)
                return
        before = snapshot(local.sets)
        for i, o in enumerate(plan['ops']):
            sim.progress()
            x = o.get('x')
            if x and x[0] == 'idle':
                nf = faults()
                svc.idle()
                sim.sleep(x[1] * 0.01)
                x = None
            else:
                nf = faults()
            svc.set(x)
            err = res = None
            try:
                if o['k'] == 'media':
                    res = media(feeds, o, svc)
                else:
                    res = apply(feeds, o)
            except Exception, e:
                err = e
                tb = sys.exc_info()
            svc.set(None)
            hit = faults() != nf
            what = 'operation %d %r' % (i, dict((a, b) for a, b in o.items()))
            env.mark(i, o['k'], err is None, bool(hit))
            after = snapshot(svc.store.sets)
            if o['k'] == 'media':
                t, d = svc.store.docs[int(o.get('key') or 0) % 3 if not isinstance(o['key'], (list, unicode, str)) else 0]
                if err is None and res != (t, len(d), d):
                    env.violation('media resource', '%s: %r, expected %r' % (what, res, (t, len(d), d)))
                elif err is not None and not hit:
                    env.violation('operation failed', '%s: %s: %s' % (what, err.__class__.__name__, err), exc=tb)
                exp = before
                if after != before:
                    env.violation('read changed data', what)
                if env.viol:
                    return
                continue
            try:
                lerr = None
                if err is None or not hit:
                    lres = apply(local.sets, o, plan['topmax'])
                    before = snapshot(local.sets)
            except Exception, e:
                lerr = e
                ltb = sys.exc_info()
            if err is None:
                if lerr is not None:
                    env.violation('success for an impossible operation', '%s gave %r, but the local copy says %r' % (what, res, lerr), exc=ltb)
                elif res != lres:
                    env.violation('wrong result', '%s gave %r; the local copy gives %r' % (what, res, lres))
                elif after != before:
                    env.violation('wrong effect', '%s: %s' % (what, diff(before, after)))
                else:
                    env.probe('ok_' + o['k'] + ('_fault' if hit else ''))
            elif not hit:
                if lerr is None:
                    env.violation('operation failed', '%s: %s: %s' % (what, err.__class__.__name__, err), exc=tb)
                elif isinstance(err, KeyError) != isinstance(lerr, KeyError) and o['k'] in ('get', 'delete', 'nav'):
                    env.violation('wrong error', '%s: %r; the local copy says %r' % (what, err, lerr), exc=tb)
                elif o['k'] == 'navinsert' and after != before:
                    # inserting and linking are two requests, as documented
                    try:
                        apply(local.sets, dict(k='insert', s=o['to'], key=o['t'], v=o['v'], b=[]))
                    except Exception:
                        pass
                    before = snapshot(local.sets)
                    if after != before:
                        env.violation('failed operation changed data', '%s: %r: %s' % (what, err, diff(before, after)))
                elif o['k'] == 'replace' and after != before:
                    # unlinking the others and linking are separate requests
                    before = settle(local.sets, o, after)
                    if after != before:
                        env.violation('failed operation changed data', '%s: %r: %s' % (what, err, diff(before, after)))
                elif after != before:
                    env.violation('failed operation changed data', '%s: %r: %s' % (what, err, diff(before, after)))
                else:
                    env.probe('error')
            else:
                # a network fault and an error: not done or done once, completely
                if isinstance(err, (NameError, AttributeError, UnboundLocalError)):
                    env.violation('error in error handling', '%s: %r' % (what, err), exc=tb)
                if after == before:
                    env.probe('error_nothing_done')
                else:
                    try:
                        if o['k'] == 'navinsert' and not linked(after, o):
                            # inserting and linking are two requests, as documented
                            apply(local.sets, dict(k='insert', s=o['to'], key=o['t'], v=o['v'], b=[]))
                        elif o['k'] == 'replace':
                            settle(local.sets, o, after)
                        else:
                            apply(local.sets, o)
                    except Exception, e:
                        env.violation('impossible effect', '%s: %r: %s' % (what, err, diff(before, after)))
                    before = snapshot(local.sets)
                    if after != before:
                        env.violation('partial effect', '%s: %r: %s' % (what, err, diff(before, after)))
                    env.probe('error_but_done')
            if env.viol:
                return
        c.Close()
    sim.spawn(main, 'client')
    sim.run()
    hu.verdict(env, sim)
    env.stat('operations', len(plan['ops']))


def settle(sets, o, after):
    """Removes and adds the links of one entity that a replacement made of several requests got to."""
    with sets[o['s']].OpenCollection() as c:
        e = c[pykey(o['key'])]
        if e[o['n']].isCollection:
            t = pykey(o['t'])
            with e[o['n']].OpenCollection() as nc:
                for k in list(nc.keys()):
                    if not linked(after, dict(o, t=k)):
                        del nc[k]
                if t not in nc and linked(after, o):
                    with sets[o['to']].OpenCollection() as tc:
                        nc[t] = tc[t]
        elif linked(after, o):
            apply(sets, o)
    return snapshot(sets)


def linked(snap, o):
    for s, v, links in snap:
        if s == o['s'] and tuple(x[1] for x in v if x[0] in ('ID', 'K')) == (pykey(o['key']) if isinstance(o['key'], list) else (o['key'],)):
            return repr(pykey(o['t'])) in dict(links)[o['n']] or repr(pykey(o['t'])).lstrip('u') in [y.lstrip('u') for y in dict(links)[o['n']]]
    return False


def media(feeds, o, svc):
    with feeds['Docs'].OpenCollection() as c:
        e = c.NewEntity()
        e.SetKey(int(o['key']) % 3 if not isinstance(o['key'], (list, unicode, str)) else 0)
        return str(e.GetStreamType()), e.GetStreamSize(), ''.join(e.GetStreamGenerator())


def diff(a, b):
    return 'removed %r added %r' % ([x for x in a if x not in b], [x for x in b if x not in a])
