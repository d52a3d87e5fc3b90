# coding: utf-8
"""C11: the OData server answers every request; errors change nothing; concurrent requests serialise."""
import itertools
import json
import re
import sys
import boot
import odlib
import httputil as hu

XML = odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="Things" EntityType="Sim.Thing"/><EntitySet Name="Cats" EntityType="Sim.Cat"/><EntitySet Name="Details" EntityType="Sim.Detail"/><EntitySet Name="Docs" EntityType="Sim.Doc"/>
<AssociationSet Name="TC" Association="Sim.TCA"><End Role="T" EntitySet="Things"/><End Role="C" EntitySet="Cats"/></AssociationSet>
<AssociationSet Name="TD" Association="Sim.TDA"><End Role="T" EntitySet="Things"/><End Role="D" EntitySet="Details"/></AssociationSet>
<AssociationSet Name="OT" Association="Sim.OTA"><End Role="O" EntitySet="Docs"/><End Role="T" EntitySet="Things"/></AssociationSet>
</EntityContainer>
<EntityType Name="Thing"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>
<Property Name="A" Type="Edm.Int32"/><Property Name="S" Type="Edm.String"/><Property Name="N" Type="Edm.String" Nullable="false" MaxLength="20" DefaultValue="x"/><Property Name="B" Type="Edm.Boolean"/>
<Property Name="W" Type="Edm.DateTime"/><Property Name="M" Type="Edm.Decimal"/><Property Name="F" Type="Edm.Double"/><Property Name="G" Type="Edm.Guid"/><Property Name="L" Type="Edm.Int64"/>
<Property Name="X" Type="Edm.Binary"/><Property Name="T" Type="Edm.Time"/><Property Name="O" Type="Edm.DateTimeOffset"/><Property Name="P" Type="Sim.Pair" Nullable="false"/>
<NavigationProperty Name="Cat" Relationship="Sim.TCA" FromRole="T" ToRole="C"/><NavigationProperty Name="Detail" Relationship="Sim.TDA" FromRole="T" ToRole="D"/>
<NavigationProperty Name="Docs" Relationship="Sim.OTA" FromRole="T" ToRole="O"/></EntityType>
<EntityType Name="Cat"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false"/><Property Name="A" Type="Edm.Int32"/>
<NavigationProperty Name="Things" Relationship="Sim.TCA" FromRole="C" ToRole="T"/></EntityType>
<EntityType Name="Detail"><Key><PropertyRef Name="ID"/><PropertyRef Name="K"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="K" Type="Edm.String" Nullable="false"/><Property Name="A" Type="Edm.Int32"/>
<NavigationProperty Name="Thing" Relationship="Sim.TDA" FromRole="D" ToRole="T"/></EntityType>
<EntityType Name="Doc" m:HasStream="true"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="A" Type="Edm.Int32"/><Property Name="S" Type="Edm.String" m:FC_TargetPath="SyndicationTitle" m:FC_KeepInContent="true"/>
<Property Name="H" Type="Edm.Binary" ConcurrencyMode="Fixed"/>
<NavigationProperty Name="Things" Relationship="Sim.OTA" FromRole="O" ToRole="T"/></EntityType>
<ComplexType Name="Pair"><Property Name="U" Type="Edm.Int32"/><Property Name="V" Type="Edm.String"/></ComplexType>
<Association Name="TCA"><End Role="T" Type="Sim.Thing" Multiplicity="*"/><End Role="C" Type="Sim.Cat" Multiplicity="0..1"/></Association>
<Association Name="TDA"><End Role="T" Type="Sim.Thing" Multiplicity="1"/><End Role="D" Type="Sim.Detail" Multiplicity="0..1"/></Association>
<Association Name="OTA"><End Role="O" Type="Sim.Doc" Multiplicity="*"/><End Role="T" Type="Sim.Thing" Multiplicity="*"/></Association>
''' + odlib.TAIL

SETS = ['Things', 'Cats', 'Details', 'Docs']
server = http = None


def setup():
    global server, http
    boot.install()
    odlib.setup()
    import pyslet.odata2.server as m
    import pyslet.rfc2616 as h
    server, http = m, h
    m.traceback = Quiet()
    boot.warm_xml()
    import logging
    logging.disable(logging.CRITICAL)


class Quiet(object):
    def print_exception(self, *a, **k):
        pass

    def format_exception(self, *a):
        return []


PROPS = {'Things': dict(A='Int32', S='String', N='String', B='Boolean', W='DateTime', M='Decimal', F='Double', G='Guid', L='Int64', X='Binary', T='Time', O='DateTimeOffset', P='Pair'),
         'Cats': dict(A='Int32'), 'Details': dict(A='Int32'), 'Docs': dict(A='Int32', S='String')}
NAVS = {'Things': {'Cat': 'Cats', 'Detail': 'Details', 'Docs': 'Docs'}, 'Cats': {'Things': 'Things'}, 'Details': {'Thing': 'Things'}, 'Docs': {'Things': 'Things'}}
XNS = 'xmlns="http://www.w3.org/2005/Atom" xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices" xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata"'


def key(rng, s):
    k = rng.randrange(3)
    if s == 'Cats':
        return "'%s'" % rng.choice(['a', 'b', 'c d', "o''e"])
    if s == 'Details':
        return "ID=%d,K='%s'" % (k, rng.choice(['a', 'b', 'ab'[k % 2]]))
    return str(k)


def keyvals(rng, s):
    if s == 'Cats':
        return {'K': rng.choice(['a', 'b', 'c d', "o'e", 'new'])}
    if s == 'Details':
        return {'ID': rng.randrange(3), 'K': rng.choice('ab')}
    return {'ID': rng.randrange(5)}


TEXT = ['', 'x', 'hello', 'a<b&"c"', u'\xe9t\xe9', 'line\nbreak', ' pad ', 'q' * 30, '\x01', "it's"]


def value(rng, t, js, bad):
    """A literal of type t for JSON (a json value) or XML (text); None is null."""
    r = rng.random()
    if r < 0.1:
        return None
    if r < 0.1 + bad:
        return rng.choice(['', 'zzz', '99999999999999999999', '-1', '1.5', 'null', True, 5, [], {}]) if js else rng.choice(['', 'zzz', '99999999999999999999', '-1', '1.5', 'null'])
    if t == 'Int32':
        n = rng.randrange(-5, 100)
        return n if js else str(n)
    if t == 'String':
        return rng.choice(TEXT[:-2])
    if t == 'Boolean':
        b = rng.random() < 0.5
        return b if js else ('true' if b else 'false')
    if t == 'DateTime':
        return '/Date(%d)/' % rng.randrange(10 ** 12) if js else '2012-0%d-01T10:00:00' % rng.randrange(1, 9)
    if t == 'DateTimeOffset':
        return rng.choice(['/Date(%d)/', '/Date(%d+0060)/']) % rng.randrange(10 ** 12) if js else '2012-0%d-01T10:00:00Z' % rng.randrange(1, 9)
    if t == 'Decimal' or t == 'Double':
        return '%d.5' % rng.randrange(100)
    if t == 'Guid':
        return '00000000-0000-0000-0000-%012d' % rng.randrange(1000)
    if t == 'Int64':
        return str(rng.randrange(10 ** 12))
    if t == 'Binary':
        return rng.choice(['', 'AAEC', 'aGVsbG8='])
    if t == 'Time':
        return 'PT%dH' % rng.randrange(24)
    return 'x'


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def entity_json(rng, s, withkey, bad, depth=1):
    d = {}
    if withkey:
        d.update(withkey if isinstance(withkey, dict) else keyvals(rng, s))
    for p, t in PROPS[s].items():
        if rng.random() < 0.5:
            if t == 'Pair':
                d[p] = {'U': value(rng, 'Int32', True, bad), 'V': value(rng, 'String', True, bad)}
            else:
                d[p] = value(rng, t, True, bad)
    for n, to in NAVS[s].items():
        need = n == 'Thing'
        if rng.random() < (0.9 if need else 0.25):
            many = n in ('Docs', 'Things')
            v = [({'__metadata': {'uri': '%s(%s)' % (to, key(rng, to))}} if rng.random() < 0.7 or not depth or to == 'Docs' else entity_json(rng, to, rng.random() < 0.8, bad, depth - 1))
                 for i in range(rng.choice([1, 2]) if many else 1)]
            d[n] = v if many else v[0]
    return d


def entity_atom(rng, s, withkey, bad, depth=1):
    ps = []
    if withkey:
        for k, v in (withkey if isinstance(withkey, dict) else keyvals(rng, s)).items():
            ps.append('<d:%s>%s</d:%s>' % (k, esc(str(v)), k))
    for p, t in PROPS[s].items():
        if rng.random() < 0.5:
            if t == 'Pair':
                ps.append('<d:P><d:U>%s</d:U><d:V>%s</d:V></d:P>' % (value(rng, 'Int32', False, bad) or '', esc(value(rng, 'String', False, bad) or '')))
            else:
                v = value(rng, t, False, bad)
                ps.append('<d:%s m:null="true"/>' % p if v is None else '<d:%s m:type="Edm.%s">%s</d:%s>' % (p, t, esc(v), p))
    ls = []
    for n, to in NAVS[s].items():
        if rng.random() < (0.9 if n == 'Thing' else 0.25):
            kind = 'feed' if n in ('Docs', 'Things') else 'entry'
            inl = ''
            href = '%s(%s)' % (to, key(rng, to))
            if depth and rng.random() < 0.3 and to != 'Docs':
                inl = '<m:inline>%s</m:inline>' % (entity_atom(rng, to, True, bad, depth - 1))
                if kind == 'feed':
                    inl = inl.replace('<m:inline>', '<m:inline><feed>').replace('</m:inline>', '</feed></m:inline>')
            ls.append('<link rel="http://schemas.microsoft.com/ado/2007/08/dataservices/related/%s" type="application/atom+xml;type=%s" href="%s">%s</link>' % (n, kind, esc(href), inl))
    if s == 'Docs':
        return '<entry %s>%s<content type="text/plain" src="x"/><m:properties>%s</m:properties></entry>' % (XNS, ''.join(ls), ''.join(ps))
    return '<entry %s>%s<content type="application/xml"><m:properties>%s</m:properties></content></entry>' % (XNS, ''.join(ls), ''.join(ps))


QUERIES = ['$filter=A gt 2', '$filter=substringof(\'a\',S)', '$orderby=A desc', '$top=2', '$skip=1', '$inlinecount=allpages', '$expand=Cat', '$select=A', '$format=json', '$format=atom',
           '$filter=', '$filter=A gt', '$orderby=Zz', '$top=-1', '$top=x', '$skiptoken=1', '$expand=Zz', '$select=*', '$format=xx', '$zz=1', '$filter=A eq null', '$expand=Docs,Detail',
           '$filter=Zz eq 1', '$skiptoken=', '$inlinecount=zz', '$filter=(A eq 1', "$filter=S eq '", '$filter=A div 0 eq 1', '$filter=M gt 1', '%24top=1', '$filter=year(W) eq 2000', '$filter=F eq 1.5d']
ACCEPTS = [None, None, None, None, 'application/json', 'application/atom+xml', 'text/xml', '*/*', 'image/png', 'text/plain', ',;q', 'application/json;odata=verbose', 'a', '', 'text/html;q=0.5, */*;q=0.1', 'application/json;q=abc']


def request(rng, bad, kinds=None):
    s = rng.choice(SETS)
    k = rng.choice(kinds or ['insert', 'insert', 'update', 'update', 'prop', 'delete', 'get', 'get', 'links', 'links', 'media', 'media', 'misc', 'navinsert'])
    r = dict(q=None, ct=None, accept=rng.choice(ACCEPTS) if rng.random() < 0.7 else None, body='', h={})
    js = rng.random() < 0.55
    one = '/%s(%s)' % (s, key(rng, s))
    n = rng.choice(sorted(NAVS[s]))
    to = NAVS[s][n]
    many = n in ('Docs', 'Things')

    def ent(t, wk):
        if js:
            r['ct'] = 'application/json'
            return json.dumps(entity_json(rng, t, wk, bad), ensure_ascii=rng.random() < 0.5, sort_keys=True)
        r['ct'] = rng.choice(['application/atom+xml', 'application/xml', 'application/atom+xml;type=entry'])
        return entity_atom(rng, t, wk, bad)
    if k == 'insert':
        r.update(m='POST', path='/' + s, body=ent(s, rng.random() < 0.8))
        if s == 'Docs' and rng.random() < 0.8:
            k = 'media'
            rng.random()
    if k == 'navinsert':
        r.update(m='POST', path='%s/%s' % (one, n), body=ent(to, rng.random() < 0.8))
    elif k == 'update':
        # mostly a body that names the key it is sent to
        x = one[one.index('(') + 1:-1]
        if s == 'Cats':
            kv = {'K': x[1:-1].replace("''", "'")}
        elif s == 'Details':
            kv = {'ID': int(x[3]), 'K': x.split("'")[1]}
        else:
            kv = {'ID': int(x)}
        r.update(m=rng.choice(['PUT'] * 8 + ['MERGE', 'PATCH']), path=one, body=ent(s, kv if rng.random() < 0.8 else rng.random() < 0.3))
    elif k == 'prop':
        p = rng.choice(sorted(PROPS[s]))
        t = PROPS[s][p]
        sub = ''
        if t == 'Pair' and rng.random() < 0.6:
            p, sub, t = 'P', rng.choice('UV'), 'Int32'
        path = one + '/' + p + ('/' + sub if sub else '')
        name = sub or p
        m = rng.choice(['PUT', 'PUT', 'PUT', 'GET', 'DELETE'])
        if rng.random() < 0.4:
            path += '/$value'
            v = value(rng, t, False, bad) if t != 'Pair' else 'x'
            r.update(body=v or '', ct=rng.choice([None, 'text/plain', 'text/plain;charset=utf-8', 'application/octet-stream', 'image/png']))
        elif t == 'Pair':
            if js:
                r.update(ct='application/json', body=json.dumps({'P': {'U': value(rng, 'Int32', True, bad), 'V': 'w'}} if rng.random() < 0.7 else {'U': 1, 'V': 'z'}, sort_keys=True))
            else:
                r.update(ct='application/xml', body='<d:P %s><d:U>%s</d:U><d:V>w</d:V></d:P>' % (XNS, value(rng, 'Int32', False, bad) or ''))
        elif js:
            r.update(ct='application/json', body=json.dumps(rng.choice([{name: value(rng, t, True, bad)}, value(rng, t, True, bad)]), sort_keys=True))
        else:
            v = value(rng, t, False, bad)
            r.update(ct='application/xml', body='<d:%s %s m:null="true"/>' % (name, XNS) if v is None else '<d:%s %s>%s</d:%s>' % (name, XNS, esc(v), name))
        r.update(m=m, path=path)
        if m != 'PUT':
            r.update(body='', ct=None)
    elif k == 'delete':
        r.update(m='DELETE', path=one if rng.random() < 0.8 else '/' + s)
    elif k == 'get':
        path = rng.choice(['/' + s, '/' + s, one, one, one + '/' + n, '/%s/$count' % s, one + '/A', one + '/A/$value', one + '/$value', one + '/$links/' + n, one + '/' + n + '/$count', one + '/$count'])
        r.update(m='GET', path=path)
        if rng.random() < 0.5:
            r['q'] = '&'.join(rng.sample(QUERIES, rng.choice([1, 1, 2]))).replace(' ', '%20')
        if rng.random() < 0.1:
            r['h']['HTTP_DATASERVICEVERSION'] = rng.choice(['1.0', '2.0', '3.0', 'x', '2.0;zz', ''])
        if rng.random() < 0.1:
            r['h']['HTTP_MAXDATASERVICEVERSION'] = rng.choice(['1.0', '2.0', '3.0', 'x', ''])
    elif k == 'links':
        m = rng.choice(['GET', 'POST', 'PUT', 'DELETE', 'POST', 'PUT'])
        path = one + '/$links/' + n
        if m == 'DELETE' and many or rng.random() < 0.1:
            path += '(%s)' % key(rng, to)
        uri = rng.choice(['%s(%s)', '%s(%s)', 'http://host.example/svc/%s(%s)', '/svc/%s(%s)', 'http://other.example/%s(%s)']) % (to if rng.random() > bad else s, key(rng, to))
        if rng.random() < bad:
            uri = rng.choice(['', 'Things', 'Zz(1)', 'http://host.example/svc/', '$metadata', 'Things(1)/A', 'Things(99)'])
        if m in ('POST', 'PUT'):
            if js:
                r.update(ct='application/json', body=json.dumps({'uri': uri}))
            else:
                r.update(ct='application/xml', body='<uri xmlns="http://schemas.microsoft.com/ado/2007/08/dataservices">%s</uri>' % esc(uri))
        r.update(m=m, path=path)
    elif k == 'media':
        body = ''.join(chr(rng.randrange(256)) for i in range(rng.choice([0, 1, 10, 300])))
        if rng.random() < 0.2:
            body = body * 60
        m = rng.choice(['POST', 'POST', 'PUT', 'PUT', 'GET', 'DELETE'])
        r.update(m=m, path='/Docs' if m == 'POST' else '/Docs(%d)/$value' % rng.randrange(3), ct=rng.choice([None, 'text/plain', 'application/octet-stream', 'image/png', 'zz', 'a/b/c']), body=body)
        if m == 'POST' and rng.random() < 0.4:
            r['h']['HTTP_SLUG'] = rng.choice(['a title', 'x' * 100, u'\xe9', ''])
        if m in ('GET', 'DELETE'):
            r.update(body='', ct=None)
    elif k == 'misc':
        r.update(m=rng.choice(['GET', 'GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'BREW']), path=rng.choice([
            '', '/', '/$metadata', '/$batch', '/Zz', '/Things(', '/Things(zz)', "/Cats('a)", '/Things(1)/Zz', '/Things(1)(2)', '//', '/Things(1)/Cat/Things', '/Things(99)', '/Details(1)',
            '/Things(1)/$links', '/Things(1)/$value', '/$count', '/Things/$links/Cat', '/Things(1)/Cat/$value', '/Things(ID=1)', '/Things(A=1)', '/%zz', '/Things(1)/P/U', '/Things(1)/P/Zz', '/Things(1)/A/B',
            '/Things(1)/Cat(1)', '/Cats(1)/Things(1)', "/Cats('a')/Things(1)", '/Docs(1)/$links/Things(1)', u'/\xc3\xa9', '/Things()', '/Things(1)/$zz', '/$links', '/C.Things', '/Sim.C.Things']),
            body=rng.choice(['', 'junk', '{}', '[]', '<x/>']), ct=rng.choice([None, 'application/json', 'application/xml', 'text/plain']))
        if rng.random() < 0.2:
            r['q'] = rng.choice(QUERIES).replace(' ', '%20')
    b = r['body']
    if isinstance(b, str):
        b = b.decode('latin1')
    if bad and b and rng.random() < bad:
        how = rng.randrange(5)
        i = rng.randrange(len(b))
        if how == 0:
            b = b[:i]
        elif how == 1:
            b = b[:i] + rng.choice(['<', '&', '"', '{', '}', '\x00', u'\xff', ']']) + b[i + 1:]
        elif how == 2:
            b = b[:i] + b[i + rng.randrange(1, 10):]
        elif how == 3:
            b = rng.choice(['', 'null', '[]', '5', '"x"', '{}', '<entry xmlns="http://www.w3.org/2005/Atom"/>', '<uri/>', '<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', u'\xef\xbb\xbf{}', '<?xml version="1.0" encoding="utf-16"?><a/>', '{"uri":5}', '{"d":{}}'])
        else:
            b = b + rng.choice([' ', 'x', '</entry>', '}'])
        if rng.random() < 0.3:
            r['ct'] = rng.choice([None, 'text/plain', 'application/json', 'application/xml', 'application/json;charset=utf-16', 'application/xml;charset=zz', 'application/json;charset=', 'zz'])
    r['body'] = b
    return r


def generate(rng, tier):
    conc = rng.random() < 0.45
    bad = 0 if conc else rng.choice([0, 0.03, 0.15])
    pre = [request(rng, 0, ['insert', 'insert', 'navinsert', 'links', 'media']) for i in range(rng.choice([0, 2, 4]))]
    if conc:
        kinds = rng.choice([['insert', 'update', 'delete', 'links', 'navinsert', 'media', 'prop'], ['update', 'prop'], ['prop'], ['prop'], ['prop', 'media'], ['links', 'delete'], ['insert', 'media', 'delete'], ['prop', 'update', 'delete']])
        reqs = []
        for t in range(rng.choice([2, 2, 3])):
            for j in range(1 if t else rng.choice([1, 1, 2])):
                r = request(rng, 0.02, kinds)
                while r['m'] in ('GET', 'PATCH', 'MERGE') and rng.random() < 0.8 or 'prop' in kinds and len(kinds) < 3 and not re.match('/(Thing|Doc)s', r['path']):
                    r = request(rng, 0.02, kinds)
                r['t'] = t
                reqs.append(r)
        if rng.random() < 0.75:
            # aim at one entity
            for r in reqs:
                for s in ('Things', 'Docs'):
                    r['path'] = re.sub(r'^/%s\(\d\)' % s, '/%s(1)' % s, r['path'])
    else:
        reqs = [request(rng, bad) for i in range(rng.choice([1, 3, 8]))]
    for r in reqs:
        if not conc and rng.random() < 0.3 and r['body']:
            f = rng.choice(['eof', 'error', 'eof', 'short', 'nolen', 'badlen', 'slow'])
            r['fault'] = [f, rng.random(), rng.choice(['', '-1', 'zz', '99999999'])]
        elif rng.random() < 0.2:
            r['fault'] = ['short', 0, '']
    return dict(conc=conc, pre=pre, reqs=reqs, base=rng.choice([0, 1, 2, 2, 2, 2, 2, 2]), wild=rng.choice([False, False, True]))


SHRINK = ['reqs', 'pre']


class Input(object):

    def __init__(self, data, env, sim, fault):
        self.data, self.env, self.sim = data, env, sim
        self.pos = 0
        self.kind = fault[0] if fault else None
        self.cut = int(fault[1] * len(data)) if fault else None
        if self.kind == 'eof':
            self.data = data[:self.cut]
            env.fault('body_cut_short')
        elif self.kind == 'error':
            env.fault('body_read_error')

    def read(self, n=-1):
        if self.sim is not None and self.kind == 'slow':
            self.sim.sleep(0.5)
        if n is None or n < 0:
            n = len(self.data) - self.pos
        if self.kind == 'error' and self.pos + n > self.cut:
            raise IOError('simulated: connection lost while reading the request body')
        if self.kind == 'short' and n > 1:
            n = (n + 2) // 3
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d


class Service(object):

    def __init__(self, plan, env, sim):
        self.doc = odlib.load(XML)
        self.env, self.sim = env, sim
        self.cont = odlib.container(self.doc)
        self.sets = self.doc.root.DataServices.defaultContainer
        self.app = server.Server('http://host.example/svc')
        self.app.SetModel(self.doc)
        if plan['base']:
            self.fill(plan['base'])

    def fill(self, n):
        for s, ks in (('Cats', ['a', 'b', 'c d', "o'e"][:2 * n]), ('Things', [0, 1, 2][:n + 1]), ('Docs', [0, 1, 2][:n + 1])):
            with self.sets[s].OpenCollection() as c:
                for k in ks:
                    e = c.NewEntity()
                    e.SetKey(k)
                    e['A'].SetFromValue(7)
                    if s == 'Things':
                        e['S'].SetFromValue(u's\xe9%d' % k)
                        e['P']['U'].SetFromValue(3)
                        e['P']['V'].SetFromValue(u'v')
                        if k:
                            e['Cat'].BindEntity('a')
                    if s == 'Docs':
                        e['Things'].BindEntity(1)
                    c.InsertEntity(e)
        with self.sets['Details'].OpenCollection() as c:
            for t, k in ((1, (1, 'a')), (2, (2, 'b')))[:n]:
                e = c.NewEntity()
                e.SetKey(k)
                e['Thing'].BindEntity(t)
                c.InsertEntity(e)

    def snapshot(self):
        r = []
        for s in SETS:
            with self.sets[s].OpenCollection() as c:
                for e in c.itervalues():
                    vals = []
                    for k, v in e.DataItems():
                        if isinstance(v, odlib.edm.Complex):
                            vals.append(tuple((k, x, repr(y.value)) for x, y in v.iteritems()))
                        else:
                            vals.append((k, None if v.value is None else unicode(v.value) if k in 'WTO' else repr(v.value)))
                    links = []
                    for n in e.NavigationKeys():
                        with e[n].OpenCollection() as nc:
                            links.append((n, tuple(sorted(repr(x) for x in nc.keys()))))
                    st = ()
                    if s == 'Docs':
                        st = (str(e.GetStreamType()), ''.join(e.GetStreamGenerator()))
                    r.append((s, repr(e.Key()), tuple(vals), tuple(links), st))
        return tuple(sorted(r))

    def request(self, r, quiet=False):
        """Issues a request, checks the response and returns (status, headers, body)."""
        env = self.env
        body = r['body'].encode('latin1') if isinstance(r['body'], unicode) else r['body']
        f = r.get('fault')
        if r.get('ct') and 'json' in r['ct'] or r.get('ct') and 'xml' in r['ct']:
            try:
                body = r['body'].decode('latin1').encode('utf-8') if isinstance(r['body'], str) else r['body'].encode('utf-8')
            except UnicodeError:
                pass
        environ = {'REQUEST_METHOD': str(r['m']), 'SCRIPT_NAME': '/svc', 'PATH_INFO': str(r['path'].encode('latin1')), 'SERVER_NAME': 'host.example', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
                   'wsgi.input': Input(body, env, self.sim, f), 'CONTENT_LENGTH': str(len(body))}
        if f and f[0] == 'nolen':
            del environ['CONTENT_LENGTH']
        elif f and f[0] == 'badlen':
            environ['CONTENT_LENGTH'] = str(f[2])
        if r.get('q') is not None:
            environ['QUERY_STRING'] = str(r['q'])
        if r.get('ct') is not None:
            environ['CONTENT_TYPE'] = str(r['ct'])
        if r.get('accept') is not None:
            environ['HTTP_ACCEPT'] = str(r['accept'])
        for k, v in r['h'].items():
            environ[str(k)] = v.encode('latin1') if isinstance(v, unicode) else v
        calls = []

        def start_response(status, headers, exc_info=None):
            calls.append((status, headers, exc_info))
        what = '%s %s%s' % (r['m'], r['path'], '?' + r['q'] if r.get('q') else '')
        try:
            it = self.app(environ, start_response)
            out = []
            for b in it:
                out.append(b)
        except (dst_exit, KeyboardInterrupt):
            raise
        except BaseException, e:
            env.violation('exception escapes', '%s: %s: %s' % (what, e.__class__.__name__, e), exc=sys.exc_info())
            return None
        if len(calls) != 1:
            env.violation('start_response', '%s called it %d times' % (what, len(calls)))
            return None
        status, headers, x = calls[0]
        if not isinstance(status, str) or not re.match(r'^[1-5]\d\d [^\r\n]+$', status):
            env.violation('status line', '%s: %r' % (what, status))
            return None
        hd = {}
        for h in headers:
            if type(h) is not tuple or len(h) != 2 or type(h[0]) is not str or type(h[1]) is not str or not re.match('^[!-9;-~]+$', h[0]) or re.search('[\0-\x1f\x7f]', h[1]):
                env.violation('response header', '%s: %r' % (what, h))
                return None
            if h[0].lower() in hd and h[0].lower() in ('content-length', 'content-type', 'location', 'etag', 'dataserviceversion'):
                env.violation('response header', '%s: repeated %r' % (what, h))
            hd[h[0].lower()] = h[1]
        for b in out:
            if type(b) is not str:
                env.violation('response body', '%s: yields %r' % (what, type(b)))
                return None
        data = ''.join(out)
        code = int(status[:3])
        if r['m'] == 'HEAD' and data:
            env.violation('response body', '%s: %d bytes' % (what, len(data)))
        if 'content-length' in hd and hd['content-length'] != str(len(data)) and r['m'] != 'HEAD':
            env.violation('content length', '%s: %s but %d bytes' % (what, hd['content-length'], len(data)))
        if code == 204 and data:
            env.violation('response body', '%s: %d bytes with 204' % (what, len(data)))
        ct = hd.get('content-type', '')
        if data and not (r['path'].endswith('$value') and code < 400):
            if not ct:
                env.violation('response type', '%s: %d bytes without a type' % (what, len(data)))
            try:
                if ct.startswith('application/json'):
                    json.loads(data)
                elif 'xml' in ct.split(';')[0]:
                    wellformed(data)
            except Exception, e:
                env.violation('malformed response', '%s: %s: %s: %r' % (what, ct, e, data[:300]))
        if not quiet:
            env.probe('status_%d' % code)
            env.probe('%s%s_%d' % (r['m'], '_entity' if r['m'] in ('PUT', 'MERGE', 'PATCH') and re.match('/[A-Za-z]*[(][^)]*[)]$', r['path']) else '', code))
        return code, hd, data


class dst_exit(BaseException):
    pass


factory = None


def wellformed(data):
    global factory
    from java.io import ByteArrayInputStream
    from javax.xml.parsers import SAXParserFactory
    from org.xml.sax import SAXException
    from org.xml.sax.helpers import DefaultHandler
    if factory is None:
        factory = SAXParserFactory.newInstance()
        factory.setNamespaceAware(True)
    from array import array
    try:
        factory.newSAXParser().parse(ByteArrayInputStream(array('b', data)), DefaultHandler())
    except SAXException, e:
        raise ValueError(e.getMessage())


def execute(plan, env):
    global dst_exit
    import dst
    dst_exit = dst.SimExit
    sim = env.make_sim(max_time=3600.0, max_steps=3000000)
    svc = Service(plan, env, sim)
    out = []

    def single():
        before = svc.snapshot()
        for i, r in enumerate(plan['pre'] + plan['reqs']):
            res = svc.request(r)
            if res is None or env.viol:
                return
            after = svc.snapshot()
            env.mark(r['m'], r['path'], res[0])
            if res[0] == 500:
                env.info.setdefault('e500', []).append((r['m'], r['path'], r['body'][:60], res[2][-200:])) if hasattr(env, 'info') and isinstance(env.info, dict) else None
            if (res[0] >= 400 or r['m'] in ('GET', 'HEAD', 'OPTIONS')) and after != before:
                env.violation('failed request changed data' if res[0] >= 400 else 'safe method changed data', '%s %s answered %d %s: %s' % (r['m'], r['path'], res[0], res[2][:200], diff(before, after)))
                return
            f = r.get('fault')
            if r['m'] in ('PUT', 'POST') and f and f[0] in ('eof', 'error') and int(f[1] * len(r['body'])) < len(r['body']) and after != before:
                env.violation('incomplete body accepted', '%s %s answered %d: %s' % (r['m'], r['path'], res[0], diff(before, after)))
                return
            before = after
    if not plan['conc']:
        sim.spawn(single, 'app')
        sim.run()
        hu.verdict(env, sim)
        env.stat('requests', len(plan['reqs']))
        return
    for r in plan['pre']:
        svc.request(r, True)
    if env.viol:
        return
    results = {}

    def thread(t):
        for i, r in enumerate(plan['reqs']):
            if r['t'] == t:
                results[i] = svc.request(r)
                sim.log(t, i, results[i] and results[i][0])
    ts = sorted(set(r['t'] for r in plan['reqs']))
    for t in ts:
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    last = svc.snapshot()
    env.stat('requests', len(plan['reqs']))
    done = [i for i in sorted(results) if results[i] and results[i][0] < 400]
    seen = []
    for order in itertools.permutations(done):
        pos = dict((i, n) for n, i in enumerate(order))
        if [1 for a in done for b in done if a < b and plan['reqs'][a]['t'] == plan['reqs'][b]['t'] and pos[a] > pos[b]]:
            continue
        s2 = Service(plan, env, None)
        for r in plan['pre']:
            s2.request(r, True)
        for i in order:
            s2.request(plan['reqs'][i], True)
        x = s2.snapshot()
        if x == last:
            env.probe('serialised')
            return
        seen.append((order, x))
    env.violation('not serialisable', '%r: found %s; %s' % ([(plan['reqs'][i]['m'], plan['reqs'][i]['path'], results[i][0]) for i in sorted(results) if results[i]],
                  [x for x in last if not [1 for o, y in seen if x in y]], [(o, diff(last, y)) for o, y in seen[:3]]))


def diff(a, b):
    return 'removed %r added %r' % ([x for x in a if x not in b], [x for x in b if x not in a])
