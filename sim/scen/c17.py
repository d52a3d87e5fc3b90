# coding: utf-8
"""C17: paging visits every entity once and in order."""
import json
import re
import sys
import urllib
import boot
import dst
import odlib
import sqllib
import httputil as hu

PROPS = '''<Property Name="A" Type="Edm.Int32"/><Property Name="S" Type="Edm.String"/><Property Name="F" Type="Edm.Double"/><Property Name="D" Type="Edm.DateTime" Precision="6"/>
<Property Name="B" Type="Edm.Boolean"/><Property Name="L" Type="Edm.Int64"/><Property Name="G" Type="Edm.Guid"/>'''
XML = odlib.HEAD + '''<EntityContainer Name="C" m:IsDefaultEntityContainer="true"><EntitySet Name="E" EntityType="Sim.TE"/><EntitySet Name="M" EntityType="Sim.TM"/><EntitySet Name="S" EntityType="Sim.TS"/>
<EntitySet Name="P" EntityType="Sim.TP"/>
<AssociationSet Name="PE" Association="Sim.APE"><End Role="pe" EntitySet="P"/><End Role="ep" EntitySet="E"/></AssociationSet>
<AssociationSet Name="PM" Association="Sim.APM"><End Role="pm" EntitySet="P"/><End Role="mp" EntitySet="M"/></AssociationSet></EntityContainer>
<EntityType Name="TE"><Key><PropertyRef Name="ID"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/>%(p)s
<NavigationProperty Name="Up" Relationship="Sim.APE" FromRole="ep" ToRole="pe"/></EntityType>
<EntityType Name="TM"><Key><PropertyRef Name="ID"/><PropertyRef Name="K"/></Key><Property Name="ID" Type="Edm.Int32" Nullable="false"/><Property Name="K" Type="Edm.String" Nullable="false" MaxLength="20"/>%(p)s
<NavigationProperty Name="Ups" Relationship="Sim.APM" FromRole="mp" ToRole="pm"/></EntityType>
<EntityType Name="TS"><Key><PropertyRef Name="K"/></Key><Property Name="K" Type="Edm.String" Nullable="false" MaxLength="700"/>%(p)s</EntityType>
<EntityType Name="TP"><Key><PropertyRef Name="PID"/></Key><Property Name="PID" Type="Edm.Int32" Nullable="false"/>
<NavigationProperty Name="Es" Relationship="Sim.APE" FromRole="pe" ToRole="ep"/><NavigationProperty Name="Ms" Relationship="Sim.APM" FromRole="pm" ToRole="mp"/></EntityType>
<Association Name="APE"><End Role="pe" Type="Sim.TP" Multiplicity="0..1"/><End Role="ep" Type="Sim.TE" Multiplicity="*"/></Association>
<Association Name="APM"><End Role="pm" Type="Sim.TP" Multiplicity="*"/><End Role="mp" Type="Sim.TM" Multiplicity="*"/></Association>
''' % {'p': PROPS} + odlib.TAIL

KEYS = {'E': ['ID'], 'M': ['ID', 'K'], 'S': ['K']}
NAVS = {'E': 'Es', 'M': 'Ms'}
server = client = core = None


def setup():
    global server, client, core
    sqllib.setup()
    odlib.load(XML)
    odlib.load(XML + '\n')
    import pyslet.odata2.server as m
    import pyslet.odata2.client as c
    import pyslet.odata2.core as k
    import logging
    server, client, core = m, c, k
    m.traceback = Quiet()
    boot.warm_xml()
    hu.setup()
    for x in ("null", "'a'", "1L", "datetime'2012-01-01T00:00:00'", "X'00'"):
        k.Parser(x).ParseURILiteral()
    for x in FILTERS:
        k.CommonExpression.FromString(x)
    for x in ORDERS:
        k.CommonExpression.OrderByFromString(x)
    logging.disable(logging.CRITICAL)
    import SimTrace
    SimTrace.skip('unicode5')


class Quiet(object):
    def print_exception(self, *a, **k):
        pass

    def format_exception(self, *a):
        return []


def lowest(v):
    return (v is not None, v)


ORDERS = {'ID': lambda r: r['ID'], 'K': lambda r: r['K'], 'A': lambda r: r['A'], 'S': lambda r: r['S'], 'F': lambda r: r['F'], 'D': lambda r: r['D'], 'B': lambda r: r['B'], 'L': lambda r: r['L'], 'G': lambda r: r['G'],
          'tolower(S)': lambda r: r['S'] and r['S'].lower() if r['S'] is not None else None, 'A add 1': lambda r: None if r['A'] is None else r['A'] + 1,
          'length(S)': lambda r: None if r['S'] is None else len(r['S'])}
FILTERS = {'A gt 1': lambda r: r['A'] is not None and r['A'] > 1, 'A lt 100 and A ge 0': lambda r: r['A'] is not None and 0 <= r['A'] < 100,
           "S gt 'a'": lambda r: r['S'] is not None and r['S'] > 'a', 'L ge 0': lambda r: r['L'] is not None and r['L'] >= 0}
STRINGS = ['', 'a', 'ab', 'A', 'b', "o'e", 'x,y', 'a b', u'\xe9', 'a%b', 'a&b=c', '100', "''", "','", u'\u4e2d', 'null', '+']
LONG = ['z' * 600, 'z' * 513, 'y' * 512, 'a' * 700]


def val(rng, n, long_):
    if rng.random() < 0.2:
        return None
    if n == 'A':
        return rng.choice([0, 1, 2, 3, 7])
    if n == 'S':
        return rng.choice(LONG if long_ and rng.random() < 0.5 else STRINGS)
    if n == 'F':
        return rng.choice([0.0, 1.5, -2.25, 0.1, 1.0 / 3, 1e300, 1e-300, 123456789.123456789, 3.141592653589793, -0.1])
    if n == 'D':
        return rng.choice(['2012-01-01T00:00:00', '2012-01-01T00:00:01', '2012-01-01T00:00:00.5', '2012-01-01T00:00:00.123456', '1999-12-31T23:59:59', '2060-02-29T12:00:00'])
    if n == 'B':
        return rng.random() < 0.5
    if n == 'L':
        return rng.choice([0, 1, -1, 2 ** 40, -2 ** 40, 2 ** 62])
    return '00000000-0000-0000-0000-00000000000%d' % rng.randrange(3)


def row(rng, s, n, long_):
    r = dict((p, val(rng, p, long_)) for p in 'ASFDBLG')
    if 'ID' in KEYS[s]:
        r['ID'] = n if s == 'E' else n // 3
    if 'K' in KEYS[s]:
        r['K'] = ('abc'[n % 3] if s == 'M' else rng.choice(STRINGS[:8]) + 'k%d' % n + (rng.choice(LONG) if long_ and rng.random() < 0.3 else '')[:600])
    return r


def generate(rng, tier):
    s = rng.choice(['E', 'E', 'M', 'S'])
    store = rng.choice(['mem', 'sql', 'sql', 'sql'])
    via = rng.choice(['direct', 'direct', 'server', 'client'])
    n = rng.choice([0, 1, 2, 3, 5, 7, 10, 14])
    change = rng.random() < 0.45
    long_ = rng.random() < 0.15 and not change
    ids = range(n + 8)
    rng.shuffle(ids)
    rows = [row(rng, s, i, long_) for i in ids[:n]]
    nav = s in NAVS and rng.random() < 0.35
    for r in rows:
        r['in'] = not nav or rng.random() < 0.7
    names = [o for o in ORDERS if o not in ('ID', 'K') or o in KEYS[s]]
    names.sort()
    order = [[rng.choice(names), rng.choice([1, 1, -1])] for i in range(rng.choice([0, 1, 1, 2, 3]))]
    top, tm = rng.choice([None, 1, 2, 3, 5, 20]), rng.choice([None, 1, 2, 3, 4, 20])
    if via == 'direct':
        style = rng.choice(['auto', 'auto', 'token', 'token', 'skip', 'first'])
    elif via == 'server':
        style = rng.choice(['links', 'links', 'links', 'skip'])
    else:
        style = rng.choice(['iter', 'auto', 'auto', 'skip', 'token'])
    if style in ('token', 'first'):
        top = None if style == 'token' else top
        tm = tm or 3
    if style == 'skip':
        top = top or 2
        tm = None
    if style == 'auto' and top is None and tm is None:
        top = 2
    if tm is None and via != 'direct':
        tm = 100
    if change and store == 'mem':
        # only changes after the current page of a total order
        order = (order + [[k, 1] for k in KEYS[s]])
    if change and (style == 'skip' or style == 'auto' and (not tm or top is not None and top <= tm) or style == 'first'):
        change = False      # such pages are counted from the start
    if change and style == 'links':
        top = None      # how many there are depends on the changes
    changes = []
    threads = 0
    if change:
        extra = ids[n:]
        threads = rng.choice([0, 0, 1, 2]) if store == 'sql' and via == 'direct' else 0
        if threads:
            tm = rng.choice([1, 2, 3])
        for i in range(rng.choice([1, 2, 4, 6])):
            k = rng.choice(['insert', 'delete', 'update'])
            c = dict(at=rng.randrange(1, 6), op=k, t=rng.randrange(threads) if threads else None)
            if k == 'insert':
                if not extra:
                    continue
                c['row'] = row(rng, s, extra.pop(), False)
                c['row']['in'] = True
            elif rows:
                c['i'] = rng.randrange(n)
                if k == 'update':
                    c['row'] = dict((p, val(rng, p, False)) for p in 'ASFDBLG')
            else:
                continue
            changes.append(c)
    faults = []
    if rng.random() < 0.4:
        faults = [[rng.choice([0, 0, 1, 1, 2, 3]), rng.choice(['execute', 'fetch', 'memory', 'abandon', 'restart', 'restart']), rng.choice([1, 1, 1, 2, 3])] for i in range(rng.choice([1, 1, 2, 3]))]
    return dict(s=s, store=store, via=via, rows=rows, nav=nav, order=order, filter=rng.choice([None, None, None] + sorted(FILTERS)), top=top, tm=tm, style=style, skip=rng.choice([0, 0, 0, 1, 3]) if not changes and style != 'iter' else 0,
                fresh=rng.random() < 0.5, changes=changes, threads=threads, faults=faults, json=rng.random() < 0.2 and style != 'links')


SHRINK = ['rows', 'changes', 'order', 'faults']


def simplify(plan):
    for k, v in (('filter', None), ('skip', 0), ('fresh', False), ('nav', False), ('json', False), ('threads', 0)):
        if plan[k] != v:
            p = dict(plan)
            p[k] = v
            if k == 'threads':
                p['changes'] = [dict(c, t=None) for c in plan['changes']]
            if k == 'nav':
                p['rows'] = [dict(r, **{'in': True}) for r in plan['rows']]
            yield p
    for i, r in enumerate(plan['rows']):
        for n in 'ASFDBLG':
            if r[n] is not None:
                p = dict(plan, rows=[dict(x) for x in plan['rows']])
                p['rows'][i][n] = None
                yield p


def key(s, r):
    k = tuple(r[n] for n in KEYS[s])
    return k if len(k) > 1 else k[0]


class Desc(object):
    def __init__(self, v):
        self.v = v

    def __cmp__(self, o):
        return -cmp(self.v, o.v)

    def __repr__(self):
        return '-%r' % (self.v,)


def sortkey(plan, r, total):
    k = []
    for e, d in plan['order']:
        v = lowest(norm(e, ORDERS[e](r)))
        k.append(v if d > 0 else Desc(v))
    if total:
        k += [r[n] for n in KEYS[plan['s']]]
    return k


def norm(e, v):
    if e == 'D' and v is not None:
        v = (v + '.000000' if '.' not in v else v + '0' * 6)[:26]
    return v


class World(object):

    def __init__(self, plan, env, sim):
        self.plan, self.env, self.sim = plan, env, sim
        self.sql = plan['store'] == 'sql'
        self.doc = odlib.load(XML + ('\n' if self.sql else ''))
        self.sets = self.doc.root.DataServices.defaultContainer
        self.path = sqllib.fresh('main.db') if self.sql else None
        self.cont = None
        self.start()
        if self.sql:
            self.cont.CreateAllTables()
        with self.sets['P'].OpenCollection() as c:
            e = c.NewEntity()
            e.SetKey(0)
            c.InsertEntity(e)
        for r in plan['rows']:
            self.insert(r)
        self.app = server.Server('http://host.example/svc')
        self.app.topmax = plan['tm'] or 100
        self.app.SetModel(self.doc)
        self.fault = None

    def start(self):
        if self.sql:
            self.cont = sqllib.container(self.doc, self.path, maxConnections=5, sqlite_options={'timeout': 0.2})
        elif self.cont is None:
            self.cont = odlib.container(self.doc)

    def restart(self):
        if self.sql:
            self.cont.close()
            self.start()
            self.env.fault('restart')

    def hook(self, when, conn, op, n, sql):
        f = self.fault
        if f and when == 'before' and self.sim.cur is f[2] and (f[0] == op or f[0] == 'memory' and op == 'execute'):
            f[1] -= 1
            if f[1] == 0:
                self.env.fault('%s error' % f[0])
                if f[0] == 'memory':
                    raise MemoryError('simulated')
                raise sqllib.simsql.OperationalError('simulated error in ' + op)

    def fill(self, e, r):
        for n in 'ASFDBLG':
            v = r[n]
            if v is None:
                e[n].SetFromValue(None)
            elif n in 'DG':
                e[n].SetFromLiteral(v)
            else:
                e[n].SetFromValue(v)

    def insert(self, r):
        s = self.plan['s']
        with self.sets[s].OpenCollection() as c:
            e = c.NewEntity()
            e.SetKey(key(s, r))
            self.fill(e, r)
            if self.plan['nav'] and r['in']:
                e['Up' if s == 'E' else 'Ups'].BindEntity(0)
            c.InsertEntity(e)

    def change(self, c):
        s = self.plan['s']
        if c['op'] == 'insert':
            self.insert(c['row'])
        else:
            k = key(s, self.plan['rows'][c['i']])
            with self.sets[s].OpenCollection() as coll:
                if c['op'] == 'delete':
                    if not self.sql and self.plan['nav']:
                        pass
                    del coll[k]
                else:
                    e = coll[k]
                    self.fill(e, c['row'])
                    coll.UpdateEntity(e)

    def call(self, target, headers=()):
        path, q, query = target.partition('?')
        environ = {'REQUEST_METHOD': 'GET', 'SCRIPT_NAME': '', 'PATH_INFO': urllib.unquote(path), 'SERVER_NAME': 'host.example', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1',
                   'wsgi.input': hu.Stream(''), 'CONTENT_LENGTH': '0', 'QUERY_STRING': query}
        for k, v in headers:
            environ['HTTP_' + k.upper().replace('-', '_')] = v
        got = []
        body = ''.join(self.app(environ, lambda s, h, x=None: got.append((s, h))))
        self.sim.log(target, got[0][0])
        if self.plan.get('trace'):
            sys.stderr.write('%s -> %s %s\n' % (target, got[0][0], body[-300:]))
        return int(got[0][0][:3]), got[0][1], body


class Failed(Exception):
    pass


def target(plan):
    base = '/svc/P(0)/' + NAVS[plan['s']] if plan['nav'] else '/svc/' + plan['s']
    q = []
    if plan['filter']:
        q.append('$filter=' + urllib.quote(plan['filter']))
    if plan['order']:
        q.append('$orderby=' + urllib.quote(','.join(e + (' desc' if d < 0 else '') for e, d in plan['order'])))
    return base, q


class Direct(object):
    """Pages through a collection of the store or of the client."""

    def __init__(self, w, sets, isclient=False):
        self.w, self.sets, self.isclient = w, sets, isclient
        self.c = None

    def open(self):
        plan = self.w.plan
        if self.c is not None:
            return
        self.outer = None
        if plan['nav']:
            with self.sets['P'].OpenCollection() as cp:
                e = cp[0]
            self.c = e[NAVS[plan['s']]].OpenCollection()
        else:
            self.c = self.sets[plan['s']].OpenCollection()
        if plan['filter']:
            self.c.Filter(core.CommonExpression.FromString(plan['filter']))
        if plan['order']:
            self.c.OrderBy(core.CommonExpression.OrderByFromString(','.join(e + (' desc' if d < 0 else '') for e, d in plan['order'])))
        if plan['tm'] and not self.isclient:
            self.c.TopMax(plan['tm'])
        self.first = True

    def close(self):
        if self.c is not None:
            self.c.close()
            self.c = None

    def page(self, n, f, total):
        """Page number n; the result is (entities, more)."""
        plan = self.w.plan
        st = plan['style']
        fresh = st in ('token', 'skip') and plan['fresh']
        if fresh or self.c is None:
            self.close()
            self.open()
        if st == 'auto':
            if self.first:
                self.c.SetPage(plan['top'], plan['skip'])
                self.first = False
            it = self.c.iterpage(True)
        elif st == 'token':
            if n == 0:
                self.token = None
            if n == 0:
                self.c.SetPage(None, plan['skip'])
            else:
                self.c.SetPage(None, None if n % 2 and self.isclient else 0, self.token)
            it = self.c.iterpage()
        elif st == 'skip':
            self.c.SetPage(plan['top'], plan['skip'] + total)
            it = self.c.iterpage()
        elif st == 'first':
            self.c.SetPage(plan['top'], plan['skip'])
            it = self.c.iterpage()
        else:
            it = self.c.itervalues()
        r = []
        for e in it:
            r.append(e)
            if f and f[1] == 'abandon' and len(r) >= f[2]:
                self.w.env.fault('page abandoned')
                if hasattr(it, 'close'):
                    it.close()
                raise Failed()
        more = True
        if st == 'auto':
            more = bool(r)
        elif st == 'token':
            self.token = self.c.NextSkipToken()
            if plan['fresh'] and self.token is not None:
                self.token = str(self.token.encode('utf-8')).decode('utf-8')
            more = self.token is not None
        elif st == 'skip':
            more = bool(r)
        else:
            more = False
        return [ident(self.w.plan['s'], e) for e in r], more


def ident(s, e):
    r = {}
    for n in list(KEYS[s]) + list('ASFDBLG'):
        v = e[n].value
        if v is not None and n == 'D':
            v = unicode(e[n])
        elif v is not None and n == 'G':
            v = str(v)
        r[n] = v
    return r


class Http(object):
    """Follows the links of the server's feeds."""

    def __init__(self, w):
        self.w = w
        self.url = None

    def close(self):
        pass

    def page(self, n, f, total):
        plan = self.w.plan
        base, q = target(plan)
        q = list(q)
        if plan['style'] == 'skip':
            q += ['$top=%d' % plan['top'], '$skip=%d' % (plan['skip'] + total)]
        else:
            if plan['top'] is not None:
                q.append('$top=%d' % plan['top'])
            if plan['skip']:
                q.append('$skip=%d' % plan['skip'])
        url = base + ('?' + '&'.join(q) if q else '')
        if n and plan['style'] == 'links':
            url = self.url
        st, hs, body = self.w.call(url, [('Accept', 'application/json' if plan['json'] else 'application/atom+xml')])
        if st != 200:
            if st >= 500 and self.w.fault and self.w.fault[1] <= 0:
                raise Failed()
            self.w.env.violation('request failed', '%s answered %d %s' % (url, st, body[:300]))
            return [], False
        if plan['json']:
            d = json.loads(body)['d']
            d = d['results'] if isinstance(d, dict) else d
            r = [dict((k, e[k]) for k in KEYS[plan['s']]) for e in d]
            return r, bool(r)
        doc = core.Document(baseURI='http://host.example' + url)
        doc.Read(src=body)
        r = []
        for x in doc.root.Entry:
            e = core.Entity(self.w.sets[plan['s']])
            e.exists = True
            x.GetValue(e)
            r.append(ident(plan['s'], e))
        self.url = None
        for l in doc.root.Link:
            if l.rel == 'next':
                self.url = str(l.ResolveURI(l.href)).replace('http://host.example', '', 1)
        if plan['style'] == 'skip':
            return r, bool(r)
        return r, self.url is not None


def execute(plan, env):
    edm, simsql = odlib.edm, sqllib.simsql
    simsql.world.reset()
    sim = env.make_sim(max_time=7200.0, trace=bool(plan['threads']))
    state = dict(done=0, start=None, end=None)
    touched = {}     # key: list of changes made or tried
    out = []

    def main():
        w = World(plan, env, sim)
        state['w'] = w
        simsql.world.hook = w.hook
        if plan['via'] == 'server':
            pager = Http(w)
        elif plan['via'] == 'client':
            class Client(client.Client):
                def ProcessRequest(self, request, timeout=60):
                    st, hs, body = w.call(str(request.requestURI).replace('http://host.example', '', 1), [(k, str(request.GetHeader(k))) for k in request.GetHeaderList()])
                    request.status = st
                    request.response = hu.rfc2616.HTTPResponse(request)
                    for k, v in hs:
                        request.response.SetHeader(k, v)
                    request.resBody = body
            c = Client('http://host.example/svc/')
            pager = Direct(w, c.feeds, True)
        else:
            pager = Direct(w, w.sets)
        changes = list(plan['changes'])

        def make(c):
            s = plan['s']
            k = key(s, c['row'] if c['op'] == 'insert' else plan['rows'][c['i']])
            touched.setdefault(k, []).append(c['op'])
            try:
                w.change(c)
                env.probe('change ' + c['op'])
            except KeyError:
                pass
            except Exception, e:
                if isinstance(e, (dst.SimExit, dst.HarnessError)):
                    raise
                if plan['threads'] and 'lock' in str(e):
                    env.probe('locked')
                    return
                env.exc_violation('unexpected', sys.exc_info(), repr(c))

        def writer(t):
            for c in changes:
                if c['t'] == t:
                    sim.sleep(c['at'] * 0.01)
                    make(c)
            state['done'] += 1
        for t in range(plan['threads']):
            sim.spawn(lambda t=t: writer(t), 'w%d' % t)
        n = total = tries = 0
        faults = list(plan['faults'])
        limit = len(plan['rows']) + len(changes) + 4
        while n < limit:
            f = [x for x in faults if x[0] == n]
            f = f[0] if f else None
            if f:
                faults.remove(f)
                if f[1] == 'restart':
                    if plan['style'] in ('token', 'skip', 'links') and w.sql and not plan['threads']:
                        if plan['via'] != 'client':
                            pager.close()
                        w.restart()
                elif f[1] != 'abandon':
                    w.fault = [f[1], f[2], sim.cur]
            try:
                r, more = pager.page(n, f, total)
            except Failed:
                tries += 1
                continue
            except (sqllib.sqlds.SQLError, simsql.Error, MemoryError, client.UnexpectedHTTPResponse), e:
                if 'locked' in str(e):
                    env.probe('page locked')
                elif not (w.fault and w.fault[1] <= 0):
                    env.exc_violation('unexpected', sys.exc_info(), 'page %d' % n)
                    return
                w.fault = None
                tries += 1
                if tries > 40:
                    env.violation('no progress', 'page %d cannot be read' % n)
                    return
                continue
            except Exception, e:
                if isinstance(e, (dst.SimExit, dst.HarnessError)):
                    raise
                env.exc_violation('unexpected', sys.exc_info(), 'page %d' % n)
                return
            if env.viol:
                return
            w.fault = None
            size = [x for x in (plan['top'], plan['tm']) if x is not None]
            if plan['style'] not in ('iter',) and size and len(r) > min(size) and not plan['json']:
                env.violation('page too large', 'page %d has %d entities, limits %r' % (n, len(r), size))
                return
            sim.log(n, [key(plan['s'], x) for x in r])
            out.append(r)
            n += 1
            total += len(r)
            env.probe('pages')
            if not more:
                break
            if plan['threads']:
                sim.sleep(0.01)
            else:
                for c in changes:
                    if c['at'] == n:
                        if not w.sql and not after(plan, c, r):
                            continue
                        make(c)
        else:
            env.violation('endless paging', '%d pages: %r' % (n, [[key(plan['s'], x) for x in r] for r in out][:12]))
            return
        # paging ends for good
        if plan['style'] == 'auto':
            r, more = pager.page(n, None, total)
            if (r or more) and not plan['threads'] and plan['via'] != 'client':
                env.violation('pages after the end', repr(r))
        pager.close()
        while state['done'] < plan['threads']:
            sim.sleep(0.1)
            if sim.now() > 600:
                env.violation('no progress', 'writers wait')
                return
        if w.sql:
            w.cont.close()
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
    simsql.world.reset()
    if env.viol:
        return
    s = plan['s']
    rows = dict((key(s, r), r) for r in plan['rows'] if r['in'] and (not plan['filter'] or FILTERS[plan['filter']](r)))
    allrows = dict((key(s, r), r) for r in plan['rows'])
    want = sorted(rows.values(), key=lambda r: sortkey(plan, r, True))
    got = [x for r in out for x in r]
    gk = [key(s, x) for x in got]
    what = '%s %s %s %s order %r filter %r top %r topmax %r skip %r' % (plan['store'], plan['via'], plan['style'], s, plan['order'], plan['filter'], plan['top'], plan['tm'], plan['skip'])
    pages = [[key(s, x) for x in r] for r in out]
    if not touched:
        exp = [key(s, r) for r in want]
        lo = plan['skip']
        hi = len(exp)
        if plan['style'] == 'first':
            hi = lo + min([x for x in (plan['top'], plan['tm']) if x is not None])
        elif plan['style'] == 'links' and plan['top'] is not None:
            hi = lo + plan['top']
        det = plan['store'] == 'sql' and (plan['order'] or True)
        n = len(exp[lo:hi])
        if len(gk) != n or len(set(gk)) != len(gk) or [k for k in gk if k not in rows]:
            env.violation('entities missed or repeated', '%s: pages %r, expected %r' % (what, pages, exp[lo:hi]))
        elif det and plan['order'] and gk != exp[lo:hi]:
            env.violation('wrong order', '%s: pages %r, expected %r' % (what, pages, exp[lo:hi]))
        elif [sortkey(plan, rows[k], False) for k in gk] != [sortkey(plan, r, False) for r in want[lo:hi]]:
            env.violation('wrong order', '%s: pages %r, expected like %r' % (what, pages, exp[lo:hi]))
        if not plan['json']:
            for x in got:
                y = rows.get(key(s, x), x)
                if plan['via'] != 'direct' and x['F'] is not None and y['F'] is not None and abs(x['F'] - y['F']) <= abs(y['F']) * 1e-11:
                    x['F'] = y['F']     # the text form of a double has fewer digits
                bad = [n for n in 'ASFDBLG' if norm(n, x[n]) != norm(n, y[n])]
                if bad:
                    env.violation('wrong value', '%s: %r instead of %r' % (what, [(n, x[n]) for n in bad], [(n, rows[key(s, x)][n]) for n in bad]))
                    break
    else:
        for k in set(gk):
            if gk.count(k) > 1 and 'update' not in touched.get(k, ()):
                env.violation('entities missed or repeated', '%s: %r is repeated; changes %r, pages %r' % (what, k, touched, pages))
            elif k not in rows and k not in touched:
                env.violation('entities missed or repeated', '%s: %r does not belong; pages %r' % (what, k, pages))
        still = [key(s, r) for r in want if key(s, r) not in touched]
        seen = [k for k in gk if k in still]
        if set(seen) != set(still):
            env.violation('entities missed or repeated', '%s: %r is missed; changes %r, pages %r' % (what, [k for k in still if k not in seen], touched, pages))
        elif [sortkey(plan, rows[k], False) for k in seen] != [sortkey(plan, rows[k], False) for k in still]:
            env.violation('wrong order', '%s: pages %r, expected %r' % (what, pages, still))
        env.probe('changed')
    env.stat('entities', len(got))
    env.probe('%s %s %s' % (plan['store'], plan['via'], plan['style']))


def after(plan, c, page):
    """Whether a change concerns only what comes after this page."""
    if not page or plan['json']:
        return False
    last = sortkey(plan, page[-1], True)
    if c['op'] == 'insert':
        return sortkey(plan, c['row'], True) > last
    r = plan['rows'][c['i']]
    if sortkey(plan, r, True) <= last:
        return False
    return c['op'] == 'delete' or sortkey(plan, dict(r, **c['row']), True) > last
