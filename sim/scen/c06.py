"""C06: redirects and credentials over several origins, from several threads sharing one manager."""
import boot
import base64
from httpsim import Server, Response, body_for
import simnet
import httputil as hu

ORIGINS = [('http', 'h0.example', 80), ('http', 'h0.example', 8080), ('https', 'h0.example', 443), ('http', 'h1.example', 80),
           ('https', 'h1.example', 8443)]
PATHS = ['/', '/a', '/ab', '/a/', '/a/b', '/a/b/c', '/a/bc', '/b', '/b/c', '/a/../b', '/a/./b', '/a/b/../c', '/A', '/b/a', '/b/a/b', '/a/b/']
REALMS = ['x', 'y', 'two words']


def setup():
    boot.install()
    hu.setup()
    import pyslet.rfc2617
    import pyslet.rfc2396


def generate(rng, tier):
    norg = rng.choice([1, 2, 2, 3, 5])
    orgs = sorted(rng.sample(range(5), norg))
    pages = []
    npg = rng.choice([2, 3, 4, 6, 8])
    seen = set()
    nrealm = rng.choice([1, 1, 2, 3])
    for i in range(npg):
        o, p = rng.choice(orgs), rng.choice(PATHS)
        if (o, p) in seen:
            continue
        seen.add((o, p))
        pages.append(dict(o=o, p=p, auth=rng.choice(REALMS[:nrealm]) if rng.random() < 0.55 else None, kind='final', to=0, st=rng.choice([200, 200, 404, 201]),
                          n=rng.choice([0, 10, 300]), fr=rng.choice(['cl', 'chunked']), close=rng.random() < 0.15, early=rng.random() < 0.15,
                          delay=rng.choice([0.0, 0.0, 0.01, 0.5]), form=rng.choice(['abs', 'abs', 'port', 'rel', 'upper'])))
    for i, p in enumerate(pages):
        if i + 1 < len(pages) and rng.random() < 0.4:
            p['kind'] = 'redir'
            p['to'] = rng.randrange(i + 1, len(pages))
            p['st'] = rng.choice([301, 301, 302, 302, 307])
    creds = []
    for k in range(rng.choice([0, 1, 1, 2, 3, 4])):
        o = rng.choice(orgs)
        auths = [p['auth'] for p in pages if p['o'] == o and p['auth']]
        realm = rng.choice(auths) if auths and rng.random() < 0.8 else rng.choice(REALMS)
        creds.append(dict(o=o, realm=realm, anyrealm=rng.random() < 0.3, ok=rng.random() < 0.75, k=k))
    nt = rng.choice([1, 1, 2, 3])
    hows = rng.choice([['process'], ['queue', 'process', 'process']])
    ops = []
    rid = 0
    for t in range(nt):
        for k in range(rng.choice([1, 2, 3, 4, 6])):
            m = rng.choice(['GET', 'GET', 'GET', 'HEAD', 'PUT', 'POST', 'DELETE'])
            ops.append(dict(t=t, id=rid, m=m, pg=rng.randrange(len(pages)), body=rng.choice([5, 100, 6000]) if m in ('PUT', 'POST') else 0,
                            stream=rng.random() < 0.5, chunked=rng.random() < 0.3, sink=rng.random() < 0.3, how=rng.choice(hows)))
            rid += 1
    return dict(nt=nt, pages=pages, creds=creds, ops=ops, seg=rng.choice([None, None, 5, 100]), lat=rng.choice([0.0, 0.001, 0.05]),
                send=rng.choice([None, None, 200]), remove=rng.random() < 0.1)


SHRINK = ['ops', 'creds']


def url_of(o, path, form='abs'):
    s, h, p = ORIGINS[o]
    d = {'http': 80, 'https': 443}[s]
    if form == 'upper':
        h = h.upper()
    if p != d or form == 'port':
        h = '%s:%d' % (h, p)
    return '%s://%s%s' % (s, h, path)


def segs(path):
    """Path segments with dot segments resolved (RFC 2396 5.2)."""
    out = []
    parts = path.split('/')[1:]
    for i, s in enumerate(parts):
        last = i == len(parts) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return out


def below(path, p):
    """path is at or below p"""
    a, b = segs(path), segs(p)
    if b and b[-1] == '':
        return len(a) >= len(b) and a[:len(b) - 1] == b[:-1]
    return a[:len(b)] == b


def execute(plan, env):
    sim = env.make_sim(max_time=3600.0)
    net = hu.network(sim, env, plan)
    import pyslet.rfc2617 as rfc2617
    import pyslet.rfc2396 as uri
    pages = plan['pages']
    bykey = {}
    for i, p in enumerate(pages):
        bykey[(p['o'], str(p['p']))] = i
    good = {}
    for p in pages:
        if p['auth']:
            good[(p['o'], p['auth'])] = 'u%d:pw-%d-%s' % (p['o'], p['o'], p['auth'].replace(' ', '_'))
    creds = {}

    def passwd(c):
        if c['ok']:
            return good.get((c['o'], c['realm']), 'u%d:pw-%d-%s' % (c['o'], c['o'], c['realm'].replace(' ', '_')))
        return 'u%d:bad-%d' % (c['o'], c['k'])
    clist = []
    for c in plan['creds']:
        if passwd(c) in creds:
            continue
        creds[passwd(c)] = c
        clist.append(c)
    byid = dict((o['id'], o) for o in plan['ops'])
    seq = not [o for o in plan['ops'] if o['how'] == 'queue']  # a pipelined request is lost with a connection that closes
    visits = {}             # request id -> [(page, creds string or None, status, request)]
    success = []            # (creds string, origin, path, time the response was produced)
    exposed = []            # every request with an Authorization header

    def answer(o, req):
        rid = int(req.header('X-Req'))
        op = byid[rid]
        pi = bykey.get((o, req.target))
        if pi is None:
            env.violation('wrong target', 'request %d: %r at origin %d' % (rid, req.target, o))
            return Response(status=404, framing='cl')
        p = pages[pi]
        a = req.header('Authorization')
        up = None
        if a is not None:
            try:
                up = base64.b64decode(a.split(' ', 1)[1])
            except Exception:
                up = a
        v = visits.setdefault(rid, [])
        justified(rid, op, o, p, pi, up, v, req)
        if p['auth'] and up != good[(o, p['auth'])]:
            st = 401
            hs = [('WWW-Authenticate', 'Basic realm="%s"' % p['auth'])]
            body = 'denied %d' % rid
        elif p['kind'] == 'redir':
            st = p['st']
            to = pages[p['to']]
            loc = url_of(to['o'], to['p'], p['form'])
            if p['form'] == 'rel':
                loc = str(to['p']) if to['o'] == o else url_of(to['o'], to['p'])
            hs = [('Location', loc)]
            body = 'moved %d' % rid
        else:
            st = p['st']
            hs = []
            body = body_for('page%d-%d' % (pi, rid), p['n'])
        v.append((pi, up, st, req))
        if up is not None and st != 401:
            success.append((up, o, req.target, sim.now()))
        return Response(status=st, reason='R%d' % st, headers=[('X-Id', str(rid))] + hs, body=body, framing=str(p['fr']), delay=p['delay'],
                        close=p['close'] and seq, chunks=[7, 100])

    def justified(rid, op, o, p, pi, up, v, req):
        if v and v[-1][0] == pi and v[-1][2] != 401:
            env.violation('hop repeated', 'request %d asked for page %d again after status %d' % (rid, pi, v[-1][2]))
        if v and v[-1][0] == pi and up is None:
            env.violation('hop repeated', 'request %d asked for page %d again without credentials' % (rid, pi))
        if not v and pi != op['pg']:
            env.violation('wrong target', 'request %d started at page %d' % (rid, pi))
        if v and v[-1][0] != pi:
            w = pages[v[-1][0]]
            if v[-1][2] != w['st'] or w['kind'] != 'redir' or w['to'] != pi:
                env.violation('wrong hop', 'request %d went from page %d (status %d) to page %d' % (rid, v[-1][0], v[-1][2], pi))
        if up is None:
            return
        c = creds.get(up)
        if c is None:
            env.violation('unknown credentials', 'request %d sent %r' % (rid, up))
            return
        if c['o'] != o:
            env.violation('credentials leaked', 'request %d sent the credentials of %s to %s' % (rid, url_of(c['o'], ''), url_of(o, req.target)))
            return
        if len([1 for x in v if x[0] == pi and x[1] == up]) >= 2:
            env.violation('rejected credentials sent again and again', 'request %d page %d' % (rid, pi))
        if v and v[-1][0] == pi and v[-1][2] == 401 and (c['anyrealm'] or c['realm'] == p['auth']):
            env.probe('challenge_answered')
            return
        for s in success:
            if s[0] == up and s[1] == o and below(req.target, s[2]) and s[3] <= sim.now():
                env.probe('preemptive')
                return
        env.violation('credentials sent unasked', 'request %d sent the credentials for realm %s to %s, successes %r' % (
            rid, c['realm'], url_of(o, req.target), [s[2] for s in success if s[0] == up]))

    def on_head(o):
        def head(req):
            pi = bykey.get((o, req.target))
            if pi is not None and pages[pi]['early'] and (req.header('Content-Length') or req.header('Transfer-Encoding')) and req.method in ('PUT', 'POST'):
                env.probe('early_answer')
                r = answer(o, req)
                r.close = False
                r.delay = 0.0
                return r
            return None
        return head
    for o in set(p['o'] for p in pages):
        s, h, port = ORIGINS[o]
        srv = Server(net, env, 'o%d' % o, lambda req, o=o: answer(o, req), seg=plan['seg'], rnd=plan['rnd'], on_head=on_head(o))
        net.listen(h, port, srv)
        net.hosts[h.upper()] = net.hosts[h]
    manager = hu.manager(env, 100)
    for c in clist:
        bc = rfc2617.BasicCredentials()
        bc.userid, bc.password = [str(x) for x in passwd(c).split(':')]
        bc.protectionSpace = uri.URIFactory.URI(url_of(c['o'], '/')).GetCanonicalRoot()
        bc.realm = None if c['anyrealm'] else str(c['realm'])
        manager.AddCredentials(bc)
    results = {}

    def thread(t):
        for o in [o for o in plan['ops'] if o['t'] == t]:
            p = pages[o['pg']]
            r = hu.Req(env, url_of(p['o'], str(p['p'])), o)
            r.SetHeader('X-Req', str(o['id']))
            results[o['id']] = r
            if o['how'] == 'process':
                manager.ProcessRequest(r)
            else:
                manager.QueueRequest(r)
        manager.ThreadLoop()
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    # what may be removed although right: a credential that answers a challenge where it is wrong
    for rid, r in sorted(results.items()):
        o = byid[rid]
        v = visits.get(rid, [])
        if not r.done or r.status == 0 or r.error:
            env.violation('failed', 'request %d: done %s status %s error %s after %r' % (rid, r.done, r.status, r.error, [x[:3] for x in v]))
            continue
        if not v:
            env.violation('not sent', 'request %d' % rid)
            continue
        pi, up, st, last = v[-1]
        p = pages[pi]
        # the chain must have ended for a reason
        if st == 401:
            right = [c for c in clist if c['o'] == p['o'] and (c['anyrealm'] or c['realm'] == p['auth']) and passwd(c) == good[(p['o'], p['auth'])]]
            spoilt = [c for c in right if c['anyrealm'] and [q for q in pages if q['o'] == p['o'] and q['auth'] and q['auth'] != c['realm']]]
            if right and not spoilt:
                env.violation('challenge not answered', 'request %d ended with 401 at %s although credentials for realm %r are there; %r'
                              % (rid, url_of(p['o'], p['p']), p['auth'], [x[:3] for x in v]))
            env.probe('ended_401')
        elif p['kind'] == 'redir':
            if st != 302 or o['m'] in ('GET', 'HEAD'):
                env.violation('redirect not followed', 'request %d (%s) ended with %d' % (rid, o['m'], st))
            env.probe('302_not_followed')
        for x in v[:-1]:
            if pages[x[0]]['kind'] == 'redir' and x[2] == 302 and o['m'] not in ('GET', 'HEAD'):
                env.violation('302 followed', 'request %d (%s)' % (rid, o['m']))
            if x[2] in (301, 302, 307):
                env.probe('hop')
        # the answer is the last one and nothing else
        if r.status != st:
            env.violation('status', 'request %d: %s, last hop answered %d' % (rid, r.status, st))
        body = 'denied %d' % rid if st == 401 else 'moved %d' % rid if p['kind'] == 'redir' else body_for('page%d-%d' % (pi, rid), p['n'])
        if o['m'] == 'HEAD':
            body = ''
        got = r.sink.data if r.sink is not None else r.resBody
        if got != body:
            env.violation('response body', 'request %d: %r, expected %r; hops %r' % (rid, got[:60], body[:60], [x[:3] for x in v]))
        if r.response.reason != 'R%d' % st:
            env.violation('response identity', 'request %d' % rid)
        # every hop got the whole request
        want = hu.reqbody(o)
        for x in v:
            q = x[3]
            if q.method != o['m'] or q.bad:
                env.violation('request method', 'request %d: %s %s' % (rid, q.method, q.bad))
            if x is v[-1] and getattr(q, 'early', False) and not q.complete:
                continue
            if q.complete and q.body != want:
                env.violation('request body', 'request %d page %d: %d bytes of %d' % (rid, x[0], len(q.body), len(want)))
            if not q.complete and not getattr(q, 'early', False):
                env.violation('request body incomplete', 'request %d page %d' % (rid, x[0]))
            host = q.header('Host') or ''
            s, h, port = ORIGINS[pages[x[0]]['o']]
            if host.lower() not in (h, '%s:%d' % (h, port)) or (port not in (80, 443) and ':' not in host):
                env.violation('host header', 'request %d: %r at %s' % (rid, host, url_of(pages[x[0]]['o'], '')))
    env.stat('requests', len(results))
    env.stat('visits', sum(len(v) for v in visits.values()))
