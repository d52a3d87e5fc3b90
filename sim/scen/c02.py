"""C02: response bodies intact or failed, under segmentation, every framing and connection loss at every offset."""
import boot
import random
from httpsim import Server, Response, body_for
import simnet
import httputil as hu


def setup():
    boot.install()
    hu.setup()


def generate(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    reqs = []
    rid = 0
    for t in range(nt):
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            m = rng.choice(['GET', 'GET', 'GET', 'GET', 'HEAD', 'DELETE', 'POST', 'PUT'])
            r = hu.gen_response(rng, m, rid)
            r['interim'] = rng.choice([[], [], [], [100], [102], [100, 102]])
            r['ext'] = rng.choice(['', '', '', ';x=1', ' ;a="b c"'])
            r['hexup'] = rng.random() < 0.3
            r['zeros'] = rng.choice([0, 0, 0, 3])
            r['te_id'] = rng.random() < 0.05
            r['both'] = rng.random() < 0.1
            r['nohdr'] = rng.random() < 0.1
            if rng.random() < 0.45:
                # a cut, described relative to the response: (what, offset)
                r['cut'] = [rng.choice(['abs', 'abs', 'end', 'end', 'head']), rng.choice([0, 1, 2, 3, 4, 5, 7, 10, rng.randrange(60),
                                                                                  rng.randrange(400), rng.randrange(9000)])]
                r['cutkind'] = rng.choice(['eof', 'eof', 'rst'])
            reqs.append(dict(t=t, id=rid, m=m, body=rng.choice([0, 0, 17, 9000]) if m in ('POST', 'PUT') else 0,
                             stream=False, chunked=False, sink=rng.random() < 0.4, r=r,
                             v10=False))
            rid += 1
    return dict(nt=nt, ops=reqs, seg=rng.choice([None, None, 1, 2, 3, 9, 64, 700, 1460]), tls=rng.random() < 0.25,
                recv=rng.choice([None, None, None, 1, 3, 50]), coalesce=rng.choice([0.0, 0.3, 0.9]),
                lat=rng.choice([0.0, 0.001, 0.2]), pipeline=rng.random() < 0.7)


SHRINK = ['ops']


def simplify(plan):
    for k, v in (('seg', None), ('recv', None), ('coalesce', 0.0), ('tls', False), ('pipeline', False)):
        if plan[k] != v:
            p = dict(plan)
            p[k] = v
            yield p
    for i, o in enumerate(plan['ops']):
        r = o['r']
        for k, v in (('interim', []), ('ext', ''), ('fold', False), ('trailer', False), ('both', False)):
            if r.get(k) != v:
                ops = list(plan['ops'])
                ops[i] = dict(o, r=dict(r))
                ops[i]['r'][k] = v
                yield dict(plan, ops=ops)
        if r['n'] > 3:
            ops = list(plan['ops'])
            ops[i] = dict(o, r=dict(r, n=3))
            yield dict(plan, ops=ops)


def build(o):
    r = o['r']
    resp = hu.make_response(r, o['id'], o['m'])
    resp.chunkext = str(r.get('ext', ''))
    resp.hexup = r.get('hexup')
    resp.zeros = r.get('zeros', 0)
    if r.get('te_id') and resp.framing == 'cl':
        resp.headers.append(('Transfer-Encoding', 'identity'))
    if r.get('both') and resp.framing == 'chunked':
        resp.headers.append(('Content-Length', '%d' % max(0, len(resp.body) - 1)))
    if r.get('nohdr') and resp.framing == 'close':
        resp.close = None
    head, body = resp.bytes(o['m'])
    total = len(head) + len(body)
    if r.get('cut'):
        kind, n = r['cut']
        c = {'abs': n, 'end': total - n, 'head': len(head) - 5 + n}[kind]
        c = max(0, min(total, c))
        # a cut at the very end of a self delimiting response is a complete response
        resp.cut = c
        resp.cutkind = str(r['cutkind'])
    return resp, head, body, total


def execute(plan, env):
    sim = env.make_sim(max_time=3600.0)
    net = hu.network(sim, env, plan)
    byid = dict((o['id'], o) for o in plan['ops'])
    sent = {}

    def respond(req):
        o = byid[hu.rid(req)]
        sent[o['id']] = req
        return build(o)[0]
    server = Server(net, env, 'h0', respond, seg=plan['seg'], rnd=plan['rnd'], coalesce=plan['coalesce'])
    net.listen('h0.example', 443 if plan['tls'] else 80, server)
    manager = hu.manager(env, 100)
    results = {}
    scheme = 'https' if plan['tls'] else 'http'

    def thread(t):
        ops = [o for o in plan['ops'] if o['t'] == t]
        for o in ops:
            r = hu.Req(env, '%s://h0.example/r/%d' % (scheme, o['id']), o)
            results[o['id']] = r
            if plan['pipeline']:
                manager.QueueRequest(r)
            else:
                manager.ProcessRequest(r)
        manager.ThreadLoop()
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    sim.run()
    for k in ('tls_pending', 'short_recv'):
        if net.stats.get(k):
            env.fault(k, net.stats[k])
    hu.verdict(env, sim)
    if env.viol:
        return
    broken = set()          # connections on which something was cut or ended early
    for h in server.conns:
        if h.conn.server_closed:
            broken.add(h.conn.id)
    for rid, r in sorted(results.items()):
        o = byid[rid]
        resp, head, body, total = build(o)
        if not r.done or r.nfinished != 1:
            env.violation('not finished once', 'request %d: done=%s finished %d times' % (rid, r.done, r.nfinished))
            continue
        if 100 <= r.status <= 199:
            env.violation('interim surfaced', 'request %d finished with status %d' % (rid, r.status))
            continue
        got = r.sink.data if r.sink is not None else r.resBody
        ok = r.status != 0 and not r.error
        q = sent.get(rid)
        if q is None:
            if ok:
                env.violation('answer from nowhere', 'request %d has status %s but no response was sent' % (rid, r.status))
            continue
        if not ok:
            env.probe('reported_failed')
            if r.status != 0:
                env.probe('status_with_error')
            if q.conn.id not in broken:
                env.violation('failed without cause', 'request %d: status %s error %s; its connection was never cut'
                              % (rid, r.status, r.error))
            elif len(results) == 1 and (resp.cut is None or resp.cut >= total) and resp.cutkind != 'rst':
                env.violation('complete response failed', 'request %d: %s' % (rid, r.error))
            continue
        if r.status != resp.status:
            env.violation('status', 'request %d: %d, expected %d' % (rid, r.status, resp.status))
            continue
        exp = body_for('res%d' % rid, o['r']['n'])
        if o['m'] == 'HEAD' or resp.status in (204, 304):
            exp = ''
        cut = resp.cut
        if cut is not None and cut < total:
            selfdelim = resp.framing in ('cl', 'chunked') or exp == ''
            if resp.framing == 'close' and not (o['m'] == 'HEAD' or resp.status in (204, 304)) and cut >= len(head) \
                    and resp.cutkind == 'eof':
                # ended by the server in an orderly way: that is the framing
                exp = exp[:cut - len(head)]
                env.probe('close_framed_cut')
            else:
                env.violation('truncated response presented as complete',
                              'request %d %s %d framing %s: %d of %d bytes (head %d) then %s, got %d body bytes'
                              % (rid, o['m'], resp.status, resp.framing, cut, total, len(head), resp.cutkind, len(got)))
                continue
        if got != exp:
            env.violation('response body', 'request %d %s: expected %d bytes, got %d (%r / %r)'
                          % (rid, resp.framing, len(exp), len(got), exp[-40:], got[-40:]))
        if (r.response.GetHeader('X-Id') or '').strip() != str(rid):
            env.violation('response identity', 'request %d' % rid)
        if o['r'].get('trailer') and resp.framing == 'chunked' and exp and \
                (r.response.GetHeader('X-Trailer') or '').strip() != 't%d' % rid:
            env.violation('trailer', 'request %d: %r' % (rid, r.response.GetHeader('X-Trailer')))
        if o['r'].get('fold') and 'a' not in (r.response.GetHeader('X-Fold') or ''):
            env.violation('folded header', 'request %d: %r' % (rid, r.response.GetHeader('X-Fold')))
        env.probe('complete_' + resp.framing)
    env.stat('requests', len(results))
