"""C03: request bodies on the wire, partial sends, streams that end early, and Expect: 100-continue."""
import boot
import random
from httpsim import Server, Response, body_for
import simnet
import httputil as hu


def setup():
    boot.install()
    hu.setup()


def generate(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    reqs = []
    rid = 0
    for t in range(nt):
        for k in range(rng.choice([1, 1, 2, 3])):
            m = rng.choice(['POST', 'PUT', 'PUT', 'POST', 'PUT', 'GET', 'DELETE'])
            n = rng.choice([0, 1, 17, 300, 8191, 8192, 8193, 16384, 20000]) if m in ('POST', 'PUT') else 0
            o = dict(t=t, id=rid, m=m, body=n, stream=rng.random() < 0.5, chunked=rng.random() < 0.4,
                     short=rng.choice([None, None, 1, 7, 1000]), eofby=0, expect=False)
            if o['short'] in (1, 7) and n > 1000:
                o['short'] = 137
            if n and o['stream'] and not o['chunked'] and rng.random() < 0.25:
                o['eofby'] = rng.choice([1, 2, n // 2, n])
                o['eofby'] = max(1, min(n, o['eofby']))
            o['r'] = dict(st=rng.choice([200, 201, 204, 404, 500]), fr=rng.choice(['cl', 'chunked']), n=rng.choice([0, 5, 400]),
                          delay=rng.choice([0.0, 0.001, 0.3]), chunks=[100])
            if rng.random() < (0.5 if n else 0.15):
                o['expect'] = True
                o['d100'] = rng.choice([None, 0.0, 0.001, 0.2, 5.0, 58.0, 59.9, 60.5, 70.0, 119.0])
                o['i100'] = rng.choice([[100], [100], [100], [102, 100], [100, 100]])
            if rng.random() < 0.25 and (n or o['expect']):
                # the server answers when it has seen only the head
                o['early'] = rng.choice([0.0, 0.0, 0.002, 0.1, 30.0])
                o['eclose'] = rng.random() < 0.3
            reqs.append(o)
            rid += 1
    big = sum(o['body'] for o in reqs)
    tiny = big < 1000
    return dict(nt=nt, ops=reqs, seg=rng.choice([None, None, 1, 9, 64]),
                send=rng.choice([None, None, 1, 3, 50]) if tiny else rng.choice([None, None, 500, 1000, 5000]), recv=rng.choice([None, None, 1, 3]),
                coalesce=0.0, window=rng.choice([1 << 30, 1 << 30, 1, 7, 64]) if tiny else rng.choice([1 << 30, 1 << 30, 500, 2000, 9000]), lat=rng.choice([0.0, 0.001, 0.05]),
                timeout=rng.choice([60, 60, 1, 7]))


SHRINK = ['ops']


def simplify(plan):
    for k, v in (('seg', None), ('send', None), ('recv', None), ('window', 1 << 30), ('timeout', 60)):
        if plan[k] != v:
            p = dict(plan)
            p[k] = v
            yield p
    for i, o in enumerate(plan['ops']):
        for k, v in (('body', 17), ('body', 1), ('body', 0), ('stream', False), ('expect', False), ('short', None)):
            if o[k] != v and o['eofby'] == 0:
                ops = list(plan['ops'])
                ops[i] = dict(o)
                ops[i][k] = v
                yield dict(plan, ops=ops)


def execute(plan, env):
    sim = env.make_sim(max_time=7200.0, max_steps=900000)
    net = hu.network(sim, env, plan)
    byid = dict((o['id'], o) for o in plan['ops'])

    def resp(o):
        r = hu.make_response(o['r'], o['id'], o['m'])
        return r

    def respond(req):
        return resp(byid[hu.rid(req)])

    def on_head(req):
        o = byid[hu.rid(req)]
        if o.get('early') is None:
            return None
        r = resp(o)
        r.delay = o['early']
        r.close = bool(o.get('eclose'))
        env.fault('early_response')
        return r

    def send100(req):
        o = byid[hu.rid(req)]
        req.interims = o.get('i100', [100])
        d = o.get('d100')
        env.fault('continue_withheld' if d is None else 'continue_delay')
        return d
    server = Server(net, env, 'h0', respond, seg=plan['seg'], rnd=plan['rnd'], on_head=on_head, send100=send100)
    net.listen('h0.example', 80, server)
    mon = hu.Monitor(net, env)
    manager = hu.manager(env, 100)
    results = {}
    times = {}

    def thread(t):
        for o in [o for o in plan['ops'] if o['t'] == t]:
            r = hu.Req(env, 'http://h0.example/r/%d' % o['id'], o)
            if o['expect']:
                r.SetExpectContinue()
            results[o['id']] = r
            manager.QueueRequest(r)
        t0 = sim.now()
        manager.ThreadLoop(plan['timeout'])
        times[t] = sim.now() - t0
        sim.sleep(5.0)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    sim.run()
    if net.stats.get('partial_send'):
        env.fault('partial_send', net.stats['partial_send'])
    hu.verdict(env, sim)
    if env.viol:
        return
    hung_up = set(h.conn.id for h in server.conns if h.conn.client_closed or h.conn.server_closed)
    seen = {}
    for q in server.requests:
        if q.bad:
            env.violation('malformed request', '%s' % q.bad)
            continue
        rid = hu.rid(q)
        if rid not in byid:
            env.violation('unknown target', q.target)
            continue
        seen.setdefault(rid, []).append(q)
        o = byid[rid]
        exp = hu.reqbody(o)
        te = (q.header('Transfer-Encoding') or '').lower()
        cl = q.header('Content-Length')
        if q.method != o['m'] or q.target != '/r/%d' % rid or q.version != 'HTTP/1.1':
            env.violation('request line', '%s %s %s' % (q.method, q.target, q.version))
        if q.header('Host') != 'h0.example':
            env.violation('host header', repr(q.header('Host')))
        if te != 'chunked' and exp and cl != str(len(exp)):
            env.violation('content length', 'request %d: %r for %d bytes' % (rid, cl, len(exp)))
        if not exp.startswith(q.body):
            env.violation('request body', 'request %d: %d bytes received are not a prefix of the %d given'
                          % (rid, len(q.body), len(exp)))
        elif q.complete:
            if o['eofby']:
                env.violation('short body completed', 'request %d: stream ended %d bytes early and the server got a complete request'
                              % (rid, o['eofby']))
            elif q.body != exp:
                env.violation('request body', 'request %d: %d of %d bytes' % (rid, len(q.body), len(exp)))
        if o['expect']:
            r, t = mon.first_send(q.conn.id, q.off_head_end)
            if r is not None and (exp or te == 'chunked') and (q.off_end is None or q.off_end > q.off_head_end):
                hr, ht = mon.first_send(q.conn.id, q.off_head_end - 1)
                ok = (q.cont_end is not None and r >= q.cont_end - 25 * (len(o.get('i100', [1])) - 1)) or \
                     (q.response_end is not None and r >= q.response_start + 15) or t - ht > 60.0
                if not ok:
                    env.violation('body before continue', 'request %d: body sent %.6f s after the head, having read %d bytes; 100 ended at %s, response %s'
                                  % (rid, t - ht, r, q.cont_end, q.response_end))
                if t - ht > 60.0:
                    env.probe('continue_timeout')
                elif q.cont_end is not None and r >= q.cont_end:
                    env.probe('continue_received')
                else:
                    env.probe('final_before_continue')
    mon.check_post([server])
    nwait = {}
    for rid, r in sorted(results.items()):
        o = byid[rid]
        if not r.done or r.nfinished != 1:
            env.violation('not finished once', 'request %d: done=%s finished %d times' % (rid, r.done, r.nfinished))
            continue
        qs = seen.get(rid, [])
        if len(qs) > 1:
            env.violation('sent twice', 'request %d' % rid)
        q = qs[0] if qs else None
        ok = r.status != 0 and not r.error
        nwait[o['t']] = nwait.get(o['t'], 0) + (1 if o['expect'] else 0)
        if o['eofby']:
            env.fault('stream_eof')
            if ok and (q is None or q.response_end is None or o.get('early') is None):
                env.violation('short body reported as success', 'request %d: status %d' % (rid, r.status))
            continue
        if ok:
            if r.status != o['r']['st']:
                env.violation('status', 'request %d: %d' % (rid, r.status))
            if q is None or q.response_end is None:
                env.violation('answer from nowhere', 'request %d' % rid)
            elif not q.complete and o.get('early') is None:
                env.violation('success of an incomplete request', 'request %d' % rid)
            elif not q.complete and r.status < 300 and not o.get('eclose') and q.conn.id not in early_closed(byid, server):
                env.violation('body abandoned after 2xx', 'request %d: %d of %d bytes' % (rid, len(q.body), o['body']))
            got = r.resBody
            exp = hu.expected_body(o)
            if got != exp:
                env.violation('response body', 'request %d' % rid)
        elif q is None:
            # never sent: only if the connection was given up before
            if not [x for x in plan['ops'] if x['t'] == o['t'] and (x['eofby'] or x.get('early') is not None)]:
                env.violation('failed without cause', 'request %d: %s' % (rid, r.error))
        elif not [x for x in plan['ops'] if x['t'] == o['t'] and (x['eofby'] or x.get('early') is not None)]:
            env.violation('failed without cause', 'request %d: %s' % (rid, r.error))
    for t, dt in times.items():
        ops = [o for o in plan['ops'] if o['t'] == t]
        if plan['send'] != 1 and plan['window'] > 64 and dt > 122.0 * len([o for o in ops if o['expect']]) + 30 * len(ops) + 20:
            env.violation('slow', 'thread %d took %.1f simulated seconds' % (t, dt))
    env.stat('requests', len(results))


def early_closed(byid, server):
    """Connections given up because of an early answer to some request on them."""
    return set(q.conn.id for q in server.requests if hu.rid(q) in byid and byid[hu.rid(q)].get('early') is not None
               and (byid[hu.rid(q)]['r']['st'] >= 300 or byid[hu.rid(q)].get('eclose')))
