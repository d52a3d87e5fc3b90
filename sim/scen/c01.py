"""C01: request/response pairing of the HTTP client under pipelining, segmentation and threads."""
import boot
import random
from httpsim import Server, Response, body_for
import simnet
import httputil as hu

METHODS = ['GET', 'GET', 'GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'OPTIONS']


def setup():
    boot.install()
    hu.setup()


def generate(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 3])
    nh = rng.choice([1, 1, 2])
    reqs = []
    rid = 0
    for t in range(nt):
        for rd in range(rng.choice([1, 1, 2])):
            for k in range(rng.choice([1, 2, 3, 4])):
                m = rng.choice(METHODS)
                rs = hu.gen_response(rng, m, rid)
                reqs.append(dict(t=t, rd=rd, id=rid, m=m, h=rng.randrange(nh),
                                 body=rng.choice([0, 0, 1, 17, 300, 9000]) if m in ('POST', 'PUT') else 0,
                                 stream=rng.random() < 0.3, chunked=rng.random() < 0.3,
                                 how=rng.choice(['loop', 'task', 'process']), r=rs))
                rid += 1
    return dict(nt=nt, nh=nh, ops=reqs, seg=rng.choice([None, None, 1, 2, 9, 64, 700, 1460]),
                send=rng.choice([None, None, 1, 5, 100]), recv=rng.choice([None, None, None, 1, 3, 50]),
                coalesce=rng.choice([0.0, 0.3, 0.9]), window=rng.choice([1 << 30, 1 << 30, 64, 2000]),
                maxc=rng.choice([nt * nh, nt * nh + 1, 100]), lat=rng.choice([0.0, 0.001, 0.2]))


SHRINK = ['ops']


def simplify(plan):
    for k, v in (('seg', None), ('send', None), ('recv', None), ('window', 1 << 30), ('coalesce', 0.0), ('nh', 1)):
        if plan[k] != v:
            p = dict(plan)
            p[k] = v
            if k == 'nh':
                p['ops'] = [dict(o, h=0) for o in plan['ops']]
            yield p
    for i, o in enumerate(plan['ops']):
        for k, v in (('body', 0), ('stream', False), ('how', 'loop')):
            if o[k] != v:
                ops = list(plan['ops'])
                ops[i] = dict(o)
                ops[i][k] = v
                yield dict(plan, ops=ops)
        r = o['r']
        if r['n'] > 3:
            ops = list(plan['ops'])
            ops[i] = dict(o, r=dict(r, n=3))
            yield dict(plan, ops=ops)


def execute(plan, env):
    rfc = hu.rfc2616
    sim = env.make_sim(max_time=3600.0)
    net = hu.network(sim, env, plan)
    byid = dict((o['id'], o) for o in plan['ops'])
    # a response that ends its connection only for the last request of its thread, host and round
    last = {}
    for o in plan['ops']:
        last[(o['t'], o['rd'], o['h'])] = o['id']
    lastid = set(last.values())

    def respond(req):
        o = byid.get(hu.rid(req))
        if o is None:
            return Response(status=404)
        return hu.make_response(o['r'], o['id'], o['m'], may_end=o['id'] in lastid)
    servers = [Server(net, env, 'h%d' % i, respond, seg=plan['seg'], rnd=plan['rnd'], coalesce=plan['coalesce'])
               for i in range(plan['nh'])]
    for i, s in enumerate(servers):
        net.listen('h%d.example' % i, 80, s)
    mon = hu.Monitor(net, env)
    manager = hu.manager(env, plan['maxc'])
    results = {}
    order = {}

    def thread(t):
        ops = [o for o in plan['ops'] if o['t'] == t]
        for rd in sorted(set(o['rd'] for o in ops)):
            for o in [x for x in ops if x['rd'] == rd]:
                r = hu.Req(env, 'http://h%d.example/r/%d' % (o['h'], o['id']), o)
                results[o['id']] = r
                order.setdefault((t, o['h']), []).append(o['id'])
                sim.log('queue', o['id'])
                if o['how'] == 'process':
                    manager.ProcessRequest(r)
                else:
                    manager.QueueRequest(r)
                    if o['how'] == 'task':
                        manager.ThreadTask(0)
            manager.ThreadLoop()
            for o in [x for x in ops if x['rd'] == rd]:
                r = results[o['id']]
                if not r.done or r.nfinished != 1:
                    env.violation('not finished once', 'request %d: done=%s finished %d times when the loop returned'
                                  % (o['id'], r.done, r.nfinished))
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    # what the servers saw
    seen = {}
    for i, s in enumerate(servers):
        perconn = {}
        for q in s.requests:
            if q.bad:
                env.violation('malformed request', '%s on connection %d of h%d' % (q.bad, q.conn.id, i))
                continue
            rid = hu.rid(q)
            if rid not in byid:
                env.violation('unknown target', q.target)
                continue
            if not q.complete:
                env.violation('incomplete request', 'request %d' % rid)
                continue
            seen[rid] = seen.get(rid, 0) + 1
            perconn.setdefault(q.conn.id, []).append((q, rid))
            o = byid[rid]
            if q.method != o['m']:
                env.violation('method', 'request %d' % rid)
            if o['h'] != i:
                env.violation('wrong server', 'request %d' % rid)
            exp = hu.reqbody(o)
            if q.body != exp:
                env.violation('request body', 'request %d: %d bytes expected, %d received' % (rid, len(exp), len(q.body)))
        for cid, lst in perconn.items():
            ids = [rid for q, rid in lst]
            ts = set(byid[x]['t'] for x in ids)
            for t in ts:
                mine = [x for x in ids if byid[x]['t'] == t]
                want = [x for x in order[(t, i)] if x in mine]
                if mine != want:
                    env.violation('request order', 'connection %d of h%d carried %s, queued as %s' % (cid, i, mine, want))
            if len(ids) > 1:
                env.probe('reused_connection')
        for h in s.conns:
            if h.buf or h.junk or h.state not in ('head',):
                env.violation('stray bytes', 'connection %d: %r' % (h.conn.id, (h.buf + h.junk)[:60]))
    for rid in byid:
        if rid in results and seen.get(rid, 0) != 1:
            env.violation('sent %d times' % seen.get(rid, 0), 'request %d (%s)' % (rid, byid[rid]['m']))
    mon.check_post(servers)
    for rid, r in results.items():
        o = byid[rid]
        hu.check_result(env, r, o, rid)
    env.info['n'] = len(results)
    env.stat('requests', len(results))
