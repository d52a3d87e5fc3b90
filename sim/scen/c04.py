"""C04: the connection pool - limit, exclusivity, time-outs, clean-up and closing - under many threads."""
import boot
import random
import sys
import dst
from httpsim import Server, Response, body_for
import simnet
import httputil as hu

SLACK = 0.02


def setup():
    boot.install()
    hu.setup()


def generate(rng, tier):
    nt = rng.choice([2, 2, 3, 3, 4])
    nh = rng.choice([1, 2, 2, 3])
    crowd = rng.random() < 0.3
    if crowd:
        # many threads, equal delays and few connections: several are released at once while several threads wait
        nt = rng.choice([4, 5, 6])
        nh = rng.choice([1, 1, 1, 2])
        pace = rng.choice([0.01, 0.3])
    ops = []
    rid = 0
    abandon = rng.random() < 0.4
    for t in range(nt):
        for k in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.3:
                ops.append(dict(t=t, op='sleep', d=rng.choice([0.001, 0.05, 1.0, 14.0, 16.0, 40.0])))
            n = rng.choice([1, 1, 1, 2])
            ops.append(dict(t=t, op='req', id=rid, h=rng.randrange(nh), m=rng.choice(['GET', 'GET', 'POST', 'PUT']), body=rng.choice([0, 20]),
                            to=rng.choice([None, None, None, 0, 0.05, 1.0, 5.0]), n=n,
                            then=rng.choice(['loop', 'loop', 'loop', 'task']) if not abandon else rng.choice(['loop', 'loop', 'abandon']),
                            ad=rng.choice([0.5, 20.0, 95.0, 200.0]),
                            r=dict(st=200, fr=rng.choice(['cl', 'chunked', 'close'] if n == 1 else ['cl', 'chunked']), n=rng.choice([0, 3, 50]), chunks=[20],
                                   delay=rng.choice([0.0, 0.0, 0.01, 0.3, 3.0, 3.0, 30.0, 130.0] if rng.random() < 0.5 else [0.0, 0.01]))))
            rid += n
    if crowd:
        for o in ops:
            if o['op'] == 'req':
                o.update(to=None if rng.random() < 0.9 else o['to'], then='loop')
                o['r']['delay'] = pace
            else:
                o['d'] = 0.001
    jan = rng.choice([0, 0, 1, 1, 2]) if not crowd or rng.random() < 0.2 else 0
    for j in range(jan):
        for k in range(rng.choice([1, 2, 4, 8])):
            ops.append(dict(t=100 + j, op=rng.choice(['idle', 'idle', 'active']), k=rng.choice([0.5, 5, 15, 15, 90, 90]),
                            d=rng.choice([0.0, 0.001, 0.02, 1.0, 10.0, 16.0, 60.0, 95.0])))
    if rng.random() < 0.35:
        ops.append(dict(t=200, op='close', d=rng.choice([0.0, 0.001, 0.003, 0.01, 0.05, 0.5, 3.5, 20.0])))
    return dict(nt=nt, nh=nh, ops=ops, maxc=rng.choice([2, 2, 3]) if crowd else rng.choice([1, 1, 2, 2, 3, nt]), lat=rng.choice([0.0, 0.001, 0.01]),
                seg=rng.choice([None, None, 20]), tls=rng.random() < 0.1)


SHRINK = ['ops']


def execute(plan, env):
    rfc = hu.rfc2616
    sim = env.make_sim(max_time=7200.0)
    net = hu.network(sim, env, plan)
    maxc = plan['maxc']
    byid = {}
    for o in plan['ops']:
        if o['op'] == 'req':
            for k in range(o['n']):
                byid[o['id'] + k] = o
    tasks = {}              # task id -> plan thread

    def respond(req):
        o = byid[hu.rid(req)]
        return hu.make_response(o['r'], hu.rid(req), o['m'])
    servers = [Server(net, env, 'h%d' % i, respond, seg=plan['seg'], rnd=plan['rnd']) for i in range(plan['nh'])]
    for i, s in enumerate(servers):
        net.listen('h%d.example' % i, 443 if plan['tls'] else 80, s)
    mon = hu.Monitor(net, env)
    opened = []             # (time, seq, [conn ids open], conn id)
    closed = {}             # conn id -> (time, seq, task, kind)
    act = {}                # conn id -> last send/recv time
    acts = {}               # conn id -> [(time, task)]
    base = net.on_socket_event

    def event(kind, sock, data=None):
        base(kind, sock, data)
        c = sock.conn
        now = sim.now()
        me = sim.cur.id
        if kind == 'open':
            opened.append((now, sim.seq(), [x.id for x in net.conns if x.id not in closed], c.id))
            act[c.id] = now
            acts[c.id] = [(now, me, 0)]
        elif kind in ('send', 'recv'):
            act[c.id] = now
            acts[c.id].append((now, me, c.s2c_read - (len(data) if kind == 'recv' else 0)))
        elif kind in ('shutdown', 'close'):
            if c.id not in closed:
                closed[c.id] = (now, sim.seq(), me, kind)
    net.on_socket_event = event
    manager = hu.manager(env, maxc)
    results = {}
    where = {}              # plan thread -> ('queue', since) while in QueueRequest
    cleanups = []           # dicts
    closing = {}
    busy = []
    owner_last = {}         # (t, host) -> (time the thread last left the manager, outstanding?)
    inside = {}

    def qreq(t, r, o, rid):
        t0 = sim.now()
        where[t] = t0
        closed_before = 'done' in closing
        try:
            manager.QueueRequest(r, o['to'])
        except rfc.RequestManagerBusy:
            dt = sim.now() - t0
            env.probe('busy')
            if o['to'] is None:
                env.violation('busy without a time-out', 'request %d' % rid)
            elif dt < o['to'] - 1e-9 or dt > o['to'] + 0.5:
                env.violation('time-out not kept', 'request %d: busy raised after %.4f s, time-out %s' % (rid, dt, o['to']))
            return False
        except rfc.ConnectionClosed:
            env.probe('refused')
            if 'start' not in closing:
                env.violation('refused though not closed', 'request %d' % rid)
            elif sim.now() - max(t0, closing['start']) > 0.5:
                env.violation('waiting thread refused late', 'request %d: %.3f s after closing began' % (rid, sim.now() - closing['start']))
            return False
        finally:
            where.pop(t, None)
        if closed_before:
            env.violation('request accepted after the manager was closed', 'request %d' % rid)
        if sim.now() - t0 > 0.1:
            env.probe('waited')
        return True

    def thread(t):
        tasks[sim.cur.id] = t
        inside[t] = True
        for o in [o for o in plan['ops'] if o['t'] == t]:
            if o['op'] == 'sleep':
                inside[t] = False
                sim.sleep(o['d'])
                inside[t] = True
                continue
            got = []
            for k in range(o['n']):
                rid = o['id'] + k
                r = hu.Req(env, '%s://h%d.example/r/%d' % ('https' if plan['tls'] else 'http', o['h'], rid), dict(o, id=rid))
                if qreq(t, r, o, rid):
                    results[rid] = r
                    r.tqueue = sim.now()
                    got.append(rid)
            if not got:
                continue
            if o['then'] == 'abandon':
                manager.ThreadTask(0)
                manager.ThreadTask(0)
                inside[t] = False
                env.fault('abandoned')
                owner_last[t] = sim.now()
                sim.sleep(o['ad'])
                inside[t] = True
                del owner_last[t]
            elif o['then'] == 'task':
                manager.ThreadTask(0.01)
            manager.ThreadLoop()
            n = manager.ThreadActiveCount()
            if n:
                env.violation('active after the loop', 'thread %d has %d active connections when ThreadLoop returned' % (t, n))
            for rid in got:
                results[rid].returned = sim.now()
        manager.ThreadLoop()
        inside[t] = False

    def janitor(t):
        for o in [o for o in plan['ops'] if o['t'] == t]:
            sim.sleep(o['d'])
            with dst.nopreempt():
                rec = dict(kind=o['op'], k=o['k'], t0=sim.now(), s0=sim.seq(), task=sim.cur.id)
                rec['open'] = [c.id for c in net.conns if c.id not in closed]
                rec['act'] = dict(act)
                rec['idle'] = []
                outstanding = {}
                for s in servers:
                    for q in s.requests:
                        if q.response_end is None or q.conn.s2c_read < q.response_end:
                            outstanding[q.conn.id] = True
                rec['outstanding'] = outstanding
                rec['inside'] = dict(inside)
                rec['left'] = dict(owner_last)
                rec['maxinside'] = sim.now()
            cleanups.append(rec)
            try:
                (manager.IdleCleanup if o['op'] == 'idle' else manager.ActiveCleanup)(o['k'])
            finally:
                rec['t1'] = sim.now()
                rec['s1'] = sim.seq()
            env.fault('cleanup_' + o['op'])

    def closer(o):
        sim.sleep(o['d'])
        closing['start'] = sim.now()
        closing['s0'] = sim.seq()
        closing['task'] = sim.cur.id
        manager.Close()
        closing['done'] = sim.now()
        closing['s1'] = sim.seq()
        env.fault('manager_close')

    free = [0]

    def watcher():
        last = {}
        n = 0
        while n < 4000:
            n += 1
            sim.sleep(0.1 if n < 500 else 1.0)
            c = manager.ActiveCount()
            if c > maxc:
                env.violation('more active connections than the limit', '%d of %d' % (c, maxc))
            if c < maxc and 'start' not in closing:
                for t, since in where.items():
                    if last.get(t, (None, 0))[0] == since:
                        last[t] = (since, last[t][1] + 1)
                        if last[t][1] >= 20:
                            env.violation('waiting for a free connection', 'thread %d has waited %.3f s for a connection while only %d of %d are active'
                                          % (t, sim.now() - since, c, maxc))
                            return
                    else:
                        last[t] = (since, 1)
            else:
                last = {}
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    for t in sorted(set(o['t'] for o in plan['ops'] if 100 <= o['t'] < 200)):
        sim.spawn(lambda t=t: janitor(t), 'janitor%d' % t)
    for o in plan['ops']:
        if o['op'] == 'close':
            sim.spawn(lambda o=o: closer(o), 'closer')
    sim.spawn(watcher, 'watcher', daemon=True)
    sim.run()
    if sim.verdict == 'deadlock' and not env.viol:
        env.violation('deadlock', 'stuck: %s' % sim.stuck)
        return
    hu.verdict(env, sim)
    if env.viol:
        return
    # --- never more than the limit
    for now, seq, ids, cid in opened:
        over = [i for i in ids]
        if len(over) > maxc:
            # connections that a clean-up or Close in progress is about to close do not count
            progress = [r for r in cleanups if r['s0'] < seq and ('s1' not in r or r['s1'] > seq)]
            if 's0' in closing and closing['s0'] < seq and closing.get('s1', 1 << 60) > seq:
                progress.append(dict(task=closing['task'], s1=closing.get('s1', 1 << 60), s0=closing['s0']))
            n = 0
            for i in over:
                if i in closed and [r for r in progress if closed[i][2] == r['task'] and closed[i][1] < r.get('s1', 1 << 60)]:
                    continue
                if i == cid and i in closed and closed[i][0] - now < 0.01:
                    continue        # found itself killed
                n += 1
            if n > maxc:
                env.violation('more connections open than the limit', '%d open at %.4f s, limit %d' % (n, now, maxc))
            else:
                env.probe('over_limit_in_cleanup')
    # --- exclusivity
    for s in servers:
        per = {}
        for q in s.requests:
            if q.bad:
                env.violation('malformed request', q.bad)
                continue
            rid = hu.rid(q)
            if rid not in byid:
                env.violation('unknown target', q.target)
                continue
            q.t = byid[rid]['t']
            per.setdefault(q.conn.id, []).append(q)
        for cid, qs in per.items():
            for a, b in zip(qs, qs[1:]):
                if a.t != b.t:
                    env.probe('connection_changed_thread')
                    r, t = mon.first_send(cid, b.off_start)
                    if a.response_end is None or r < a.response_end:
                        env.violation('two threads on one connection',
                                      'connection %d: thread %d sent %s while thread %d awaited the response to %s'
                                      % (cid, b.t, b.target, a.t, a.target))
            for q in qs:
                r0, t0 = mon.first_send(cid, q.off_start)
                for t, k, rd in acts[cid]:
                    if q.response_end is not None and rd >= q.response_end:
                        break
                    if t >= t0 and tasks.get(k) != q.t:
                        env.violation('socket used by another thread', 'connection %d during %s' % (cid, q.target))
                        break
    # --- one connection per thread and target
    for i, s in enumerate(servers):
        qs = [q for q in s.requests if not q.bad]
        for a in qs:
            for b in qs:
                if a is not b and a.t == b.t and a.conn is not b.conn:
                    ta = mon.first_send(a.conn.id, a.off_start)[1]
                    tb = mon.first_send(b.conn.id, b.off_start)[1]
                    if ta is None or tb is None or not ta < tb:
                        continue
                    # when was a over?
                    over = None
                    if a.conn.id in closed:
                        over = closed[a.conn.id][0]
                    if a.response_end is not None:
                        if a.conn.s2c_read >= a.response_end:
                            over = min(over or 1e18, max([ta] + [t for t, k, rd in acts[a.conn.id] if t <= tb]))
                    if a.conn.id in closed and closed[a.conn.id][0] <= tb:
                        continue
                    if [r for r in cleanups if r['task'] == closed.get(a.conn.id, (0, 0, -1))[2]] or \
                            closed.get(a.conn.id, (0, 0, -1))[2] == closing.get('task', -2):
                        continue
                    if over is None or over > tb:
                        env.violation('two connections of one thread to one target', '%s and %s' % (a.target, b.target))
    # --- requests
    killed = set()
    for cid, (t, sq, task, kind) in closed.items():
        if [r for r in cleanups if r['task'] == task and r['kind'] == 'active'] or task == closing.get('task'):
            killed.add(cid)
    anykill = bool([r for r in cleanups if r['kind'] == 'active']) or bool(closing)
    for rid, r in results.items():
        o = byid[rid]
        if r.nfinished > 1:
            env.violation('not finished once', 'request %d finished %d times' % (rid, r.nfinished))
        if r.status == 0 or r.error or not r.done:
            if not anykill:
                env.violation('request failed', 'request %d: done %s status %s error %s' % (rid, r.done, r.status, r.error))
            else:
                env.probe('failed_after_kill')
        else:
            hu.check_result(env, r, dict(o, id=rid), rid)
    # --- clean-ups
    for rec in cleanups:
        t0, t1, k = rec['t0'], rec['t1'], rec['k']
        if rec['s1'] - rec['s0'] > 10000 or t1 - t0 > 1.0:
            continue
        for cid in rec['open']:
            mine = cid in closed and closed[cid][2] == rec['task'] and rec['s0'] < closed[cid][1] < rec['s1']
            last = rec['act'].get(cid, 0)
            if mine:
                env.probe('closed_by_' + rec['kind'])
                if last > t1 - k + SLACK:
                    env.violation('%s clean-up closed a recently used connection' % rec['kind'],
                                  'connection %d, last used %.3f s ago, limit %s' % (cid, t0 - last, k))
                if rec['kind'] == 'idle' and cid in rec['outstanding'] and act.get(cid, 0) >= last and \
                        cid in rec['outstanding']:
                    env.violation('idle clean-up closed a connection in use', 'connection %d' % cid)
            elif cid not in closed or closed[cid][1] > rec['s1']:
                # still open afterwards
                if [r for r in cleanups if r is not rec and r['s0'] < rec['s1'] and r.get('s1', 1 << 60) > rec['s0']]:
                    continue        # another clean-up may be about to close it
                if rec['kind'] == 'idle' and cid not in rec['outstanding'] and not [x for x in rec['inside'].values() if x] \
                        and last < t0 - k - SLACK and not [t for t, kk, rd in acts[cid] if t0 <= t <= t1] and not rec['left']:
                    env.violation('idle clean-up left a connection open', 'connection %d, last used %.3f s ago, limit %s'
                                  % (cid, t0 - last, k))
                if rec['kind'] == 'active' and cid in rec['outstanding'] and [t for t in rec['left']]:
                    users = set(tasks.get(kk) for t, kk, rd in acts[cid])
                    for t in rec['left']:
                        if users == set([t]) and rec['left'][t] < t0 - k - SLACK:
                            env.violation('active clean-up left an abandoned connection', 'connection %d of thread %d, last used %.3f s ago, limit %s'
                                          % (cid, t, t0 - rec['left'][t], k))
    # --- after closing
    if closing:
        if 'done' not in closing:
            env.violation('Close did not return', '')
        for s in net.sockets:
            if s.conn is not None and not (s.closed or s.conn.client_shut):
                env.violation('socket open after Close', 'connection %d' % s.conn.id)
    env.stat('requests', len(results))
    env.stat('connections', len(net.conns))
