"""C05: requests always finish in bounded time after connection failures of every kind, and the manager recovers."""
import boot
import random
import errno
from httpsim import Server, Response, body_for
import simnet
import dst
import httputil as hu

GARBAGE = [
    'NONSENSE\r\n\r\n', '\r\n\r\n', 'HTTP/1.1 abc OK\r\n\r\n', 'HTTP/1.1\r\n\r\n', 'HTTP/x.y 200 OK\r\n\r\n', '\x00\x01\x02\r\n\x80\xff\r\n\r\n',
    '"unclosed\r\n\r\n', '(unclosed\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabcdefgh', 'HTTP/1.1 200 OK\r\nContent-Length: five\r\n\r\nabcde',
    'HTTP/1.1 200 OK\r\nno colon here\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-5\r\nabcdefgh\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\n\r\n',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"x\r\n\r\n',
]
# odd but the client may accept them
ODD = ['HTTP/1.1 99 Low\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 777 High\r\nContent-Length: 2\r\n\r\nhi',
       'HTTP/1.1 200 OK\r\nConnection: @,"\r\nContent-Length: 2\r\n\r\nhi', 'HTTP/1.1 401 Who\r\nWWW-Authenticate: "\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 401 Who\r\nWWW-Authenticate: Basic realm=\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 302 Found\r\nLocation: ://\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 301 Moved\r\nLocation: mailto:x@y\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 401 Who\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 302 Found\r\nContent-Length: 0\r\n\r\n', 'http/1.1 200 fine\r\nContent-Length: 2\r\n\r\nhi',
       'HTTP/1.1 200\r\nContent-Length: 0\r\n\r\n', ' HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 301 Moved\r\nLocation: http://h0.example:port/\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 301 Moved\r\nLocation: http://%zz/\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 200 OK\r\nConnection: \x01\r\nContent-Length: 2\r\n\r\nhi', 'HTTP/1.1 401 Who\r\nWWW-Authenticate: \x01\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 401 Who\r\nWWW-Authenticate: Basic "x"\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: \x01\r\n\r\nhi',
       'HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip\r\nContent-Length: 2\r\n\r\nhi', 'HTTP/1.1 302 Found\r\nLocation: http:///path\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 302 Found\r\nLocation: http://u:p@h0.example/r/0\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 200 OK\r\nConnection: "unclosed\r\nContent-Length: 2\r\n\r\nhi', 'HTTP/1.1 \x01200 OK\r\n\r\n', 'HTTP/1.1 100 \xff\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi']


def setup():
    boot.install()
    hu.setup()


def generate(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    nh = rng.choice([1, 2, 2, 3])
    ops = []
    rid = 0
    for rd in range(rng.choice([1, 2, 3])):
        for t in range(nt):
            for k in range(rng.choice([1, 1, 2, 3])):
                m = rng.choice(['GET', 'GET', 'PUT', 'POST', 'HEAD'])
                ops.append(dict(t=t, rd=rd, id=rid, h=rng.randrange(nh), m=m, body=rng.choice([0, 20, 9000]) if m in ('PUT', 'POST') else 0,
                                sink=rng.random() < 0.3, how=rng.choice(['queue', 'process']),
                                r=dict(st=rng.choice([200, 200, 201, 404]), fr=rng.choice(['cl', 'chunked']), n=rng.choice([0, 3, 500]),
                                       chunks=[100], delay=rng.choice([0.0, 0.0, 0.05, 1.0]))))
                rid += 1
    faults = []
    for k in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        f = dict(h=rng.randrange(nh), kind=rng.choice(['dns', 'connect', 'connect', 'send', 'send', 'cut', 'cut', 'cut', 'garbage', 'garbage', 'odd', 'idleclose',
                                                       'select', 'socket', 'ssl', 'addr', 'send0', 'earlycut']),
                 n=rng.choice([1, 1, 2, 3, 5]), err=rng.choice([errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EHOSTUNREACH]),
                 off=rng.choice([0, 1, 10, 17, 60, 100, 130, 300]), how=rng.choice(['eof', 'rst']), g=rng.randrange(1 << 20),
                 wait=rng.choice([0.001, 0.5, 20.0]), close=rng.random() < 0.5)
        faults.append(f)
    return dict(nt=nt, nh=nh, ops=ops, faults=faults, seg=rng.choice([None, None, 1, 9, 64]), lat=rng.choice([0.0, 0.001, 0.05]),
                tls=rng.random() < 0.2, pipe=rng.random() < 0.6, send=rng.choice([None, None, 50]))


SHRINK = ['ops', 'faults']


def execute(plan, env):
    rfc = hu.rfc2616
    sim = env.make_sim(max_time=7200.0)
    net = hu.network(sim, env, plan)
    byid = dict((o['id'], o) for o in plan['ops'])
    heal = [False]
    nreq = {}
    nresp = {}
    garbled = set()         # requests answered with definite garbage
    odd = set()

    def fire(kind, h, n):
        """The fault of this kind on host h at its nth occasion, if any."""
        if heal[0]:
            return None
        for f in plan['faults']:
            if f['kind'] == kind and f['h'] == h and f['n'] == n:
                env.fault(kind)
                return f
        return None

    def respond_to(h):
        def respond(req):
            rid = hu.rid(req)
            o = byid.get(rid)
            if o is None:
                return Response(status=200, headers=[('X-Id', str(rid))], body='final', framing='cl')
            nresp[h] = nresp.get(h, 0) + 1
            r = hu.make_response(o['r'], rid, o['m'])
            f = fire('cut', h, nresp[h])
            if f:
                r.cut = f['off']
                r.cutkind = str(f['how'])
            f = (o['m'] != 'HEAD' and fire('garbage', h, nresp[h])) or fire('odd', h, nresp[h])
            if f:
                g = GARBAGE if f['kind'] == 'garbage' else ODD
                data = g[f['g'] % len(g)]
                (garbled if f['kind'] == 'garbage' else odd).add(rid)
                r.bytes = lambda method: (data, '')
                r.ends_connection = lambda method, f=f: f['close'] or f['kind'] == 'odd'
            f = fire('idleclose', h, nresp[h])
            if f:
                hd = req.conn.handler
                sim.after(f['wait'] + 0.5, lambda: (hd.conn.close(), setattr(hd, 'closing', True)))
            return r
        return respond

    def on_head(h):
        def head(req):
            rid = hu.rid(req)
            if rid not in byid:
                return None
            nreq[h] = nreq.get(h, 0) + 1
            f = fire('earlycut', h, nreq[h])
            if f:
                r = Response(status=200)
                r.cut = f['off'] % 20
                r.cutkind = str(f['how'])
                return r
            return None
        return head
    servers = [Server(net, env, 'h%d' % i, respond_to(i), seg=plan['seg'], rnd=plan['rnd'], on_head=on_head(i)) for i in range(plan['nh'])]
    port = 443 if plan['tls'] else 80
    addr = {}
    for i, s in enumerate(servers):
        net.listen('h%d.example' % i, port, s)
        addr[net.hosts['h%d.example' % i][0]] = i
        if [f for f in plan['faults'] if f['kind'] == 'addr' and f['h'] == i]:
            # a dead address first: the client must go on to the next
            net.hosts['h%d.example' % i] = ['10.1.1.%d' % i] + net.hosts['h%d.example' % i]
            env.fault('dead_address')
    ndns, nconn, nsend = {}, {}, {}

    def dns_fault(n, host):
        h = int(host[1:].split('.')[0])
        ndns[h] = ndns.get(h, 0) + 1
        return -3 if fire('dns', h, ndns[h]) else None

    def connect_fault(n, address):
        h = addr.get(address[0])
        if h is None:
            return errno.EHOSTUNREACH
        nconn[h] = nconn.get(h, 0) + 1
        f = fire('connect', h, nconn[h])
        return ('delay', f['wait'], f['err']) if f else None

    def send_fault(c, k):
        h = addr[c.addr[0]]
        nsend[h] = nsend.get(h, 0) + 1
        f = fire('send', h, nsend[h])
        return errno.EPIPE if f and f['g'] % 2 else errno.ECONNRESET if f else None
    nsel = [0]

    def select_fault(n):
        if heal[0]:
            return None
        for f in plan['faults']:
            if f['kind'] == 'select' and n == f['off'] // 4 + 1:
                env.fault('select')
                return errno.EINTR if f['g'] % 2 else errno.EBADF
        return None
    nsock = [0]

    def socket_fault(s):
        nsock[0] += 1
        for f in plan['faults']:
            if f['kind'] == 'socket' and f['n'] == nsock[0] and not heal[0]:
                env.fault('socket')
                return errno.EMFILE
        return None
    nssl = {}

    def ssl_fault(sock):
        h = addr[sock.conn.addr[0]]
        nssl[h] = nssl.get(h, 0) + 1
        return bool(fire('ssl', h, nssl[h]))
    net.dns_fault, net.connect_fault, net.send_fault = dns_fault, connect_fault, send_fault
    net.select_fault, net.socket_fault, net.ssl_fault = select_fault, socket_fault, ssl_fault

    def send_zero(c, n):
        h = addr[c.addr[0]]
        k = c.user['nz'] = c.user.get('nz', 0) + 1
        if fire('send0', h, k):
            # the peer has closed the connection
            c.handler.closing = True
            sim.after(plan['lat'] + 0.001, c.close)
            return True
        return False
    net.send_zero = send_zero
    manager = hu.manager(env, 100)
    results = {}
    rounds = max([o['rd'] for o in plan['ops']] + [0]) + 1
    scheme = 'https' if plan['tls'] else 'http'
    slow = 25.0 * len(plan['faults']) + 5.0

    def thread(t):
        for rd in range(rounds):
            mine = [o for o in plan['ops'] if o['t'] == t and o['rd'] == rd]
            t0 = sim.now()
            for o in mine:
                r = hu.Req(env, '%s://h%d.example/r/%d' % (scheme, o['h'], o['id']), o)
                results[o['id']] = r
                if o['how'] == 'process' or not plan['pipe']:
                    manager.ProcessRequest(r)
                else:
                    manager.QueueRequest(r)
            manager.ThreadLoop()
            dt = sim.now() - t0
            if dt > slow + 3.0 * len(mine):
                env.violation('slow', 'thread %d round %d took %.2f simulated seconds' % (t, rd, dt))
            for o in mine:
                r = results[o['id']]
                if not r.done or r.nfinished != 1:
                    env.violation('not finished once', 'request %d: done %s finished %d times when the loop returned'
                                  % (o['id'], r.done, r.nfinished))
            if manager.ThreadActiveCount():
                env.violation('active after the loop', 'thread %d' % t)
        # the network recovers
        fin = sim.now()
        left[0] -= 1
        if left[0] == 0:
            heal[0] = True
        while not heal[0]:
            sim.sleep(0.5)
        for h in range(plan['nh']):
            for attempt in (1, 2):
                r = hu.Req(env, '%s://h%d.example/r/%d' % (scheme, h, 9000 + t * 10 + h), dict(id=9000 + t * 10 + h, m='GET'))
                manager.ProcessRequest(r)
                if r.status == 200 and not r.error and r.resBody == 'final':
                    if attempt == 2:
                        env.probe('second_attempt')
                    break
            else:
                env.violation('no recovery', 'thread %d host %d: status %s error %s after the faults stopped' % (t, h, r.status, r.error))
    left = [plan['nt']]
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 'client%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    seen = {}
    for s in servers:
        for q in s.requests:
            rid = hu.rid(q)
            if rid in byid:
                seen.setdefault(rid, []).append(q)
    hit = set(f['h'] for f in plan['faults'] if f['kind'] not in ('select', 'socket', 'addr'))
    globalfault = [f for f in plan['faults'] if f['kind'] in ('select', 'socket')]
    for rid, r in sorted(results.items()):
        o = byid[rid]
        ok = r.status != 0 and not r.error
        if len(seen.get(rid, [])) > 1:
            env.violation('sent twice', 'request %d' % rid)
        if rid in garbled:
            if ok:
                env.violation('garbage accepted', 'request %d: status %s' % (rid, r.status))
            else:
                env.probe('garbage_reported')
            continue
        if rid in odd:
            continue
        if ok:
            if rid not in seen:
                env.violation('answer from nowhere', 'request %d' % rid)
            q = seen[rid][0]
            if q.response_end is None:
                env.violation('cut response accepted', 'request %d' % rid)
            hu.check_result(env, r, o, rid)
        else:
            env.probe('failed')
            if o['h'] not in hit and not globalfault:
                env.violation('unaffected connection failed', 'request %d to host %d: status %s error %s' % (rid, o['h'], r.status, r.error))
    open_ = [s for s in net.sockets if not s.closed and s.conn is None]
    if open_:
        env.violation('socket leaked', '%d sockets that never connected are not closed' % len(open_))
    env.stat('requests', len(results))
