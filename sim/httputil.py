"""Shared by the HTTP client scenarios."""
import random
import sys
import io
import simnet
import boot
import dst
from httpsim import Response, body_for

rfc2616 = None
Req = None


def setup():
    global rfc2616, Req
    import pyslet.rfc2616 as m
    import pyslet.rfc2617
    rfc2616 = m

    class _Req(m.HTTPRequest):
        """Counts Finished, an extension point documented by the class."""

        def __init__(self, env, url, o):
            body = reqbody(o)
            if o.get('stream'):
                rb = Stream(body[:len(body) - o.get('eofby', 0)], o.get('short'))
            else:
                rb = body
            self.nfinished = 0
            self.sink = None
            if o.get('sink'):
                self.sink = Sink()
            m.HTTPRequest.__init__(self, url, str(o['m']), rb, self.sink)
            self.o = o
            if o.get('stream') and not o.get('chunked'):
                self.SetContentLength(len(body))
            elif o.get('chunked') and body:
                self.SetTransferEncoding('chunked')

        def Finished(self):
            self.nfinished += 1
            m.HTTPRequest.Finished(self)
    Req = _Req
    return m


def rid(q):
    p = (q.target or '').split('/')
    return int(p[2]) if len(p) > 2 and p[2].isdigit() else -1


class Stream(object):
    """A seekable request body source."""

    def __init__(self, data, o_short=None):
        self.data = data
        self.pos = 0
        self.short = o_short

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        if self.short:
            n = min(n, self.short)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d


class Sink(object):

    def __init__(self):
        self.data = ''
        self.pos = 0
        self.flushed = 0

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos

    def truncate(self, size=None):
        self.data = self.data[:self.pos if size is None else size]

    def write(self, d):
        self.data = self.data[:self.pos] + d + self.data[self.pos + len(d):]
        self.pos += len(d)

    def flush(self):
        self.flushed += 1


def reqbody(o):
    n = o.get('body', 0)
    return body_for('req%d' % o['id'], n) if n else ''


def gen_response(rng, method, rid):
    st = rng.choice([200, 200, 200, 201, 204, 304, 400, 404, 500]) if method != 'POST' else rng.choice([200, 201, 204, 404])
    fr = rng.choice(['cl', 'cl', 'chunked', 'chunked', 'close'])
    return dict(st=st, fr=fr, n=rng.choice([0, 1, 2, 40, 300, 5000, 20000]),
                chunks=[rng.choice([1, 2, 3, 10, 1000, 8192, 20000]) for i in range(rng.choice([1, 2, 3]))],
                interim=rng.choice([[], [], [], [100], [102], [100, 102]]) if method != 'POST' else [],
                delay=rng.choice([0.0, 0.0, 0.001, 0.05, 2.0]), close=rng.random() < 0.15,
                v10=rng.random() < 0.08, trailer=rng.random() < 0.2, fold=rng.random() < 0.1)


def resbody(r, rid):
    return body_for('res%d' % rid, r['n'])


def make_response(r, rid, method, may_end=True):
    fr = str(r['fr'])
    ver = 'HTTP/1.1'
    close = bool(r.get('close'))
    if not may_end:
        close = False
        if fr == 'close':
            fr = 'cl'
    elif r.get('v10'):
        ver = 'HTTP/1.0'
        if fr == 'chunked':
            fr = 'cl'
    hs = [('X-Id', str(rid)), ('Server', 'sim')]
    if r.get('fold'):
        hs.append(('X-Fold', 'a,\r\n b'))
    trailer = [('X-Trailer', 't%d' % rid)] if r.get('trailer') else []
    return Response(status=r['st'], reason='Reason %d' % r['st'], headers=hs, body=resbody(r, rid), framing=fr, version=ver,
                    interim=[] if ver == 'HTTP/1.0' else r.get('interim', []), delay=r['delay'], close=close,
                    chunks=r.get('chunks', ()), trailer=trailer)


def expected_body(o):
    r = o['r']
    if o['m'] == 'HEAD' or r['st'] in (204, 304):
        return ''
    return resbody(r, o['id'])


def check_result(env, r, o, rid):
    if r.status != o['r']['st']:
        env.violation('status', 'request %d (%s): expected %d, got %s error %s' % (rid, o['m'], o['r']['st'], r.status, r.error))
        return
    if r.error is not None:
        env.violation('error set', 'request %d: %s' % (rid, r.error))
    exp = expected_body(o)
    got = r.sink.data if r.sink is not None else r.resBody
    if got != exp:
        env.violation('response body', 'request %d: expected %d bytes, got %d (%r / %r)'
                      % (rid, len(exp), len(got), exp[:40], got[:40]))
    if r.response is None or (r.response.GetHeader('X-Id') or '').strip() != str(rid):
        env.violation('response identity', 'request %d has the headers of %s' % (
            rid, r.response and r.response.GetHeader('X-Id')))
    elif r.response.status != o['r']['st'] or r.response.reason != 'Reason %d' % o['r']['st']:
        env.violation('response status line', 'request %d: %s %s' % (rid, r.response.status, r.response.reason))


def network(sim, env, plan):
    rng = random.Random(int(plan['rnd']) + 5)
    net = simnet.Network(sim, rng)
    net.latency = plan.get('lat', 0.001)
    net.window = plan.get('window') or (1 << 30)
    s = plan.get('send')
    if s:
        net.send_limit = lambda c, n: rng.randint(1, s) if c.user.setdefault('ns', 0) < 200 and not c.user.update(ns=c.user['ns'] + 1) else None
    r = plan.get('recv')
    if r:
        net.recv_limit = lambda c, n: rng.randint(1, r) if c.user.setdefault('nr', 0) < 200 and not c.user.update(nr=c.user['nr'] + 1) else None
    env.net = net
    return net


def manager(env, maxc=100, ca=None):
    return rfc2616.HTTPRequestManager(maxc)


class Monitor(object):
    """Watches the byte streams at the sockets."""

    def __init__(self, net, env):
        self.net, self.env = net, env
        self.sends = {}             # conn id -> [(start offset, end offset, bytes read by the client then, time, task)]
        self.users = {}
        net.on_socket_event = self.event

    def event(self, kind, sock, data=None):
        c = sock.conn
        self.net.sim.log(kind, c.id, data)
        if kind == 'send':
            self.sends.setdefault(c.id, []).append((c.c2s_bytes - len(data), c.c2s_bytes, c.s2c_read, self.net.sim.now(),
                                                    self.net.sim.cur.id))
        if kind in ('send', 'recv', 'open'):
            self.users.setdefault(c.id, set()).add(self.net.sim.cur.id)

    def first_send(self, cid, off):
        """(bytes read by then, time) of the first send that carried a byte at or after off."""
        for a, b, r, t, k in self.sends.get(cid, []):
            if b > off:
                return r, t
        return None, None

    def read_at_send(self, cid, off):
        """How many response bytes the client had read when it sent byte number off."""
        for a, b, r, t, k in self.sends.get(cid, []):
            if a <= off < b:
                return r, t
        return None, None

    def check_post(self, servers):
        for s in servers:
            prev = {}
            for q in s.requests:
                if q.method == 'POST':
                    r, t = self.read_at_send(q.conn.id, q.off_start)
                    for p in prev.get(q.conn.id, []):
                        if p.response_end is None or (r is not None and r < p.response_end):
                            self.env.violation('POST pipelined', '%s sent while %s %s awaited its response'
                                               % (q.target, p.method, p.target))
                            break
                    else:
                        if prev.get(q.conn.id):
                            self.env.probe('post_after_response')
                else:
                    r, t = self.read_at_send(q.conn.id, q.off_start)
                    for p in prev.get(q.conn.id, [])[-1:]:
                        if p.response_end is None or (r is not None and r < p.response_end):
                            self.env.probe('pipelined')
                prev.setdefault(q.conn.id, []).append(q)


def verdict(env, sim):
    if sim.verdict:
        env.violation('no progress: ' + sim.verdict, 'stuck: %s after %.3f simulated seconds, %d steps'
                      % (sim.stuck, sim.now(), sim.nsteps), tb=sim.stuck_stack)
