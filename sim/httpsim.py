"""A scripted HTTP/1.1 server model for the simulated network, independent of pyslet's HTTP code."""
import random

INF = 1 << 60


class Request(object):

    def __init__(self, server, conn, index):
        self.server = server
        self.conn = conn
        self.index = index          # position on the connection
        self.method = self.target = self.version = None
        self.headers = []
        self.body = ''
        self.raw_head = ''
        self.t_head = None          # time the head was complete
        self.off_start = 0          # offset in the client's byte stream
        self.off_head_end = 0
        self.off_end = None
        self.complete = False
        self.bad = None
        self.cont_end = self.cont_time = None
        self.response_end = None    # offset in the server's byte stream

    def header(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None


class Response(object):

    def __init__(self, status=200, reason='OK', headers=(), body='', framing='cl', version='HTTP/1.1',
                 interim=(), delay=0.0, close=False, cut=None, cutkind='eof', chunks=(), trailer=(), early=False,
                 nodate=True, chunkext='', dropconn=False):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def bytes(self, method):
        """(head bytes incl. interim, body bytes, framed completely by itself?)"""
        out = []
        for st in self.interim:
            out.append('HTTP/1.1 %d %s\r\n\r\n' % (st, {100: 'Continue', 102: 'Processing'}.get(st, 'Info')))
        out.append('%s %d %s\r\n' % (self.version, self.status, self.reason))
        for k, v in self.headers:
            out.append('%s: %s\r\n' % (k, v))
        nobody = method == 'HEAD' or self.status in (204, 304)
        b = self.body
        if self.framing == 'cl':
            if self.status not in (204,):
                out.append('Content-Length: %d\r\n' % len(b))
        elif self.framing == 'chunked':
            out.append('Transfer-Encoding: chunked\r\n')
        if self.close or (self.framing == 'close' and self.version == 'HTTP/1.1' and self.close is not None):
            out.append('Connection: close\r\n')
        out.append('\r\n')
        head = ''.join(out)
        if nobody:
            return head, ''
        if self.framing == 'chunked':
            o = []
            pos = 0
            sizes = list(self.chunks) or [len(b)]
            i = 0
            while pos < len(b):
                n = max(1, sizes[i % len(sizes)])
                if i > 25:
                    n = max(n, len(b) // 4)
                i += 1
                c = b[pos:pos + n]
                pos += len(c)
                size = '%x' % len(c)
                if getattr(self, 'hexup', False):
                    size = size.upper()
                o.append('%s%s%s\r\n%s\r\n' % ('0' * getattr(self, 'zeros', 0), size, self.chunkext, c))
            o.append('0\r\n')
            for k, v in self.trailer:
                o.append('%s: %s\r\n' % (k, v))
            o.append('\r\n')
            return head, ''.join(o)
        return head, b

    def ends_connection(self, method):
        if self.close or self.version == 'HTTP/1.0':
            return True
        if self.framing != 'close':
            return False
        return self.close is not None or not (method == 'HEAD' or self.status in (204, 304))


class Server(object):
    """respond(request) -> Response or None (never answers); called when the head is in for early
    responses (wants(request) true) and otherwise when the request is complete."""

    def __init__(self, net, env, name, respond, seg=None, rnd=1, segdelay=0.002, coalesce=0.3,
                 on_head=None, send100=None):
        self.net, self.env, self.name, self.respond = net, env, name, respond
        self.seg = seg
        self.rnd = rnd
        self.segdelay = segdelay
        self.coalesce = coalesce
        self.requests = []
        self.on_head = on_head      # on_head(request) -> Response for an early answer, or None
        self.send100 = send100      # send100(request) -> None, or delay after which 100 is sent
        self.conns = []

    def __call__(self, net, conn):
        h = ConnHandler(self, conn)
        self.conns.append(h)
        return h


class ConnHandler(object):

    def __init__(self, server, conn):
        self.server = server
        self.conn = conn
        self.net = server.net
        self.rng = random.Random(server.rnd * 31 + conn.id)
        self.buf = ''
        self.off = 0                # stream offset of buf[0]
        self.state = 'head'
        self.req = None
        self.nreq = 0
        self.queue = []             # requests awaiting their response, in order
        self.out = ''               # bytes written but not flushed
        self.busy = False
        self.closing = False
        self.eof = False
        self.junk = ''

    # ---- incoming
    def on_data(self, data):
        self.buf += data
        self.parse()

    def on_eof(self):
        self.eof = True
        if self.state == 'head' and self.buf == '' and not self.queue:
            self.conn.close()
            self.closing = True
        elif not self.queue:
            self.conn.close()
            self.closing = True

    def on_reset(self):
        self.eof = True

    def parse(self):
        while True:
            if self.state == 'head':
                if self.closing:
                    self.junk += self.buf
                    return
                if not self.buf:
                    return
                i = self.buf.find('\r\n\r\n')
                if i < 0:
                    return
                head = self.buf[:i + 4]
                r = Request(self.server, self.conn, self.nreq)
                self.nreq += 1
                r.off_start = self.off
                self.take(i + 4)
                r.off_head_end = self.off
                r.raw_head = head
                r.t_head = self.net.sim.now()
                self.req = r
                self.server.requests.append(r)
                lines = head[:-4].split('\r\n')
                parts = lines[0].split(' ')
                if len(parts) != 3:
                    r.bad = 'request line %r' % lines[0]
                    self.state = 'bad'
                    return
                r.method, r.target, r.version = parts
                for l in lines[1:]:
                    if ':' not in l:
                        r.bad = 'header %r' % l
                        self.state = 'bad'
                        return
                    k, v = l.split(':', 1)
                    r.headers.append((k.strip(), v.strip()))
                te = r.header('Transfer-Encoding')
                cl = r.header('Content-Length')
                if te and te.lower() == 'chunked':
                    self.state = 'chunksize'
                elif cl is not None and cl.isdigit():
                    self.need = int(cl)
                    self.state = 'body'
                elif cl is not None:
                    r.bad = 'content length %r' % cl
                    self.state = 'bad'
                    return
                else:
                    self.need = 0
                    self.state = 'body'
                early = self.server.on_head(r) if self.server.on_head else None
                if early is not None:
                    self.queue.append((r, early))
                    r.early = True
                    self.kick(early.delay)
                else:
                    r.early = False
                    if self.server.send100 is not None and (r.header('Expect') or '').lower() == '100-continue':
                        d = self.server.send100(r)
                        if d is not None:
                            self.net.sim.after(d, lambda r=r: self.cont(r))
            elif self.state == 'body':
                n = min(self.need, len(self.buf))
                self.req.body += self.buf[:n]
                self.need -= n
                self.take(n)
                if self.need:
                    return
                self.done()
            elif self.state == 'chunksize':
                i = self.buf.find('\r\n')
                if i < 0:
                    return
                try:
                    n = int(self.buf[:i].split(';')[0], 16)
                except ValueError:
                    self.req.bad = 'chunk size %r' % self.buf[:i]
                    self.state = 'bad'
                    return
                self.take(i + 2)
                self.need = n
                self.state = 'chunk' if n else 'trailer'
            elif self.state == 'chunk':
                if len(self.buf) < self.need + 2:
                    return
                self.req.body += self.buf[:self.need]
                if self.buf[self.need:self.need + 2] != '\r\n':
                    self.req.bad = 'chunk end'
                    self.state = 'bad'
                    return
                self.take(self.need + 2)
                self.state = 'chunksize'
            elif self.state == 'trailer':
                i = self.buf.find('\r\n')
                if i < 0:
                    return
                line = self.buf[:i]
                self.take(i + 2)
                if not line:
                    self.done()
            else:
                return

    def take(self, n):
        self.buf = self.buf[n:]
        self.off += n

    def done(self):
        r = self.req
        r.complete = True
        r.off_end = self.off
        self.req = None
        self.state = 'head'
        if not r.early:
            resp = self.server.respond(r)
            if resp is not None:
                self.queue.append((r, resp))
                self.kick(resp.delay)

    # ---- outgoing
    def cont(self, r):
        if r.complete or r is not self.req or self.queue:
            return
        for st in getattr(r, 'interims', [100]):
            self.raw('HTTP/1.1 %d Interim\r\n\r\n' % st)
        if r.cont_end is None and not self.closing:
            r.cont_end = self.conn.s2c_sent
            r.cont_time = self.net.sim.now()

    def raw(self, data):
        if not self.closing:
            self.conn.record(len(data))
            self.conn.write(data)

    def kick(self, delay):
        if self.busy:
            return
        self.busy = True
        self.net.sim.after(delay, self.serve)

    def serve(self):
        """Writes the response of the first queued request."""
        self.busy = False
        if not self.queue or self.closing:
            return
        r, resp = self.queue.pop(0)
        head, body = resp.bytes(r.method)
        data = head + body
        end = resp.ends_connection(r.method)
        cut = resp.cut
        r.response_start = self.conn.s2c_sent + len(self.out)
        if cut is not None and cut < len(data) + 1:
            data = data[:cut]
            self.flush(self.out + data)
            self.out = ''
            r.response_end = None
            self.closing = True
            if resp.cutkind == 'rst':
                self.conn.abort(self.rng.random() * 0.01)
            elif resp.cutkind == 'stall':
                pass
            else:
                self.conn.close(self.rng.random() * 0.01)
            self.server.env.fault('cut_' + resp.cutkind)
            return
        r.response_end = r.response_start + len(data)
        self.out += data
        if end:
            self.flush(self.out)
            self.out = ''
            self.closing = True
            self.conn.close(self.rng.random() * 0.01)
            return
        if self.queue:
            if self.rng.random() >= self.server.coalesce:
                self.flush(self.out)
                self.out = ''
            else:
                self.server.env.probe('coalesced_responses')
            self.kick(self.queue[0][1].delay)
        else:
            if self.out and self.rng.random() < self.server.coalesce:
                # wait a little: another pipelined request may come
                def later():
                    if self.out and not self.busy:
                        self.flush(self.out)
                        self.out = ''
                self.net.sim.after(0.01, later)
            else:
                self.flush(self.out)
                self.out = ''
        if self.eof and not self.queue and not self.busy:
            self.flush(self.out)
            self.out = ''
            self.conn.close()
            self.closing = True

    def flush(self, data):
        if not data:
            return
        seg = self.server.seg
        rng = self.rng
        pos = 0
        t = 0.0
        n = 0
        self.conn.record(len(data))
        while pos < len(data):
            if seg is None:
                k = len(data)
            else:
                k = rng.randint(1, seg)
                n += 1
                if n > 60:
                    k = max(k, (len(data) - pos) // 8 + 1)
            part = data[pos:pos + k]
            pos += k
            self.conn.write(part, t)
            if seg is not None:
                self.server.env.fault('segment')
            t += rng.choice([0.0, 0.0, self.server.segdelay])


def body_for(i, n):
    """A body of n bytes that names its request and contains awkward bytes."""
    base = '<%s>\r\n\r\n0\r\nHTTP/1.1 200 OK\r\n\x00\xff' % i
    s = base * (n // len(base) + 1)
    return s[:n]
