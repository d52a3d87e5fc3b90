"""Simulated TCP: modules socket, select and ssl for the code under test.

The network belongs to the running simulation (NET).  Servers are event-driven
handlers: listen(host, port, factory); factory(net, conn) returns an object
with on_data(bytes), on_eof(), on_reset() called inside scheduler events.
"""
import errno as _errno
import sys
import types
import dst

NET = None


class error(IOError):
    """socket.error"""

    def __init__(self, *args):
        IOError.__init__(self, *args)


class herror(error):
    pass


class gaierror(error):
    pass


class timeout(error):
    pass


class SSLError(error):
    pass


class select_error(Exception):
    pass

SHUT_RD, SHUT_WR, SHUT_RDWR = 0, 1, 2
AF_UNSPEC, AF_INET, AF_INET6 = 0, 2, 10
SOCK_STREAM, SOCK_DGRAM = 1, 2
IPPROTO_TCP = 6


class Conn(object):
    """One TCP connection; 'c' is the client side, 's' the server handler."""

    def __init__(self, net, id, addr):
        self.net = net
        self.id = id
        self.addr = addr
        self.handler = None
        # client -> server
        self.c2s_time = 0.0
        self.c2s_bytes = 0          # accepted by send()
        self.c2s_delivered = 0
        self.c2s_fin = False
        self.window = net.window       # bytes that may be in flight (unacknowledged by the server)
        # server -> client
        self.s2c_time = 0.0
        self.s2c_queue = ''         # delivered, not yet read by the client
        self.s2c_sent = 0           # bytes the server has written
        self.s2c_read = 0           # bytes the client has read
        self.s2c_eof = False
        self.server_closed = False
        self.reset = False          # client sees ECONNRESET
        self.client_closed = False
        self.client_shut = False
        self.waiters = []
        self.plain = ''             # decrypted, not yet read (TLS)
        self.rec_ends = []          # stream offsets at which TLS records end
        self.raw_taken = 0
        self.opened = net.sim.now()
        self.closed_at = None
        self.user = {}

    # ---- server side API (called from events)
    def write(self, data, delay=0.0):
        """Sends data to the client as one segment."""
        if self.server_closed or not data:
            return
        self.s2c_sent += len(data)
        t = max(self.s2c_time, self.net.sim.now() + delay)
        self.s2c_time = t

        def arrive():
            if self.reset or self.client_closed:
                return
            self.s2c_queue += data
            self.notify()
        self.net.sim.at(t, arrive)

    def record(self, n):
        """The next n bytes written form TLS records of at most 16 KB."""
        pos = self.rec_ends[-1] if self.rec_ends else self.s2c_sent
        while n > 0:
            k = min(n, 16384)
            pos += k
            n -= k
            self.rec_ends.append(pos)

    def decrypt(self):
        """Moves one complete record to plain; False if there is none yet."""
        while self.rec_ends and self.rec_ends[0] <= self.raw_taken:
            del self.rec_ends[0]
        n = len(self.s2c_queue)
        if not n:
            return False
        if self.rec_ends and self.raw_taken + n < self.rec_ends[0] and not (self.s2c_eof or self.reset):
            return False
        if self.rec_ends:
            n = min(n, self.rec_ends[0] - self.raw_taken)
        self.plain += self.s2c_queue[:n]
        self.s2c_queue = self.s2c_queue[n:]
        self.raw_taken += n
        return True

    def close(self, delay=0.0):
        """Orderly close by the server after what was written."""
        if self.server_closed:
            return
        self.server_closed = True
        t = max(self.s2c_time, self.net.sim.now() + delay)
        self.s2c_time = t

        def arrive():
            self.s2c_eof = True
            self.notify()
        self.net.sim.at(t, arrive)

    def abort(self, delay=0.0, discard=False):
        """RST: the client gets ECONNRESET; unread data is lost if discard."""
        self.server_closed = True
        t = self.net.sim.now() + delay
        if not discard:
            t = max(self.s2c_time, t)

        def arrive():
            self.reset = True
            if discard:
                self.s2c_queue = ''
            self.notify()
        self.net.sim.at(t, arrive)

    def notify(self):
        w, self.waiters = self.waiters, []
        for t in w:
            self.net.sim.wake(t)
        self.net.wake_selectors()

    # ---- state seen by the client
    def readable(self):
        return bool(self.s2c_queue) or self.s2c_eof or self.reset or self.client_shut

    def writable(self):
        return self.reset or self.client_shut or self.c2s_bytes - self.c2s_delivered < self.window


class Network(object):

    def __init__(self, sim, rng):
        global NET
        self.sim = sim
        self.rng = rng
        self.hosts = {}             # name -> list of addresses
        self.listeners = {}         # (address, port) -> factory
        self.conns = []
        self.sockets = []
        self.selectors = []
        self.nfd = 100
        self.latency = 0.001
        self.window = 1 << 30
        self.stats = {}
        self.connect_fault = None   # fn(n, address) -> None | errno | ('delay', s)
        self.dns_fault = None       # fn(n, host) -> None | gaierror code
        self.send_limit = None      # fn(conn, n) -> bytes accepted
        self.send_fault = None      # fn(conn, sendindex) -> None | errno
        self.recv_limit = None      # fn(conn, n) -> max bytes given
        self.select_fault = None    # fn(n) -> None | errno
        self.nconnect = self.ndns = self.nselect = 0
        self.maxopen = 0
        self.socket_fault = None    # fn(sock) -> None | errno
        self.send_zero = None       # fn(conn, n) -> True: send returns 0
        self.on_socket_event = None
        NET = self

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def listen(self, host, port, factory, addr=None):
        addr = addr or '10.0.0.%d' % (len(self.hosts) + 1)
        if host not in self.hosts:
            self.hosts[host] = [addr]
        addr = self.hosts[host][0]
        self.listeners[(addr, port)] = factory

    def wake_selectors(self):
        for t in self.selectors:
            self.sim.wake(t)

    def open_sockets(self):
        return [s for s in self.sockets if s.conn is not None and not s.closed]


class SimSocket(object):

    def __init__(self, family=AF_INET, type=SOCK_STREAM, proto=0, _sock=None):
        self.net = NET
        if dst.active() is None or NET is None:
            raise error(_errno.ENETDOWN, 'Network is down')
        self.conn = None
        self.closed = False
        if self.net.socket_fault is not None:
            f = self.net.socket_fault(self)
            if f is not None:
                raise error(f, _errno.errorcode.get(f, str(f)))
        self.net.nfd += 1
        self.fd = self.net.nfd
        self.net.sockets.append(self)
        self.nsend = 0
        self.task = None
        self.timeout = None
        self.secure = False

    def _step(self, kind):
        sim = dst.active()
        if sim is None:
            raise error(_errno.EBADF, 'Bad file descriptor')
        sim.step(kind)
        if self.closed:
            raise error(_errno.EBADF, 'Bad file descriptor')
        return sim

    def settimeout(self, t):
        self.timeout = t

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *args):
        pass

    def getpeername(self):
        return self.conn.addr

    def getsockname(self):
        return ('10.9.9.9', 40000 + self.fd)

    def fileno(self):
        if self.closed:
            raise error(_errno.EBADF, 'Bad file descriptor')
        return self.fd

    def connect(self, address):
        sim = self._step('connect')
        net = self.net
        net.nconnect += 1
        address = tuple(address[:2])
        net.count('connect')
        lat = net.latency
        if net.connect_fault is not None:
            f = net.connect_fault(net.nconnect, address)
            if f is not None:
                if isinstance(f, tuple):
                    lat = f[1]
                    f = f[2] if len(f) > 2 else None
                if f is not None:
                    sim.sleep(lat)
                    raise error(f, _errno.errorcode.get(f, str(f)))
        sim.sleep(lat)
        if self.closed:
            raise error(_errno.EBADF, 'Bad file descriptor')
        factory = net.listeners.get(address)
        if factory is None:
            raise error(_errno.ECONNREFUSED, 'Connection refused')
        c = Conn(net, len(net.conns), address)
        net.conns.append(c)
        c.sock = self
        c.handler = factory(net, c)
        self.conn = c
        n = len(net.open_sockets())
        if n > net.maxopen:
            net.maxopen = n
        if net.on_socket_event is not None:
            net.on_socket_event('open', self)

    def connect_ex(self, address):
        try:
            self.connect(address)
            return 0
        except error, e:
            return e.args[0]

    def send(self, data, flags=0):
        sim = self._step('send')
        c = self.conn
        if c is None:
            raise error(_errno.ENOTCONN, 'Transport endpoint is not connected')
        self.nsend += 1
        net = self.net
        if net.send_fault is not None:
            f = net.send_fault(c, self.nsend)
            if f is not None:
                c.reset = True
                c.notify()
                self._peer_gone(c, True)
                raise error(f, _errno.errorcode.get(f, str(f)))
        while True:
            if self.closed:
                raise error(_errno.EBADF, 'Bad file descriptor')
            if c.client_shut:
                raise error(_errno.EPIPE, 'Broken pipe')
            if c.reset:
                raise error(_errno.ECONNRESET, 'Connection reset by peer')
            room = c.window - (c.c2s_bytes - c.c2s_delivered)
            if room > 0:
                break
            c.waiters.append(sim.cur)
            sim.block(None, 'send')
        n = min(len(data), room)
        if net.send_zero is not None and net.send_zero(c, n):
            return 0
        if net.send_limit is not None:
            k = net.send_limit(c, n)
            if k is not None and k < n:
                n = max(1, k)
                net.count('partial_send')
        part = data[:n]
        c.c2s_bytes += n
        sim.progress()
        if net.on_socket_event is not None:
            net.on_socket_event('send', self, part)
        t = max(c.c2s_time, sim.now() + net.latency)
        c.c2s_time = t

        def arrive():
            c.c2s_delivered += len(part)
            if not c.reset and not c.server_closed:
                c.handler.on_data(part)
            elif c.server_closed and not c.reset and not c.user.get('no_rst'):
                # data for a closed socket: the peer answers with RST
                c.reset = True
            c.notify()
        sim.at(t, arrive)
        return n

    def sendall(self, data, flags=0):
        while data:
            data = data[self.send(data):]

    def recv(self, size, flags=0):
        sim = self._step('recv')
        c = self.conn
        if c is None:
            raise error(_errno.ENOTCONN, 'Transport endpoint is not connected')
        while True:
            if self.secure and not c.plain:
                c.decrypt()
            if self.secure and c.plain:
                n = min(size, len(c.plain))
                data = c.plain[:n]
                c.plain = c.plain[n:]
                c.s2c_read += n
                sim.progress()
                if c.plain:
                    self.net.count('tls_pending')
                if self.net.on_socket_event is not None:
                    self.net.on_socket_event('recv', self, data)
                return data
            if c.s2c_queue and not self.secure:
                n = min(size, len(c.s2c_queue))
                if self.net.recv_limit is not None:
                    k = self.net.recv_limit(c, n)
                    if k is not None and k < n:
                        n = max(1, k)
                        self.net.count('short_recv')
                data = c.s2c_queue[:n]
                c.s2c_queue = c.s2c_queue[n:]
                c.s2c_read += n
                sim.progress()
                if self.net.on_socket_event is not None:
                    self.net.on_socket_event('recv', self, data)
                return data
            if c.reset:
                self.net.count('reset_seen')
                raise error(_errno.ECONNRESET, 'Connection reset by peer')
            if c.s2c_eof or c.client_shut:
                self.net.count('eof_seen')
                return ''
            c.waiters.append(sim.cur)
            sim.block(None, 'recv')
            if self.closed:
                raise error(_errno.EBADF, 'Bad file descriptor')

    def shutdown(self, how):
        sim = self._step('shutdown')
        c = self.conn
        if c is None:
            raise error(_errno.ENOTCONN, 'Transport endpoint is not connected')
        if c.reset or c.client_shut:
            c.client_shut = True
            raise error(_errno.ENOTCONN, 'Transport endpoint is not connected')
        if how in (SHUT_WR, SHUT_RDWR):
            if how == SHUT_RDWR:
                c.client_shut = True
                if self.net.on_socket_event is not None:
                    self.net.on_socket_event('shutdown', self)
            self._peer_gone(c, False)
        c.notify()

    def _peer_gone(self, c, reset):
        if c.c2s_fin:
            return
        c.c2s_fin = True
        t = max(c.c2s_time, self.net.sim.now() + self.net.latency)
        c.c2s_time = t

        def arrive():
            if not c.server_closed:
                if reset:
                    c.handler.on_reset()
                else:
                    c.handler.on_eof()
        self.net.sim.at(t, arrive)

    def close(self):
        if self.closed:
            return
        sim = dst.active()
        if sim is None:
            return
        self.closed = True
        c = self.conn
        if c is not None:
            c.client_closed = True
            c.closed_at = sim.now()
            if not sim.dead:
                self._peer_gone(c, False)
                c.notify()
            if self.net.on_socket_event is not None:
                self.net.on_socket_event('close', self)
        sim.step('close')

    def pending(self):
        return len(self.conn.plain) if self.secure and self.conn is not None else 0

    def cipher(self):
        return ('SIM', 'TLSv1', 256)

    def makefile(self, *args):
        raise NotImplementedError


def _find(fd):
    n = fd if isinstance(fd, (int, long)) else fd.fileno()
    for s in reversed(NET.sockets):
        if s.fd == n:
            if s.closed:
                raise select_error(_errno.EBADF, 'Bad file descriptor')
            return s
    raise select_error(_errno.EBADF, 'Bad file descriptor')


def select(r, w, x, timeout=None):
    sim = dst.active()
    if sim is None:
        raise select_error(_errno.EBADF, 'Bad file descriptor')
    sim.step('select')
    net = NET
    net.nselect += 1
    if net.select_fault is not None:
        f = net.select_fault(net.nselect)
        if f is not None:
            raise select_error(f, _errno.errorcode.get(f, str(f)))
    if timeout is not None and timeout < 0:
        raise select_error(_errno.EINVAL, 'Invalid argument')
    dl = None if timeout is None else sim.now() + timeout
    while True:
        for fd in list(r) + list(w) + list(x):
            _find(fd)
        rr = [fd for fd in r if _find(fd).conn is not None and _find(fd).conn.readable()]
        ww = [fd for fd in w if _find(fd).conn is not None and _find(fd).conn.writable()]
        if rr or ww or timeout == 0:
            return rr, ww, []
        net.selectors.append(sim.cur)
        woken = sim.block(dl, 'select')
        net.selectors = [t for t in net.selectors if t is not sim.cur]
        if not woken:
            return [], [], []


def getaddrinfo(host, port, family=0, socktype=0, proto=0, flags=0):
    sim = dst.active()
    if sim is None or NET is None:
        raise gaierror(-2, 'Name or service not known')
    sim.step('dns')
    net = NET
    net.ndns += 1
    sim.sleep(net.latency)
    if net.dns_fault is not None:
        f = net.dns_fault(net.ndns, host)
        if f is not None:
            raise gaierror(f, 'Name or service not known')
    if host not in net.hosts:
        raise gaierror(-2, 'Name or service not known')
    return [(AF_INET, SOCK_STREAM, IPPROTO_TCP, '', (a, int(port))) for a in net.hosts[host]]


def gethostbyname(host):
    return getaddrinfo(host, 0)[0][4][0]


def wrap_socket(sock, keyfile=None, certfile=None, server_side=False, cert_reqs=0, ssl_version=2,
                ca_certs=None, **kw):
    sim = dst.active()
    sim.step('ssl')
    f = getattr(NET, 'ssl_fault', None)
    if f is not None and f(sock):
        raise SSLError(1, 'handshake failure')
    sim.sleep(NET.latency)
    sock.secure = True
    return sock


def install():
    me = sys.modules[__name__]
    s = types.ModuleType('socket')
    for n in ('error', 'herror', 'gaierror', 'timeout', 'SHUT_RD', 'SHUT_WR', 'SHUT_RDWR', 'AF_UNSPEC', 'AF_INET',
              'AF_INET6', 'SOCK_STREAM', 'SOCK_DGRAM', 'IPPROTO_TCP', 'getaddrinfo', 'gethostbyname'):
        setattr(s, n, getattr(me, n))
    s.socket = s.SocketType = s._socketobject = SimSocket
    s.SOL_SOCKET, s.SO_REUSEADDR, s.SO_KEEPALIVE, s.TCP_NODELAY = 1, 2, 9, 1
    s.getfqdn = lambda name='': 'sim.example.com'
    s.gethostname = lambda: 'sim'
    s.getdefaulttimeout = lambda: None
    s.setdefaulttimeout = lambda t: None
    s._GLOBAL_DEFAULT_TIMEOUT = object()
    s.has_ipv6 = False

    def create_connection(address, *args, **kw):
        k = SimSocket()
        k.connect((getaddrinfo(address[0], address[1])[0][4][0], address[1]))
        return k
    s.create_connection = create_connection
    m = types.ModuleType('select')
    m.select = select
    m.error = select_error
    l = types.ModuleType('ssl')
    l.wrap_socket = wrap_socket
    l.SSLError = SSLError
    l.CERT_NONE, l.CERT_OPTIONAL, l.CERT_REQUIRED = 0, 1, 2
    l.PROTOCOL_SSLv23, l.PROTOCOL_TLSv1 = 2, 3
    l.SSLSocket = SimSocket
    sys.modules['socket'] = s
    sys.modules['select'] = m
    sys.modules['ssl'] = l
