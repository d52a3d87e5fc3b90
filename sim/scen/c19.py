"""C19: saved lists of LTI consumers."""
import errno
import boot
import httputil as hu

lti = None
KEYS = ['www.example.com', 'k', 'k2', 'K', '#x', 'a b', '', 'a\tb', 'x\n', 'a#b', ' k', '\x0b', 'k2#', '"q"', '0', 'w\xc3\xa9']
SECRETS = ['Secret', 'password', '0', 'A1B2.C3D4', '#s', 's' * 300]


def setup():
    global lti
    boot.install()
    import pyslet.imsbltiv1p0 as m
    lti = m


def lines(rng):
    r = []
    for i in range(rng.choice([0, 1, 2, 3, 5])):
        k, s = rng.choice(KEYS[:4] + ['a#b', 'f%d' % i]), rng.choice(SECRETS)
        x = rng.random()
        if x < 0.15:
            r.append('#' + rng.choice(['', ' comment', '%s %s' % (k, s)]))
        elif x < 0.2:
            r.append(rng.choice(['', '  ', k]))
        else:
            r.append(k + rng.choice([' ', '  ', '\t', ' \t ']) + s + rng.choice(['', '', '', ' ', ' extra words', '\r']))
    return r


def generate(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    odd = rng.random() < 0.25
    ops = []
    kinds = rng.choice([['new', 'new', 'save', 'load', 'reload', 'write'], ['load', 'load', 'new', 'save']])
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(kinds)
            o = dict(t=t, op=k, f=rng.randrange(2))
            if k == 'new':
                o['k'] = rng.choice(KEYS if odd else KEYS[:4] + ['a#b', '0', None])
            elif k == 'write':
                o['lines'] = lines(rng)
                o['end'] = rng.random() < 0.8
            if k in ('save', 'load', 'reload') and rng.random() < 0.35:
                o['fail'] = rng.choice([0, 1, 5, 17, 30, 31, 60, 100])
                o['err'] = rng.choice(['ENOSPC', 'EIO'])
            if k in ('save', 'load', 'reload'):
                o['short'] = rng.choice([0, 0, 1, 7])
            ops.append(o)
    return dict(nt=nt, ops=ops, files=[lines(rng) for i in range(2)])


SHRINK = ['ops']


class File(object):
    """A file that can fail at an offset; a failed write leaves what came before it."""

    def __init__(self, env, data='', fail=None, err='EIO', short=0):
        self.env, self.data, self.pos, self.fail, self.err, self.short = env, data, 0, fail, err, short
        self.failed = False
        self.closed = False
        self.name = 'consumers'

    def boom(self):
        self.failed = True
        self.env.fault('disk_' + self.err)
        raise IOError(getattr(errno, self.err), 'simulated ' + self.err)

    def write(self, s):
        if isinstance(s, unicode):
            s = s.encode('ascii')
        if self.fail is not None and len(self.data) + len(s) > self.fail:
            self.data += s[:max(0, self.fail - len(self.data))]
            self.boom()
        self.data += s

    def writelines(self, seq):
        for s in seq:
            self.write(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, len(self.data))[whence]

    def take(self, n):
        if self.fail is not None and self.pos + n > self.fail:
            self.boom()
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        return self.take(min(n, len(self.data) - self.pos))

    def readline(self, n=-1):
        i = self.data.find('\n', self.pos)
        return self.take((i + 1 if i >= 0 else len(self.data)) - self.pos)

    def readlines(self, n=0):
        return list(self)

    def __iter__(self):
        return self

    def next(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r
    xreadlines = __iter__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def parse(text):
    r = []
    for line in text.split('\n'):
        if line[:1] == '#':
            continue
        f = line.split()
        if len(f) >= 2:
            r.append((f[0], f[1]))
    return r


def execute(plan, env):
    sim = env.make_sim(max_time=10.0 ** 6)
    tp = lti.BLTIToolProvider()
    known = {}          # key: (secret, consumer) as announced
    maybe = {}          # key: secrets in files being loaded
    files = dict(('ab'[i], (''.join([x + '\n' for x in ls]), None)) for i, ls in enumerate(plan['files']))     # name: (text, what it was saved from)
    later = []
    names = dict(enumerate('ab'))
    busy = [0]
    ambiguous = [False]

    def look(where):
        for k, c in list(tp.consumers.items()):
            if k in known:
                if known[k][1] is not c or c.secret != known[k][0] or c.key != k:
                    env.violation('a known consumer changed', '%s: %r is %r, was %r' % (where, k, c.secret, known[k][0]))
            elif c.key != k or c.secret not in maybe.get(k, ()):
                if plan['nt'] > 1 and where != 'end':
                    later.append((k, c))    # perhaps another thread is just adding it
                    continue
                env.violation('a consumer nobody saved', '%s: %r %r' % (where, k, c.secret))
        for k in known:
            if k not in tp.consumers:
                env.violation('a consumer vanished', '%s: %r' % (where, k))

    def representable(k):
        return k.split() == [k] and k[:1] != '#'

    def do(t, o):
        kind = o['op']
        f = names[o['f']]
        if kind == 'new':
            try:
                k, s = tp.NewConsumer(o['k'])
            except lti.BLTIDuplicateKeyError:
                if o['k'] not in known and o['k'] not in maybe and plan['nt'] == 1:
                    env.violation('unused key refused', repr(o))
                return
            except (ValueError, lti.BLTIError):
                if representable(o['k']):
                    raise
                env.probe('odd_key_refused')
                return
            if k in known:
                env.violation('two consumers with one key', '%r' % (o,))
            known[k] = (s, tp.consumers[k])
            look('%r' % o)
        elif kind == 'write':
            files[f] = ('\n'.join(o['lines']) + ('\n' if o['end'] and o['lines'] else ''), None)
        elif kind == 'save':
            x = File(env, fail=o.get('fail'), err=o.get('err'), short=o['short'])
            before = dict((k, v[0]) for k, v in known.items())
            try:
                tp.SaveToFile(x)
            except IOError:
                if not x.failed:
                    raise
                env.probe('save_failed')
                if plan['nt'] > 1 or True:
                    files[f] = (x.data, None)
                return
            except (ValueError, lti.BLTIError), e:
                if not isinstance(e, UnicodeError) and all(representable(k) for k in tp.consumers):
                    raise
                env.probe('save_refused')
                return
            if x.failed:
                env.violation('a failed save was not reported', '%r' % (o,))
            after = dict((k, c.secret) for k, c in tp.consumers.items())
            files[f] = (x.data, (before, after))
            got = {}
            for k, s in parse(x.data):
                if k in got:
                    env.violation('saved twice', '%r: %r' % (o, k))
                got[k] = s
                if after.get(k) != s:
                    env.violation('saved something else', '%r: %r %r in %r' % (o, k, s, x.data))
            for k in before:
                if k not in got:
                    env.violation('consumer not saved', '%r: %r not in %r' % (o, k, x.data))
            env.probe('saved')
        else:
            text, src = files.get(f, ('', None))
            if kind == 'reload':
                # into a provider of its own
                p2 = lti.BLTIToolProvider()
            else:
                p2 = tp
                for k, s in parse(text):
                    maybe.setdefault(k, set()).add(s)
            x = File(env, text, fail=o.get('fail'), err=o.get('err'), short=o['short'])
            old = dict((k, v) for k, v in p2.consumers.items())
            want = parse(text)
            err = None
            try:
                p2.LoadFromFile(x)
            except IOError:
                if not x.failed:
                    raise
                err = 'io'
                env.probe('load_failed')
            except lti.BLTIDuplicateKeyError:
                err = 'dup'
                env.probe('load_duplicate')
                ks = [k for k, s in want]
                if len(set(ks)) == len(ks) and not set(ks) & set(p2.consumers if plan['nt'] > 1 else old):
                    env.violation('unused key refused', '%r: %r' % (o, text))
            if x.failed and not err:
                env.violation('a failed load was not reported', '%r' % (o,))
            now = dict(p2.consumers)
            if kind == 'reload':
                for k, c in now.items():
                    if (k, c.secret) not in want or c.key != k:
                        env.violation('a consumer nobody saved', '%r: %r %r' % (o, k, c.secret))
                if not err and len(now) != len(want):
                    env.violation('consumer not loaded', '%r: %r from %r' % (o, sorted(now), text))
                if src and not err:
                    before, after = src
                    have = dict((k, c.secret) for k, c in now.items())
                    if any(have.get(k) != s for k, s in before.items()) or any(after.get(k) != s for k, s in have.items()):
                        env.violation('round trip', '%r: %r from %r' % (o, have, text))
                    env.probe('round_trip')
            else:
                if not err:
                    for k, s in want:
                        if k not in now or now[k].secret != s:
                            env.violation('consumer not loaded', '%r: %r from %r' % (o, k, text))
                        if k in known and k in old:
                            env.violation('duplicate key accepted', '%r: %r' % (o, k))
                        if k in now and k in loaded:
                            env.violation('duplicate key accepted', '%r: %r' % (o, k))
                        loaded.add(k)
                        if k in now:
                            known.setdefault(k, (s, now[k]))
                look('%r' % o)
        sim.log(t, kind)
    loaded = set()

    def thread(t):
        for o in plan['ops']:
            if o['t'] == t:
                do(t, o)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    look('end')
    for k, c in later:
        if k not in known or known[k][1] is not c:
            env.violation('a consumer nobody saved', '%r %r' % (k, c.secret))
    env.stat('ops', len(plan['ops']))
