"""C13: InputWrapper against a file with the same content."""
import boot
import httputil as hu

ir = None


def setup():
    global ir
    boot.install()
    import pyslet.rfc5023 as m
    ir = m


def generate(rng, tier):
    n = rng.choice([0, 1, 2, 5, 20, 60, 200, 8192, 9000, 20000])
    declared = rng.choice(['exact', 'exact', 'exact', 'none', 'empty', 'more', 'cut', 'cut'])
    buf = rng.choice([None, None, 0, 1, 2, 8, 64, 1000])
    ops = []
    big = n > 1000

    def size():
        return rng.choice([0, 1, 1, 2, 3, 7, 10, 50, 500, 8192, 10000]) if big else rng.choice([0, 1, 1, 2, 3, 4, 7, 10, 50])
    kinds = rng.choice([['read', 'seek', 'readline', 'tell'], ['read', 'readline', 'line'], ['read', 'blocks', 'readline'], ['read', 'seek', 'seek', 'cur', 'end'],
                        ['read', 'readinto', 'seek', 'readlines', 'line', 'blocks', 'readline', 'seekable', 'end', 'cur']])
    for i in range(rng.choice([1, 3, 6, 12])):
        k = rng.choice(kinds)
        if k in ('seek', 'cur', 'end'):
            ops.append([k, rng.choice([0, 0, 1, 2, size(), size(), n, n + 3, n // 2]) * (1 if k == 'seek' else rng.choice([-1, -1, 1]))])
        elif k == 'blocks':
            ops.append([k, max(1, size()), rng.choice([1, 2, 100000])])
        elif k == 'line':
            ops.append([k, rng.choice([1, 2, 3, 100000])])
        elif k == 'readlines':
            ops.append([k, rng.choice([-1, -1, 0, 5, 30])])
        elif k == 'read':
            ops.append([k, rng.choice([size(), size(), size(), -1])])
        elif k == 'readline':
            ops.append([k, rng.choice([-1, -1, -1, size()])])
        else:
            ops.append([k, size()])
    if rng.random() < 0.6:
        ops.append(['rest', rng.choice(['readall', 'read', 'none', 'iter', 'blocks', 'readlines'])])
    return dict(n=n, seed=rng.randrange(1000), nl=rng.choice([0, 3, 10, 70, 3000]), declared=declared, extra=rng.choice([0, 1, 10, 100]), cut=rng.random(),
                buf=buf, short=rng.choice([None, None, 1, 2, 7, 100]), fail=rng.choice([None] * 6 + [rng.random()]), ops=ops)


SHRINK = ['ops']


class Src(object):
    """wsgi.input with short reads, an end and failures."""

    def __init__(self, plan, data, env, limit, fail):
        import random
        self.plan, self.data, self.env, self.limit, self.fail = plan, data, env, limit, fail
        self.pos = 0
        self.asked = 0
        self.rng = random.Random(plan['seed'])

    def read(self, n=-1):
        if n is None or n < 0:
            if self.limit is not None:
                self.env.violation('reads past the content', 'asked the input for everything')
            n = len(self.data)
        if self.limit is not None and self.pos + n > self.limit:
            self.env.violation('reads past the content', 'asked for %d at %d of %d' % (n, self.pos, self.limit))
        if self.fail is not None and self.pos + n > self.fail:
            self.env.fault('input_error')
            raise IOError('simulated input error')
        k = n
        if self.plan['short'] and n > 1:
            k = min(n, self.rng.randrange(1, self.plan['short'] + 1))
            if k < n:
                self.env.fault('short_read')
        d = self.data[self.pos:self.pos + k]
        self.pos += len(d)
        return d


def execute(plan, env):
    import random
    rng = random.Random(plan['seed'])
    n = plan['n']
    content = ''.join([chr(rng.randrange(256)) for i in range(n)])
    if plan['nl']:
        content = ''.join([('\n' if rng.randrange(plan['nl'] + 1) == 0 else c) for c in content])
    sim = env.make_sim(max_time=3600.0, max_steps=1500000)
    out = []

    def go():
        d = plan['declared']
        environ = {}
        avail = content
        total = n
        if d in ('exact', 'cut', 'more'):
            environ['CONTENT_LENGTH'] = str(n)
        elif d == 'empty':
            environ['CONTENT_LENGTH'] = ''
        if d == 'more':
            avail = content + 'X' * plan['extra']
        cut = None
        if d == 'cut' and n:
            cut = int(plan['cut'] * n)
            avail = content[:cut]
            env.fault('truncated')
        fail = None
        if plan['fail'] is not None and n:
            fail = int(plan['fail'] * n)
        src = Src(plan, avail, env, n if 'CONTENT_LENGTH' in environ and environ['CONTENT_LENGTH'] else None, fail)
        environ['wsgi.input'] = src
        stop = min([x for x in (cut, fail) if x is not None] or [None])     # bytes beyond here are never delivered

        def bad(what, msg):
            env.violation(what, '%s; op %r of %r' % (msg, op, plan['ops']))

        def excused():
            return stop is not None
        op = ['open']
        import io
        bsize = io.DEFAULT_BUFFER_SIZE if plan['buf'] is None else plan['buf']
        try:
            w = ir.InputWrapper(environ) if plan['buf'] is None else ir.InputWrapper(environ, plan['buf'])
        except IOError:
            if not excused():
                raise
            if cut is not None and fail is None and cut >= min(bsize, n):
                bad('spurious error', 'the buffer was filled')
            env.probe('open_failed')
            return
        bsize = min(bsize, n)
        if cut is not None and fail is None and cut < bsize:
            bad('short input not noticed', 'opened with %d of %d bytes' % (cut, bsize))
        pos = 0
        final = False
        for op in plan['ops']:
            k = op[0]
            rest = content[pos:]
            try:
                if k == 'read':
                    r = w.read(op[1]) if op[1] >= 0 else w.read()
                    if op[1] < 0:
                        if r != rest:
                            bad('wrong data', '%d bytes of %d' % (len(r), len(rest)))
                    elif not rest.startswith(r) or len(r) > op[1] or (not r and rest and op[1]):
                        bad('wrong data', 'read %r at %d, content %r' % (r[:40], pos, rest[:40]))
                    pos += len(r)
                elif k == 'readinto':
                    b = bytearray(op[1])
                    c = w.readinto(b)
                    r = str(b[:c])
                    if not rest.startswith(r) or c > op[1] or (not c and rest and op[1]):
                        bad('wrong data', 'readinto %r at %d' % (r[:40], pos))
                    pos += c
                elif k == 'readline':
                    e = rest.split('\n', 1)
                    e = e[0] + '\n' if len(e) > 1 else e[0]
                    if op[1] >= 0:
                        e = e[:op[1]]
                    r = w.readline(op[1]) if op[1] >= 0 else w.readline()
                    if r != e:
                        bad('wrong line', '%r for %r at %d' % (r[:40], e[:40], pos))
                    pos += len(r)
                elif k == 'line':
                    c = 0
                    for r in w:
                        e = content[pos:].split('\n', 1)
                        e = e[0] + '\n' if len(e) > 1 else e[0]
                        if r != e or not r:
                            bad('wrong line', '%r for %r at %d' % (r[:40], e[:40], pos))
                            return
                        pos += len(r)
                        c += 1
                        if c >= op[1]:
                            break
                    else:
                        if pos < n:
                            bad('iteration ends early', 'at %d of %d' % (pos, n))
                elif k == 'readlines':
                    exp = []
                    c = 0
                    for l in rest.split('\n'):
                        exp.append(l + '\n')
                    exp[-1] = exp[-1][:-1]
                    if not exp[-1]:
                        exp.pop()
                    if op[1] >= 0:
                        e2 = []
                        for l in exp:
                            e2.append(l)
                            c += len(l)
                            if c > op[1]:
                                break
                        exp = e2
                    r = w.readlines(op[1])
                    if r != exp:
                        bad('wrong lines', '%d lines for %d' % (len(r), len(exp)))
                    pos += len(''.join(r))
                elif k == 'blocks':
                    c = 0
                    for r in w.iterblocks(op[1]):
                        if not content[pos:].startswith(r) or not r or len(r) > op[1]:
                            bad('wrong block', '%d bytes at %d, maximum %d' % (len(r), pos, op[1]))
                            return
                        pos += len(r)
                        c += 1
                        if c >= op[2]:
                            break
                    else:
                        if pos < n:
                            bad('iteration ends early', 'at %d of %d' % (pos, n))
                elif k in ('seek', 'cur', 'end'):
                    new = op[1] if k == 'seek' else (pos + op[1] if k == 'cur' else n + op[1])
                    try:
                        w.seek(op[1], {'seek': 0, 'cur': 1, 'end': 2}[k])
                        if new < 0:
                            bad('seek', 'negative position accepted')
                            return
                        pos = new
                    except IOError, e:
                        if new >= 0 and pos <= bsize and (k != 'end' or plan['declared'] not in ('none', 'empty')):
                            raise
                        env.probe('seek_refused')
                elif k == 'seekable':
                    if w.seekable() != (pos <= bsize):
                        bad('seekable', '%r at %d buffer %d' % (w.seekable(), pos, bsize))
                elif k == 'rest':
                    if op[1] == 'iter':
                        r = ''.join(list(w))
                    elif op[1] == 'blocks':
                        r = ''.join(list(w.iterblocks()))
                    elif op[1] == 'readlines':
                        r = ''.join(w.readlines())
                    elif op[1] == 'readall':
                        r = w.readall()
                    elif op[1] == 'none':
                        r = w.read(None)
                    else:
                        r = w.read()
                    if r != rest:
                        bad('wrong data', 'the rest is %d bytes, expected %d' % (len(r), len(rest)))
                    pos += len(r)
                    final = True
            except IOError, e:
                if not excused():
                    raise
                env.probe('error_reported')
                return
            if w.tell() != pos and not env.viol:
                bad('tell', '%d for %d' % (w.tell(), pos))
            env.mark(op, pos)
            if pos > n and k == 'read':
                return
            if env.viol:
                return
        if final and excused() and fail is None:
            op = ['end']
            bad('short input not noticed', 'read %d of %d bytes to the end without an error' % (stop, n))
        out.append(pos)
    sim.spawn(go, 'app')
    sim.run()
    hu.verdict(env, sim)
    env.stat('ops', len(plan['ops']))
