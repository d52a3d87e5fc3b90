"""C27: the hooks of virtual file paths are in effect while somebody uses them and gone afterwards."""
import errno
import os
import StringIO
import zipfile
import __builtin__
import boot
import httputil as hu

vfs = None
stat0 = open0 = None
Path = None


class File(StringIO.StringIO):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def setup():
    global vfs, stat0, open0, Path
    boot.install()
    import pyslet.vfs as m
    vfs = m
    stat0, open0 = os.stat, __builtin__.open

    class VPath(m.VirtualFilePath):
        """A file that only exists in memory."""
        def __init__(self, world, name):
            self.world = world
            self.name = name

        def __str__(self):
            return self.name

        def stat(self):
            self.world.hit('stat', self.name)
            # everything but the size as of a plain file
            st = list(stat0(__file__.replace('$py.class', '.py')))
            st[6] = len(self.world.files[self.name])
            return os.stat_result(st) if hasattr(os, 'stat_result') else tuple(st)

        def open(self, mode='r'):
            self.world.hit('open', self.name)
            return File(self.world.files[self.name])
    Path = VPath
    restore()


def restore():
    os.stat, __builtin__.open = stat0, open0
    for n in dir(vfs.ZipHooks):
        if n.lower().endswith('count'):
            setattr(vfs.ZipHooks, n, 0)


OPS = ['stat', 'read', 'zip', 'plain', 'work', 'fail']


def generate(rng, tier):
    n = [0]

    def body(depth):
        r = []
        for i in range(rng.choice([0, 1, 1, 2])):
            x = rng.random()
            if x < 0.25 and depth < 3:
                r.append(['with', body(depth + 1)])
            else:
                o = [rng.choice(OPS), 'f%d' % rng.randrange(3)]
                if rng.random() < 0.15 and o[0] in ('stat', 'read', 'zip'):
                    o.append(rng.choice(['error', 'slow']))
                r.append(o)
        return r
    ts = []
    for t in range(rng.choice([1, 2, 2, 3, 4])):
        uses = []
        for i in range(rng.choice([1, 1, 2, 3])):
            uses.append([rng.choice(['with', 'with', 'unhook']), body(0), rng.choice([0, 0, 0.001, 1])])
        ts.append(uses)
    return dict(ts=ts, files=[rng.choice([0, 1, 5, 300]) for i in range(3)])


SHRINK = ['ts']


def simplify(plan):
    import json
    for i, t in enumerate(plan['ts']):
        for j in range(len(t)):
            q = json.loads(json.dumps(plan))
            q['ts'][i].pop(j)
            yield q
            if t[j][1]:
                q = json.loads(json.dumps(plan))
                q['ts'][i][j][1] = []
                yield q


class Boom(Exception):
    pass


def execute(plan, env):
    sim = env.make_sim()

    class World(object):
        pass
    w = World()
    w.files = dict(('f%d' % i, 'x' * n) for i, n in enumerate(plan['files']))
    w.bad = {}
    users = [0]

    def hit(what, name):
        b = w.bad.get((sim.cur, what))
        if b == 'error':
            env.fault('io_error')
            raise IOError(errno.EIO, 'injected', name)
        if b == 'slow':
            env.fault('slow_io')
            sim.sleep(0.5)
    w.hit = hit

    def plain():
        f = open(__file__.replace('$py.class', '.py'))
        f.close()
        os.stat(f.name)

    def do(o):
        path = Path(w, o[1])
        data = w.files[o[1]]
        kind = o[0]
        bad = o[2] if len(o) > 2 else None
        keys = {'stat': ['stat'], 'read': ['open'], 'zip': ['stat', 'open']}.get(kind, [])
        for k in keys:
            w.bad[(sim.cur, k)] = bad
        try:
            if kind == 'stat':
                got = os.stat(path)[6]
                if got != len(data):
                    env.violation('stat', '%s has %d bytes, not %d' % (o[1], got, len(data)))
            elif kind == 'read':
                f = open(path, 'rb')
                try:
                    if f.read() != data:
                        env.violation('read', o[1])
                finally:
                    f.close()
            elif kind == 'zip':
                out = StringIO.StringIO()
                z = zipfile.ZipFile(out, 'w')
                z.write(path, o[1])
                z.close()
                z = zipfile.ZipFile(StringIO.StringIO(out.getvalue()), 'r')
                if z.read(o[1]) != data:
                    env.violation('zip', o[1])
            elif kind == 'plain':
                plain()
            elif kind == 'work':
                sim.sleep(0.01)
            elif kind == 'fail':
                env.fault('failure_inside')
                raise Boom
        finally:
            for k in keys:
                w.bad.pop((sim.cur, k), None)
        env.probe(kind)

    def run(body):
        for o in body:
            if o[0] == 'with':
                users[0] += 1
                try:
                    with vfs.ZipHooks():
                        run(o[1])
                finally:
                    users[0] -= 1
            else:
                try:
                    do(o)
                except IOError, e:
                    if len(o) < 3 or o[2] != 'error':
                        env.violation('not in effect', '%s: %s' % (o, e))
                except (TypeError, AttributeError, ValueError), e:
                    # what the original functions say of a virtual path
                    env.violation('not in effect', '%s: %s: %s' % (o, e.__class__.__name__, e))

    def client(i):
        def main():
            for how, body, wait in plan['ts'][i]:
                users[0] += 1
                try:
                    if how == 'with':
                        with vfs.ZipHooks():
                            run(body)
                    else:
                        h = vfs.ZipHooks()
                        try:
                            run(body)
                        finally:
                            h.Unhook()
                except Boom:
                    pass
                users[0] -= 1
                if not users[0]:
                    # nobody is inside or about to leave
                    look('after %d' % i)
                    env.probe('idle')
                if wait:
                    sim.sleep(wait)
        return main

    def look(where):
        if os.stat is not stat0 or __builtin__.open is not open0:
            env.violation('not restored', '%s: stat %s, open %s' % (where, 'original' if os.stat is stat0 else 'hooked', 'original' if __builtin__.open is open0 else 'hooked'))
    restore()
    try:
        for i in range(len(plan['ts'])):
            sim.spawn(client(i), 't%d' % i)
        sim.run()
        env.mark([sim.now(), len(plan['ts'])])
        look('at the end')
        hu.verdict(env, sim)
    finally:
        restore()
