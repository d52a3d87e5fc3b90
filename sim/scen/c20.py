"""C20: content packages on a disk with faults."""
import errno
import random
import StringIO
import sys
import zipfile
import boot
import httputil as hu

cp = uri = vfs = None
NS = 'http://www.imsglobal.org/xsd/imscp_v1p1'
SEGS = ['a.txt', 'b.xml', 'index.html', 'Page 1.html', 'data', 'img', 'sub', 'caf\xc3\xa9.txt', 'x%20y', 'a&b#c?d', '\xe6\x97\xa5', '100%', '+', "it's", 'a:b', ';v=1', 'long' * 20]
HIDDEN = ['.DS_Store', '.svn', '.x']
ODD = ['..', '.', '', '~', 'a\\b', 'C:', '\xff\xfe', 'n' * 300, 'imsmanifest.xml', 'imsManifest.xml', '..\\..', ' ', '...']


def setup():
    global cp, uri, vfs
    boot.install(disk=True)
    import simdisk
    global disk
    disk = simdisk
    import pyslet.imscpv1p2 as a
    import pyslet.rfc2396 as b
    import pyslet.vfs as c
    cp, uri, vfs = a, b, c
    boot.warm_xml()

    class Env(object):
        def fault(self, n):
            pass
    # what the library works out on first use
    for i in range(2):
        with disk.Disk(None) as d:
            d.put('/work/p/imsmanifest.xml', manifest_xml([['a.txt', 'b/c.txt']], True))
            d.put('/work/p/a.txt', 'x')
            d.put('/work/p/b/c.txt', 'y')
            p = cp.ContentPackage('/work/p')
            p.ExportToPIF('/work/x.zip')
            p.Close()
            q = cp.ContentPackage('/work/x.zip')
            q.FileCopy(q.manifest.root.Resources.Resource[0], uri.URIFactory.URLFromPathname('/work/p/a.txt'))
            q.manifest.Update()
            q.Close()
            r = cp.ContentPackage()
            r.Close()


def esc(s):
    import urllib
    return urllib.quote(s, '/')


def manifest_xml(resources, entry=False):
    r = ''
    for i, files in enumerate(resources):
        r += '<resource identifier="R%d" type="webcontent"%s>%s</resource>' % (
            i, ' href="%s"' % esc(files[0]) if entry and files else '', ''.join(['<file href="%s"/>' % esc(f) for f in files]))
    return '<?xml version="1.0" encoding="UTF-8"?>\n<manifest identifier="M" xmlns="%s"><metadata><schema>IMS Content</schema><schemaversion>1.2</schemaversion></metadata><organizations/><resources>%s</resources></manifest>' % (NS, r)


def names(rng, n, odd, hidden=True):
    """Paths of files; a name ending in / is a directory."""
    r = []
    dirs = ['']
    for i in range(n):
        s = rng.choice(SEGS if not (odd and rng.random() < 0.4) else ODD)
        if hidden and rng.random() < 0.08:
            s = rng.choice(HIDDEN)
        p = rng.choice(dirs) + s
        if rng.random() < 0.3:
            p += '/'
            dirs.append(p)
        r.append(p)
    return r


def generate(rng, tier):
    plan = dict(kind=rng.choice(['trip', 'trip', 'zip', 'zip', 'history']), order=rng.randrange(1 << 30), faults=[], sched=dict(mode='none', seed=1))
    data = lambda: rng.choice(['', 'x', 'hello', '\x00\xff' * 9, 'PK\x05\x06', 'z' * 9000, 'q' * 20000])
    if plan['kind'] == 'zip':
        odd = rng.random() < 0.7
        ms = []
        for p in names(rng, rng.choice([1, 2, 4, 6]), odd, False):
            if odd and rng.random() < 0.15:
                p = rng.choice(['/', '../', '../../', '//', 'a/../', './', 'a/../../']) + p
            if odd and rng.random() < 0.1 and ms:
                p = ms[-1][0] + rng.choice(['', '/', '/x', '/../y'])
            ms.append([p.decode('latin-1'), '' if p.endswith('/') and rng.random() < 0.8 else data().decode('latin-1')])
        if rng.random() < 0.8:
            m = rng.choice(['good', 'good', 'good', 'good', 'broken', 'other', 'empty'])
            ms.insert(rng.randrange(len(ms) + 1), ['imsmanifest.xml', m])
        plan['members'] = ms
        plan['stored'] = rng.random() < 0.5
        plan['damage'] = rng.choice([None, None, None, None, ['cut', rng.random()], ['flip', rng.random()]])
    else:
        fs = []
        for p in names(rng, rng.choice([0, 1, 3, 5, 8]), False):
            fs.append([p.decode('latin-1'), None if p.endswith('/') else data().decode('latin-1')])
        plan['files'] = fs
        files = [f for f, d in fs if d is not None]
        plan['resources'] = [[rng.choice(files + ['missing.txt']) for i in range(rng.choice([0, 1, 2]))] for j in range(rng.choice([0, 1, 2, 3]))]
        plan['manifest'] = rng.random() < 0.85
        plan['how'] = rng.choice(['dir', 'dir', 'slash', 'manifest', 'relative'])
        if not plan['manifest']:
            plan['how'] = 'dir'
    if plan['kind'] == 'history':
        ops = []
        for i in range(rng.choice([1, 3, 6, 10])):
            k = rng.choice(['resource', 'file', 'file', 'copy', 'copy', 'delete', 'update', 'unique', 'reopen', 'export'])
            ops.append([k, rng.randrange(8), rng.choice(SEGS + ['sub/a.txt', 'imsmanifest.xml', '../out.txt', '.hidden', 'sub/../a.txt']).decode('latin-1')])
        plan['ops'] = ops
    elif rng.random() < 0.6:
        for i in range(rng.choice([1, 1, 2])):
            f = dict(op=rng.choice(['any', 'write', 'write', 'read', 'create', 'open', 'mkdir', 'listdir', 'close']), n=rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]),
                     err=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'CRASH']), part=rng.choice([0, 0.5, 0.99]))
            plan['faults'].append(f)
        plan['when'] = rng.choice(['open', 'export', 'open2'] if plan['kind'] == 'trip' else ['open'])
    if rng.random() < 0.15 and plan['kind'] != 'history':
        plan['capacity'] = rng.choice([0, 100, 5000, 20000])
        plan.setdefault('when', 'export' if plan['kind'] == 'trip' else 'open')
    return plan


SHRINK = ['files', 'members', 'ops', 'faults', 'resources']
WRONG = (AttributeError, NameError, TypeError, KeyError, IndexError, AssertionError)


def b(s):
    return s.encode('latin-1')


def execute(plan, env):
    sim = env.make_sim(trace=False)
    rng = random.Random(plan['order'])
    d = disk.Disk(env, rng=rng)

    def arm(when):
        on = plan.get('when') == when
        d.faults = plan['faults'] if on else []
        d.count = {}
        d.failed = 0
        d.capacity = d.used + plan['capacity'] if on and 'capacity' in plan else None

    def calm():
        d.faults, d.capacity = [], None

    def shown(tree):
        """What of a directory belongs in a package: no hidden files."""
        return dict((p, x) for p, x in tree.items() if not [s for s in p.split('/') if s.startswith('.')])

    def differ(what, got, want, skip=()):
        got = dict((k, v) for k, v in got.items() if k not in skip)
        want = dict((k, v) for k, v in want.items() if k not in skip)
        if got != want:
            odd = [k for k in sorted(set(got) | set(want)) if got.get(k, 0) != want.get(k, 0)]
            env.violation(what, ', '.join(['%r is %s, should be %s' % (k, brief(got, k), brief(want, k)) for k in odd[:4]]))
            return True

    def brief(t, k):
        return 'absent' if k not in t else 'a directory' if t[k] is None else repr(t[k])[:60]

    def temps():
        return sorted(d.tree('/tmp'))

    def outside(before, allowed, what):
        """Nothing but what is below the allowed paths may have changed."""
        for op, p in d.log[before:]:
            if not [a for a in allowed if p == a or p.startswith(a + '/')]:
                env.violation('outside', '%s: %s %s' % (what, op, p))
                return

    def refs(p):
        root = p.manifest.root
        r = []
        if root.Resources:
            for x in root.Resources.Resource:
                r.append((x.id, x.type, str(x.href) if x.href is not None else None, [str(f.href) for f in x.File]))
        return r

    class Failed(Exception):
        pass

    def attempt(what, fn, may_fail=False):
        """Runs fn; a failure is legal only when the disk failed or may_fail; then Failed."""
        try:
            r = fn()
        except disk.Crash:
            env.probe('crash')
            d.crash()
            raise Failed
        except WRONG, e:
            env.exc_violation(what + ': wrong error', sys.exc_info())
            raise Failed
        except Exception, e:
            if not d.failed and not may_fail:
                env.exc_violation(what, sys.exc_info())
            elif d.failed:
                env.probe('io_error_reported')
            raise Failed
        if d.failed:
            # whatever failed was either reported or made no difference: what follows is checked in full
            env.probe('io_error_survived')
        return r

    # ------------------------------------------------------------------
    def source():
        for f, x in plan['files']:
            f = b(f)
            try:
                if x is None:
                    if d.find('/work/pkg/' + f) is None:
                        d.put('/work/pkg/' + f, None)
                else:
                    d.put('/work/pkg/' + f, b(x))
            except OSError:
                pass
        d.put('/work/pkg', None) if d.find('/work/pkg') is None else None
        if plan['manifest']:
            d.put('/work/pkg/imsmanifest.xml', manifest_xml([[b(f) for f in r] for r in plan['resources']], plan['order'] % 2))
        return {'dir': '/work/pkg', 'slash': '/work/pkg/', 'manifest': '/work/pkg/imsmanifest.xml', 'relative': 'pkg'}[plan['how']]

    def trip():
        path = source()
        src = d.tree('/work/pkg')
        arm('open')
        at = len(d.log)
        try:
            p = attempt('opening a directory', lambda: cp.ContentPackage(path))
        except Failed:
            calm()
            outside(at, ['/work/pkg/imsmanifest.xml'] if not plan['manifest'] else [], 'failed opening')
            # a package without a manifest gets one before anything else can fail, but never a part of one
            now = d.tree('/work/pkg')
            if not plan['manifest'] and not [f for f in plan['faults'] if f['err'] == 'CRASH'] and now.get('imsmanifest.xml', '').endswith('</manifest>'):
                src['imsmanifest.xml'] = now['imsmanifest.xml']
            # a second fault may keep what there is of it from being removed
            gone = not plan['manifest'] and (d.failed > 1 or [f for f in plan['faults'] if f['err'] == 'CRASH'])
            differ('changed by a failed opening', now, src, ['imsmanifest.xml'] if gone else [])
            return
        calm()
        outside(at, ['/work/pkg/imsmanifest.xml'] if not plan['manifest'] else [], 'opening')
        if plan['manifest']:
            src2 = src
        else:
            src2 = d.tree('/work/pkg')
        differ('changed by opening', d.tree('/work/pkg'), src2)
        want = [('R%d' % i, 'webcontent', esc(b(r[0])) if plan['order'] % 2 and r else None, [esc(b(f)) for f in r]) for i, r in enumerate(plan['resources'])]
        if plan['manifest'] and refs(p) != want:
            env.violation('manifest', '%r, should be %r' % (refs(p), want))
        table(p, src2)
        have = refs(p)
        arm('export')
        at = len(d.log)
        try:
            attempt('export', lambda: p.ExportToPIF('/work/out.zip'))
        except Failed:
            calm()
            outside(at, ['/work/out.zip'], 'failed export')
            differ('changed by a failed export', d.tree('/work/pkg'), src2)
            if not env.viol:
                # the disk is well again
                attempt('export after a failure', lambda: p.ExportToPIF('/work/out.zip'))
            env.probe('export_failed')
        calm()
        outside(at, ['/work/out.zip'], 'export')
        differ('changed by export', d.tree('/work/pkg'), src2)
        if env.viol:
            return
        env.probe('export')
        zsrc = d.tree('/work')['out.zip']
        arm('open2')
        at = len(d.log)
        try:
            q = attempt('opening an export', lambda: cp.ContentPackage('/work/out.zip'))
        except Failed:
            failed_open(at)
            if d.tree('/work').get('out.zip') != zsrc:
                env.violation('archive changed', '')
            return
        calm()
        env.probe('trip')
        env.mark([sorted(d.tree('/tmp'))])
        tmp = str(q.dPath)
        outside(at, [tmp], 'opening an export')
        differ('package differs after export', d.tree(tmp), shown(src2))
        if refs(q) != have:
            env.violation('manifest after export', '%r, should be %r' % (refs(q), have))
        table(q, shown(src2))
        at = len(d.log)
        q.Close()
        outside(at, [tmp], 'closing')
        if temps():
            env.violation('left behind', repr(temps()))
        p.Close()
        differ('changed by closing', d.tree('/work/pkg'), src2)

    def failed_open(at):
        crashed = d.cleanup_failed or [f for f in plan['faults'] if f['err'] == 'CRASH']
        calm()
        made = [p for op, p in d.log[at:] if op == 'mkdir' and p.count('/') == 2 and p.startswith('/tmp/')]
        outside(at, made[:1], 'failed opening')
        if temps() and not crashed:
            env.violation('left behind', 'after a failed opening: %r' % temps()[:3])

    def table(p, tree, extra=()):
        """The table of files: what is there and what the manifest refers to."""
        want = {}
        for f, x in shown(tree).items():
            if x is not None and f != 'imsmanifest.xml':
                want[f] = 0
        root = p.manifest.root
        if root.Resources:
            for r in root.Resources.Resource:
                for f in r.File:
                    u = f.ResolveURI(f.href)
                    path = str(u.GetVirtualFilePath())
                    base = str(p.dPath) + '/'
                    if path.startswith(base):
                        k = path[len(base):]
                        want[k] = want.get(k, 0) + 1
        got = dict((str(k), len(v)) for k, v in p.fileTable.items())
        if got != want:
            odd = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            env.violation('file table', ', '.join(['%r: %r, should be %r' % (k, got.get(k), want.get(k)) for k in odd[:4]]))

    # ------------------------------------------------------------------
    def archive():
        out = StringIO.StringIO()
        z = zipfile.ZipFile(out, 'w', zipfile.ZIP_STORED if plan['stored'] else zipfile.ZIP_DEFLATED)
        ms = []
        for n, x in plan['members']:
            n = b(n)
            if n == 'imsmanifest.xml' and x in ('good', 'broken', 'other', 'empty'):
                x = {'good': manifest_xml([['a.txt']]), 'broken': '<manifest', 'other': '<x/>', 'empty': ''}[x]
            else:
                x = b(x)
            info = zipfile.ZipInfo('x')
            info.filename = n
            info.compress_type = z.compression
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                z.writestr(info, x)
            ms.append((n, x))
        z.close()
        s = out.getvalue()
        if plan['damage']:
            how, at = plan['damage']
            at = int(len(s) * at)
            s = s[:at] if how == 'cut' else s[:at] + chr(ord(s[at:at + 1] or 'x') ^ 1) + s[at + 1:]
            if not s[at:] and how == 'flip':
                s = s[:-1]
        return ms, s

    def hostile():
        ms, s = archive()
        # things that an archive should not reach
        for f in ('/work/precious', '/etc/passwd', '/a.txt', '/tmp/other/file', '/precious'):
            d.put(f, 'precious')
        d.put('/work/in.zip', s)
        world = d.tree('/')
        plain = not plan['damage']
        want = {}
        for n, x in ms:
            segs = n.split('/')
            is_dir = segs[-1] == ''
            if is_dir:
                segs = segs[:-1]
            try:
                n.decode('utf-8')
            except UnicodeDecodeError:
                plain = False
            if not segs or [t for t in segs if t in ('', '.', '..') or len(t) > 255] or '\0' in n or is_dir and x:
                plain = False
                continue
            for i in range(1, len(segs)):
                if want.setdefault('/'.join(segs[:i]), None) is not None:
                    plain = False
            k = '/'.join(segs)
            if k in want and not (is_dir and want[k] is None):
                plain = False
            want[k] = None if is_dir else x
        m = want.get('imsmanifest.xml', 0)
        ok = plain and (m == 0 or m and m.startswith('<?xml'))
        arm('open')
        at = len(d.log)
        try:
            p = attempt('opening an archive', lambda: cp.ContentPackage('/work/in.zip'), not ok)
        except Failed:
            env.probe('archive_refused')
            failed = d.tree('/')
            made = [q for op, q in d.log[at:] if op == 'mkdir' and q.startswith('/tmp/imscp') and q.count('/') == 2][:1]
            crashed = d.cleanup_failed or [f for f in plan['faults'] if f['err'] == 'CRASH'] and d.failed
            calm()
            outside(at, made, 'failed opening')
            keep = dict((k, v) for k, v in failed.items() if not (crashed and made and ('/' + k).startswith(made[0])))
            differ('left behind or changed by a failed opening', keep, world)
            return
        calm()
        tmp = str(p.dPath)
        if tmp == '/work':
            # taken for a manifest file: not an archive any more
            env.probe('not_an_archive')
            return
        env.probe('archive_opened')
        outside(at, [tmp], 'opening')
        now = d.tree('/')
        differ('changed by opening', dict((k, v) for k, v in now.items() if not ('/' + k + '/').startswith(tmp + '/')), world)
        env.mark([sorted(d.tree(tmp))])
        if plain:
            differ('contents of the archive', d.tree(tmp), want, ['imsmanifest.xml'] if m == 0 else [])
        at = len(d.log)
        attempt('closing', p.Close)
        outside(at, [tmp], 'closing')
        differ('left behind', d.tree('/'), world)

    # ------------------------------------------------------------------
    def history():
        path = source()
        d.put('/work/outside.txt', 'outside')
        d.put('/work/out.txt', 'precious')
        p = attempt('opening', lambda: cp.ContentPackage(path))
        if p.manifest.root.Resources is None:
            p.manifest.root.ChildElement(p.manifest.root.ResourcesClass)
        saved = refs(p)
        for k, i, s in plan['ops']:
            s = b(s)
            rs = p.manifest.root.Resources.Resource if p.manifest.root.Resources else []
            before = d.tree('/work/pkg')
            at = len(d.log)
            hidden = s.split('/')[-1].startswith('.')
            bad = hidden or s.startswith('../') or s == 'imsmanifest.xml'
            if k == 'resource':
                p.manifest.root.Resources.ChildElement(p.manifest.root.Resources.ResourceClass).SetID(p.manifest.GetUniqueID('R'))
            elif k == 'file' and rs:
                r = rs[i % len(rs)]
                had = len(r.File)
                try:
                    f = attempt('File', lambda: p.File(r, uri.URIFactory.URI(esc(s))), bad)
                    if bad:
                        env.violation('accepted', 'File %r' % s)
                    elif len(r.File) != had + 1:
                        env.violation('File', 'not in the resource')
                except Failed:
                    if len(r.File) != had:
                        env.violation('changed by a refusal', 'File %r' % s)
                env.probe('file')
            elif k == 'copy' and rs:
                r = rs[i % len(rs)]
                name = s.split('/')[-1]
                if name in ('imsmanifest.xml',) or hidden:
                    continue
                d.put('/work/from/' + name, 'copy %d' % i)
                e = r.GetEntryPoint()
                home = str(e.ResolveURI(e.href).GetVirtualFilePath())[len('/work/pkg/'):].split('/')[:-1] if e is not None else []
                # a directory to put it in that is a file
                blocked = [j for j in range(len(home)) if before.get('/'.join(home[:j + 1])) is not None]
                try:
                    f = attempt('FileCopy', lambda: p.FileCopy(r, uri.URIFactory.URLFromPathname('/work/from/' + name)), blocked)
                except Failed:
                    if env.viol:
                        raise
                    differ('changed by a failed FileCopy', d.tree('/work/pkg'), before)
                    return
                got = str(f.ResolveURI(f.href).GetVirtualFilePath())
                rel = got[len('/work/pkg/'):]
                if not got.startswith('/work/pkg/') or rel in before:
                    env.violation('FileCopy', '%r was there' % got)
                elif d.tree('/work/pkg').get(rel) != 'copy %d' % i:
                    env.violation('FileCopy', '%r has not the contents' % got)
                else:
                    before[rel] = 'copy %d' % i
                    for j in range(1, len(rel.split('/'))):
                        before.setdefault('/'.join(rel.split('/')[:j]), None)
                differ('changed by FileCopy', d.tree('/work/pkg'), before)
                env.probe('copy')
            elif k == 'delete':
                fs = sorted([f for f, x in before.items() if x is not None])
                t = s if i % 3 == 0 or not fs else fs[i % len(fs)]
                bad = t.split('/')[-1].startswith('.') or t.startswith('../') or t == 'imsmanifest.xml'
                exists = before.get(t) is not None
                try:
                    attempt('DeleteFile', lambda: p.DeleteFile(esc(t)), bad or not exists)
                    if bad:
                        env.violation('accepted', 'DeleteFile %r' % t)
                    before.pop(norm(t), None)
                    if [f for r in rs for f in r.File if str(f.href) == esc(t)]:
                        env.violation('DeleteFile', '%r is still in the manifest' % t)
                except Failed:
                    pass
                differ('changed by DeleteFile', d.tree('/work/pkg'), before)
                env.probe('delete')
            elif k == 'unique' and not bad:
                f = str(attempt('GetUniqueFile', lambda: p.GetUniqueFile(s)))
                if f in before and before[f] is not None or [1 for q in p.fileTable if str(q) == f]:
                    env.violation('GetUniqueFile', '%r is not unique' % f)
            elif k == 'update':
                attempt('Update', lambda: p.manifest.Update())
                saved = refs(p)
                env.probe('update')
            elif k == 'reopen':
                q = attempt('opening again', lambda: cp.ContentPackage('/work/pkg'))
                if refs(q) != saved:
                    env.violation('manifest after opening again', '%r, should be %r' % (refs(q), saved))
                table(q, d.tree('/work/pkg'))
                q.Close()
                differ('changed by opening', d.tree('/work/pkg'), before)
                env.probe('reopen')
            elif k == 'export':
                attempt('export', lambda: p.ExportToPIF('/work/out.zip'))
                q = attempt('opening an export', lambda: cp.ContentPackage('/work/out.zip'))
                differ('package differs after export', d.tree(str(q.dPath)), shown(d.tree('/work/pkg')))
                q.Close()
            outside(at, ['/work/pkg', '/work/from', '/work/out.zip', '/tmp'], k)
            if env.viol:
                env.info(op=[k, i, s]) if False else None
                return
            table(p, d.tree('/work/pkg'))
            if env.viol:
                return
        env.mark([sorted(d.tree('/work/pkg')), refs(p)])
        if d.tree('/work').get('out.txt') != 'precious':
            env.violation('outside', 'out.txt')
        if temps():
            env.violation('left behind', repr(temps()))

    def norm(t):
        import posixpath
        return posixpath.normpath(t)

    def main():
        with d:
            try:
                {'trip': trip, 'zip': hostile, 'history': history}[plan['kind']]()
            except Failed:
                if not env.viol and not d.failed:
                    raise
    sim.spawn(main, 'main')
    sim.run()
    env.mark(d.log, sorted(d.count.items()), sorted([(k, x is None) for k, x in d.tree('/').items()]))
    env.stat('nontrivial')
    hu.verdict(env, sim)
