"""C22: XML documents delivered in pieces, in many encodings, from streams, files and servers that fail."""
import random
import re
import sys
import boot
import httputil as hu
from httpsim import Server, Response

st = ps = uri = disk = http = None
Doc = Elem = None
EVENTS = []
MISC = re.compile(u'(?:[ \\t\\r\\n]|<!--(?:[^-]|-[^-])*-->|<\\?(?:[^?]|\\?[^>])*\\?>)*$')
# Python's name of the codec, the name declared, byte order mark, characters there are beyond ASCII
LATIN = u'\xe9\xfc\xdf\xa7'
CJK = u'\u65e5\u672c\u8a9e'
WIDE = LATIN + CJK + u'\u0416\u20ac\ufffd\u2028\x85'
ENC = {
    'utf8': ('utf-8', 'UTF-8', '', WIDE + u'\U00010400\U0010fffd'),
    'utf8-none': ('utf-8', None, '', WIDE + u'\U00010400'),
    'utf8-bom': ('utf-8', 'utf-8', '\xef\xbb\xbf', WIDE + u'\U00010400'),
    'utf8-bom-none': ('utf-8', None, '\xef\xbb\xbf', WIDE),
    # what decodes UTF-16 here fails on halves of surrogate pairs
    'utf16le': ('utf_16_le', 'UTF-16', '\xff\xfe', WIDE),
    'utf16be': ('utf_16_be', 'UTF-16', '\xfe\xff', WIDE),
    'utf16le-none': ('utf_16_le', None, '\xff\xfe', WIDE),
    'utf16be-none': ('utf_16_be', None, '\xfe\xff', WIDE),
    'utf16be-nobom': ('utf_16_be', 'UTF-16BE', '', WIDE),
    'ucs2': ('utf_16_le', 'ISO-10646-UCS-2', '', WIDE),
    'utf32le': ('utf_32_le', 'UTF-32', '\xff\xfe\x00\x00', WIDE + u'\U00010400'),
    'utf32be': ('utf_32_be', 'UTF-32', '\x00\x00\xfe\xff', WIDE + u'\U00010400'),
    'ucs4': ('utf_32_be', 'ISO-10646-UCS-4', '', WIDE + u'\U00010400'),
    'ascii': ('us-ascii', 'US-ASCII', '', u''),
    'latin1': ('iso-8859-1', 'ISO-8859-1', '', LATIN),
    'latin9': ('iso-8859-15', 'ISO-8859-15', '', LATIN.replace(u'\xa7', u'') + u'\u20ac'),
    'cp1252': ('windows-1252', 'windows-1252', '', LATIN + u'\u20ac'),
    'koi8': ('koi8-r', 'KOI8-R', '', u'\u0416\u0436'),
    'sjis': ('shift_jis', 'Shift_JIS', '', CJK),
    'eucjp': ('euc-jp', 'EUC-JP', '', CJK),
    'big5': ('big5', 'Big5', '', u'\u65e5\u672c'),
    'cnbig5': ('big5', 'CN-Big5', '', u'\u65e5\u672c'),
    'gb': ('gb2312', 'GB2312', '', u'\u65e5\u672c'),
    'ebcdic': ('cp500', 'cp500', '', LATIN),
}
NAMES = [u'a', u'b', u'item', u'a.b-c', u'_x', u'a:b', u'n' * 40]


def setup():
    global st, ps, uri, disk, http, Doc, Elem
    boot.install(disk=True)
    import simdisk
    disk = simdisk
    http = hu.setup()
    import pyslet.xml20081126.structures as a
    import pyslet.xml20081126.parser as b
    import pyslet.rfc2396 as c
    st, ps, uri = a, b, c

    class _Elem(st.Element):

        def Reset(self, *args, **kw):
            EVENTS.append(['start', self])
            st.Element.Reset(self, *args, **kw)

        def AddData(self, data):
            EVENTS.append(['data', data])
            st.Element.AddData(self, data)

        def ProcessingInstruction(self, target, instruction=''):
            EVENTS.append(['pi', target, instruction])

        def ContentChanged(self):
            EVENTS.append(['end'])
            st.Element.ContentChanged(self)

    class _Doc(st.Document):

        @classmethod
        def GetElementClass(cls, name):
            return _Elem

        def ProcessingInstruction(self, target, instruction=''):
            EVENTS.append(['pi', target, instruction])
    Doc, Elem = _Doc, _Elem
    # what the library works out on first use
    for s in (u'<?xml version="1.0"?><!DOCTYPE a [<!ELEMENT a (b|c)*><!ATTLIST a x CDATA "1"><!ENTITY e "<b/>">]><a y="1">&e;&#65;</a>', u'<a\u65e5 b="&lt;"><![CDATA[x]]></a\u65e5>'):
        for v in (False, True):
            p = ps.XMLParser(st.XMLEntity(s))
            p.checkValidity = v
            p.ParseDocument(_Doc())


# ---------------------------------------------------------------------- documents
def swap(x, a, b):
    """One character for another (unicode.replace fails on some strings in Jython)."""
    return u''.join([b if c == a else c for c in x])


def cut(x):
    """Character data without the end of CDATA sections."""
    out = []
    for c in x:
        if c != u'>' or out[-2:] != [u']', u']']:
            out.append(c)
    return u''.join(out)


class Writer(object):
    """Writes the text of an entity and what should be read from it."""

    def __init__(self, rng, enc, ents, size):
        self.rng = rng
        self.out = []
        self.codec, self.name, self.bom, self.wide = ENC[enc]
        self.ents = ents
        self.size = size

    def put(self, s):
        self.out.append(s)

    def chars(self, n):
        r = self.rng
        return u''.join([r.choice(u'abc xyz0]>"\'-?%;/=!') if r.random() < 0.75 else r.choice(self.wide or u'q') for i in range(n)])

    def s(self, req=True):
        r = self.rng
        x = u''.join([r.choice([u' ', u' ', u'\n', u'\t', u'\r\n', u'\r']) for i in range(r.choice([1, 1, 1, 2, 5] if req else [0, 0, 0, 1, 2]))])
        self.put(x)

    def eol(self, s):
        out = []
        for i, c in enumerate(s):
            if c == u'\r':
                out.append(u'\n')
            elif c != u'\n' or i == 0 or s[i - 1] != u'\r':
                out.append(c)
        return u''.join(out)

    def element(self, depth):
        r = self.rng
        n = r.choice(NAMES) + u''.join([c for c in [r.choice(self.wide or u'q')] if r.random() < 0.2 and (c.isalpha() and ord(c) < 0xffff)])
        attrs = {}
        self.put(u'<' + n)
        for i in range(r.choice([0, 0, 0, 1, 2, 4])):
            k = u'%s%d' % (r.choice([u'x', u'long-name', u'y.z', u'_']), i)
            self.s()
            self.put(k)
            self.s(False)
            self.put(u'=')
            self.s(False)
            attrs[k] = self.value()
        self.s(False)
        ev = [['start', n, attrs]]
        if r.random() < 0.2:
            self.put(u'/>')
        else:
            self.put(u'>')
            ev += self.content(depth)
            self.put(u'</' + n)
            self.s(False)
            self.put(u'>')
        return ev + [['end']]

    def value(self):
        r = self.rng
        q = r.choice(u'"\'')
        self.put(q)
        v = u''
        for i in range(r.choice([0, 1, 2, 3])):
            k = r.random()
            if k < 0.5:
                x = swap(self.chars(r.choice([1, 3, 10, r.choice([10, 400])])), q, u'.')
                self.put(x)
                v += x
            elif k < 0.65:
                x = r.choice([u'\n', u'\t', u'\r\n', u'\r', u' \r\n\r\n'])
                if x[0] == u'\n' and self.out[-1][-1:] == u'\r':
                    # it is one line end with what is in front of it
                    x = u' ' + x
                self.put(x)
                v += u' ' * len(self.eol(x))
            elif k < 0.9:
                v += self.ref()
            else:
                e = [x for x in self.ents if x.get('flat') is not None]
                if e:
                    e = r.choice(e)
                    self.put(u'&%s;' % e['name'])
                    v += e['flat']
        self.put(q)
        return v

    def ref(self):
        r = self.rng
        k = r.random()
        if k < 0.5:
            n, c = r.choice([(u'lt', u'<'), (u'gt', u'>'), (u'amp', u'&'), (u'quot', u'"'), (u'apos', u"'")])
            self.put(u'&%s;' % n)
        else:
            c = r.choice(u'\t\n\r A<&\xe9\u65e5\ufffd' + u'\U00010400')
            self.put(u'&#%d;' % ord(c) if k < 0.75 else u'&#x%x;' % ord(c) if k < 0.9 else u'&#x00%X;' % ord(c))
        return c

    def content(self, depth):
        r = self.rng
        ev = []
        for i in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if self.size <= 0:
                break
            self.size -= 1
            if k < 0.25:
                x = self.chars(r.choice([1, 2, 5, 20, 20, r.choice([20, 500])]))
                x = cut(x)
                # not together with what is next to it either
                if x.startswith((u']', u'>')):
                    x = u'.' + x
                x = x.rstrip(u']') + u'.'
                self.put(x)
                ev.append(['data', x])
            elif k < 0.35:
                x = r.choice([u'\n', u'\r\n', u'\r', u'\n\r', u'\r\r\n', u'\t ', u'\r\n\r\n'])
                self.put(x + u'.')
                ev.append(['data', self.eol(x) + u'.'])
            elif k < 0.5:
                ev.append(['data', self.ref()])
            elif k < 0.58:
                x = self.chars(r.choice([0, 1, 5, 20])) + r.choice([u'', u']', u']]', u'\r\n', u'<&', u'&amp;', u'\r'])
                x = cut(x)
                while u']]>' in x or x.endswith(u']') and r.random() < 0.5:
                    x = x[:-1]
                self.put(u'<![CDATA[' + x + u']]>')
                if x:
                    ev.append(['data', self.eol(x)])
            elif k < 0.64:
                ev += self.comment()
            elif k < 0.7:
                ev += self.pi()
            elif k < 0.9:
                if depth > 0:
                    ev += self.element(depth - 1)
            elif self.ents:
                e = r.choice(self.ents)
                if not e.get('pe'):
                    self.put(u'&%s;' % e['name'])
                    ev += e['events']
        return ev

    def comment(self):
        x = swap(self.chars(self.rng.choice([0, 1, 8, 30])), u'-', u'.') + self.rng.choice([u'', u'-x', u'\r\n', u'<a>&x;', u']]>'])
        self.put(u'<!--%s-->' % x)
        return []

    def pi(self):
        t = self.rng.choice([u'go', u'x-y', u'xm'])
        x = swap(self.chars(self.rng.choice([0, 1, 8, 30])), u'?', u'.') + self.rng.choice([u'', u'\r\n.', u'<a>&x;', u'? .'])
        x = x.lstrip()
        self.put(u'<?%s%s%s?>' % (t, u' ' if x else u'', x))
        return [['pi', t, self.eol(x)]]

    def misc(self):
        ev = []
        for i in range(self.rng.choice([0, 0, 1, 2])):
            k = self.rng.random()
            if k < 0.5:
                self.s()
            elif k < 0.75:
                self.comment()
            else:
                ev += self.pi()
        return ev

    def text(self):
        return u''.join(self.out)

    def decl(self, text):
        r = self.rng
        if self.name is None and (not text or self.codec != 'utf-8' or r.random() < 0.5):
            if text or self.codec != 'utf-8' or r.random() < 0.5:
                return
            self.put(u'<?xml version="1.0"?>')
            return
        if self.name is None:
            return
        q = r.choice(u'"\'')
        name = r.choice([self.name, self.name, self.name.lower(), self.name.upper()])
        v = u' version%s=%s%s1.0%s' % (r.choice([u'', u' ']), r.choice([u'', u' ']), q, q) if not text or r.random() < 0.5 else u''
        self.put(u'<?xml%s encoding=%s%s%s%s%s?>' % (v, q, name, q, u' standalone="no"' if not text and r.random() < 0.2 else u'', r.choice([u'', u' ', u'\r\n'])))

    def bytes(self):
        return self.bom + self.text().encode(self.codec)


def merged(ev):
    out = []
    for e in ev:
        if e[0] == 'data':
            if not e[1]:
                continue
            if out and out[-1][0] == 'data':
                out[-1] = ['data', out[-1][1] + e[1]]
                continue
        out.append(list(e))
    return out


def document(plan):
    """The bytes of the document, its text, what is to be read from it, external entities, length up to which it is incomplete."""
    rng = random.Random(plan['doc'])
    ents = []
    files = {}
    hosts = plan['via'] != 'unicode'
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        name = rng.choice([u'e', u'ent', u'X-']) + unicode(i)
        ext = rng.random() < 0.5 and plan['ext']
        enc = rng.choice(sorted(ENC)) if ext else plan['enc']
        w = Writer(rng, enc, list(ents) if rng.random() < 0.6 else [], rng.choice([2, 6]))
        if ext:
            if enc not in ('utf8', 'utf8-none', 'utf8-bom') or rng.random() < 0.6:
                w.decl(True)
            ev = w.content(2)
            if not w.text():
                w.put(u'.')
                ev = [['data', u'.']]
            fn = u'%s.xml' % name
            files[fn.encode('ascii')] = w.bytes()
            ents.append(dict(name=name, decl=u'SYSTEM "%s"' % fn, events=ev))
        else:
            # the value of an internal entity is read twice: what is not plain text is made by hand
            flat, ev, v = u'', [], u''
            for j in range(rng.choice([0, 1, 2, 3])):
                k = rng.random()
                if k < 0.4:
                    x = swap(swap(swap(w.chars(rng.choice([1, 5, 60])), u'%', u'.'), u'"', u'.'), u']', u'.')
                    v, flat, ev = v + x, None if flat is None else flat + x, ev + [['data', x]]
                elif k < 0.6:
                    a, c = rng.choice([(u'&#65;', u'A'), (u'&amp;', u'&'), (u'&#38;#38;', u'&'), (u'&#x26;lt;', u'<'), (u'&#60;b/>', None), (u'\r\n', u'\n')])
                    if c is None:
                        v, flat, ev = v + a, None, ev + [['start', u'b', {}], ['end']]
                    else:
                        v, flat, ev = v + a, None if flat is None else flat + (u' ' if c == u'\n' else c), ev + [['data', c]]
                elif k < 0.8:
                    v, flat, ev = v + u"<b x='1'>y</b>", None, ev + [['start', u'b', {u'x': u'1'}], ['data', u'y'], ['end']]
                elif ents:
                    e = rng.choice(ents)
                    v, ev = v + u'&%s;' % e['name'], ev + e['events']
                    flat = None if flat is None or e.get('flat') is None else flat + e['flat']
            ents.append(dict(name=name, decl=u'"%s"' % v, events=ev, flat=flat))
    w = Writer(rng, plan['enc'], ents, rng.choice([5, 20, 60]))
    w.decl(False)
    ev = w.misc()
    if ents or rng.random() < 0.1:
        w.put(u'<!DOCTYPE')
        w.s()
        w.put(u'root')
        w.s(False)
        w.put(u'[')
        for e in ents:
            w.s(False)
            w.put(u'<!ENTITY %s %s' % (e['name'], e['decl']))
            w.s(False)
            w.put(u'>')
            if rng.random() < 0.2:
                w.comment()
        w.put(u']')
        w.s(False)
        w.put(u'>')
        ev += w.misc()
    ev += w.element(rng.choice([1, 3, 5]))
    need = len(w.text().rstrip())
    ev += w.misc()
    t = w.text()
    # cut short it must not look complete: up to the last thing that is not white space
    whole = t.rstrip(u' \t\r\n')
    low = len(w.bom + t[:need].encode(w.codec))
    return w.bytes(), t, merged(ev), files, low, len(w.bom + whole.encode(w.codec))


def generate(rng, tier):
    via = rng.choice(['stream', 'stream', 'stream', 'stream', 'string', 'unicode', 'file', 'file', 'http', 'response'])
    plan = dict(doc=rng.randrange(1 << 30), via=via, enc=rng.choice(sorted(ENC)), ext=rng.random() < 0.5 and via in ('file', 'stream', 'string', 'http'),
                chunk=rng.choice([1, 2, 3, 5, 7, 16, 100, 4096, 4096]), hint=rng.random() < 0.25,
                reads=rng.choice([[0], [0], [1], [1, 2], [3], [1, 7, 2, 100], [13, 4096]]), again=rng.random() < 0.3,
                sched=dict(mode='none', seed=1), fault=None)
    if via == 'http' and not plan['ext'] and rng.random() < 0.5:
        plan['ext'] = True
    k = rng.random()
    if k < 0.2:
        plan['fault'] = ['error', rng.random(), rng.random() < 0.5]
    elif k < 0.4:
        plan['fault'] = ['cut', rng.choice([rng.random(), 1.0, 1.0, 0.0]), rng.choice([1, 1, 2, 3, 5, 10])]
    elif k < 0.5 and via in ('stream', 'string'):
        plan['fault'] = ['flip', rng.random(), rng.randrange(1, 256), rng.choice([1, 1, 2])]
        plan['hint'] = False
        if ENC[plan['enc']][0].startswith('utf_16'):
            plan['enc'] = 'utf8'
    if via in ('http', 'response'):
        plan['net'] = dict(seg=rng.choice([None, 1, 3, 64, 1460]), recv=rng.choice([None, None, 1, 50]), lat=rng.choice([0.0, 0.2]),
                           coalesce=rng.choice([0.0, 0.5]), framing=rng.choice(['cl', 'chunked', 'close']), kind=rng.choice(['eof', 'rst']),
                           type=rng.choice(['application/xml', 'application/xml; charset=%s', 'text/xml; charset="%s"']))
    return plan


def simplify(plan):
    for k, v in (('chunk', 4096), ('reads', [0]), ('again', False), ('hint', False), ('ext', False), ('enc', 'utf8')):
        if plan[k] != v:
            yield dict(plan, **{k: v})


SHRINK = []


class Stream(object):
    """A source that gives what it likes of what is asked for and may fail."""

    def __init__(self, env, data, reads, fail=None, stay=True):
        self.env, self.data, self.reads, self.fail, self.stay = env, data, reads, fail, stay
        self.pos = self.n = 0
        self.failed = False
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        k = self.reads[self.n % len(self.reads)]
        self.n += 1
        if k and k < n:
            n = k
            self.env.fault('short_read')
        if self.fail is not None and self.pos + n > self.fail and (self.stay or not self.failed):
            if self.pos >= self.fail:
                self.failed = True
                self.env.fault('read_error')
                raise IOError(5, 'Input/output error')
            n = self.fail - self.pos
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def close(self):
        self.closed = True


WRONG = (AttributeError, NameError, TypeError, KeyError, IndexError, AssertionError)


def execute(plan, env):
    sim = env.make_sim(max_time=3600.0, max_steps=6000000)
    data, text, want, files, need, low = document(plan)
    fault = plan['fault']
    codec, name, bom, wide = ENC[plan['enc']]
    fail = cut = None
    via = plan['via']
    if fault:
        if fault[0] == 'error':
            fail = int(len(data) * fault[1])
        elif fault[0] == 'cut':
            cut = max(0, low - fault[2]) if fault[1] == 1.0 else int(need * fault[1])
        elif fault[0] == 'flip':
            at = int(len(data) * fault[1])
            b = list(data)
            for i in range(fault[3]):
                if at + i < len(b):
                    b[at + i] = chr(ord(b[at + i]) ^ fault[2])
            data = ''.join(b)
            env.fault('corrupted')
    sent = data if cut is None or via in ('http', 'response', 'unicode') else data[:cut]
    d = disk.Disk(env)
    net = None
    if via in ('http', 'response'):
        import simnet
        net = hu.network(sim, env, dict(plan['net'], rnd=plan['rnd'], tls=False))

        def respond(req):
            p = req.target.split('/')[-1]
            if p == 'doc.xml':
                body = data
            else:
                body = files[p]
            n = plan['net']
            t = str(n['type'])
            if '%' in t:
                c = {'utf_16_le': 'utf-16', 'utf_16_be': 'utf-16', 'utf_32_le': 'utf-32', 'utf_32_be': 'utf-32'}.get(codec, codec)
                # a charset that leaves the byte order open needs a mark in what it describes
                t = t % c if p == 'doc.xml' and (bom or not c.startswith('utf-') or c == 'utf-8') else 'application/xml'
            r = Response(status=200, reason='OK', headers=[('Content-Type', t)], body=body, framing=str(n['framing']))
            if p == 'doc.xml' and (cut is not None or fail is not None):
                head, b = r.bytes('GET')
                if n['framing'] == 'close':
                    r.framing = 'cl'
                    head, b = r.bytes('GET')
                r.cut = len(head) + min(cut if cut is not None else fail, len(b) - 1)
                r.cutkind = str(n['kind'])
                env.fault('connection_lost')
            return r
        server = Server(net, env, 'h0', respond, seg=plan['net']['seg'], rnd=plan['rnd'], coalesce=plan['net']['coalesce'])
        net.listen('h0.example', 80, server)
    res = {}
    streams = []
    del EVENTS[:]
    save = st.XMLEntity.ChunkSize

    def take(e, doc=None):
        del EVENTS[:]
        doc = doc or Doc()
        p = ps.XMLParser(e)
        p.ParseDocument(doc)
        return merged([[x[0], x[1].xmlname, x[1].GetAttributes()] if x[0] == 'start' else x for x in EVENTS])

    def source():
        """An entity opened the way the plan says."""
        hint = codec if plan['hint'] and not bom and codec not in ('utf_16_le', 'utf_16_be', 'utf_32_le', 'utf_32_be') else None
        if via == 'unicode':
            t = text if cut is None else text[:len(text.rstrip()) - 1]
            e = st.XMLEntity(t)
        elif via == 'string':
            e = st.XMLEntity(sent, hint)
        elif via == 'stream':
            s = Stream(env, sent, plan['reads'], fail, fault[2] if fail is not None else True)
            streams.append(s)
            e = st.XMLEntity(s, hint)
        elif via == 'file':
            e = st.XMLEntity(uri.URIFactory.URI('file:///work/doc.xml'), hint)
        elif via == 'http':
            e = st.XMLEntity(uri.URIFactory.URI('http://h0.example/x/doc.xml'), reqManager=hu.manager(env, 4))
        else:
            m = hu.manager(env, 4)
            r = http.HTTPRequest('http://h0.example/x/doc.xml')
            m.ProcessRequest(r)
            if r.status != 200:
                raise IOError('%s' % r.status)
            e = st.XMLEntity(r.response)
        if via in ('string', 'stream'):
            # relative to what the external entities are
            e.location = uri.URIFactory.URI('file:///work/doc.xml')
        return e

    def attempt(fn):
        try:
            return ('ok', fn())
        except WRONG, e:
            return ('wrong', sys.exc_info())
        except Exception, e:
            return ('error', sys.exc_info())

    def main():
        st.XMLEntity.ChunkSize = plan['chunk']
        for f, x in files.items():
            d.put('/work/' + f, x)
        d.put('/work/doc.xml', sent)
        with d:
            if fail is not None and via == 'file':
                d.faults = [dict(op='read', n=int(fault[1] * 4), err='EIO', part=0)]
            r = attempt(lambda: res.setdefault('e', source()) and take(res['e']))
            failed = d.failed or [s for s in streams if s.failed]
            d.faults = []
            res['r'] = r
            if fault and fault[0] == 'flip':
                # what is wrong with it is found however it comes
                st.XMLEntity.ChunkSize = 4096

                def whole():
                    e = st.XMLEntity(Stream(env, data, [0]))
                    e.location = uri.URIFactory.URI('file:///work/doc.xml')
                    return take(e)
                w = attempt(whole)
                if w[0] != r[0] or w[0] == 'ok' and w[1] != r[1]:
                    env.violation('depends on delivery', 'whole: %s; in pieces: %s' % (shown(w), shown(r)))
                elif w[0] == 'error' and issubclass(w[1][0], st.XMLError) and issubclass(r[1][0], st.XMLError) and unicode(w[1][1]) != unicode(r[1][1]):
                    env.violation('error depends on delivery', 'whole: %s; in pieces: %s' % (shown(w), shown(r)))
                env.probe('corrupted_' + w[0])
                return
            if r[0] == 'wrong':
                env.exc_violation('wrong error', r[1])
            elif r[0] == 'ok':
                if cut is not None and via not in ('unicode', 'http', 'response') and cut >= need and MISC.match(data[need:cut].decode(codec, 'ignore')):
                    # what is lost are comments and instructions after the document
                    env.probe('complete_enough')
                elif cut is not None:
                    env.violation('incomplete document accepted', '%s of %s' % (cut, len(data)))
                elif failed or fail is not None and via in ('http', 'response'):
                    env.violation('failure not reported', '')
                elif r[1] != want:
                    env.violation('document', diff(r[1], want))
                else:
                    env.probe('read')
                    env.mark(len(want))
                    if plan['again'] and via != 'unicode' and not files and [x for x in ('string', 'stream', 'file') if x == via]:
                        a = attempt(lambda: (res['e'].Reset(), take(res['e']))[1])
                        if a[0] != 'ok' or a[1] != want:
                            env.violation('reading again after Reset', shown(a) if a[0] != 'ok' else diff(a[1], want))
                        env.probe('read_again')
            elif fault is None or fail is not None and not failed and via in ('stream', 'file'):
                env.exc_violation('refused', r[1])
            else:
                env.probe('failure_reported')
                if failed and not issubclass(r[1][0], (IOError, OSError)):
                    env.exc_violation('failure reported as', r[1])

    def shown(r):
        return 'read' if r[0] == 'ok' else '%s %s' % (r[1][0].__name__, repr(r[1][1])[:200])

    def diff(got, want):
        for i in range(max(len(got), len(want))):
            g, w = got[i:i + 1], want[i:i + 1]
            if g != w:
                a, b = repr(g), repr(w)
                n = 0
                while a[n:n + 1] == b[n:n + 1]:
                    n += 1
                n = max(0, n - 40)
                return 'event %d is %s, should be %s (from character %d)' % (i, a[n:n + 200], b[n:n + 200], n)

    def run():
        try:
            main()
        finally:
            st.XMLEntity.ChunkSize = save
    sim.spawn(run, 'main')
    sim.run()
    st.XMLEntity.ChunkSize = save
    env.mark(EVENTS and [x[0] for x in EVENTS])
    env.stat('nontrivial')
    env.probe('via_' + via)
    hu.verdict(env, sim)
