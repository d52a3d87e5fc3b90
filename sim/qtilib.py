"""Shared by the QTI scenarios: tests and items made from plain data, and a model of what a session should do."""
import StringIO
import boot

core = tests = variables = items = expressions = processing = None
HEAD = ' xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1"'
# response kinds: what the response variable of an item is, and values for it
KINDS = {
    'single': ('single', 'identifier', ['A', 'B', 'C']),
    'multiple': ('multiple', 'identifier', [['A'], ['A', 'B'], ['C', 'B'], 'A']),
    'ordered': ('ordered', 'identifier', [['A', 'B', 'C'], ['C', 'A', 'B'], ['B']]),
    'orderedby': ('ordered', 'identifier', [['A', 'B', 'C'], ['C', 'A', 'B'], ['B']]),
    'integer': ('single', 'integer', ['1', '-7', '0']),
    'float': ('single', 'float', ['0.5', '-2.25', '3.0']),
    'string': ('single', 'string', ['hello', ' ', u'caf\xe9 <&>']),
    'orderedint': ('ordered', 'integer', [['3', '1', '2'], ['5']]),
}
BODY = '<itemBody><choiceInteraction responseIdentifier="RESPONSE" shuffle="false" maxChoices="%d"><prompt>?</prompt><simpleChoice identifier="A">a</simpleChoice><simpleChoice identifier="B">b</simpleChoice><simpleChoice identifier="C">c</simpleChoice></choiceInteraction></itemBody>'


def setup():
    global core, tests, variables, items, expressions, processing
    boot.install()
    import pyslet.imsqtiv2p1
    import pyslet.qtiv2.core as a
    import pyslet.qtiv2.tests as b
    import pyslet.qtiv2.variables as c
    import pyslet.qtiv2.items as d
    import pyslet.qtiv2.expressions as e
    import pyslet.qtiv2.processing as f
    core, tests, variables, items, expressions, processing = a, b, c, d, e, f

    # what the library works out on first use
    parts = [dict(id='P', ch=[dict(id='S', ch=[dict(id='Q%d' % i, kind=k) for i, k in enumerate(sorted(KINDS))])])]
    for body in (False, True):
        state = c.TestSessionState(b.TestForm(load(parts, body)))
        state.BeginSession(state.key)
        for i, k in enumerate(sorted(KINDS)):
            for ev in ('SAVE', 'SUBMIT'):
                ps = params('Q%d' % i, k, KINDS[k][2][0])
                ps[ev] = state.key
                state.HandleEvent(ps)


_docs = {}


def parse(text):
    """The root of a document; parsed once, so do not change it."""
    if text not in _docs:
        if len(_docs) > 300:
            _docs.clear()
        doc = core.QTIDocument()
        doc.Read(src=StringIO.StringIO(text))
        _docs[text] = doc
    return _docs[text].root


def item_xml(kind, body=False):
    card, base, vals = KINDS[kind]
    right = vals[0] if isinstance(vals[0], list) else [vals[0]]
    return '''<assessmentItem%s identifier="I-%s" title="t" adaptive="false" timeDependent="false">
<responseDeclaration identifier="RESPONSE" cardinality="%s" baseType="%s"><correctResponse>%s</correctResponse></responseDeclaration>
<outcomeDeclaration identifier="SCORE" cardinality="single" baseType="integer"/>%s
<responseProcessing><responseCondition><responseIf><match><variable identifier="RESPONSE"/><correct identifier="RESPONSE"/></match>
<setOutcomeValue identifier="SCORE"><baseValue baseType="integer">1</baseValue></setOutcomeValue></responseIf>
<responseElse><setOutcomeValue identifier="SCORE"><baseValue baseType="integer">-1</baseValue></setOutcomeValue></responseElse></responseCondition></responseProcessing>
</assessmentItem>''' % (HEAD, kind, card, base, ''.join(['<value>%s</value>' % v for v in right]),
                        BODY % (1 if card == 'single' else 0) if body and base == 'identifier' and card != 'ordered' else '')


def cond_xml(c):
    if c[0] == 'const':
        return '<baseValue baseType="boolean">%s</baseValue>' % ('true' if c[1] else 'false')
    if c[0] == 'null':
        return '<null/>'
    if c[0] == 'score':
        return '<match><variable identifier="%s.SCORE"/><baseValue baseType="integer">%d</baseValue></match>' % (c[1], c[2])
    if c[0] == 'resp':
        return '<match><variable identifier="%s.RESPONSE"/><baseValue baseType="identifier">%s</baseValue></match>' % (c[1], c[2])
    if c[0] == 'not':
        return '<not>%s</not>' % cond_xml(c[1])
    raise ValueError(c)


def rules_xml(n):
    r = ''.join(['<preCondition>%s</preCondition>' % cond_xml(c) for c in n.get('pre', [])])
    return r + ''.join(['<branchRule target="%s">%s</branchRule>' % (t, cond_xml(c)) for t, c in n.get('branch', [])])


def section_xml(s):
    attrs = ''
    for k in ('required', 'fixed'):
        if s.get(k):
            attrs += ' %s="true"' % k
    if 'ch' not in s:
        return '<assessmentItemRef identifier="%s" href="%s.xml"%s>%s%s</assessmentItemRef>' % (s['id'], s['id'], attrs, rules_xml(s), s.get('xml', ''))
    if s.get('keep') is False:
        attrs += ' keepTogether="false"'
    r = '<assessmentSection identifier="%s" title="s" visible="%s"%s>%s' % (s['id'], 'true' if s.get('vis', True) else 'false', attrs, rules_xml(s))
    if s.get('select') is not None:
        r += '<selection select="%d"%s/>' % (s['select'], ' withReplacement="true"' if s.get('repl') else '')
    if s.get('shuffle') is not None:
        r += '<ordering shuffle="%s"/>' % ('true' if s['shuffle'] else 'false')
    return r + ''.join([section_xml(c) for c in s['ch']]) + '</assessmentSection>'


def test_xml(parts):
    return '<assessmentTest%s identifier="T" title="t">%s</assessmentTest>' % (HEAD, ''.join(
        ['<testPart identifier="%s" navigationMode="linear" submissionMode="individual">%s%s</testPart>' % (p['id'], rules_xml(p), ''.join([section_xml(s) for s in p['ch']])) for p in parts]))


def walk(nodes):
    for n in nodes:
        yield n
        for x in walk(n.get('ch', [])):
            yield x


def flat(nodes):
    """The form of a test without selection or ordering."""
    r = []
    for n in nodes:
        r.append(n['id'])
        if 'ch' in n:
            r.extend(flat(n['ch']))
            r.append('-' + n['id'])
    return r


def load(parts, body=False):
    """The test with its items in place."""
    root = parse(test_xml(parts))
    for n in walk(parts):
        if 'kind' in n:
            root.GetPart(n['id']).item = parse(item_xml(n['kind'], body))
    return root


def params(item, kind, value):
    """What a browser sends for an answer."""
    p = '%s.RESPONSE' % item
    if kind == 'orderedby':
        return dict(('%s.%s' % (p, v), str(i + 1)) for i, v in enumerate(value))
    if kind.startswith('ordered'):
        return dict(('%s.%d' % (p, i + 1), v) for i, v in enumerate(value))
    if isinstance(value, list):
        return {p: list(value)}
    return {p: value}


def expect(kind, value):
    """The value a variable should hold after that answer."""
    card, base, vals = KINDS[kind]

    def one(v):
        if base == 'integer':
            return int(v)
        if base == 'float':
            return float(v)
        return unicode(v)
    if card == 'single':
        return one(value)
    if card == 'multiple':
        r = {}
        for v in (value if isinstance(value, list) else [value]):
            r[one(v)] = r.get(one(v), 0) + 1
        return r
    return [one(v) for v in value]


class Model(object):
    """A session of a linear test without selection, by the specification.  Time is kept by the caller."""

    def __init__(self, parts):
        self.parts = parts
        self.form = [''] + flat(parts)
        self.node = dict((n['id'], n) for n in walk(parts))
        self.part = {}
        for p in parts:
            for n in walk([p]):
                self.part[n['id']] = p['id']
        self.items = [i for i, x in enumerate(self.form) if x in self.node and 'kind' in self.node[x]]
        self.resp, self.saved, self.score, self.attempts = {}, {}, {}, {}
        self.q = 0
        self.seen = []

    def open_at(self, i):
        """The sections and part that contain position i, innermost first."""
        stack = []
        for x in self.form[1:i]:
            if x[0] == '-':
                stack.pop()
            elif 'ch' in self.node[x]:
                stack.append(x)
        return stack[::-1]

    def ev(self, c):
        """True, False or None for NULL."""
        if c[0] == 'const':
            return bool(c[1])
        if c[0] == 'null':
            return None
        if c[0] == 'not':
            v = self.ev(c[1])
            return None if v is None else not v
        v = self.score.get(c[1]) if c[0] == 'score' else self.resp.get(c[1])
        return None if v is None else v == c[2]

    def close(self, i):
        return self.form.index('-' + self.form[i], i)

    def branch(self, i, n):
        """Where to go after the component n, which ends at position i."""
        for t, c in n.get('branch', []):
            if self.ev(c) is True:
                if t == 'EXIT_TEST':
                    return len(self.form)
                inside = self.open_at(i)
                if n.get('ch') is not None:
                    inside = [x for x in inside if x != n['id']]
                if t == 'EXIT_SECTION':
                    return self.form.index('-' + inside[0], i) + 1
                if t == 'EXIT_TESTPART':
                    return self.form.index('-' + inside[-1], i) + 1
                try:
                    return self.form.index(t, i + 1)
                except ValueError:
                    return len(self.form)
        return i + 1

    def next(self):
        i = 1 if self.q == 0 else self.branch(self.q, self.node[self.form[self.q]])
        while i < len(self.form):
            x = self.form[i]
            if x[0] == '-':
                i = self.branch(i, self.node[x[1:]])
                continue
            n = self.node[x]
            if not all([self.ev(c) is True for c in n.get('pre', [])]):
                i = i + 1 if 'ch' not in n else self.close(i) + 1
            elif 'ch' in n:
                i += 1
            else:
                self.q = i
                self.score[x] = 0
                self.attempts[x] = 1
                self.seen.append(x)
                return
        self.q = None

    def save(self, p):
        """p: {item: value}; only the current item takes it."""
        if self.q:
            x = self.form[self.q]
            if x in p:
                self.saved[x] = expect(self.node[x]['kind'], p[x])

    def submit(self, p):
        if self.q:
            self.save(p)
            x = self.form[self.q]
            k = self.node[x]['kind']
            if x in self.saved:
                self.resp[x] = self.saved.pop(x)
            right = KINDS[k][2][0]
            self.score[x] = 1 if self.resp.get(x) == expect(k, right) else -1
            self.next()


class Source(object):
    """Stands in for the functions of the random module: every outcome of the random source is ours to choose.

    mode: 'uniform', 'low' and 'high' (the extremes all the time), 'alt' (extremes in turn), 'mix' (now and then an extreme),
    'sweep' (a constant, self.x)."""
    NAMES = ['random', 'choice', 'shuffle', 'sample', 'randint', 'randrange', 'uniform']
    HIGH = 1.0 - 2.0 ** -53

    def __init__(self, mode, seed):
        import random
        self.mod = random
        outer = self

        class R(random.Random):
            def random(self):
                return outer.draw()
        self.rng = random.Random(seed)
        self.mode = mode
        self.x = 0.0
        self.n = 0
        self.r = R(1)

    def draw(self):
        self.n += 1
        m = self.mode
        if m == 'low':
            return 0.0
        if m == 'high':
            return self.HIGH
        if m == 'alt':
            return [0.0, self.HIGH][self.n % 2]
        if m == 'sweep':
            return self.x
        if m == 'mix' and self.rng.random() < 0.3:
            return self.rng.choice([0.0, self.HIGH, 0.5, 2.0 ** -53])
        return self.rng.random()

    def __enter__(self):
        self.saved = dict((n, getattr(self.mod, n)) for n in self.NAMES)
        for n in self.NAMES:
            setattr(self.mod, n, getattr(self.r, n))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.mod, n, f)
