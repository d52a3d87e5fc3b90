"""C25: random operators and clone selection give legal values for every random outcome, and every legal value for some outcome."""
import itertools
import random
import boot
import httputil as hu
import qtilib

MANY = 3000
IDS = ['A', 'B', 'C', 'D']


def setup():
    qtilib.setup()


def uni(rng, lo, hi):
    """A number whose text needs no exponent: the library's reading of those may be off by one bit."""
    v = rng.uniform(lo, hi)
    return float(lo) if 'e' in repr(v) else v


def lit(rng, base):
    if base == 'integer':
        return rng.choice([rng.randrange(-5, 10), rng.randrange(-5, 10), rng.choice([0, 2147483647, -2147483648, 1000000])])
    if base == 'float':
        return rng.choice([0.0, 0.5, -2.25, 3.0, 1e-9, -1e10, uni(rng, -4, 4)])
    return rng.choice(IDS)


def num(rng, t, lo, hi, base):
    """A literal, or a template variable that always has a value in that range."""
    c = [v['id'] for v in t if v.get('const') is not None and v['base'] == base and lo <= v['const'] <= hi]
    if c and rng.random() < 0.4:
        return rng.choice(c)
    return rng.randrange(lo, hi + 1) if base == 'integer' else rng.choice([float(lo), float(hi), uni(rng, lo, hi)])


def value_of(x, t):
    if isinstance(x, basestring):
        return [v['const'] for v in t if v['id'] == x][0]
    return x


def rint(rng, t):
    span = rng.choice([1, 5, 5, 20, 1000])
    lo = num(rng, t, -span, span, 'integer')
    hi = num(rng, t, value_of(lo, t), value_of(lo, t) + span, 'integer')
    if rng.random() < 0.04:
        lo, hi = -2147483648, 2147483647
    step = rng.choice([None, 1, 1, 2, 3, 7, num(rng, t, 1, 9, 'integer')])
    return ['rint', lo, hi, step]


def rfloat(rng, t):
    lo = num(rng, t, rng.choice([-10, -1, 0]), 3, 'float')
    hi = rng.choice([value_of(lo, t), num(rng, t, value_of(lo, t), value_of(lo, t) + rng.choice([1e-6, 1.0, 1000.0]), 'float')])
    if rng.random() < 0.05:
        lo, hi = rng.choice([-1e300, 0.1, -1.0]), rng.choice([0.3, 1e300])
    return ['rfloat', lo, hi]


def atom(rng, t, base, rnd=False):
    r = rng.random()
    if rnd and base == 'integer' and r < 0.3:
        return ['rint', 1, rng.choice([1, 2, 4]), None]
    c = [v['id'] for v in t if v['base'] == base and v['card'] == 'single']
    if c and r < 0.6:
        return ['var', rng.choice(c)]
    if r > 0.93:
        return ['null']
    return ['base', base, lit(rng, base)]


def container(rng, t, base, card, rnd=False):
    c = [v['id'] for v in t if v['base'] == base and v['card'] == card]
    if c and rng.random() < 0.3:
        return ['var', rng.choice(c)]
    kids = [atom(rng, t, base, rnd) for i in range(rng.choice([0, 1, 2, 3, 3]))]
    if kids and rng.random() < 0.5:
        kids.append(rng.choice(kids))
    if c and rng.random() < 0.3:
        kids.append(['var', rng.choice(c)])
    return [card] + kids


def expr(rng, t, base, card, rnd):
    if card == 'single':
        r = rng.random()
        if rnd and r < 0.8:
            if r < 0.3 or base == 'identifier':
                return ['random', container(rng, t, base, rng.choice(['multiple', 'ordered']))]
            return rint(rng, t) if base == 'integer' else rfloat(rng, t)
        return atom(rng, t, base)
    return container(rng, t, base, card, rnd)


def condition(rng, t):
    r = rng.random()
    if r < 0.15:
        return ['const', rng.random() < 0.5]
    v = rng.choice(t)
    if r < 0.3 or v['card'] != 'single' or v['base'] == 'float':
        return ['isnull', v['id']]
    if v['base'] == 'identifier':
        return ['match', v['id'], rng.choice(IDS)]
    return [rng.choice(['lt', 'gte']), v['id'], rng.randrange(-3, 8)]


def generate(rng, tier):
    if rng.random() < 0.2:
        return reach_plan(rng)
    t = []
    for i in range(rng.choice([1, 3, 5, 8])):
        v = dict(id='T%d' % i, base=rng.choice(['integer', 'integer', 'float', 'identifier']), card=rng.choice(['single', 'single', 'single', 'multiple', 'ordered']))
        if rng.random() < 0.6:
            v['default'] = [lit(rng, v['base']) for i in range(1 if v['card'] == 'single' else rng.choice([1, 2, 3]))]
            if v['card'] != 'single' and rng.random() < 0.5:
                v['default'].append(v['default'][0])
        t.append(v)
    for base in ('integer', 'float'):
        for c in range(rng.choice([0, 1, 2])):
            x = rng.choice([0, 1, 2, -3]) if base == 'integer' else rng.choice([0.0, -0.5, 2.0])
            t.append(dict(id='K%s%d' % (base[0], c), base=base, card='single', default=[x], const=x))
    rsp = dict(id='RESPONSE', base=rng.choice(['integer', 'identifier']), card=rng.choice(['single', 'multiple', 'ordered']))
    out = dict(id='OUT', base=rng.choice(['integer', 'float', 'identifier']), card=rng.choice(['single', 'single', 'multiple']))
    free = [v['id'] for v in t if 'const' not in v] + ['RESPONSE.DEFAULT', 'RESPONSE.CORRECT', 'OUT.DEFAULT']
    rng.shuffle(free)
    once = free[:len(free) * 2 // 3]
    det = free[len(once):]
    by = dict((v['id'], v) for v in t + [rsp, out])

    def rules(depth):
        r = []
        for i in range(rng.choice([1, 2, 3, 4])):
            x = rng.random()
            if x < 0.15 and depth < 3:
                r.append(['if', [[condition(rng, t), rules(depth + 1)] for j in range(rng.choice([1, 1, 2, 3]))], rules(depth + 1) if rng.random() < 0.5 else None])
            elif x < 0.2:
                r.append(['exit'])
            elif once and x < 0.75:
                v = once.pop()
                d = by[v.split('.')[0]]
                r.append(['set', v, expr(rng, t, d['base'], d['card'], True)])
            elif det:
                v = rng.choice(det)
                d = by[v.split('.')[0]]
                r.append(['set', v, expr(rng, t, d['base'], d['card'], False)])
        return r
    plan = dict(t=t, rsp=rsp, out=out, rules=rules(0),
                clones=[[rng.choice(['uniform', 'uniform', 'mix', 'low', 'high', 'alt']), rng.randrange(1 << 30)] for i in range(rng.choice([1, 2, 4]))],
                order=rng.randrange(1 << 30), refs=[], sched=dict(mode='none', seed=1))
    if rng.random() < 0.4:
        for i in range(rng.choice([1, 2, 3])):
            ds = []
            for v in t:
                if 'const' not in v and rng.random() < 0.3:
                    ds.append([v['id'], expr(rng, [], v['base'], v['card'], False)])
            plan['refs'].append(ds)
    return plan


def reach_plan(rng):
    t = []
    for base in ('integer', 'float'):
        x = rng.choice([0, 1, 2, -3]) if base == 'integer' else rng.choice([0.0, -0.5, 2.0])
        t.append(dict(id='K%s' % base[0], base=base, card='single', default=[x], const=x))
    base = rng.choice(['integer', 'integer', 'float', 'identifier'])
    for i in range(50):
        if base == 'integer' and rng.random() < 0.6:
            lo = num(rng, t, -4, 4, 'integer')
            e = ['rint', lo, value_of(lo, t) + rng.randrange(0, 9), rng.choice([None, 1, 2, 3])]
        elif base == 'float':
            e = rfloat(rng, t)
        else:
            e = ['random', container(rng, t, base, rng.choice(['multiple', 'ordered']))]
        if base == 'float' or len(legal(e, dict((v['id'], v['const']) for v in t))) <= 12:
            break
    t.append(dict(id='T0', base=base, card='single'))
    return dict(t=t, rsp=dict(id='RESPONSE', base='integer', card='single'), out=dict(id='OUT', base='integer', card='single'),
                rules=[['set', 'T0', e]], clones=[], order=0, refs=[], reach=rng.randrange(1 << 30), sched=dict(mode='none', seed=1))


SHRINK = ['clones', 'refs', 'rules']


# ---- the item
def xml_value(base, v):
    return repr(v) if base == 'float' else str(v)


def expr_xml(e):
    k = e[0]

    def ref(x):
        return '{%s}' % x if isinstance(x, basestring) else repr(x)
    if k == 'rint':
        return '<randomInteger min="%s" max="%s"%s/>' % (ref(e[1]), ref(e[2]), '' if e[3] is None else ' step="%s"' % ref(e[3]))
    if k == 'rfloat':
        return '<randomFloat min="%s" max="%s"/>' % (ref(e[1]), ref(e[2]))
    if k == 'random':
        return '<random>%s</random>' % expr_xml(e[1])
    if k == 'base':
        return '<baseValue baseType="%s">%s</baseValue>' % (e[1], xml_value(e[1], e[2]))
    if k == 'var':
        return '<variable identifier="%s"/>' % e[1]
    if k == 'null':
        return '<null/>'
    if k == 'const':
        return '<baseValue baseType="boolean">%s</baseValue>' % ('true' if e[1] else 'false')
    if k == 'isnull':
        return '<isNull><variable identifier="%s"/></isNull>' % e[1]
    if k == 'match':
        return '<match><variable identifier="%s"/><baseValue baseType="identifier">%s</baseValue></match>' % (e[1], e[2])
    if k in ('lt', 'gte'):
        return '<%s><variable identifier="%s"/><baseValue baseType="integer">%d</baseValue></%s>' % (k, e[1], e[2], k)
    return '<%s>%s</%s>' % (k, ''.join([expr_xml(x) for x in e[1:]]), k)


def rule_xml(r):
    if r[0] == 'exit':
        return '<exitTemplate/>'
    if r[0] == 'if':
        s = ''
        for i, (c, rs) in enumerate(r[1]):
            n = 'templateElseIf' if i else 'templateIf'
            s += '<%s>%s%s</%s>' % (n, expr_xml(c), ''.join([rule_xml(x) for x in rs]), n)
        if r[2] is not None:
            s += '<templateElse>%s</templateElse>' % ''.join([rule_xml(x) for x in r[2]])
        return '<templateCondition>%s</templateCondition>' % s
    v = r[1].split('.')
    n = 'setTemplateValue' if len(v) == 1 else 'setDefaultValue' if v[1] == 'DEFAULT' else 'setCorrectResponse'
    return '<%s identifier="%s">%s</%s>' % (n, v[0], expr_xml(r[2]), n)


def item_xml(plan):
    def decl(n, v):
        d = ''
        if v.get('default'):
            d = '<defaultValue>%s</defaultValue>' % ''.join(['<value>%s</value>' % xml_value(v['base'], x) for x in v['default']])
        return '<%s identifier="%s" cardinality="%s" baseType="%s">%s</%s>' % (n, v['id'], v['card'], v['base'], d, n)
    return '<assessmentItem%s identifier="I" title="t" adaptive="false" timeDependent="false">%s%s%s<templateProcessing>%s</templateProcessing></assessmentItem>' % (
        qtilib.HEAD, decl('responseDeclaration', plan['rsp']), decl('outcomeDeclaration', plan['out']),
        ''.join([decl('templateDeclaration', v) for v in plan['t']]), ''.join([rule_xml(r) for r in plan['rules']]))


# ---- the model
class TooMany(Exception):
    pass


class Stop(Exception):
    pass


def legal(e, m):
    """The values an expression may have: a list, or ('range', lo, hi)."""
    k = e[0]

    def ref(x):
        return m[x] if isinstance(x, basestring) else x
    if k == 'rint':
        lo, hi, step = ref(e[1]), ref(e[2]), 1 if e[3] is None else ref(e[3])
        if (hi - lo) // step > MANY:
            return ('step', lo, hi, step)
        return range(lo, hi + 1, step)
    if k == 'rfloat':
        return ('range', ref(e[1]), ref(e[2]))
    if k == 'base':
        return [e[2]]
    if k == 'var':
        return [m[e[1]]]
    if k == 'null':
        return [None]
    if k == 'random':
        r = []
        for c in legal(e[1], m):
            r.extend(c if c else [None])
        return uniq(r)
    opts = [legal(x, m) for x in e[1:]]
    n = 1
    for o in opts:
        n *= len(o)
    if n > MANY:
        raise TooMany
    r = []
    for c in itertools.product(*opts):
        x = []
        for v in c:
            if isinstance(v, list):
                x.extend(v)
            elif v is not None:
                x.append(v)
        if k == 'multiple':
            x.sort()
        r.append(x or None)
    return uniq(r)


def uniq(l):
    r = []
    for x in l:
        if x not in r:
            r.append(x)
    return r


def allowed(v, options):
    if isinstance(options, tuple):
        if v is None or isinstance(v, list):
            return False
        if options[0] == 'step':
            return options[1] <= v <= options[2] and (v - options[1]) % options[3] == 0
        return options[1] <= v <= options[2]
    return v in options


def canon(v):
    """The value of a variable as plain data."""
    if not v:
        return None
    if v.Cardinality() == qtilib.variables.Cardinality.single:
        return v.value
    r = list(v.GetValues())
    return sorted(r) if v.Cardinality() == qtilib.variables.Cardinality.multiple else r


def start(plan):
    m = {}
    for v in plan['t'] + [plan['rsp'], plan['out']]:
        d = v.get('default')
        if d is not None:
            d = d[0] if v['card'] == 'single' else sorted(d) if v['card'] == 'multiple' else list(d)
        m[v['id'] if v in plan['t'] else v['id'] + '.DEFAULT'] = d
    m['RESPONSE.CORRECT'] = None
    return m


def truth(c, m):
    if c[0] == 'const':
        return c[1]
    v = m[c[1]]
    if c[0] == 'isnull':
        return v is None
    if v is None:
        return False
    if c[0] == 'match':
        return v == c[2]
    return v < c[2] if c[0] == 'lt' else v >= c[2]


def model(plan, tdefs, seen, complain):
    """The variables after a clone was selected; seen: the values they have."""
    m = start(plan)
    for v, e in tdefs:
        m[v] = legal(e, {})[0]

    def do(rs):
        for r in rs:
            if r[0] == 'exit':
                raise Stop
            if r[0] == 'if':
                for c, b in r[1]:
                    if truth(c, m):
                        do(b)
                        break
                else:
                    do(r[2] or [])
                continue
            o = legal(r[2], m)
            if isinstance(o, tuple) or len(o) != 1:
                if not allowed(seen[r[1]], o):
                    complain(r, seen[r[1]], o)
                m[r[1]] = seen[r[1]]
            else:
                m[r[1]] = o[0]
    try:
        do(plan['rules'])
    except Stop:
        pass
    return m


def execute(plan, env):
    V = qtilib.variables
    sim = env.make_sim(trace=False)
    text = item_xml(plan)
    item = qtilib.parse(text)
    names = start(plan).keys()
    names.sort()

    def read(st):
        return dict((n, canon(st[n])) for n in names)

    def compare(where, seen, tdefs):
        def complain(r, v, o):
            env.violation('illegal value', '%s: %r for %s; rule %r' % (where, v, o if isinstance(o, tuple) else o[:20], r))
        try:
            m = model(plan, tdefs, seen, complain)
        except TooMany:
            env.probe('too_many_values')
            return
        if env.viol:
            return
        for n in names:
            if m[n] != seen[n]:
                env.violation('variable', '%s: %s is %r, should be %r' % (where, n, seen[n], m[n]))

    def begun(where, st, clone):
        """After the start of the attempt."""
        now = read(st)
        if now != clone:
            env.violation('changed by the attempt', '%s: %r, was %r' % (where, now, clone))
        if canon(st['RESPONSE']) != clone['RESPONSE.DEFAULT']:
            env.violation('response default', '%s: %r, should be %r' % (where, canon(st['RESPONSE']), clone['RESPONSE.DEFAULT']))
        want = clone['OUT.DEFAULT']
        if want is None and plan['out']['card'] == 'single' and plan['out']['base'] != 'identifier':
            want = 0
        if canon(st['OUT']) != want:
            env.violation('outcome default', '%s: %r, should be %r' % (where, canon(st['OUT']), want))

    def clones():
        rng = random.Random(plan['order'])
        sts = [V.ItemSessionState(item) for c in plan['clones']]
        todo = [(i, k) for i in range(len(sts)) for k in range(3)]
        rng.shuffle(todo)
        done, clone = {}, {}
        for i, k in todo:
            k = done[i] = done.get(i, -1) + 1
            st, (mode, seed) = sts[i], plan['clones'][i]
            where = 'clone %d (%s)' % (i, mode)
            if k == 0:
                with qtilib.Source(mode, seed) as src:
                    st.SelectClone()
                env.fault('random_' + mode)
                env.stat('draws', src.n)
                clone[i] = read(st)
                env.mark(clone[i])
                sim.log(sorted(clone[i].items()))
                env.probe('clone')
                compare(where, clone[i], [])
            elif k == 1:
                st.BeginSession()
            else:
                st.BeginAttempt()
                begun(where, st, clone[i])
        for i, st in enumerate(sts):
            if read(st) != clone[i]:
                env.violation('clones affect each other', '%r, was %r' % (read(st), clone[i]))

    def test():
        parts = [dict(id='P', ch=[dict(id='S', ch=[dict(id='Q%d' % i, xml=''.join(
            ['<templateDefault templateIdentifier="%s">%s</templateDefault>' % (v, expr_xml(e)) for v, e in ds])) for i, ds in enumerate(plan['refs'])])])]
        root = qtilib.load(parts)
        for i in range(len(plan['refs'])):
            root.GetPart('Q%d' % i).item = item
        mode, seed = plan['clones'][0] if plan['clones'] else ('uniform', 1)
        seen = {}
        with qtilib.Source(mode, seed) as src:
            form = qtilib.tests.TestForm(root)
            st = V.TestSessionState(form)
            st.BeginSession(st.key)
            for i, ds in enumerate(plan['refs']):
                ns = st.namespace[form.index('Q%d' % i)]
                seen[i] = read(ns)
                where = 'Q%d (%s)' % (i, mode)
                compare(where, seen[i], ds)
                env.probe('clone_in_test')
                st.HandleEvent({'SUBMIT': st.key})
        for i in seen:
            ns = st.namespace[form.index('Q%d' % i)]
            if read(ns) != seen[i]:
                env.violation('clones affect each other', 'Q%d: %r, was %r' % (i, read(ns), seen[i]))

    def reach():
        e = plan['rules'][0][2]
        o = legal(e, dict((v['id'], v.get('const')) for v in plan['t']))
        got = []
        n = 8 if isinstance(o, tuple) else len(o)
        with qtilib.Source('uniform', plan['reach']):
            for i in range(80 * n):
                st = V.ItemSessionState(item)
                st.SelectClone()
                v = canon(st['T0'])
                if not allowed(v, o):
                    env.violation('illegal value', '%r for %s' % (v, o))
                    return
                if isinstance(o, tuple):
                    w = o[2] - o[1]
                    v = min(7, int(8 * ((v - o[1]) / w))) if w else None
                if v not in got:
                    got.append(v)
        env.probe('reach')
        env.stat('values_to_reach', n)
        env.mark([repr(o)])
        if isinstance(o, tuple):
            w = o[2] - o[1]
            # neighbouring values have no eighths
            n = 8 if w > 1e-9 * max(abs(o[1]), abs(o[2])) else 1
        if len(got) < n:
            env.violation('unreachable', '%r gives %r of %r in %d drawings' % (e, got, o, 80 * n))

    def main():
        if 'reach' in plan:
            reach()
        clones()
        if plan['refs'] and not env.viol:
            test()
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
