"""C23: QTI test sessions: keys are single-use, time is accounted for and answers are kept."""
import sys
import boot
import dst
import httputil as hu
import qtilib
from qtilib import KINDS

WAITS = [0, 0, 0, 0.0004, 0.3, 1, 7.5, 90]


def setup():
    qtilib.setup()


def generate(rng, tier):
    parts, n = [], [0]

    def section(depth):
        s = dict(id='S%d' % n[0], ch=[])
        n[0] += 1
        for i in range(rng.choice([1, 1, 2, 3] if depth else [0, 1, 2, 3])):
            if depth < 2 and rng.random() < 0.25:
                s['ch'].append(section(depth + 1))
            else:
                s['ch'].append(dict(id='Q%d' % n[0], kind=rng.choice(sorted(KINDS))))
                n[0] += 1
        return s
    for p in range(rng.choice([1, 1, 2])):
        parts.append(dict(id='P%d' % p, ch=[section(0) for i in range(rng.choice([1, 1, 2]))]))
    nt = rng.choice([1, 1, 2, 2, 3, 4])
    ops = []
    style = rng.choice(['good', 'mixed', 'race'])
    for t in range(nt):
        for i in range(rng.choice([1, 2, 4, 8])):
            o = dict(t=t, op=rng.choice(['save', 'submit', 'submit']), w=rng.choice(WAITS if style != 'race' else [0, 0, 0, 0.3]))
            o['key'] = rng.choice({'good': ['now'], 'mixed': ['now', 'now', 'now', 'old', 'first', 'forged', 'empty', 'other', 'begin', 'case'], 'race': ['now', 'now', 'now', 'old']}[style])
            o['k'] = rng.randrange(5)
            o['a'] = rng.choice([0, 0, 1, 2, None])
            if rng.random() < 0.25:
                o['also'] = rng.choice([0, 1, 2])    # stale parameters of another question
            if rng.random() < 0.2:
                o['jump'] = rng.choice([-0.5, -3, -100000, 0.25, 40, 100000])
            if style == 'mixed' and rng.random() < 0.08:
                o['bad'] = rng.choice(['numAttempts', 'type', 'value'])
            ops.append(o)
    plan = dict(parts=parts, nt=nt, ops=ops, body=rng.random() < 0.2)
    plan['tick'] = rng.choice([0, 0, 0.001, 0.016, 1, 3600])
    plan['nojump'] = rng.random() < 0.5
    if rng.random() < 0.15:
        plan['norandom'] = True
    return plan


SHRINK = ['ops']


def execute(plan, env):
    boot.urandom.fail = False
    try:
        run(plan, env)
    finally:
        boot.urandom.fail = False


def durations(state, m):
    r = {}
    for i, x in enumerate(m.form):
        if x[:1] != '-':
            r[i] = state.namespace[i]['duration'].value
    return r


def snapshot(state):
    r = [state.key, state.cQuestion, state.t]
    for ns in state.namespace:
        if ns is not None:
            r.append(sorted([(k, repr(ns[k].value)) for k in ns]))
    return r




def run(plan, env):
    V = qtilib.variables
    sim = env.make_sim(max_time=10.0 ** 6)
    tick = plan.get('tick') or 0
    if tick:
        # a clock that stands still between ticks
        def clock():
            x = sim.wall_base + sim.now() + sim.wall_skew
            return x - x % tick
        sim.wall_fn = clock
        env.fault('coarse_clock')
    root = qtilib.load(plan['parts'], plan.get('body'))
    m = qtilib.Model(plan['parts'])
    if plan.get('norandom'):
        boot.urandom.fail = True
        env.fault('no_random_source')
    form = qtilib.tests.TestForm(root)
    state = V.TestSessionState(form)
    other = V.TestSessionState(form)
    if other.key == state.key:
        env.violation('two sessions share a key', repr(state.key))
    if plan.get('norandom'):
        boot.urandom.fail = False
    if list(form) != m.form:
        env.violation('form', repr(list(form)))
        return
    keys = [state.key]          # in the order published
    accepted = []               # (key, op, call, ret, wall at call, wall at return, durations after, next key)
    results = []
    single = plan['nt'] == 1
    Q = dict((n['id'], n) for n in qtilib.walk(plan['parts']) if 'kind' in n)
    qs = [m.form[i] for i in m.items]
    back = [False]

    def event(o, key, ps, begin=False):
        call, w0 = sim.seq(), sim.wall()
        before = snapshot(state) if single else None
        try:
            if begin:
                div = state.BeginSession(key)
            else:
                d = dict(ps)
                d['SAVE' if o['op'] == 'save' else 'SUBMIT'] = key
                div = state.HandleEvent(d)
            res = 'ok'
        except V.SessionKeyExpired:
            res = 'expired'
        except V.SessionKeyMismatch:
            res = 'mismatch'
        except qtilib.core.QTIError, e:
            if not o.get('bad'):
                raise
            res = 'bad'
        ret, w1 = sim.seq(), sim.wall()
        results.append((key, call, ret, res))
        sim.log('event', o and (o['op'], o['key']), res)
        env.mark(res)
        if single and res in ('expired', 'mismatch') and snapshot(state) != before:
            env.violation('a refused event changed the session', '%r: %r -> %r' % (o, before, snapshot(state)))
        if res in ('ok', 'bad'):
            # nobody else can have an accepted event before this one's key is published
            nk = state.key
            if res == 'ok':
                shown = set([b.value for b in div.FindChildrenDepthFirst(qtilib.variables.html.Button)])
                if shown != set([nk]):
                    env.violation('page without the key of the session', '%r, key %r' % (shown, nk))
            if nk in keys:
                env.violation('key used again', '%r: %r' % (o, nk))
            accepted.append((key, o, call, ret, w0, w1, durations(state, m), nk, ps, res))
            keys.append(nk)
            if state.prevKey != key:
                env.violation('chain of keys', '%r is not %r' % (state.prevKey, key))
        return res

    def answer(o, x):
        kind = Q[x]['kind']
        vals = KINDS[kind][2]
        return vals[o['a'] % len(vals)]

    def do(t, o):
        if o.get('w'):
            sim.sleep(o['w'])
        if o.get('jump') and not plan.get('nojump'):
            sim.wall_skew += o['jump']
            back[0] = back[0] or o['jump'] < 0
            env.fault('clock_jump_' + ('back' if o['jump'] < 0 else 'forward'))
        k = o['key']
        if k == 'now':
            key = keys[-1]
        elif k == 'old':
            key = keys[max(0, len(keys) - 2 - o['k'])]
        elif k in ('first', 'begin'):
            key = keys[0]
        elif k == 'forged':
            key = keys[-1][:-1] + ('0' if keys[-1][-1] != '0' else '1')
        elif k == 'case':
            key = keys[-1].upper()
        elif k == 'other':
            key = other.key
        else:
            key = ''
        ps, told = {}, {}
        cur = accepted[-1][3] if accepted else 0
        # what the page shows is the question of the latest published state
        x = page[0]
        if o.get('a') is not None and x:
            ps.update(qtilib.params(x, Q[x]['kind'], answer(o, x)))
            told[x] = answer(o, x)
        if o.get('also') is not None and qs:
            y = qs[o['also'] % len(qs)]
            if y != x:
                ps.update(qtilib.params(y, Q[y]['kind'], answer(dict(a=o['also']), y)))
                told[y] = answer(dict(a=o['also']), y)
        if o.get('bad') and x:
            if o['bad'] == 'numAttempts':
                ps['%s.numAttempts' % x] = '3'
            elif o['bad'] == 'value' and KINDS[Q[x]['kind']][1] != 'string':
                ps = {'%s.RESPONSE%s' % (x, '.1' if KINDS[Q[x]['kind']][0] == 'ordered' else ''): '1 2'}
            else:
                ps = {'%s.RESPONSE' % x: ['A']} if KINDS[Q[x]['kind']][0] == 'single' else {'%s.other' % x: '1'}
            told = {}
        o = dict(o)
        o['told'] = told
        r = event(o, key, ps, begin=(k == 'begin' and key != keys[-1]))
        if r == 'ok':
            page[0] = m.form[state.cQuestion] if state.cQuestion else None

    page = [None]

    def main():
        r = event(None, state.key, {}, begin=True)
        page[0] = m.form[state.cQuestion] if state.cQuestion else None
        if r != 'ok':
            env.violation('first key refused', r)
            return
        for t in range(plan['nt']):
            sim.spawn(lambda t=t: thread(t), 't%d' % t)

    def thread(t):
        for o in plan['ops']:
            if o['t'] == t:
                do(t, o)
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    # every key at most once, in a chain
    used = {}
    for i, a in enumerate(accepted):
        if a[0] in used:
            env.violation('key accepted twice', '%r: %r and %r' % (a[0], used[a[0]], a[1]))
        used[a[0]] = a[1]
        if a[0] != keys[i]:
            env.violation('key accepted that was not current', '%r' % (a[1],))
    if len(used) != len(accepted) or env.viol:
        return
    when = dict((a[0], a) for a in accepted)
    for key, call, ret, res in results:
        if res == 'expired' and (key not in when or when[key][2] > ret):
            env.violation('current or unknown key called expired', '%r' % key)
        if res == 'mismatch' and key in keys and (key != keys[-1] or len(accepted) < len(keys)):
            env.violation('a key of this session called a mismatch', '%r' % key)
        if res in ('ok', 'bad') and key not in keys:
            env.violation('a key not of this session accepted', '%r' % key)
    # answers and time, by the model
    last = None
    for n, (key, o, call, ret, w0, w1, dur, nk, ps, res) in enumerate(accepted):
        q0 = m.q
        if o is None:
            m.next()
        elif res == 'bad':
            env.probe('bad_parameters')
        elif o['op'] == 'save':
            m.save(o['told'])
        else:
            m.submit(o['told'])
        if last is not None:
            lo, hi = w0 - last[5], w1 - last[4]
            for i, x in enumerate(m.form):
                if x[:1] == '-':
                    continue
                a, b = last[6][i] or 0.0, dur[i] or 0.0
                if i in m.items and (last[6][i] is None or q0 is None or i == m.q and m.q != q0 or i != q0):
                    if i != m.q and a != b:
                        env.violation('time given to a question that was not shown', '%s: %r to %r' % (x, a, b))
                    continue
                if b < a:
                    env.violation('duration decreased', '%s: %r to %r at event %d' % (x, a, b, n))
                counted = q0 and (i == 0 or i == q0 or x in m.open_at(q0) and m.form.index(x) == i)
                if not counted and a != b:
                    env.violation('time added outside', '%s: %r to %r at event %d %r' % (x, a, b, n, o))
                if counted and not back[0] and not (lo - 1e-6 <= b - a <= hi + 1e-6):
                    env.violation('time not accounted', '%s: %r added, %r to %r passed, event %d %r' % (x, b - a, lo, hi, n, o))
        if not same(sum([dur[i] or 0.0 for i in m.items]), dur[0] or 0.0):
            env.violation('durations do not add up', '%r at event %d' % (dur, n))
        last = (key, o, call, ret, w0, w1, dur)
    if any(a[9] == 'bad' for a in accepted):
        env.stat('ops', len(plan['ops']))
        return
    if state.cQuestion != m.q:
        env.violation('current question', '%r, should be %r' % (state.cQuestion, m.q))
        return
    check_answers(env, state, m)
    env.stat('ops', len(plan['ops']))


def same(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_answers(env, state, m):
    for i in m.items:
        x = m.form[i]
        ns = state.namespace[i]
        got = ns['RESPONSE'].value
        if got != m.resp.get(x):
            env.violation('submitted answer', '%s %s: %r, should be %r' % (x, m.node[x]['kind'], got, m.resp.get(x)))
        s = ns['RESPONSE.SAVED'].value if 'RESPONSE.SAVED' in ns else None
        if s != m.saved.get(x):
            env.violation('saved answer', '%s %s: %r, should be %r' % (x, m.node[x]['kind'], s, m.saved.get(x)))
        if ns['SCORE'].value != m.score.get(x):
            env.violation('score', '%s %s: %r, should be %r' % (x, m.node[x]['kind'], ns['SCORE'].value, m.score.get(x)))
        if ns['numAttempts'].value != m.attempts.get(x):
            env.violation('numAttempts', '%s: %r, should be %r' % (x, ns['numAttempts'].value, m.attempts.get(x)))
