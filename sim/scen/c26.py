"""C26: the path through a linear QTI test follows its pre-conditions and branch rules, and answers count."""
import boot
import httputil as hu
import qtilib
from qtilib import KINDS
import c23


def setup():
    qtilib.setup()


def generate(rng, tier):
    n = [0]
    kinds = rng.choice([['single'], ['single', 'multiple', 'ordered', 'integer'], sorted(KINDS)])

    def section(depth):
        s = dict(id='S%d' % n[0], ch=[])
        n[0] += 1
        for i in range(rng.choice([0, 1, 2, 2, 3])):
            if depth < 2 and rng.random() < 0.35:
                s['ch'].append(section(depth + 1))
            else:
                s['ch'].append(dict(id='Q%d' % n[0], kind=rng.choice(kinds)))
                n[0] += 1
        return s
    parts = [dict(id='P%d' % p, ch=[section(0) for i in range(rng.choice([1, 1, 2, 3]))]) for p in range(rng.choice([1, 1, 2, 3]))]
    form = qtilib.flat(parts)
    nodes = dict((x['id'], x) for x in qtilib.walk(parts))
    part = {}
    top = set()
    for p in parts:
        for x in qtilib.walk([p]):
            part[x['id']] = p['id']
        top.update(x['id'] for x in p['ch'])
    items = [x for x in form if x[0] == 'Q']

    def cond(depth=0):
        r = rng.random()
        if r < 0.15 or not items:
            return ['const', rng.random() < 0.5]
        if r < 0.2:
            return ['null']
        if r < 0.35 and depth < 2:
            return ['not', cond(depth + 1)]
        single = [x for x in items if nodes[x]['kind'] == 'single']
        if r < 0.6 or not single:
            return ['score', rng.choice(items), rng.choice([-1, 0, 1, 1])]
        return ['resp', rng.choice(single), rng.choice('ABC')]
    p_pre, p_br = rng.choice([(0.3, 0), (0, 0.4), (0.2, 0.3), (0.05, 0.6)])
    for x in form:
        if x[0] == '-':
            continue
        nd = nodes[x]
        if rng.random() < p_pre:
            nd['pre'] = [cond() for i in range(rng.choice([1, 1, 2]))]
        if rng.random() < p_br:
            end = form.index('-' + x) if 'ch' in nd else form.index(x)
            if x[0] == 'P':
                t = [y for y in form[end + 1:] if y[0] == 'P'] + ['EXIT_TEST']
            else:
                t = [y for y in form[end + 1:] if y[0] in 'SQ' and part[y] == part[x]] * 2 + ['EXIT_TEST', 'EXIT_TESTPART', 'EXIT_TESTPART']
                if x not in top:
                    t += ['EXIT_SECTION'] * 3
            nd['branch'] = [[rng.choice(t), cond()] for i in range(rng.choice([1, 1, 2]))]
    ops = []
    for i in range(rng.choice([2, 5, 12])):
        ops.append(dict(op=rng.choice(['submit', 'submit', 'save']), a=rng.choice([0, 0, 1, 2, None]), w=rng.choice([0, 0.5, 3]), old=rng.random() < 0.1))
    return dict(parts=parts, ops=ops, body=rng.random() < 0.1, sched=dict(mode='none', seed=1))


SHRINK = ['ops']


def simplify(plan):
    """Smaller tests: without one part, section, item or rule."""
    import json

    def paths(nodes, pre=()):
        for i, x in enumerate(nodes):
            yield pre + (i,)
            for y in paths(x.get('ch', []), pre + (i,)):
                yield y
    for p in paths(plan['parts']):
        q = json.loads(json.dumps(plan))
        at = q['parts']
        for i in p[:-1]:
            at = at[i]['ch']
        x = at[p[-1]]
        for k in ('pre', 'branch'):
            if x.get(k):
                q2 = json.loads(json.dumps(q))
                a2 = q2['parts']
                for i in p[:-1]:
                    a2 = a2[i]['ch']
                a2[p[-1]][k].pop()
                yield q2
        gone = set(y['id'] for y in qtilib.walk([x]))
        if len(at) > 1 or len(p) > 2:
            at.pop(p[-1])
            text = json.dumps(q['parts'])
            if not any('"%s"' % g in text for g in gone):
                yield q


def execute(plan, env):
    V = qtilib.variables
    sim = env.make_sim(max_time=10.0 ** 6, trace=False)
    root = qtilib.load(plan['parts'], plan.get('body'))
    m = qtilib.Model(plan['parts'])
    form = qtilib.tests.TestForm(root)
    if list(form) != m.form:
        env.violation('form', repr(list(form)))
        return
    state = V.TestSessionState(form)

    def check(where):
        if state.cQuestion != m.q:
            env.violation('current question', '%s: %r, should be %r' % (where, m.form[state.cQuestion] if state.cQuestion else None, m.form[m.q] if m.q else None))
            return False
        q = state.GetCurrentQuestion()
        if (q and q.identifier) != (m.q and m.form[m.q]):
            env.violation('GetCurrentQuestion', '%s: %r' % (where, q))
        p = state.GetCurrentTestPart()
        if (p and p.identifier) != (m.q and m.part[m.form[m.q]]):
            env.violation('GetCurrentTestPart', '%s: %r' % (where, p))
        c23.check_answers(env, state, m)
        return not env.viol

    def main():
        state.BeginSession(state.key)
        m.next()
        if not check('begin'):
            return
        for i, o in enumerate(plan['ops']):
            sim.sleep(o['w'])
            x = m.q and m.form[m.q]
            ps, told = {}, {}
            if x and o['a'] is not None:
                k = m.node[x]['kind']
                told[x] = KINDS[k][2][o['a'] % len(KINDS[k][2])]
                ps = qtilib.params(x, k, told[x])
            ps[o['op'].upper()] = state.prevKey if o['old'] else state.key
            try:
                state.HandleEvent(ps)
            except V.SessionKeyExpired:
                if not o['old']:
                    raise
                told = None
            if told is None:
                pass
            elif o['op'] == 'save':
                m.save(told)
            else:
                m.submit(told)
            if not check('event %d %r' % (i, o)):
                return
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
    env.mark(m.seen, m.q)
    env.stat('questions', len(m.seen))
    env.stat('nontrivial')
    if m.q is None:
        env.probe('finished')
