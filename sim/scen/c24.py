"""C24: test forms obey the selection and ordering rules for every random outcome."""
import itertools
import boot
import httputil as hu
import qtilib

LIMIT = 4000


def setup():
    qtilib.setup()


def generate(rng, tier):
    if rng.random() < 0.12:
        return reach_plan(rng)
    n = [0]
    p_nest, p_inv, p_fix, p_shuf = rng.choice([0.1, 0.3, 0.5]), rng.choice([0.2, 0.7]), rng.choice([0, 0.2, 0.5]), rng.choice([0.3, 0.8])
    odd = rng.random() < 0.1

    def section(depth):
        s = dict(id='S%d' % n[0], ch=[])
        n[0] += 1
        for i in range(rng.choice([1, 2, 3, 4] if not odd else [0, 1, 2, 3])):
            if depth < 3 and n[0] < 16 and rng.random() < p_nest:
                c = section(depth + 1)
            else:
                c = dict(id='Q%d' % n[0], kind='single')
                n[0] += 1
            if rng.random() < 0.15:
                c['required'] = True
            if rng.random() < p_fix:
                c['fixed'] = True
            s['ch'].append(c)
        if rng.random() < p_inv:
            s['vis'] = False
            if rng.random() < 0.7:
                s['keep'] = False
        k = len(s['ch'])
        if rng.random() < 0.5:
            s['repl'] = rng.random() < 0.35
            need = len([c for c in s['ch'] if c.get('required')])
            s['select'] = rng.randrange(0, k + 3) if odd else rng.randrange(need, k + (3 if s['repl'] and k else 1))
        if rng.random() < p_shuf:
            s['shuffle'] = rng.random() < 0.9
        return s
    parts = [dict(id='P%d' % p, ch=[section(0) for i in range(rng.choice([1, 1, 2]))]) for p in range(rng.choice([1, 1, 2]))]
    return dict(parts=parts, draws=[[rng.choice(['uniform', 'uniform', 'mix', 'low', 'high', 'alt']), rng.randrange(1 << 30)] for i in range(rng.choice([1, 3, 6]))],
                session=rng.random() < 0.2, sched=dict(mode='none', seed=1))


def reach_plan(rng):
    """A small section: every form that the rules allow must come out for some random outcome."""
    k = rng.choice([1, 2, 3, 3, 4])
    s = dict(id='S0', ch=[dict(id='Q%d' % (i + 1), kind='single') for i in range(k)])
    for c in s['ch']:
        if rng.random() < 0.25:
            c['required'] = True
        if rng.random() < 0.25:
            c['fixed'] = True
    if rng.random() < 0.7:
        s['repl'] = rng.random() < 0.35
        need = len([c for c in s['ch'] if c.get('required')])
        s['select'] = rng.randrange(need, min(k + (3 if s['repl'] else 1), 4 if s['repl'] else 99)) if need < 4 else 4
    if rng.random() < 0.7:
        s['shuffle'] = True
    return dict(parts=[dict(id='P0', ch=[s])], reach=rng.randrange(1 << 30), draws=[], session=False, sched=dict(mode='none', seed=1))


SHRINK = ['draws']


def simplify(plan):
    import json

    def paths(nodes, pre=()):
        for i, x in enumerate(nodes):
            yield pre + (i,)
            for y in paths(x.get('ch', []), pre + (i,)):
                yield y
    for p in paths(plan['parts']):
        for what in ('drop', 'required', 'fixed', 'select', 'shuffle', 'vis', 'keep', 'repl'):
            q = json.loads(json.dumps(plan))
            at = q['parts']
            for i in p[:-1]:
                at = at[i]['ch']
            x = at[p[-1]]
            if what == 'drop':
                if len(at) > 1 or len(p) > 2:
                    at.pop(p[-1])
                    yield q
            elif what in x:
                del x[what]
                yield q


class TooMany(Exception):
    pass


class Bad(Exception):
    pass


def choices(s):
    """Every selection of the children of a section: sorted tuples of child numbers; None when its rules cannot be met."""
    n = len(s['ch'])
    k = s.get('select')
    k = n if k is None else k
    repl = s.get('select') is not None and s.get('repl')
    req = [i for i, c in enumerate(s['ch']) if c.get('required')]
    if len(req) > k or (k > n and not (repl and n)):
        return None
    it = itertools.combinations_with_replacement(range(n), k) if repl else itertools.combinations(range(n), k)
    r = []
    for c in it:
        if all(i in c for i in req):
            r.append(c)
            if len(r) > LIMIT:
                raise TooMany
    return r


def dissolved(s, c):
    return bool(s.get('shuffle')) and not c.get('fixed') and 'ch' in c and c.get('vis', True) is False and c.get('keep') is False


def mixtures(s, some=False):
    """For a section mixed into its parent: the possible multisets (sorted tuples) of identifiers that it contributes.

    Raises Bad when some outcome is an error: rules that cannot be met or a fixed child that would be moved; with some=True those outcomes are left out."""
    ch = choices(s)
    if ch is None:
        if some:
            return set()
        raise Bad
    r = set()
    for sel in ch:
        if any(s['ch'][i].get('fixed') for i in sel):
            if some:
                continue
            raise Bad
        opts = [()]
        for i in sel:
            c = s['ch'][i]
            add = mixtures(c, some) if dissolved(s, c) else [(c['id'],)]
            opts = list(set([tuple(sorted(o + a)) for o in opts for a in add]))
            if len(opts) > LIMIT:
                raise TooMany
        r.update(opts)
        if len(r) > LIMIT:
            raise TooMany
    return r


def never_fails(s):
    """True when no random outcome can make the section or anything in it an error."""
    try:
        ch = choices(s)
        if ch is None:
            return False
        used = set(i for c in ch for i in c)
        for i in used:
            c = s['ch'][i]
            if 'ch' in c:
                if dissolved(s, c):
                    mixtures(c)
                    if not all_inside(c):
                        return False
                elif not never_fails(c):
                    return False
        return True
    except Bad:
        return False


def all_inside(d):
    """The kept sections inside a section that is mixed into its parent."""
    for c in d['ch']:
        if 'ch' in c:
            if dissolved(d, c):
                if not all_inside(c):
                    return False
            elif not never_fails(c):
                return False
    return True


def must_fail(s):
    ch = choices(s)
    if ch is None:
        return True
    for sel in ch:
        if not any('ch' in s['ch'][i] and not dissolved(s, s['ch'][i]) and must_fail(s['ch'][i]) for i in sel):
            return False
    return bool(ch)


def fits(s, content):
    """True when some selection and order allowed by the rules of the section gives this content (a list of identifiers)."""
    have = {}
    for x in content:
        have[x] = have.get(x, 0) + 1
    for sel in choices(s) or []:
        kids = [s['ch'][i] for i in sel]
        if not s.get('shuffle'):
            if [c['id'] for c in kids] == content:
                return True
            continue
        opts = [()]
        for c in kids:
            if c.get('fixed'):
                add = [(c['id'],)]
            else:
                add = mixtures(c, True) if dissolved(s, c) else [(c['id'],)]
            new = set()
            for o in opts:
                for a in add:
                    t = tuple(sorted(o + a))
                    if all(t.count(x) <= have.get(x, 0) for x in set(t)):
                        new.add(t)
            opts = list(new)
            if len(opts) > LIMIT:
                raise TooMany
        if tuple(sorted(content)) not in opts:
            continue
        # the places of the fixed children: slots are the floating children between them
        gaps, fixed = [0], []
        for c in kids:
            if c.get('fixed'):
                fixed.append(c['id'])
                gaps.append(0)
            else:
                gaps[-1] += 1
        if place(content, fixed, gaps):
            return True
    return False


def place(content, fixed, gaps):
    pos, found = 0, [0]
    j = 0
    for x in content:
        if j < len(fixed) and x == fixed[j]:
            j += 1
            found.append(0)
        else:
            found[-1] += 1
    if j < len(fixed):
        return False
    units, slots = len(content) - len(fixed), sum(gaps)
    for g, f in zip(gaps, found):
        if g == 0 and f:
            return False
        if units == slots and f != g:
            return False
        if units > slots and f < g:
            return False
        if units < slots and f > g:
            return False
    return True


def blocks(ids):
    """The nesting of a form: a list of (identifier, contents or None); None when the brackets do not match."""
    out, stack = [], []
    cur = out
    for x in ids:
        if x[:1] == '-':
            if not stack or stack[-1][0] != x[1:]:
                return None
            cur = stack.pop()[1]
        elif x[0] == 'Q':
            cur.append((x, None))
        else:
            inner = []
            cur.append((x, inner))
            stack.append((x, cur))
            cur = inner
    return None if stack else out


def execute(plan, env):
    T = qtilib.tests
    sim = env.make_sim(trace=False)
    root = qtilib.load(plan['parts'])
    nodes = dict((x['id'], x) for x in qtilib.walk(plan['parts']))
    tops = [s for p in plan['parts'] for s in p['ch']]
    try:
        safe = all([never_fails(s) for s in tops])
        doomed = any([must_fail(s) for s in tops])
    except TooMany:
        env.probe('too_many_forms')
        return

    def look(form, where):
        ids = list(form)
        if len(form) != len(ids) or [form[i] for i in range(len(ids))] != ids or ids[0] != '':
            env.violation('form is not a sequence', '%s %r' % (where, ids))
            return
        for x in set(ids):
            if form.find(x) != [i for i, y in enumerate(ids) if y == x] or form.index(x) != ids.index(x):
                env.violation('find', '%s %r: %r in %r' % (where, x, form.find(x), ids))
        if form.find('nothing') != []:
            env.violation('find', where)
        b = blocks(ids[1:])
        if b is None:
            env.violation('brackets', '%s %r' % (where, ids))
            return
        if [x for x, c in b] != [p['id'] for p in plan['parts']]:
            env.violation('parts', '%s %r' % (where, ids))
            return
        for (x, c), p in zip(b, plan['parts']):
            if [y for y, d in c] != [s['id'] for s in p['ch']]:
                env.violation('sections of a part', '%s %r' % (where, ids))
                return
            for y, d in c:
                inside(y, d, where, ids)

    def inside(x, content, where, ids):
        s = nodes[x]
        if not fits(s, [y for y, d in content]):
            env.violation('section content', '%s: %s has %r; form %r' % (where, x, [y for y, d in content], ids))
        for y, d in content:
            if d is not None:
                inside(y, d, where, ids)

    def reach(seed):
        s = tops[0]
        want = set()
        for sel in choices(s) or []:
            ids = [s['ch'][i]['id'] for i in sel]
            want.update(x for x in set(itertools.permutations(ids)) if fits(s, list(x)))
        got = set()
        with qtilib.Source('uniform', seed):
            for i in range(80 * len(want)):
                got.add(tuple(list(T.TestForm(root))[3:-2]))
        env.probe('reach')
        env.stat('forms_of_small_sections', len(want))
        env.mark(sorted(want))
        if got - want:
            env.violation('section content', '%r' % sorted(got - want)[0:1])
        elif want - got:
            env.violation('unreachable', '%d forms allowed, %d drawings gave %d of them; not %r' % (len(want), 80 * len(want), len(got), sorted(want - got)[0]))

    def main():
        if 'reach' in plan:
            reach(plan['reach'])
        for i, (mode, seed) in enumerate(plan['draws']):
            with qtilib.Source(mode, seed) as src:
                try:
                    form = T.TestForm(root)
                except qtilib.core.SelectionError, e:
                    if safe:
                        env.violation('no form', '%s: %s' % (mode, e))
                    env.probe('selection_error')
                    continue
                env.fault('random_' + mode)
                env.stat('draws', src.n)
            sim.log(list(form))
            env.mark(list(form))
            if doomed:
                env.violation('rules that cannot be met gave a form', '%s %r' % (mode, list(form)))
            try:
                look(form, '%s %d' % (mode, seed))
            except TooMany:
                env.probe('too_many_forms')
            env.probe('form')
            if plan['session'] and not env.viol:
                st = qtilib.variables.TestSessionState(form)
                for j, x in enumerate(form):
                    want = x == '' or x[0] != '-'
                    if (st.namespace[j] is not None) != want:
                        env.violation('session of the form', '%r %d' % (x, j))
    sim.spawn(main, 'main')
    sim.run()
    hu.verdict(env, sim)
