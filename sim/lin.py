"""Linearizability: is there an order of the operations, compatible with real time, that a sequential model accepts?"""


class Op(object):
    __slots__ = ('who', 'call', 'ret', 'op', 'res', 'tag')

    def __init__(self, who, call, ret, op, res, tag=None):
        self.who, self.call, self.ret, self.op, self.res, self.tag = who, call, ret, op, res, tag

    def __repr__(self):
        return '[%s..%s] %s: %s -> %s' % (self.call, self.ret, self.who, self.op, self.res)


class Budget(Exception):
    pass


def check(ops, init, apply, final=None, budget=200000):
    """apply(state, op, res) -> iterable of next states (states hashable); final(state) -> bool.
    True if linearizable. An operation with ret None may take effect at any later time or never."""
    n = len(ops)
    ops = sorted(ops, key=lambda o: o.call)
    full = 0
    for i, o in enumerate(ops):
        if o.ret is not None:
            full |= 1 << i
    seen = set()
    stack = [(0, init)]
    count = 0
    while stack:
        mask, state = stack.pop()
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        count += 1
        if count > budget:
            raise Budget()
        if mask & full == full and (final is None or final(state)):
            return True
        # the earliest return among those not yet done bounds what may come next
        bound = None
        for i in range(n):
            if not mask >> i & 1 and ops[i].ret is not None and (bound is None or ops[i].ret < bound):
                bound = ops[i].ret
        for i in range(n - 1, -1, -1):
            if mask >> i & 1:
                continue
            o = ops[i]
            if bound is not None and o.call > bound:
                continue
            for s in apply(state, o):
                stack.append((mask | 1 << i, s))
    return False


def text(ops):
    return '; '.join(repr(o) for o in sorted(ops, key=lambda o: o.call))
