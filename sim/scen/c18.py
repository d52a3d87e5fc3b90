"""C18: LTI launches are authentic and bound to a consumer, and nonces are accepted once."""
import base64
import hashlib
import hmac
import re
import urllib
import boot
import dst
import httputil as hu

lti = None
LIFE = 5400.0
RECENT = 300
SECRETS = ['Secret', 'pa-ss~w.ord', '0', 'A1B2.C3D4']
ALTER = ['param', 'addparam', 'dropparam', 'method', 'path', 'host', 'sig', 'secret', 'key', 'unknown', 'nokey', 'nonce', 'ts', 'badts', 'version',
         'tosha', 'toplain', 'method?', 'badheader', 'empty', 'nosig', 'nonce0', 'swapsecret', 'query', 'case']
VALUES = ['1', 'Sim value', 'a=b&c', 'x+y', u'caf\xe9', '~', '429785226']


def setup():
    global lti
    boot.install()
    import pyslet.imsbltiv1p0 as m
    lti = m


def generate(rng, tier):
    nc = rng.choice([1, 2, 2, 3])
    nr = rng.choice([1, 1, 2, 3])
    reqs = []
    for i in range(nr):
        reqs.append(dict(c=rng.randrange(nc), n=rng.choice([0, 0, 1, 2, i]), m=rng.choice(['POST', 'GET']), via=rng.choice(['body', 'body', 'header', 'url']),
                         plain=rng.random() < 0.15, dt=rng.choice([0, 0, 0, 0, -100, -290, -310, 200, -6000]), v=[rng.randrange(len(VALUES)) for j in range(rng.choice([1, 2, 3]))]))
    nt = rng.choice([1, 2, 2, 3, 4])
    ops = []
    kinds = rng.choice([['send'], ['send', 'check'], ['check'], ['send', 'send', 'alter'], ['alter', 'send', 'check', 'new', 'gen'], ['new', 'gen']])
    waits = rng.choice([[0], [0, 0, 1], [0, 250, 301, 5395, 5401, 6000], [0, 0, 5401]])
    jumps = rng.choice([[], [], [], [-10, -400, -6000, 3, 5500, 100]])
    for t in range(nt):
        for i in range(rng.choice([1, 2, 3, 5])):
            op = dict(t=t, op=rng.choice(kinds), w=rng.choice(waits))
            if jumps and rng.random() < 0.4:
                op['jump'] = rng.choice(jumps)
            if op['op'] in ('send', 'alter'):
                op['r'] = rng.randrange(nr)
                op['again'] = rng.random() < 0.75
                if op['op'] == 'alter':
                    op['a'] = rng.choice(ALTER)
            elif op['op'] == 'check':
                op['c'] = rng.randrange(nc)
                op['n'] = rng.choice([0, 0, 1, 2])
            elif op['op'] == 'new':
                op['k'] = rng.choice([None, 'n1', 'n1', 'n2', 'c0'])
            else:
                op['bits'] = rng.choice([1, 8, 15, 16, 17, 20, 31, 32, 64, 100, 128, 130, 256])
            if op['op'] in ('new', 'gen') and rng.random() < 0.4:
                op['norandom'] = True
            ops.append(op)
    return dict(nc=nc, reqs=reqs, nt=nt, ops=ops, made=rng.choice(['new', 'load']), sec=[rng.randrange(len(SECRETS)) for i in range(nc)])


SHRINK = ['ops']


def q(x):
    if isinstance(x, unicode):
        x = x.encode('utf-8')
    return urllib.quote(x, safe='~')


def base_string(method, url, params):
    pairs = sorted((q(k), q(v)) for k, v in params.items() if k != 'oauth_signature')
    return '&'.join([q(method.upper()), q(url), q('&'.join(['%s=%s' % kv for kv in pairs]))])


def sign(method, url, params, secret):
    if params.get('oauth_signature_method') == 'PLAINTEXT':
        return q(secret) + '&'
    return base64.b64encode(hmac.new(q(secret) + '&', base_string(method, url, params), hashlib.sha1).digest())


def execute(plan, env):
    boot.urandom.fail = False
    try:
        run(plan, env)
    finally:
        boot.urandom.fail = False


def run(plan, env):
    sim = env.make_sim(max_time=10.0 ** 7)
    tp = lti.BLTIToolProvider()
    secrets = {}
    names = ['c%d' % i for i in range(plan['nc'])]
    if plan['made'] == 'new':
        for k in names:
            kk, s = tp.NewConsumer(k)
            secrets[k] = s
    else:
        import StringIO
        for i, k in enumerate(names):
            secrets[k] = SECRETS[plan['sec'][i]]
        tp.LoadFromFile(StringIO.StringIO(''.join(['%s %s\n' % kv for kv in sorted(secrets.items())])))
    signed = {}
    uses = []       # (consumer, nonce, call, ret, wall at call, wall at return, outcome)
    walls = [(sim.seq(), sim.wall())]
    jumped = [False]
    new = {}

    def note():
        walls.append((sim.seq(), sim.wall()))

    def make(r, again):
        """The request as its consumer signed it."""
        if again and r in signed:
            return signed[r]
        d = plan['reqs'][r]
        key = names[d['c']]
        url = 'http://tool.example.com/lti/%d' % r
        p = {'oauth_consumer_key': key, 'oauth_nonce': 'n%d' % d['n'], 'oauth_timestamp': str(int(sim.wall()) + d['dt']), 'oauth_version': '1.0',
             'oauth_signature_method': 'PLAINTEXT' if d['plain'] else 'HMAC-SHA1', 'lti_version': 'LTI-1p0', 'lti_message_type': 'basic-lti-launch-request'}
        for i, v in enumerate(d['v']):
            p['param%d' % i] = VALUES[v]
        q = dict(m=d['m'], url=url, p=p, key=key, ts=int(p['oauth_timestamp']), nonce=p['oauth_nonce'], via=d['via'], plain=d['plain'])
        p['oauth_signature'] = sign(q['m'], url, p, secrets[key])
        signed[r] = q
        return q

    def alter(s, a):
        """A changed copy; True when it must be refused whatever else holds, None when it may be either."""
        p = dict(s['p'])
        n = dict(s, p=p)
        bad = not s['plain']
        if a == 'param':
            p['param0'] = p['param0'] + '1'
        elif a == 'addparam':
            p['roles'] = 'Instructor'
        elif a == 'dropparam':
            del p['param0']
        elif a == 'method':
            n['m'] = 'PUT'
        elif a == 'path':
            n['url'] += 'x'
        elif a == 'host':
            n['url'] = n['url'].replace('tool', 'other')
        elif a == 'sig':
            x = p['oauth_signature']
            p['oauth_signature'] = ('B' if x[0] != 'B' else 'C') + x[1:]
            bad = True
        elif a == 'secret':
            p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[s['key']] + '1')
            bad = True
        elif a in ('key', 'swapsecret'):
            others = [k for k in names if k != s['key']]
            if not others:
                return None
            if a == 'key':
                p['oauth_consumer_key'] = n['key'] = others[0]
            else:
                p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[others[0]])
            bad = secrets[others[0]] != secrets[s['key']] or not s['plain'] and a == 'key'
        elif a == 'unknown':
            p['oauth_consumer_key'] = n['key'] = 'nobody'
            p['oauth_signature'] = sign(n['m'], n['url'], p, '')
            bad = True
        elif a == 'nokey':
            del p['oauth_consumer_key']
            n['key'] = None
            bad = True
        elif a == 'nonce':
            p['oauth_nonce'] = n['nonce'] = s['nonce'] + '7'
        elif a == 'nonce0':
            del p['oauth_nonce']
            n['nonce'] = None
            p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[s['key']])
            bad = True
        elif a == 'ts':
            p['oauth_timestamp'] = str(int(p['oauth_timestamp']) + 1)
            n['ts'] += 1
        elif a == 'badts':
            p['oauth_timestamp'] = 'noon'
            p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[s['key']])
            bad = True
        elif a == 'version':
            p['oauth_version'] = '2.0'
            p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[s['key']])
            bad = True
        elif a == 'tosha':
            p['oauth_signature_method'] = 'HMAC-SHA1'
            bad = bool(s['plain'])
        elif a == 'toplain':
            p['oauth_signature_method'] = 'PLAINTEXT'
            bad = not s['plain']
        elif a == 'method?':
            p['oauth_signature_method'] = 'RSA-SHA1'
            p['oauth_signature'] = sign(n['m'], n['url'], p, secrets[s['key']])
            bad = True
        elif a == 'nosig':
            del p['oauth_signature']
            bad = True
        elif a in ('badheader', 'empty'):
            n['raw'] = a
            bad = True
        elif a == 'query':
            n['extra'] = 'custom_x=1'
        elif a == 'case':
            p['oauth_signature'] = p['oauth_signature'].swapcase()
            bad = p['oauth_signature'] != s['p']['oauth_signature']
        return n, bad

    def enc(x):
        return urllib.quote(x.encode('utf-8') if isinstance(x, unicode) else x, safe='')

    def launch(n):
        url, headers, body = n['url'], {}, None
        if n.get('raw') == 'badheader':
            headers['Authorization'] = 'OAuth garbage'
        elif n.get('raw') != 'empty':
            oa = dict((k, v) for k, v in n['p'].items() if k.startswith('oauth_'))
            rest = dict((k, v) for k, v in n['p'].items() if not k.startswith('oauth_'))
            if n['via'] == 'header':
                headers['Authorization'] = 'OAuth realm="", ' + ', '.join(['%s="%s"' % (k, enc(v)) for k, v in sorted(oa.items())])
                pairs = rest
            else:
                pairs = n['p']
            text = '&'.join(['%s=%s' % (k, enc(v)) for k, v in sorted(pairs.items())])
            if n['via'] == 'url':
                url += '?' + text
            else:
                body = text
            if n.get('extra'):
                url += ('&' if '?' in url else '?') + n['extra']
        return tp.Launch(n['m'], url, headers, body)

    def do(t, o):
        if o.get('w'):
            sim.sleep(o['w'])
        if o.get('jump'):
            note()
            sim.wall_skew += o['jump']
            note()
            jumped[0] = jumped[0] or o['jump'] < 0
            env.fault('clock_jump_' + ('back' if o['jump'] < 0 else 'forward'))
        kind = o['op']
        call, w0 = sim.seq(), sim.wall()
        if kind == 'check':
            r = tp.consumers[names[o['c']]].CheckNonce('n%d' % o['n'])
            note()
            uses.append((names[o['c']], 'n%d' % o['n'], call, sim.seq(), w0, sim.wall(), 'seen' if r else 'fresh'))
            sim.log(t, uses[-1])
            env.stat('checks')
            return
        if kind == 'gen' or kind == 'new':
            if o.get('norandom'):
                boot.urandom.fail = True
                env.fault('no_random_source')
            try:
                if kind == 'gen':
                    x = tp.GenerateKey(o['bits'])
                    strong(x, o['bits'], o)
                    return
                try:
                    k, s = tp.NewConsumer(o['k'])
                except lti.BLTIDuplicateKeyError:
                    new.setdefault(o['k'], [])
                    if o['k'] is None:
                        env.violation('new consumer refused', '%r' % o)
                    env.probe('duplicate_refused')
                    return
                strong(s, 128, o)
                if o['k'] is None:
                    strong(k, 128, o)
                elif k != o['k']:
                    env.violation('new consumer key', '%r: %r' % (o, k))
                new.setdefault(k, []).append(s)
            finally:
                boot.urandom.fail = False
            return
        s = make(o['r'], o['again'])
        bad = False
        if kind == 'alter':
            x = alter(s, o['a'])
            if x is None:
                return
            n, bad = x
            env.fault('altered_' + o['a'])
        else:
            n = s
        out = None
        try:
            got = launch(n)
            out = 'fresh'
        except lti.BLTIAuthenticationError, e:
            out = 'refused'
        except lti.BLTIError, e:
            if n.get('raw') != 'empty':
                env.violation('refused with another error', '%r: %r' % (o, e))
            out = 'refused'
        note()
        w1 = sim.wall()
        uses.append((n['key'], n['nonce'], call, sim.seq(), w0, w1, out))
        sim.log(t, o['op'], uses[-1])
        env.mark(out)
        where = '%r at %.3f: %r' % (o, w0, n['p'])
        if out == 'fresh':
            env.probe('accepted')
            if bad:
                env.violation('forged launch accepted', where)
            if min(w0, w1) - n['ts'] >= RECENT + 1:
                env.violation('old launch accepted', where)
            if len(got) != 2 or got[0] is not tp.consumers.get(n['key']):
                env.violation('launch bound to the wrong consumer', where)
            else:
                want = dict((k, v) for k, v in n['p'].items() if not k.startswith('oauth_'))
                if n.get('extra'):
                    want['custom_x'] = '1'
                have = dict((u8(k), u8(v)) for k, v in got[1].items())
                if have != dict((u8(k), u8(v)) for k, v in want.items()):
                    env.violation('launch parameters', '%s: %r' % (where, got[1]))
        elif not bad and kind == 'send':
            live.append((n, o, call, sim.seq(), w0, w1))

    def u8(x):
        return x.encode('utf-8') if isinstance(x, unicode) else x

    def strong(x, bits, o):
        if not re.match(r'[0-9A-F]{4}(\.[0-9A-F]{4})*$', x):
            env.violation('generated key is not hexadecimal', '%r: %r' % (o, x))
        if len(x.replace('.', '')) * 4 < bits:
            env.violation('generated key is too short', '%r: %r' % (o, x))

    live = []

    def thread(t):
        for o in plan['ops']:
            if o['t'] == t:
                do(t, o)
    for t in range(plan['nt']):
        sim.spawn(lambda t=t: thread(t), 't%d' % t)
    sim.run()
    hu.verdict(env, sim)
    if env.viol:
        return
    # a nonce is fresh once in its lifetime: until the clock has passed 90 minutes after its use
    fresh = [u for u in uses if u[6] == 'fresh']
    for i, a in enumerate(fresh):
        for b in fresh[i + 1:]:
            if a[:2] != b[:2]:
                continue
            x, y = (a, b) if a[2] < b[2] else (b, a)
            # overlapping calls: either may have been the first
            top = max([w for s, w in walls if x[2] <= s <= max(x[3], y[3])] + [x[4], x[5], y[4], y[5]])
            low = min([w for s, w in walls if x[2] <= s <= x[3]] + [x[4], x[5]])
            if x[3] > y[2]:
                low = min([w for s, w in walls if y[2] <= s <= y[3]] + [low, y[4], y[5]])
            if top <= low + LIFE:
                env.violation('nonce accepted twice', '%r and %r' % (x, y))
    # an authentic launch with an unused nonce and a recent time is accepted
    for n, o, call, ret, w0, w1 in live:
        if any(u[0] == n['key'] and u[1] == n['nonce'] and u[2] < ret and u[2] != call for u in uses):
            continue
        if max(w0, w1) - n['ts'] < RECENT:
            env.violation('authentic launch refused', '%r: %r' % (o, n['p']))
    if not jumped[0]:
        for u in uses:
            if u[6] == 'seen' and not any(v[:2] == u[:2] and v is not u and (v[2] < u[3] and v[5] + LIFE >= u[4]) for v in uses):
                env.violation('unused nonce reported as used', '%r' % (u,))
    for k, ss in new.items():
        if k is not None and (len(ss) > 1 or k in secrets and ss):
            env.violation('two consumers with one key', '%r' % k)
        if k is not None and ss and (k not in tp.consumers or tp.consumers[k].secret != ss[-1]):
            env.violation('consumer not the one announced', '%r' % k)
    for k in names:
        if tp.consumers[k].secret != secrets[k]:
            env.violation('consumer not the one announced', '%r' % k)
    env.stat('ops', len(plan['ops']))
