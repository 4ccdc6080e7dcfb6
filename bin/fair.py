"""C26: peers and processes that always have more, next to others; what the real server polls is judged by spec/TraceFair.tla."""
import json, subprocess
import lib
from lib import SEED, ToolError, log, pick
from scenarios import CONNECT, ECDH, KEX, LINE, NEWKEYS, RUN, S, SERVICE, auth_none, login, msg, out, send, shell


def at(c, *ops): return [dict(o, c=c) if 'p' not in o else o for o in ops]
def repeat(n, o): return dict(op='repeat', n=n, do=o)
def later(t, i, n, o): return dict(op='later', t=t, id=i, n=n, do=o)
def req(c, **k): return send('req', c, ty='nothing', reply=True, ch=0, data='', **k)


N = 7000                # packets: far more polls than Quantum of any kind
BYTES = 3_200_000       # of output

BIG = dict(win='4000000000')
# What makes a connection (c) or its process (p) busy: preparation, then the burst, and what is polled meanwhile
BUSY = {
    'line': lambda c, p: (at(c, CONNECT), at(c, dict(op='junk', n=30000, len=10**9)), 'r'),
    'lines': lambda c, p: (at(c, CONNECT), at(c, dict(op='junk', n=30000, len=20)), 'r'),
    'empty lines': lambda c, p: (at(c, CONNECT), at(c, dict(op='junk', n=30000, len=0)), 'r'),
    'ignore before login': lambda c, p: (at(c, dict(op='svc')), at(c, dict(op='flood', n=N)), 'r'),
    'login': lambda c, p: (at(c, dict(op='svc')), [repeat(N, auth_none('nobody', c))], 'r'),
    'key': lambda c, p: (at(c, dict(op='svc')), [repeat(N, send('pk', c, user='no', service='ssh-connection', alg='a', key='b'))], 'r'),
    'ignore': lambda c, p: ([login(c)], at(c, dict(op='flood', n=N)), 'r'),
    'open': lambda c, p: ([login(c)], [repeat(N, send('open', c, win='1', max='1'))], 'r'),
    'open other': lambda c, p: ([login(c)], [repeat(N, send('open', c, win='1', max='1', ty='other'))], 'r'),
    'request': lambda c, p: ([login(c), shell(c)], [repeat(N, req(c))], 'r'),
    'adjust': lambda c, p: ([login(c), shell(c)], [repeat(N, send('adjust', c, ch=0, n='1'))], 'r'),
    'data': lambda c, p: ([login(c), shell(c)], [repeat(N, send('data', c, ch=0, n=20))], 'r'),
    'data to none': lambda c, p: ([login(c), send('open', c, win='1', max='1'), RUN], [repeat(N, send('data', c, ch=0, n=20))], 'r'),
    'eof': lambda c, p: ([login(c), shell(c)], [repeat(N, send('eof', c, ch=0))], 'r'),
    'late login': lambda c, p: ([login(c)], [repeat(N, auth_none('u', c))], 'r'),
    'stdout': lambda c, p: ([login(c), shell(c, **BIG)], [out(p, 1, BYTES)], 'o'),
    'stderr': lambda c, p: ([login(c), shell(c, **BIG)], [out(p, 2, BYTES)], 'o2'),
    'both': lambda c, p: ([login(c), shell(c, **BIG)], [out(p, 1, BYTES), out(p, 2, BYTES)], 'o'),
    # nobody wants it: there is no window, and no channel any more
    'closed': lambda c, p: ([login(c), shell(c, win='0'), send('close', c, ch=0), RUN], [out(p, 1, BYTES)], 'o'),
    'closed stderr': lambda c, p: ([login(c), shell(c, win='0'), send('close', c, ch=0), RUN], [out(p, 2, BYTES)], 'o2'),
}

# Held up: whatever these wait for does not come
STALLED = {
    'no window': lambda c, p: ([login(c), shell(c, win='10'), dict(op='stalled', p=p)], [out(p, 1, 3000), out(p, 2, 3000)], ''),
    'does not read': lambda c, p: ([login(c), shell(c, **BIG), dict(op='stalled', p=p)], [dict(op='stalled', c=c), dict(op='cap', c=c, n=0), out(p, 1, 3000), req(c), out(p, 2, 3000)], ''),
    'reads a little': lambda c, p: ([login(c), shell(c, **BIG), dict(op='stalled', p=p)], [dict(op='stalled', c=c), dict(op='cap', c=c, n=10), out(p, 1, 3000), req(c), out(p, 2, 3000)], ''),
    'no input': lambda c, p: ([login(c), shell(c), dict(op='stdin', p=p, m='cap', n=0), dict(op='stalled', c=c)], [send('data', c, ch=0, n=30), req(c)], ''),
    'no key': lambda c, p: (at(c, CONNECT, LINE, KEX), [], ''),
    'half a packet': lambda c, p: ([login(c)], [req(c, num='0', cutoff=5)], ''),
}
BUSY.update(STALLED)


def source(kind, c, p):
    return ('r', c) if kind == 'r' else ('o', 2 * p - (kind == 'o'))


# Somebody else (connection c, process p): preparation, then what has to be served
OTHER = {
    'connect': lambda c, p: ([], at(c, CONNECT, LINE)),
    'line': lambda c, p: (at(c, CONNECT), at(c, LINE)),
    'kexinit': lambda c, p: (at(c, CONNECT, LINE), at(c, KEX)),
    'ecdh': lambda c, p: (at(c, CONNECT, LINE, KEX), at(c, dict(ECDH, ask=True))),
    'service': lambda c, p: (at(c, dict(op='hs')), at(c, dict(SERVICE, ask=True))),
    'auth': lambda c, p: (at(c, dict(op='svc')), [dict(auth_none('v', c), ask=True)]),
    'open': lambda c, p: ([login(c)], [send('open', c, win='9', max='9', ask=True)]),
    'exec': lambda c, p: ([login(c), send('open', c, win='9', max='9')], [send('exec', c, ch=0, cmd='x', reply=True, ask=True)]),
    'request': lambda c, p: ([login(c), send('open', c, win='9', max='9')], [req(c, ask=True)]),
    'data': lambda c, p: ([login(c), shell(c)], [send('data', c, ch=0, n=50)]),
    'out': lambda c, p: ([login(c), shell(c)], [out(p, 1, 5000)]),
    'err': lambda c, p: ([login(c), shell(c)], [out(p, 2, 5000)]),
    'exit': lambda c, p: ([login(c), shell(c), dict(op='oeof', p=p, s=1), dict(op='oeof', p=p, s=2)], [dict(op='exit', p=p, st=3)]),
    'hangup': lambda c, p: ([login(c)], at(c, dict(op='hangup'))),
}
PROCESS = {'out', 'err', 'exit', 'data'}
NEEDS = {'no window': 1, 'does not read': 1, 'reads a little': 1, 'no input': 1, 'request': 1, 'adjust': 1, 'data': 1, 'eof': 1, 'stdout': 1, 'stderr': 1, 'both': 1, 'closed': 1, 'closed stderr': 1}


def script(busy, others, when, first):
    """busy: kinds; others: kinds; when: None (all at once) or after how many results of the first busy one;
    first: whether the busy ones were there before the others."""
    c, p = 1, 1
    prep, burst, act, src = [], [], [], None

    def add_busy():
        nonlocal c, p, src
        for k in busy:
            a, b, t = BUSY[k](c, p)
            prep.extend(a)
            burst.extend(b)
            src = src or (t and source(t, c, p))
            c += 1
            p += NEEDS.get(k, 0)

    def add_others():
        nonlocal c, p
        for k in sorted(others, key=lambda k: k == 'connect'):
            a, b = OTHER[k](c, p)
            prep.extend(a)
            act.append(b)
            c += 1
            p += k in PROCESS
    if first:
        add_busy(), add_others()
    else:
        # the connection that comes last must have the highest number
        add_others(), add_busy()
    ops = prep + [RUN]
    acts = [o for b in act for o in b]
    if when is None:
        ops += (burst + acts if first else acts + burst)
    else:
        ops += burst + [later(*src, when + i, o) for i, o in enumerate(acts)]
    return S(f'{"+".join(busy)} | {"+".join(others)} | {when} {first}', *ops, RUN)


def own(busy, wmode, stalled=0):
    """Channels and processes of the same connection, with a peer that reads slowly."""
    r = [login(1), dict(op='wmode', c=1, n=wmode, **{'yield': True}), *[shell(1, **BIG)] * 4, dict(op='oeof', p=4, s=1), dict(op='oeof', p=4, s=2), RUN]
    if stalled:
        r += [shell(1, win='10'), dict(op='stalled', p=5), out(5, stalled, 3000), RUN]
    r += [out(i, s, BYTES // len(busy)) for i, s in busy]
    r += [later('o', 2 * busy[0][0] + busy[0][1] - 2, 300, out(i, s, 4000)) for i in (1, 2, 3) for s in (1, 2) if (i, s) not in busy]
    r += [later('o', 2 * busy[0][0] + busy[0][1] - 2, 500, o) for o in (req(1, ask=True), send('open', 1, win='5', max='5', ask=True), dict(op='exit', p=4, st=0))]
    return S(f'own {busy} {wmode}', *r, RUN)


def scripts():
    r = []
    kinds, others = [k for k in BUSY if k not in STALLED], list(OTHER)
    for i, k in enumerate(kinds):
        for j, (when, first) in enumerate([(None, True), (None, False), (50, True), (3000, True), (1000, False)]):
            o = [x for n, x in enumerate(others) if first or x != 'connect']
            if j >= 2 and not lib.THOROUGH:
                o = [x for n, x in enumerate(o) if (n + i + j) % 2 or x in ('ecdh', 'out')]
            r.append(script([k], o, when, first))
    # two kinds at a time
    for i, k in enumerate(kinds):
        for d in pick((1, 7), range(1, len(kinds))):
            r.append(script([k, kinds[(i + d) % len(kinds)]], ['connect', 'auth', 'exec', 'out', 'exit', 'data'], (None, 400)[i % 2], True))
    # next to others that are held up
    for i, k in enumerate(STALLED):
        for j in range(pick(3, len(kinds))):
            r.append(script([kinds[(i * 3 + j * 7) % len(kinds)], k], ['connect', 'ecdh', 'auth', 'exec', 'out', 'exit', 'data'], (None, 400)[(i + j) % 2], True))
    # many others
    for k in ('line', 'ignore', 'request', 'stdout'):
        r.append(script([k], ['ecdh', 'out', 'line', 'auth'] * pick(4, 8), 100, True))
    pairs = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2)]
    for w in (0, 100):
        for a in pairs:
            r.append(own([a], w))
            r.append(own([a], w, 1 + (a[0] + a[1]) % 2))
            r += [own([a, b], w) for b in pairs if b > a and (lib.THOROUGH or a[0] != b[0])]
        r.append(own(pairs, w))
    return r


def run(ck):
    binary, tables = ck.harness('sim'), ck.tables()
    ss = scripts()
    sf, o, tf = ck.path('scripts.jsonl'), ck.path('out.jsonl'), ck.path('traces.jsonl')
    with open(sf, 'w') as f:
        for s in ss:
            f.write(json.dumps(s) + '\n')
    r = subprocess.run([binary, 'fair', tables, sf, o, str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=pick(600, 6000))
    if r.returncode:
        raise ToolError(f'harness failed ({r.returncode}): {r.stdout[-2000:]}')
    lines = [json.loads(l) for l in open(o)]
    log(len(lines), 'of', len(ss), 'scripts were run')
    if len(lines) != len(ss) and not any('side' not in x for x in lines):
        raise ToolError('traces are missing')
    none = {'ev': [{'e': 'died', 's': 'hang', 'k': 0, 'n': 0}], 'short': 0, 'longest': 0, 'polls': 0, 'bytes': 0}
    sides = [x.get('side', none) for x in lines]
    with open(tf, 'w') as f:
        for x in sides:
            f.write(json.dumps({'trace': x['ev']}) + '\n')
    bad = lib.validate(ck, 'validate', 'TraceFair.tla', 'TraceFair.cfg', tf, len(sides), ['C26'], timeout=pick(700, 6000))
    log('traces validated')
    by_name = {s['name']: s for s in ss}
    kinds = {}
    for t, (x, y) in enumerate(zip(lines, sides), 1):
        for e in y['ev']:
            k = e['e'] + ' ' + e['s'][:1]
            kinds[k] = kinds.get(k, 0) + 1
        if t in bad and len(ck.violations) < 5:
            l, labels, why = bad[t]
            ck.violation({'property': ck.pid, 'script': by_name.get(x['name']), 'seed': SEED, 'event': l, 'reasons': why, 'trace': y['ev'][max(0, l - 40):l]},
                         f'trace {t} ({x["name"]}) event {l}: {"; ".join(why[:3])} {json.dumps(y["ev"][l - 1]) if l else ""}')
    ck.traces += len(sides) - len(bad)
    polls = [x['polls'] for x in sides]
    ck.extra.update(event_kinds=kinds, short_waits=sum(x['short'] for x in sides), longest_wait_in_polls=max(x['longest'] for x in sides), scripts=len(ss),
                    operations_not_applicable=sum(x['skipped'] for x in lines), polls_per_trace={'least': min(polls), 'most': max(polls)})
    # a trace in which nobody was busy for longer than a turn may take decides nothing
    idle = [x['name'] for x, n in zip(lines, polls) if n < 12000]
    if idle and not bad:
        ck.notes.append(f'not busy enough: {len(idle)} scripts, e.g. {idle[:3]}')
        if len(idle) > len(ss) // 3:
            raise ToolError(ck.notes[-1])
    for s in ss[:2]:
        ck.sample({'name': s['name'], 'ops': s['ops'][:20]})
    ck.sample({'trace': sides[0]['ev'][:20]})
    ck.assumptions = ['the executor polls whenever a waker was called and only then', 'handlers return soon when they are polled']
    ck.models([('Fair.tla', pick('Fair.cfg', 'FairBig.cfg')), ('Lock.tla', pick('Lock.cfg', 'LockBig.cfg'))])
    ck.sensitive([('Fair.tla', f, None) for f in ('FairGreedy.cfg', 'FairLost.cfg', 'FairLifo.cfg')]
                 + [('Fair.tla', 'Fair.cfg', 'NeverFull'), ('Lock.tla', 'LockAll.cfg', None)])
