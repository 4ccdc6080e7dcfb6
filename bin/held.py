"""C27: what the server holds depends on what is open, not on what happened before."""
import json, subprocess
import lib
from lib import SEED, ToolError, log, pick
from scenarios import CONNECT, ECDH, KEX, LINE, NEWKEYS, RUN, S, SERVICE, auth_none, auth_pw, login, msg, out, pk, send, shell


def at(c, *ops): return [dict(o, c=c) if 'p' not in o and o['op'] != 'run' else o for o in ops]
def hangup(c): return dict(op='hangup', c=c)
def ends(p, st=0): return [dict(op='oeof', p=p, s=1), dict(op='oeof', p=p, s=2), dict(op='exit', p=p, st=st)]
def mark(n): return dict(op='mark', name=n)
def req(c, ch, **k): return send('req', c, ty='nothing', reply=True, ch=ch, data='', **k)


STAGES = [CONNECT, LINE, KEX, ECDH, NEWKEYS, SERVICE, auth_none('nobody'), auth_none('u')]

# Connections that come and go: (operations, connections, processes) given the next numbers
CONN = {}
for _i in range(1, len(STAGES) + 1):
    CONN[f'hang up at stage {_i}'] = lambda c, p, i=_i: ([o for s in STAGES[:i] for o in at(c, s) + [RUN]] + [hangup(c), RUN], 1, 0)
    CONN[f'error at stage {_i}'] = lambda c, p, i=_i: ([o for s in STAGES[:i] for o in at(c, s) + [RUN]] + [dict(op='rerr', c=c), RUN], 1, 0)
for _n, _b in (('empty', []), ('unknown', [200, 1]), ('malformed', [94, 0])):
    CONN[f'{_n} packet'] = lambda c, p, b=_b: ([login(c), send('raw', c, b=b), RUN], 1, 0)
    CONN[f'{_n} packet before login'] = lambda c, p, b=_b: ([*at(c, dict(op='svc')), RUN, send('raw', c, b=b), RUN], 1, 0)
CONN.update({
    'bad kex': lambda c, p: (at(c, CONNECT, LINE, send('kexinit', f={'kex': 'x'}), RUN), 1, 0),
    'disconnect': lambda c, p: ([login(c), msg('Disconnect', c, dict(reason='11', description='', language='')), RUN], 1, 0),
    'disconnect, running process': lambda c, p: ([login(c), shell(c), RUN, msg('Disconnect', c, dict(reason='11', description='', language='')), RUN], 1, 1),
    'session': lambda c, p: ([login(c), shell(c), out(p, 1, 900), out(p, 2, 900), send('data', c, ch=0, n=700), RUN, *ends(p), RUN, send('close', c, ch=0), RUN, hangup(c), RUN], 1, 1),
    'running process': lambda c, p: ([login(c), shell(c), shell(c), RUN, hangup(c), RUN], 1, 2),
    'output in flight': lambda c, p: ([login(c), shell(c, win='10'), RUN, out(p, 1, 900), out(p, 2, 900), RUN, hangup(c), RUN], 1, 1),
    'does not read': lambda c, p: ([login(c), shell(c), shell(c), dict(op='cap', c=c, n=7), out(p, 1, 900), out(p + 1, 2, 900), req(c, 0), RUN, hangup(c), RUN, dict(op='cap', c=c, n=-1), RUN], 1, 2),
    'write error': lambda c, p: ([login(c), shell(c), dict(op='werr', c=c), out(p, 1, 900), RUN], 1, 1),
    'input not read': lambda c, p: ([login(c), shell(c), dict(op='stdin', p=p, m='cap', n=3), send('data', c, ch=0, n=100), RUN, hangup(c), RUN, dict(op='stdin', p=p, m='cap', n=-1), RUN], 1, 1),
    'open channels': lambda c, p: ([login(c)] + [send('open', c, win='9', max='9')] * 9 + [RUN, hangup(c), RUN], 1, 0),
    'half a packet': lambda c, p: ([login(c), shell(c), dict(op='rmode', c=c, n=5), send('data', c, ch=0, n=30), hangup(c), RUN], 1, 1),
    'late answer': lambda c, p: ([*at(c, dict(op='svc')), RUN, dict(op='auto', on=False), auth_none('u', c), RUN, hangup(c), RUN, dict(op='resolve', ok=True), RUN, dict(op='auto', on=True)], 1, 0),
    'late refusal': lambda c, p: ([*at(c, dict(op='svc')), RUN, dict(op='auto', on=False), auth_none('u', c), RUN, hangup(c), RUN, dict(op='resolve', ok=False), RUN, dict(op='auto', on=True)], 1, 0),
    'late start': lambda c, p: ([login(c), send('open', c, win='9', max='9'), RUN, dict(op='auto', on=False), send('exec', c, ch=0, cmd='x', reply=True), RUN, hangup(c), RUN, dict(op='resolve', ok=False), RUN, dict(op='auto', on=True)], 1, 0),
    'three at once': lambda c, p: ([login(c), login(c + 1), login(c + 2), shell(c + 1), RUN, hangup(c), RUN, hangup(c + 2), hangup(c + 1), RUN], 3, 1),
})

# Channels that come and go on one connection, k is the number of channels before
CHAN = {
    'open, close': lambda k, p: ([send('open', win='9', max='9'), RUN, send('close', ch=k), RUN], 1, 0),
    'process': lambda k, p: ([shell(), RUN, out(p, 1, 300), out(p, 2, 300), RUN, *ends(p), RUN, send('close', ch=k), RUN], 1, 1),
    'process, close first': lambda k, p: ([shell(), RUN, send('close', ch=k), RUN, out(p, 1, 300), RUN, *ends(p), RUN], 1, 1),
    'input': lambda k, p: ([shell(), RUN, send('data', ch=k, n=500), send('eof', ch=k), RUN, *ends(p, 7), RUN, send('close', ch=k), RUN], 1, 1),
    'input error': lambda k, p: ([shell(), RUN, dict(op='stdin', p=p, m='err'), send('data', ch=k, n=50), RUN, *ends(p), RUN, send('close', ch=k), RUN], 1, 1),
    'output error': lambda k, p: ([shell(), RUN, dict(op='oerr', p=p, s=1), dict(op='oerr', p=p, s=2), dict(op='exit', p=p, st=1), RUN, send('close', ch=k), RUN], 1, 1),
    'no window, close': lambda k, p: ([shell(win='10'), RUN, out(p, 1, 300), out(p, 2, 300), RUN, send('close', ch=k), RUN, *ends(p), RUN], 1, 1),
    'window later': lambda k, p: ([shell(win='10'), RUN, out(p, 1, 300), RUN] + [send('adjust', ch=k, n='40'), RUN] * 8 + [*ends(p), RUN, send('close', ch=k), RUN], 1, 1),
    'refused': lambda k, p: ([send('open', win='9', max='9'), RUN, send('exec', ch=k, cmd='no', reply=True), RUN, req(1, k), RUN, send('close', ch=k), RUN], 1, 0),
    'second process': lambda k, p: ([shell(), RUN, send('exec', ch=k, cmd='x', reply=True), RUN, *ends(p), RUN, send('close', ch=k), RUN], 1, 1),
    'two, crosswise': lambda k, p: ([shell(), shell(), RUN, send('close', ch=k), RUN, *ends(p + 1), RUN, *ends(p), RUN, send('close', ch=k + 1), RUN], 2, 2),
}

# Each is opened before the one before it is closed
RELAY = {
    'channels': (lambda k, p: ([send('open', win='9', max='9'), RUN], 1, 0), lambda k, p: [send('close', ch=k), RUN]),
    'processes': (lambda k, p: ([shell(), RUN], 1, 1), lambda k, p: [out(p, 1, 50), *ends(p), RUN, send('close', ch=k), RUN]),
    'closed processes': (lambda k, p: ([shell(), RUN], 1, 1), lambda k, p: [send('close', ch=k), RUN, out(p, 2, 50), *ends(p), RUN]),
}

# Messages that leave nothing behind
MSG = {
    'other channel type': [send('open', win='1', max='1', ty='other'), RUN],
    'requests': [req(1, 0), RUN],
    'ignore': [dict(op='flood', n=3), RUN],
    'adjust': [send('adjust', ch=0, n='1'), RUN],
    'data': [send('data', ch=0, n=200), RUN],
    'output': [out(1, 1, 200), out(1, 2, 200), RUN, send('adjust', ch=0, n='400'), RUN],
    'output, slow peer': [dict(op='cap', c=1, n=100), out(1, 1, 200), out(2, 1, 200), RUN, req(1, 0), RUN, dict(op='cap', c=1, n=-1), RUN, send('adjust', ch=0, n='200'), send('adjust', ch=1, n='200'), RUN],
    'input, slow process': [dict(op='stdin', p=1, m='cap', n=10), send('data', ch=0, n=200), RUN, out(2, 1, 100), RUN, dict(op='stdin', p=1, m='cap', n=-1), RUN, send('adjust', ch=1, n='100'), RUN],
    'late login': [auth_none('u'), RUN],
}
AUTH = {
    'refused': [auth_none('nobody'), RUN],
    'password': [auth_pw('no', 'secret'), RUN],
    'key': [pk('no', 'a', 60), RUN],
    'known key': [pk('u', 'a', 60), RUN],
    'signature': [pk('no', 'a', 60, 70), RUN],
    'ignore': [dict(op='flood', n=3), RUN],
}


def scripts():
    r = []
    n = pick(40, 200)
    for name, f in CONN.items():
        for others in (0, 1):
            # others: an unrelated session stays open
            ops = [RUN] + [login(1), shell(1), RUN][:3 * others]
            c, p = 1 + others, 1 + others
            for _ in range(n):
                o, dc, dp = f(c, p)
                c, p = c + dc, p + dp
                ops += o + [mark(name)]
            r.append(S(f'{name} {others}', *ops))
    # different kinds, mixed
    for shift in range(pick(2, 6)):
        kinds = list(CONN.items())
        ops, c, p = [], 1, 1
        for _ in range(pick(18, 40)):
            for name, f in kinds[shift::2] + kinds[1 - shift % 2::3]:
                o, dc, dp = f(c, p)
                c, p = c + dc, p + dp
                ops += o
            ops.append(mark('mixed'))
        r.append(S(f'mixed {shift}', *ops))
    n = pick(200, 1500)
    for name, f in CHAN.items():
        for others in (0, 2):
            ops, k, p = [login(1)] + [shell(1)] * others + [RUN], others, 1 + others
            for _ in range(n):
                o, dk, dp = f(k, p)
                k, p = k + dk, p + dp
                ops += o + [mark(name)]
            r.append(S(f'channel: {name} {others}', *ops, hangup(1), mark('end')))
    for name, (begin, end) in RELAY.items():
        for d in (1, 2, 3):
            ops, k, p, live = [login(1), RUN], 0, 1, []
            for i in range(n):
                o, dk, dp = begin(k, p)
                live.append((k, p))
                k, p = k + dk, p + dp
                ops += o
                if len(live) > d:
                    # the oldest or, for a change, another one
                    ops += end(*live.pop(0 if i % 5 else d // 2)) + [mark(name)]
            r.append(S(f'channel: relay of {name} {d}', *ops, hangup(1), mark('end')))
    # the same with connections
    for d in (1, 3):
        ops, live = [RUN], []
        for c in range(1, pick(60, 300)):
            ops += [login(c), shell(c), RUN]
            live.append(c)
            if len(live) > d:
                ops += [hangup(live.pop(0 if c % 5 else d // 2)), RUN, mark('relay')]
        r.append(S(f'relay of connections {d}', *ops))
    for name, o in MSG.items():
        r.append(S(f'message: {name}', login(1), shell(1), shell(1), RUN, *[x for _ in range(n) for x in o + [mark(name)]], hangup(1), mark('end')))
    for name, o in AUTH.items():
        r.append(S(f'auth: {name}', dict(op='svc', c=1), RUN, *[x for _ in range(n) for x in o + [mark(name)]], hangup(1), mark('end')))
    for name, line in (('lines', send('line', s='x', fill=30)), ('empty lines', send('line', s=''))):
        r.append(S(f'ident: {name}', CONNECT, RUN, *[x for _ in range(n) for x in (line, RUN, mark(name))], hangup(1), mark('end')))
    return r


def run(ck):
    binary, tables = ck.harness('sim'), ck.tables()
    ss = scripts()
    sf, o, tf = ck.path('scripts.jsonl'), ck.path('out.jsonl'), ck.path('traces.jsonl')
    with open(sf, 'w') as f:
        for s in ss:
            f.write(json.dumps(s) + '\n')
    r = subprocess.run([binary, 'mem', tables, sf, o, str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=pick(600, 6000))
    if r.returncode:
        raise ToolError(f'harness failed ({r.returncode}): {r.stdout[-2000:]}')
    lines = [json.loads(l) for l in open(o)]
    log(len(lines), 'of', len(ss), 'scripts were run')
    with open(tf, 'w') as f:
        for x in lines:
            # events of scripts that could not be applied and such
            f.write(json.dumps({'trace': [e for e in x['trace'] if e['e'] in EVENTS]}) + '\n')
    bad = lib.validate(ck, 'validate', 'TraceHeld.tla', 'TraceHeld.cfg', tf, len(lines), ['C27'], timeout=pick(700, 6000))
    log('traces validated')
    by_name = {s['name']: s for s in ss}
    for t, x in enumerate(lines, 1):
        if t in bad and len(ck.violations) < 5:
            l, labels, why = bad[t]
            tr = [e for e in x['trace'] if e['e'] in EVENTS]
            ck.violation({'property': ck.pid, 'script': by_name.get(x['name']), 'seed': SEED, 'event': l, 'reasons': why, 'trace': tr[max(0, l - 40):l]},
                         f'trace {t} ({x["name"]}) event {l}: {"; ".join(why[:3])} {json.dumps(tr[l - 1])[:300] if l else ""}')
    ck.traces += len(lines) - len(bad)
    marks = {x['name']: [e['n'] for e in x['trace'] if e['e'] == 'mark'] for x in lines}
    growth = {k: v[-1] - v[len(v) // 2] for k, v in marks.items() if len(v) > 3 and not k.startswith(('channel', 'message', 'auth', 'ident'))}
    ck.extra.update(scripts=len(ss), marks=sum(map(len, marks.values())), bytes_held={'least': min(min(v) for v in marks.values() if v), 'most': max(max(v) for v in marks.values() if v)},
                    growth_in_the_second_half=max(growth.values()), operations_not_applicable=sum(x['skipped'] for x in lines))
    for s in ss[:2]:
        ck.sample({'name': s['name'], 'ops': s['ops'][:20]})
    ck.sample({'trace': lines[0]['trace'][:20]})
    ck.assumptions = ['memory that the server holds is what was allocated while it was polled, handlers excluded', 'handles that were dropped hold no wakers']
    ck.models([('Held.tla', pick('Held.cfg', 'HeldBig.cfg'))])
    ck.sensitive([('Held.tla', f, None) for f in ('HeldChannel.cfg', 'HeldOutput.cfg', 'HeldSlot.cfg')])


EVENTS = ('connect', 'hangup', 'rerr', 'closed', 'login', 'spawn', 'oeof', 'oerr', 'exit', 'mark', 'died')
