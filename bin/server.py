"""C01-C16: the server, by trace validation against spec/NoraServer.tla."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lib, scenarios, core
from lib import SEED, THOROUGH, ToolError, log, pick

ALL = [f'C{i:02}' for i in range(1, 17)]
FAMS = ['hs', 'auth', 'chan', 'io', 'tamper', 'evil']

# Share of the script families per property (out of about 1000 scripts in the quick tier)
W = {
    'C01': dict(hs=150, auth=400, chan=250, io=50, tamper=100, evil=150),
    'C02': dict(hs=100, auth=600, chan=100, io=50, tamper=100, evil=100),
    'C03': dict(hs=100, auth=600, chan=100, io=50, tamper=100, evil=100),
    'C04': dict(hs=600, auth=100, chan=50, io=50, tamper=100, evil=150),
    'C05': dict(hs=700, auth=100, chan=50, io=50, tamper=100, evil=150),
    'C06': dict(hs=100, auth=100, chan=150, io=200, tamper=450, evil=150),
    'C07': dict(hs=100, auth=100, chan=250, io=400, tamper=50, evil=200),
    'C08': dict(hs=200, auth=150, chan=150, io=150, tamper=100, evil=350),
    'C09': dict(hs=50, auth=50, chan=500, io=200, tamper=50, evil=200),
    'C10': dict(hs=50, auth=50, chan=550, io=150, tamper=50, evil=150),
    'C11': dict(hs=50, auth=50, chan=350, io=450, tamper=50, evil=150),
    'C12': dict(hs=50, auth=50, chan=200, io=600, tamper=50, evil=150),
    'C13': dict(hs=50, auth=50, chan=400, io=400, tamper=50, evil=150),
    'C14': dict(hs=50, auth=50, chan=250, io=600, tamper=50, evil=150),
    'C15': dict(hs=200, auth=200, chan=150, io=150, tamper=150, evil=250),
    'C16': dict(hs=800, auth=50, chan=50, io=50, tamper=50, evil=100),
}

# Exhaustive design models per property: quick and thorough
MODELS = {
    'C01': ['auth', 'hs4'], 'C02': ['auth'], 'C03': ['auth'], 'C04': ['hs4'], 'C05': ['hs4'],
    'C06': ['chan3'], 'C07': ['io2'], 'C08': ['chan3'], 'C09': ['chan3'], 'C10': ['chan3'], 'C11': ['io2'],
    'C12': ['io2'], 'C13': ['io2'], 'C14': ['io2'], 'C15': ['auth'], 'C16': ['hs4'],
}
DEEP = {
    'C01': ['auth', 'hs', 'two'], 'C02': ['auth', 'two'], 'C03': ['auth', 'hs'], 'C04': ['hs'], 'C05': ['hs'],
    'C06': ['chan', 'io'], 'C07': ['io', 'two'], 'C08': ['two', 'chan'], 'C09': ['chan', 'two'], 'C10': ['chan', 'two'],
    'C11': ['io', 'chan'], 'C12': ['io', 'two'], 'C13': ['io', 'chan'], 'C14': ['io'], 'C15': ['auth', 'chan', 'hs'], 'C16': ['hs'],
}

# Models of single mechanisms: (quick, thorough), and what must fail
PARTS = {
    'C06': [('Record.tla', 'Record.cfg', 'RecordBig.cfg')], 'C07': [('Lock.tla', 'Lock.cfg', 'LockBig.cfg')],
    'C12': [('Lock.tla', 'Lock.cfg', 'LockBig.cfg')], 'C14': [('Lock.tla', 'Lock.cfg', 'LockBig.cfg')],
    'C16': [('Ident.tla', 'Ident.cfg', 'IdentBig.cfg'), ('Ident.tla', 'IdentRest.cfg', 'IdentRest.cfg')],
}
NEVER = {
    'C06': [('Record.tla', 'Record.cfg', 'NeverAllDespiteAttack')], 'C07': [('Lock.tla', 'LockOne.cfg', None)],
    'C16': [('Ident.tla', 'Ident.cfg', 'NeverOk'), ('Ident.tla', 'Ident.cfg', 'NeverBad')],
    'C01': [('MCServer.tla', 'MC_auth.cfg', 'NeverOpen')], 'C09': [('MCServer.tla', 'MC_chan3.cfg', 'NeverProcess')],
    'C10': [('MCServer.tla', 'MC_chan3.cfg', 'NeverProcess')], 'C13': [('MCServer.tla', 'MC_io.cfg', 'NeverClosed')],
    'C15': [('MCServer.tla', 'MC_auth.cfg', 'NeverReleased')],
}


def generate(ck, weights, goal, factor=1, seed=SEED):
    """Scripts by random walks of the specification, one JVM per family and slice."""
    jobs = []
    for f, n in weights.items():
        n = max(1, int(n * factor))
        slices = -(-n // 250)
        for i in range(slices):
            out = ck.path(f'gen-{f}-{i}.jsonl')
            jobs.append((f, i, n // slices + 1, out))

    def one(j):
        f, i, n, out = j
        ck.tlc(f'gen-{f}-{i}', 'GenServer.tla', 'GenServer.cfg', {'FAM': f, 'GOAL': str(goal), 'OUT': out},
               ['-simulate', f'num={n}', '-depth', '20000', '-seed', str(seed * 1000 + i), '-workers', '1'],
               timeout=pick(400, 3000), heap='1g')
        return [json.loads(l) for l in open(out)]
    r = []
    with ThreadPoolExecutor(8) as ex:
        for s in ex.map(one, jobs):
            r += s
    if len(r) < sum(weights.values()) * factor * 0.5:
        raise ToolError('too few scripts were generated')
    return r


def replay(ck, binary, tables, scripts, name):
    sf, tf = ck.path(name + '-scripts.jsonl'), ck.path(name + '-traces.jsonl')
    with open(sf, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    r = subprocess.run([binary, 'run', tables, sf, tf, str(SEED)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=pick(600, 6000))
    if r.returncode:
        raise ToolError(f'harness failed ({r.returncode}): {r.stdout[-2000:]}')
    return tf


def judge(ck, scripts, tf, name):
    """Validate the traces and report those that break the property."""
    lines = open(tf).read().splitlines()
    if len(lines) != len(scripts):
        # the server hung: the harness stopped and recorded which
        scripts = [None] * len(lines)
    bad = lib.validate(ck, 'validate-' + name, 'TraceServer.tla', 'TraceServer.cfg', tf, len(lines), ALL, timeout=pick(700, 6000))
    ck.traces += len(lines) - len(bad)
    other = {}
    for t, (l, labels, why) in sorted(bad.items()):
        tr = json.loads(lines[t - 1])
        text = f'trace {t} ({tr["name"]}) event {l}: {"; ".join(why)} {labels} {json.dumps(tr["trace"][l - 1])[:300] if 0 < l <= len(tr["trace"]) else ""}'
        if ck.pid in labels:
            if len(ck.violations) < 5:
                ck.violation({'property': ck.pid, 'script': scripts[t - 1], 'seed': SEED, 'index': t - 1, 'event': l,
                              'reasons': why, 'labels': labels, 'trace': tr['trace'][max(0, l - 40):l]}, text)
        else:
            for x in labels:
                other[x] = other.get(x, 0) + 1
            ck.notes.append('a trace breaks another property: ' + text)
    return [json.loads(x) for x in lines]


def coverage(ck, traces):
    kinds, ev, skipped, ops, packets = {}, 0, 0, 0, 0
    reached = {'auth': 0, 'open': 0, 'process': 0, 'exit': 0, 'ended': 0}
    for t in traces:
        skipped += t['skipped']
        ops += t['ops']
        packets += t['packets']
        ev += len(t['trace'])
        seen = set()
        for e in t['trace']:
            k = e['e'] + ('.' + e['m']['t'] if e['e'] == 'srv' else '')
            kinds[k] = kinds.get(k, 0) + 1
            seen.add(k)
        reached['auth'] += 'srv.ServiceAccept' in seen
        reached['open'] += 'srv.AuthSuccess' in seen
        reached['process'] += 'spawn' in seen
        reached['exit'] += 'srv.Close' in seen
        reached['ended'] += 'closed' in seen
    ck.extra.update(events=ev, event_kinds=kinds, operations=ops, operations_not_applicable=skipped,
                    packets_received=packets, traces_that_reach=reached)


def run(ck):
    pid = ck.pid
    ex = ThreadPoolExecutor(4)
    built = ex.submit(ck.harness, 'sim')
    tables = ex.submit(ck.tables)
    gen = ex.submit(generate, ck, W[pid], pick(60, 110), pick(1, 8))
    binary, tables = built.result(), tables.result()
    # directed scenarios while the random ones are made
    directed = scenarios.scripts(pid)
    tf = replay(ck, binary, tables, directed, 'directed')
    scripts = gen.result()
    log(len(scripts), 'scripts generated,', len(directed), 'directed')
    dt = judge(ck, directed, tf, 'directed')
    tf = replay(ck, binary, tables, scripts, 'random')
    tr = judge(ck, scripts, tf, 'random')
    log('traces validated')
    coverage(ck, dt + tr)
    ck.extra['scripts'] = {'generated_by_tlc': len(scripts), 'directed': len(directed)}
    for s in (scripts[:1] + scripts[-1:]):
        ck.sample({'family': s['name'], 'ops': s['ops'][:25]})
    if tr:
        ck.sample({'trace': tr[0]['trace'][:25]})
    ck.assumptions = [
        'the cryptographic primitives of the independent client (chacha20, poly1305, sha2, p256, x25519-dalek) are correct',
        'the executor polls whenever a waker was called and only then',
    ]
    if pid == 'C04':
        core.kdf(ck)   # the transcript hash itself
    ck.models([('MCServer.tla', f'MC_{m}.cfg') for m in (DEEP if THOROUGH else MODELS)[pid]]
              + [(m, pick(q, t)) for m, q, t in PARTS.get(pid, [])])
    ck.sensitive(NEVER.get(pid, []))
