"""C17-C21: the core library, judged by spec/TraceWire.tla, TracePacket, TraceKdf and TraceCipher."""
import json, subprocess
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import SEED, ToolError, log, pick


def exe(args, timeout=None):
    r = subprocess.run([str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout or pick(600, 6000))
    if r.returncode:
        raise ToolError(f'harness failed ({r.returncode}): {r.stdout[-2000:]}')


def judge(ck, tf, module, name, labels):
    lines = open(tf).read().splitlines()
    bad = lib.validate(ck, 'validate-' + name, module + '.tla', module + '.cfg', tf, len(lines), labels, timeout=pick(700, 6000))
    ck.traces += len(lines) - len(bad)
    events, kinds = 0, {}
    for t, x in enumerate(lines, 1):
        tr = json.loads(x)
        for e in tr['trace']:
            events += 1
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
        if t in bad:
            l, lab, why = bad[t]
            ev = tr['trace'][l - 1] if 0 < l <= len(tr['trace']) else None
            text = f'{tr["name"]}, event {l}: {"; ".join(why)} {lab} {json.dumps(ev)[:400]}'
            if ck.pid in lab:
                if len(ck.violations) < 5:
                    ck.violation({'property': ck.pid, 'reasons': why, 'labels': lab, 'event': ev, 'before': tr['trace'][:l - 1][-10:]}, text)
            else:
                ck.notes.append('another property is broken: ' + text)
    ck.extra['events'] = ck.extra.get('events', 0) + events
    ck.extra.setdefault('event_kinds', {}).update(kinds)
    for x in (lines[0], lines[len(lines) // 2]):
        tr = json.loads(x)
        ck.sample({'name': tr['name'], 'trace': tr['trace'][:3]})
    log(f'{name}: {events} events in {len(lines)} traces,', len(bad), 'rejected')


def wire(ck):
    ex = ThreadPoolExecutor(2)
    built = ex.submit(ck.harness, 'wire')
    cases, out = ck.path('cases.jsonl'), ck.path('traces.jsonl')
    ck.tlc('gen', 'GenWire.tla', 'GenWire.cfg', {'N': str(pick(14, 60)), 'BIG': str(pick(1, 1)), 'OUT': cases},
           ['-simulate', 'num=1', '-depth', '3', '-seed', str(SEED), '-workers', '1'], timeout=600, heap='4g')
    exe([built.result(), cases, out, SEED, pick(48, 160)])
    judge(ck, out, 'TraceWire', 'wire', ['C17', 'C18'])
    ck.models([('MCWire.tla', pick('MCWire.cfg', 'MCWireRich.cfg'))])


def packet(ck):
    out = ck.path('traces.jsonl')
    exe([ck.harness('packet'), out, SEED, pick(2100, 20000), pick(700, 4000)])
    judge(ck, out, 'TracePacket', 'packet', ['C19'])
    ck.models([('MCPacket.tla', pick('MCPacket.cfg', 'MCPacketBig.cfg'))])


def kdf(ck, model=True):
    ex = ThreadPoolExecutor(2)
    built = ex.submit(ck.harness, 'kdf')
    tables, out = ck.tables(), ck.path('kdf-traces.jsonl')
    exe([built.result(), tables, out, SEED, pick(160, 1500)])
    judge(ck, out, 'TraceKdf', 'kdf', ['C20', 'C04'])
    if model:
        ck.models([('MCTerms.tla', 'MCTerms.cfg')])


def cipher(ck):
    ex = ThreadPoolExecutor(2)
    built = ex.submit(ck.harness, 'cipher')
    tables, scripts, out = ck.tables(), ck.path('scripts.jsonl'), ck.path('traces.jsonl')
    ck.tlc('gen', 'GenCipher.tla', 'GenCipher.cfg', {'OUT': scripts, 'GOAL': str(pick(80, 400))},
           ['-simulate', f'num={pick(400, 4000)}', '-depth', '2000', '-seed', str(SEED), '-workers', '1'], timeout=3000, heap='4g')
    exe([built.result(), tables, scripts, out, SEED])
    judge(ck, out, 'TraceCipher', 'cipher', ['C21'])
    ck.models([('MCCipher.tla', 'MCCipher.cfg')])
    ck.sensitive([('MCCipher.tla', 'MCCipher.cfg', 'NeverAll')])


def run(ck):
    globals()[{'C17': 'wire', 'C18': 'wire', 'C19': 'packet', 'C20': 'kdf', 'C21': 'cipher'}[ck.pid]](ck)
