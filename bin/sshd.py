"""C24: the real nora_sshd on the loopback interface, judged by spec/TraceSshd.tla.

The daemon and what it runs belong to an unprivileged user, in a scratch directory that is
removed afterwards; its process group is ended after every script."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import SEED, ToolError, VERIF, log, pick

NOBODY = 65534


def directed():
    r = []
    b = lambda x: list(x)
    hello = lambda c, how='good': [{'op': 'connect', 'c': c, 'upto': 'full'}, {'op': 'auth', 'c': c, 'how': how}]
    op = lambda c, k, win=1 << 30, m=32768: {'op': 'open', 'c': c, 'k': k, 'win': win, 'max': m}
    ex = lambda c, k, cmd, reply=True: {'op': 'exec', 'c': c, 'k': k, 'cmd': b(cmd), 'reply': reply}
    dat = lambda c, k, n: {'op': 'data', 'c': c, 'k': k, 'n': n}
    eof = lambda c, k: {'op': 'eof', 'c': c, 'k': k}
    fin = lambda c, k: {'op': 'finish', 'c': c, 'k': k}
    drop = lambda c, rst=True: {'op': 'drop', 'c': c, 'rst': rst}
    last = hello(99) + [op(99, 1), ex(99, 1, b'probe o=3 c x=4'), dat(99, 1, 9), eof(99, 1), fin(99, 1), {'op': 'alive'}]

    def add(ops, shell='probe', files=0):
        r.append({'name': 'directed', 'shell': shell, 'files': files, 'ops': ops + last})
    wrong = ('none', 'password', 'other-user', 'other-service', 'other-key', 'other-session', 'wrong-key', 'bad-r', 'bad-s', 'last-bit',
             'short-signature', 'long-signature', 'no-signature', 'zero-signature', 'short-key', 'long-key', 'no-key', 'other-algorithm', 'probe-other')
    # all wrong credentials on one connection, then the right ones
    ops = [{'op': 'connect', 'c': 1, 'upto': 'full'}]
    for w in wrong:
        ops += [{'op': 'auth', 'c': 1, 'how': w}]
    add(ops + [{'op': 'auth', 'c': 1, 'how': 'probe'}, {'op': 'auth', 'c': 1, 'how': 'good'}, op(1, 1), ex(1, 1, b'probe x=3'), fin(1, 1)])
    # each exit status and signal, all in one connection at once
    codes = [b'probe x=%d' % i for i in (0, 1, 2, 127, 128, 200, 255)] + [b'probe k=%d' % i for i in (1, 2, 6, 9, 13, 15)]
    ops = hello(1)
    for i, c in enumerate(codes, 1):
        ops += [op(1, i), ex(1, i, c)]
    add(ops + [fin(1, i) for i in range(len(codes), 0, -1)])
    # one after another, with input and output
    ops = hello(1)
    for i, c in enumerate(codes, 1):
        ops += [op(1, i), ex(1, i, c.replace(b'probe', b'probe o=70000 e=70000')), fin(1, i)]
    add(ops)
    # commands that cannot run, then one that can, on the same channel
    for shell in ('probe', 'none', 'missing'):
        ops = hello(1) + [op(1, 1)]
        for c in (b'', b' ', b'\t\n', b'nosuch', b'/', b'\0', b'probe \0', b'/nonexistent/probe x'):
            ops += [ex(1, 1, c), ex(1, 1, c, False)]
        ops += [{'op': 'shell', 'c': 1, 'k': 1, 'reply': True}]
        ops += [ex(1, 1, b'probe o=5 c'), dat(1, 1, 100), eof(1, 1), fin(1, 1)]
        add(ops if shell != 'probe' else hello(1) + [op(1, 1), {'op': 'shell', 'c': 1, 'k': 1, 'reply': True}, ex(1, 1, b'probe x=3'), dat(1, 1, 70000), dat(1, 1, 1), eof(1, 1), fin(1, 1)], shell)
    # much data both ways, small windows
    for win, m in ((1 << 30, 32768), (5000, 700), (1, 1)):
        n = {32768: 300000, 700: 60000, 1: 3000}[m]
        add(hello(1) + [op(1, 1, win, m), ex(1, 1, b'probe c'), dat(1, 1, n), eof(1, 1), fin(1, 1)])
        add(hello(1) + [op(1, 1, win, m), op(1, 2, win, m), ex(1, 1, b'probe o=%d e=%d c o=5 x=1' % (n, n)), ex(1, 2, b'probe e=%d c o=%d x=2' % (n, n)),
                        dat(1, 2, 1000), dat(1, 1, 1000), eof(1, 1), eof(1, 2), fin(1, 2), fin(1, 1)])
    # clients that vanish at every point while another works
    for upto in ('tcp', 'ident', 'kexinit', 'ecdh', 'newkeys', 'full'):
        for rst in (True, False):
            add(hello(2) + [op(2, 1), ex(2, 1, b'probe c x=8'), dat(2, 1, 10), {'op': 'connect', 'c': 1, 'upto': upto}, drop(1, rst), dat(2, 1, 20), eof(2, 1), fin(2, 1)])
    for pre in ([], [op(1, 1)], [op(1, 1), ex(1, 1, b'probe o=3000000 x=1')], [op(1, 1), ex(1, 1, b'probe c')], [op(1, 1, 10), ex(1, 1, b'probe o=3000000')],
                [op(1, 1), ex(1, 1, b'probe s=60 o=5')], [op(1, 1), ex(1, 1, b'probe c'), dat(1, 1, 5)]):
        for bad in ([drop(1)], [drop(1, False)], [{'op': 'garbage', 'c': 1, 'how': 'random'}], [{'op': 'stall', 'c': 1}], [{'op': 'stall', 'c': 1}, drop(1)]) + \
                tuple([{'op': 'garbage', 'c': 1, 'how': h}, drop(1)] for h in ('disconnect', 'empty-packet', 'unknown-channel')):
            add(hello(2) + [op(2, 1), ex(2, 1, b'probe o=100 c x=8'), dat(2, 1, 10)] + hello(1) + pre + bad + [dat(2, 1, 20), eof(2, 1), fin(2, 1)])
    # more connections than it has descriptors for
    add([{'op': 'flood', 'n': 60}], files=40)
    add(hello(1) + [op(1, 1), ex(1, 1, b'probe c x=8'), {'op': 'flood', 'n': 60}, dat(1, 1, 5), eof(1, 1), fin(1, 1)], files=40)
    return r


def known():
    """What fails because of the open findings of known_findings.txt: [(finding, script)]."""
    a = [{'op': 'connect', 'c': 1, 'upto': 'full'}, {'op': 'auth', 'c': 1, 'how': 'good'}]
    op = lambda k, win, m: {'op': 'open', 'c': 1, 'k': k, 'win': win, 'max': m}
    ex = lambda k, cmd: {'op': 'exec', 'c': 1, 'k': k, 'cmd': list(cmd), 'reply': True}
    copy = a + [op(1, 5000, 700), ex(1, b'probe c'), {'op': 'data', 'c': 1, 'k': 1, 'n': 300000}, {'op': 'eof', 'c': 1, 'k': 1},
                {'op': 'finish', 'c': 1, 'k': 1}]
    other = a + [op(1, 1 << 30, 32768), ex(1, b'probe s=30000 c'), op(2, 1 << 30, 32768), {'op': 'data', 'c': 1, 'k': 1, 'n': 100000}, ex(2, b'probe x=3'),
                 {'op': 'finish', 'c': 1, 'k': 2}]
    return [('blocked-input', {'name': 'known', 'shell': 'probe', 'ops': x, 'patience': 5}) for x in (copy, other)]


def run(ck):
    ex = ThreadPoolExecutor(4)
    target = os.path.join(VERIF, 'harness', 'target', 'repo')
    built = ex.submit(ck.cargo, ['-p', 'nora_sshd', '--config', 'profile.dev.package."*".opt-level=1'], lib.REPO, target)
    tables = ex.submit(ck.tables)
    scripts = directed()
    o = ck.path('gen.jsonl')
    ck.tlc('gen', 'GenSshd.tla', 'GenSshd.cfg', {'OUT': o},
           ['-simulate', f'num={pick(150, 3000)}', '-depth', '500', '-seed', str(SEED), '-workers', '1'], timeout=1000, heap='2g')
    gen = [json.loads(l) for l in open(o)]
    driver, probe, tables = ck.harness('sshd'), ck.harness('probe'), tables.result()
    built.result()
    scripts = scripts + gen
    root = tempfile.mkdtemp(prefix='nora-sshd-')
    try:
        os.chmod(root, 0o755)
        os.mkdir(root + '/bin')
        os.chmod(root + '/bin', 0o755)
        for src, dst in ((probe, root + '/bin/probe'), (os.path.join(target, 'debug', 'nora_sshd'), root + '/nora_sshd')):
            shutil.copy(src, dst)
            os.chmod(dst, 0o755)
        home = root + '/home'
        os.mkdir(home)
        os.chown(home, NOBODY, NOBODY)

        def drive(which, name):
            sf, tf = ck.path(name + '-scripts.jsonl'), ck.path(name + '-traces.jsonl')
            with open(sf, 'w') as f:
                for s in which:
                    f.write(json.dumps(s) + '\n')
            r = subprocess.run([driver, tables, sf, tf, root + '/nora_sshd', root], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=pick(800, 7000))
            if r.returncode:
                raise ToolError(f'driver failed ({r.returncode}): {r.stdout[-2000:]}')
            return tf
        log(len(scripts), 'scripts')
        tf = drive(scripts, 'all')
        log('replayed')
        lines = open(tf).read().splitlines()   # fewer than scripts if sessions hang
        bad = lib.validate(ck, 'validate', 'TraceSshd.tla', 'TraceSshd.cfg', tf, len(lines), ['C24'], timeout=pick(600, 6000))
        def report(script, line, l, why):
            tr = json.loads(line)['trace']
            ev = tr[l - 1] if 0 < l <= len(tr) else None
            if len(ck.violations) < 5:
                ck.violation({'property': ck.pid, 'script': script, 'reasons': why, 'trace': tr[:l]},
                             f'event {l}: {"; ".join(why)} {json.dumps(ev)[:400]}')

        def late(line):
            return json.loads(line)['trace'][-1].get('r') == 'timeout'
        for t, (l, labels, why) in sorted(bad.items()):
            if not late(lines[t - 1]):
                report(scripts[t - 1], lines[t - 1], l, why)
        if bad and not ck.violations:
            # whether a session is stuck is a question of time: only what happens again counts
            again = [t - 1 for t in sorted(bad)][:8]
            f2 = drive([scripts[i] for i in again], 'again')
            bad2 = lib.validate(ck, 'validate-again', 'TraceSshd.tla', 'TraceSshd.cfg', f2, len(open(f2).readlines()), ['C24'], timeout=pick(600, 6000))
            log(len(bad), 'rejected,', len(bad2), 'again')
            l2 = open(f2).read().splitlines()
            for t, (l, labels, why) in sorted(bad2.items()):
                report(scripts[again[t - 1]], l2[t - 1], l, why)
        ck.traces += len(lines) - len(bad)
        # the open findings: they may show up as sessions that are stuck, nothing else
        kn = known()
        f3 = drive([s for _, s in kn], 'known')
        l3 = open(f3).read().splitlines()
        bad3 = lib.validate(ck, 'validate-known', 'TraceSshd.tla', 'TraceSshd.cfg', f3, len(l3), ['C24'], timeout=pick(600, 6000))
        for t, (l, labels, why) in sorted(bad3.items()):
            if not late(l3[t - 1]):
                report(kn[t - 1][1], l3[t - 1], l, why)
        ck.extra['known_finding_scripts'] = {'run': len(kn), 'stuck': sum(1 for t in bad3 if late(l3[t - 1]))}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    kinds = {}
    for x in lines:
        for e in json.loads(x)['trace']:
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
    ck.extra.update(events=sum(kinds.values()), event_kinds=kinds, scripts={'generated_by_tlc': len(gen), 'directed': len(scripts) - len(gen)})
    ck.sample({'script': gen[0]['ops'][:12]})
    ck.sample({'trace': json.loads(lines[0])['trace'][:8]})
    ck.assumptions = ['a session that makes no progress for 20 seconds is stuck (a rejected run is repeated before it is reported)']
    ck.models([('MCSshd.tla', pick('MCSshd.cfg', 'MCSshdBig.cfg'))])
    ck.sensitive([('MCSshd.tla', 'MCSshd.cfg', 'NeverAll')])
