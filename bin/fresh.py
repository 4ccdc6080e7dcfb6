"""C25: what handshakes draw at random, over many runs of the server, judged by spec/TraceFresh.tla
as one history. Real entropy is used here, nothing is reproducible."""
import hashlib, json, os, shutil, socket, struct, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import ToolError, VERIF, log, pick
from scenarios import CONNECT, ECDH, KEX, LINE, NEWKEYS, RUN, S, login, send
from sshd import NOBODY

UPTO = [[LINE], [LINE, KEX], [LINE, KEX, ECDH], [LINE, KEX, ECDH, NEWKEYS]]


def scripts():
    c = lambda n: dict(op='connect', c=n)
    at = lambda n, ops: [dict(o, c=n) if o['op'] == 'send' else o for o in ops]
    drop = lambda n: dict(op='hangup', c=n)
    r = []
    for i in range(pick(12, 40)):
        # one after another, alike
        r.append(S('sequence', *[login(n) for n in range(1, 2 + i % 12)], RUN))
        # broken off at every point before the next one comes
        ops = []
        for n in range(1, 9):
            ops += [c(n)] + at(n, UPTO[(n + i) % 4]) + [RUN, drop(n), RUN]
        r.append(S('broken', *ops, login(9), RUN))
        # all at the same time, step by step
        k = 2 + i % 20
        ops = [c(n) for n in range(1, k)] + [RUN]
        for step in UPTO[3]:
            for n in range(1, k):
                ops += at(n, [step])
            ops.append(RUN)
        r.append(S('together', *ops))
        # all at once
        ops = []
        for n in range(1, k):
            ops += [c(n)] + at(n, UPTO[3])
        r.append(S('at_once', *ops, RUN))
        # nested: each begins while the one before waits for its key
        ops = []
        for n in range(1, k):
            ops += [c(n)] + at(n, [LINE, KEX]) + [RUN]
        for n in range(k - 1, 0, -1):
            ops += at(n, [ECDH, NEWKEYS]) + [RUN]
        r.append(S('nested', *ops))
    return r


# -- a client of the real daemon that sends the same every time ---------------
def text(b): return struct.pack('>I', len(b)) + b


def packet(p):
    pad = 8 - (len(p) + 5) % 8
    pad += 8 if pad < 4 else 0
    return struct.pack('>IB', len(p) + pad + 1, pad) + p + bytes(pad)


LISTS = [b'curve25519-sha256', b'ecdsa-sha2-nistp256'] + [b'chacha20-poly1305@openssh.com'] * 2 + [b'none'] * 4 + [b''] * 2
KEXINIT = b'\x14' + b'c' * 16 + b''.join(text(x) for x in LISTS) + b'\0' * 5
KEY = hashlib.sha256(b'a key').digest()


class Client:
    def __init__(self):
        for _ in range(400):
            try:
                self.s = socket.create_connection(('127.0.0.1', 2222))
                break
            except OSError:
                time.sleep(0.05)
        else:
            raise ToolError('nora_sshd does not listen')
        self.s.settimeout(20)
        self.b = b''
        self.fresh = []

    def take(self, n):
        while len(self.b) < n:
            d = self.s.recv(65536)
            if not d:
                raise EOFError
            self.b += d
        r, self.b = self.b[:n], self.b[n:]
        return r

    def packet(self):
        n, pad = struct.unpack('>IB', self.take(5))
        if n > 40000:
            raise EOFError
        return self.take(n - 1)[:n - 1 - pad]

    def step(self, i):
        if i == 0:
            self.s.sendall(b'SSH-2.0-same\r\n')
            while self.take(1) != b'\n':
                pass
        elif i == 1:
            self.s.sendall(packet(KEXINIT))
            self.fresh.append({'e': 'cookie', 'v': list(self.packet()[1:17])})
        elif i == 2:
            self.s.sendall(packet(b'\x1e' + text(KEY)))
            f, p = [], self.packet()[1:]
            while p:
                n = struct.unpack('>I', p[:4])[0]
                f.append(p[4:4 + n])
                p = p[4 + n:]
            self.fresh.append({'e': 'key', 'v': list(f[1])})
            # string name, string of (mpint r, mpint s)
            n = struct.unpack('>I', f[2][:4])[0]
            b = f[2][8 + n:]
            n = struct.unpack('>I', b[:4])[0]
            self.fresh.append({'e': 'nonce', 'v': b[4:4 + n].hex()})


def daemon(exe, root, plan):
    """One run of nora_sshd; plan: lists of connections and how far each goes, interleaved."""
    home = root + '/home'
    p = subprocess.Popen([exe], cwd=home, env={'PATH': '/nonexistent'}, user=NOBODY, group=NOBODY, extra_groups=[],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    r = []
    try:
        for group in plan:
            cs = [(Client(), n) for n in group]
            for i in range(3):
                for c, n in cs:
                    if i < n:
                        try:
                            c.step(i)
                        except (OSError, EOFError, IndexError, struct.error):
                            pass   # whether handshakes succeed is a matter of C02
            for c, n in cs:
                r += c.fresh
                c.s.close()
    finally:
        p.kill()
        p.wait()
    return r


def run(ck):
    ex = ThreadPoolExecutor(4)
    target = os.path.join(VERIF, 'harness', 'target', 'repo')
    built = ex.submit(ck.cargo, ['-p', 'nora_sshd', '--config', 'profile.dev.package."*".opt-level=1'], lib.REPO, target)
    tables = ex.submit(ck.tables)
    binary, tables = ck.harness('sim'), tables.result()
    sf = ck.path('scripts.jsonl')
    ss = scripts()
    with open(sf, 'w') as f:
        for s in ss:
            f.write(json.dumps(s) + '\n')

    def sim(i):
        o = ck.path(f'run-{i}.jsonl')
        # the same in every run: what the peers send, the order of everything
        r = subprocess.run([binary, 'fresh', tables, sf, o, '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=pick(300, 3000))
        if r.returncode:
            raise ToolError(f'harness failed ({r.returncode}): {r.stdout[-2000:]}')
        return [e for l in open(o) for e in json.loads(l).get('fresh', [])]
    history, conns = [], 0
    for i in range(pick(4, 10)):
        history += sim(i)
    n = sum(e['e'] == 'key' for e in history)
    log(len(history), 'events of', n, 'handshakes')
    built.result()
    root = tempfile.mkdtemp(prefix='nora-fresh-')
    try:
        os.chmod(root, 0o755)
        os.mkdir(root + '/home')
        os.chown(root + '/home', NOBODY, NOBODY)
        exe = root + '/nora_sshd'
        shutil.copy(os.path.join(target, 'debug', 'nora_sshd'), exe)
        os.chmod(exe, 0o755)
        plan = [[3], [3], [1, 2, 3, 3, 2], [3] * 20, [2] * 5, [3] * 3]
        for i in range(pick(4, 20)):
            history += daemon(exe, root, plan)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    m = sum(e['e'] == 'key' for e in history) - n
    log(m, 'handshakes with nora_sshd')
    kinds = {}
    for e in history:
        kinds[e['e']] = kinds.get(e['e'], 0) + 1
    tf = ck.path('history.jsonl')
    with open(tf, 'w') as f:
        f.write(json.dumps({'trace': history + [{'e': 'end'}]}) + '\n')
    bad = lib.validate(ck, 'validate', 'TraceFresh.tla', 'TraceFresh.cfg', tf, 1, ['C25'], timeout=600, args=('-workers', '1'))
    for l, labels, why in bad.values():
        # which: the first that repeats one before, if that is what is wrong
        seen, rep = {}, None
        for i, e in enumerate(history):
            x = (e['e'], str(e['v']))
            if e.get('how') != 'entropy' and x in seen:
                rep = [seen[x] + 1, i + 1]
                break
            seen[x] = i
        ev = history[rep[1] - 1] if rep else history[l - 1] if 0 < l <= len(history) else None
        ck.violation({'property': ck.pid, 'reasons': why, 'event': ev, 'events': rep or [l], 'history': history[:rep[1] if rep else l]},
                     f'events {rep or l}: {"; ".join(why)} {json.dumps(ev)}')
    ck.traces += 0 if bad else 1
    ck.extra.update(events=len(history), event_kinds=kinds, handshakes={'library': n, 'nora_sshd': m}, runs={'library': pick(4, 10), 'nora_sshd': pick(4, 20)})
    if not bad and (n < 100 or m < 20):
        raise ToolError('too few handshakes were finished')
    ck.sample({'script': ss[1]['ops'][:12]})
    ck.sample({'history': history[:4]})
    ck.assumptions = ['random values of 16 bytes or more do not repeat by chance']
    ck.models([('Fresh.tla', pick('Fresh.cfg', 'FreshBig.cfg'))])
    ck.sensitive([('Fresh.tla', f, None) for f in ('FreshConstant.cfg', 'FreshCounter.cfg', 'FreshCopy.cfg')] + [('Fresh.tla', 'Fresh.cfg', 'NeverMany')])
