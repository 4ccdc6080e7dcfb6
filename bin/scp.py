"""C22, C23: the real nora_scp, judged by spec/TraceScp.tla.

It runs as an unprivileged user inside a scratch directory that is removed afterwards."""
import fcntl, json, os, random, select, shutil, struct, subprocess, tempfile, termios, threading, time
from concurrent.futures import ThreadPoolExecutor
import core, lib
from lib import SEED, ToolError, VERIF, log, pick

NOBODY = 65534


def content(seed, n):
    return random.Random(seed).randbytes(n)


def pending(fd):
    return struct.unpack('i', fcntl.ioctl(fd, termios.FIONREAD, b'\0' * 4))[0]


class Proc:
    """One nora_scp whose streams the driver holds."""

    def __init__(self, binary, args, cwd, calm):
        self.calm = calm
        self.out = b''
        r, w = os.pipe()
        r2, w2 = os.pipe()
        self.p = subprocess.Popen([binary] + args, cwd=cwd, stdin=r, stdout=w2, stderr=subprocess.DEVNULL,
                                  user=NOBODY, group=NOBODY, extra_groups=[], close_fds=True, env={'PATH': '/usr/bin'})
        os.close(r)
        os.close(w2)
        self.w, self.r = w, r2
        os.set_blocking(self.w, False)
        os.set_blocking(self.r, False)

    def drain(self):
        got = False
        while True:
            try:
                b = os.read(self.r, 1 << 16)
            except BlockingIOError:
                return got
            if not b:
                return got
            self.out += b
            got = True

    def feed(self, data):
        """Write everything; what it can no longer take because it ended is lost."""
        view = memoryview(data)
        end = time.time() + 20
        while view:
            self.drain()
            try:
                n = os.write(self.w, view[:60000])
                view = view[n:]
            except BlockingIOError:
                if self.p.poll() is not None:
                    return
                select.select([self.r], [self.w], [], 0.05)
            except BrokenPipeError:
                return
            if time.time() > end:
                return

    def close(self):
        if self.w is not None:
            os.close(self.w)
            self.w = None

    def asleep(self):
        try:
            with open(f'/proc/{self.p.pid}/stat') as f:
                return f.read().rsplit(')', 1)[1].split()[0] in 'SZ'
        except FileNotFoundError:
            return True

    def quiet(self):
        """Wait until it waits for input or ended."""
        end = time.time() + 20
        calm = 0
        need = 40 if self.calm else 3
        while time.time() < end:
            moved = self.drain()
            if self.p.poll() is not None:
                self.drain()
                return 'ok' if self.p.returncode == 0 else 'fail'
            idle = not moved and self.asleep() and (self.w is not None and pending(self.w) == 0)
            calm = calm + 1 if idle else 0
            if calm >= need:
                return 'run'
            time.sleep(0.01 if self.calm else 0.0008)
        return 'stuck'

    def kill(self):
        self.close()
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        os.close(self.r)


def snapshot(base):
    r = {}
    for d, _, fs in os.walk(os.fsencode(base)):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                r[p] = h.read()
    return r


def occurrences(stream, c, limit=1 << 16):
    if not c:
        return []
    r, i = [], stream.find(c)
    while i >= 0 and len(r) < limit:
        r.append(i)
        i = stream.find(c, i + 1)
    return r


def receiver(binary, base, sc, seed, calm):
    out = os.path.join(base, 'out')
    os.mkdir(out)
    for p, b in (('taken', b'x' * 70000), ('../taken', b'old'), ('../outside', b'old'), ('sub/keep', b'old'), ('adir/keep', b'old')):
        q = os.path.join(out, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(b)
    for d, ds, fs in os.walk(base):
        for x in ds + fs:
            os.chown(os.path.join(d, x), NOBODY, NOBODY)
    before = snapshot(base)
    targets = [bytes(t) for t in sc['targets']]
    args = ['-t', '-d', out] if sc['dir'] else ['-t'] + [os.fsdecode(t) for t in targets]
    tr = [{'e': 'recv', 'dir': sc['dir'], 'targets': sc['targets'], 'blocked': [list(b'adir')]}]
    p = Proc(binary, args, base if sc['dir'] else out, calm)
    stream, model, rnd = b'', b'', random.Random(seed)   # as sent; as the model counts it

    def quiet():
        st = p.quiet()
        tr.append({'e': 'quiet', 'acks': p.out.count(0), 'other': len(p.out) - p.out.count(0), 'st': st})
        if st == 'stuck':
            raise Stuck

    try:
        quiet()
        items, data = [], b''

        def flush():
            nonlocal items, data
            if items:
                p.feed(data)
                tr.append({'e': 'feed', 'items': items})
                items, data = [], b''

        for op in sc['ops']:
            if op['k'] == 'b':
                b = bytes(op['b'])
                items.append(op)
                real = b.replace(b'/SCRATCH', os.fsencode(base))
                data += real
                stream += b
            elif op['k'] == 'r':
                b = rnd.randbytes(op['n'])
                items.append(op)
                data += b
                stream += b
            elif op['k'] == 'cut':
                flush()
                quiet()
            else:
                flush()
                quiet()
                p.close()
                tr.append({'e': 'eof'})
                quiet()
    except Stuck:
        pass
    finally:
        p.kill()
    after = snapshot(base)
    files = []
    for q in sorted(set(before) | set(after)):
        if before.get(q) == after.get(q):
            continue
        rel = os.path.relpath(q, os.fsencode(out))
        c = after.get(q)
        files.append({'name': list(rel), 'n': -1 if c is None else len(c), 'at': occurrences(stream, c or b'')})
    # offsets are counted from 0 as in the specification
    tr.append({'e': 'files', 'files': files})
    return tr


def parse_output(b, contents):
    """Lines, whole files and terminators; anything else as raw bytes."""
    out = []
    expect = 'line'
    while b:
        if expect == 'line':
            i = b.find(b'\n')
            if i < 0 or i > 2000:
                out.append({'k': 'raw', 'b': list(b[:100])})
                return out
            out.append({'k': 'line', 'b': list(b[:i + 1])})
            b = b[i + 1:]
            try:
                n = int(out[-1]['b'] and bytes(out[-1]['b']).split(b' ')[1])
            except (ValueError, IndexError):
                n = -1
            expect = 'file'
        elif expect == 'file':
            if n < 0 or len(b) < n:
                out.append({'k': 'raw', 'b': list(b[:100])})
                return out
            c = b[:n]
            out.append({'k': 'file', 'n': n, 'f': [i for i, x in enumerate(contents, 1) if x is not None and x[:n] == c]})
            b = b[n:]
            expect = 'term'
        else:
            out.append({'k': 'term'} if b[:1] == b'\0' else {'k': 'raw', 'b': list(b[:1])})
            b = b[1:]
            expect = 'line'
    return out


def make_files(base, files, seed):
    src = os.path.join(base, 'src')
    os.mkdir(src)
    contents, paths = [], []
    for i, f in enumerate(files):
        d = os.path.join(src, str(i))
        os.mkdir(d)
        q = os.path.join(os.fsencode(d), bytes(f['name']))
        c = None
        if f['n'] >= 0:
            c = content(seed * 100 + i, 1 << 18)   # prefixes of this
            assert f['n'] <= len(c)
            with open(q, 'wb') as h:
                h.write(c[:f['n']])
            os.chmod(q, 0o644)
        contents.append(c)
        paths.append(os.fsdecode(q))
    return contents, paths


def sender(binary, base, sc, seed, calm):
    contents, paths = make_files(base, sc['files'], seed)
    p = Proc(binary, ['-f'] + paths, base, calm)
    tr = [{'e': 'send', 'files': sc['files']}]

    def quiet():
        st = p.quiet()
        tr.append({'e': 'quiet', 'out': parse_output(p.out, contents), 'st': st})
        if st == 'stuck':
            raise Stuck

    try:
        quiet()
        for op in sc['ops']:
            if op['k'] == 'b':
                p.feed(bytes(op['b']))
                tr.append({'e': 'feed', 'items': [op]})
            elif op['k'] == 'resize':
                # what it is now is a prefix of the contents, in place
                q, n = paths[op['f'] - 1], op['n']
                have = os.path.getsize(q)
                if n < have:
                    os.truncate(q, n)
                else:
                    with open(q, 'ab') as h:
                        h.write(contents[op['f'] - 1][have:n])
                tr.append({'e': 'resize', 'f': op['f'], 'n': n})
            elif op['k'] == 'cut':
                quiet()
            else:
                quiet()
                p.close()
                tr.append({'e': 'eof'})
                quiet()
    except Stuck:
        pass
    finally:
        p.kill()
    return tr


def pair(binary, base, sc, seed, calm):
    """A real sender and a real receiver, with a relay that splits what it passes on."""
    files = [f for i, f in enumerate(sc['files']) if f['n'] >= 0 and 10 not in f['name']]
    # one directory: the last file of a name stays
    contents, paths = make_files(base, files, seed)
    out = os.path.join(base, 'out')
    os.mkdir(out)
    os.chown(out, NOBODY, NOBODY)
    rnd = random.Random(seed)
    refuse = rnd.random() < 0.2
    if refuse:
        with open(out + '/f', 'w') as f:
            f.write('in the way')
        os.chmod(out + '/f', 0o444)
        os.chown(out + '/f', NOBODY, NOBODY)
    mode = rnd.choice(['dir', 'paths'])
    if mode == 'dir':
        args = ['-t', '-d', out + ('/f' if refuse else '')]
        fate = 'fail' if refuse else 'ok'
    else:
        args = ['-t'] + [out + ('/f' if refuse else '') + f'/p{i}' for i in range(len(files))]
        fate = 'fail' if refuse and files else 'ok'
    s, r = Proc(binary, ['-f'] + paths, base, calm), Proc(binary, args, base, calm)
    cut = rnd.choice([1 << 20, 8192, 1000, 1])
    sent = back = 0
    end = time.time() + 30
    try:
        idle = 0
        while time.time() < end:
            s.drain()
            r.drain()
            moved = False
            if sent < len(s.out):
                n = min(len(s.out) - sent, cut)
                r.feed(s.out[sent:sent + n])
                sent += n
                moved = True
                if cut == 1 and sent > 3000:
                    cut = 5000
            if back < len(r.out):
                s.feed(r.out[back:])
                back = len(r.out)
                moved = True
            if s.p.poll() is not None and not s.drain() and sent == len(s.out):
                r.close()
            if r.p.poll() is not None and not r.drain() and back == len(r.out):
                s.close()
            if s.p.poll() is not None and r.p.poll() is not None:
                break
            if not moved:
                select.select([s.r, r.r], [], [], 0.002)
        st = ['stuck' if x.p.poll() is None else 'ok' if x.p.returncode == 0 else 'fail' for x in (s, r)]
    finally:
        s.kill()
        r.kill()
    same = True
    if fate == 'ok':
        if mode == 'dir':
            want = {bytes(f['name']): c[:f['n']] for f, c in zip(files, contents)}
        else:
            want = {b'p%d' % i: c[:f['n']] for i, (f, c) in enumerate(zip(files, contents))}
        if refuse:
            want[b'f'] = b'in the way'
        got = {os.path.relpath(k, os.fsencode(out)): v for k, v in snapshot(out).items()}
        same = got == want
    # a refusing receiver also ends the sender; one that is done before the sender starts does not
    want = ['ok', 'ok'] if fate == 'ok' else ['fail', 'fail']
    return [{'e': 'pair', 'st': st, 'want': want, 'same': same, 'files': [f['n'] for f in files], 'mode': mode}]


KIND = {'recv': receiver, 'send': sender, 'pair': pair}


class Stuck(Exception):
    """It neither waits nor ends; the trace says so and the rest of the script is void."""


def is_stuck(tr):
    return any('stuck' in e.get('st', ()) for e in tr)


def one(binary, root, sc, seed, calm=False):
    base = tempfile.mkdtemp(prefix='s', dir=root)
    os.chmod(base, 0o755)
    os.chown(base, NOBODY, NOBODY)
    try:
        return KIND[sc['name']](binary, base, sc, seed, calm)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def directed():
    """Boundaries that random walks reach rarely."""
    b = lambda x: {'k': 'b', 'b': list(x)}
    cut, eof = {'k': 'cut'}, {'k': 'eof'}
    r = []
    # every evil name; each on its own
    for n in (b'../evil', b'..', b'.', b'', b'/SCRATCH/evil', b'sub/evil', b'sub/../evil', b'./x', b'x/', b'/', b'..//evil', b'x/..',
              b'../taken', b'../outside', b'sub/keep', b'a/../../evil', b'/SCRATCH/outside', b'\\..\\x', b'..\\evil', b' ../evil', b'../evil ', b'x/../../outside'):
        for pre in (False, True):
            ops = []
            if pre:
                ops += [b(b'C0644 3 first\n'), {'k': 'r', 'n': 3}, b(b'\0'), cut]
            ops += [b(b'C0644 4 ' + n + b'\n'), cut]
            ops += [eof] if b'/' in n or n in (b'', b'.', b'..') else [{'k': 'r', 'n': 4}, b(b'\0'), cut, eof]
            r.append({'name': 'recv', 'dir': True, 'targets': [], 'files': [], 'ops': ops})
    # sizes around buffers, with every splitting
    for n in (0, 1, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 40960, 65535, 65536, 65537, 98304):
        for way in range(3):
            for d in (True, False):
                ops = []
                for k in range(2):
                    h = b'C0644 %d f%d\n' % (n, k)
                    ops += [b(h)] if way == 0 else [b(h[:4]), cut, b(h[4:]), cut]
                    left = n
                    while left:
                        m = left if way == 0 else min(left, 4096 if way == 1 else 20001)
                        ops.append({'k': 'r', 'n': m})
                        left -= m
                        if way == 2:
                            ops.append(cut)
                    ops += [b(b'\0')] if way == 0 else [cut, b(b'\0'), cut]
                ops += [cut, eof]
                r.append({'name': 'recv', 'dir': d, 'targets': [] if d else [list(b't1'), list(b'taken')], 'files': [], 'ops': ops})
    # ends early at every point
    full = [b(b'C'), b(b'0644 5'), b(b' n\n'), {'k': 'r', 'n': 2}, {'k': 'r', 'n': 3}, b(b'\0'), b(b'C0644 0 m\n'), b(b'\0')]
    for i in range(len(full) + 1):
        for d in (True, False):
            r.append({'name': 'recv', 'dir': d, 'targets': [] if d else [list(b't1'), list(b't2')], 'files': [], 'ops': full[:i] + [eof]})
    # byte by byte, one at a time
    for d in (True, False):
        ops = []
        for x in (b'C0644 5 one\n', b'hello\0', b'C0644 0 two\n', b'\0'):
            for i in range(len(x)):
                ops += [b(x[i:i + 1]), cut]
        r.append({'name': 'recv', 'dir': d, 'targets': [] if d else [list(b't1'), list(b't2')], 'files': [], 'ops': ops + [eof]})
        ops = [b(b'C'), cut, b(b'0644 5 one\nhello\0C'), cut, b(b'0600 3 two\nabc'), cut, b(b'\0'), cut]
        r.append({'name': 'recv', 'dir': d, 'targets': [] if d else [list(b't1'), list(b't2')], 'files': [], 'ops': ops + [eof]})
    # wrong terminators
    for t in (b'\x01', b'\x02', b'C', b'\n', b'\xff', b'0'):
        for n in (0, 3):
            ops = [b(b'C0644 %d n\n' % n)] + ([{'k': 'r', 'n': n}] if n else []) + [b(t), cut, eof]
            r.append({'name': 'recv', 'dir': True, 'targets': [], 'files': [], 'ops': ops})
    # senders: files around the buffer, refused at each acknowledgement
    F = lambda n, s: {'name': list(n), 'n': s}
    for n in (0, 1, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 250001):
        fs = [F(b'one', n), F(b'two words', 3), F(b'x', n)]
        r.append({'name': 'send', 'dir': True, 'targets': [], 'files': fs, 'ops': [b(b'\0'), cut] * 7 + [eof]})
        r.append({'name': 'pair', 'dir': True, 'targets': [], 'files': fs, 'ops': []})
    # files that change after the header
    for m in (0, 1, 9, 10, 11, 40000, 70000):
        for n in (10, 40000, 70000):
            for i, k in ((1, 1), (3, 2)):
                ops = [b(b'\0'), cut] * i + [{'k': 'resize', 'f': k, 'n': m}] + [b(b'\0'), cut] * 6 + [eof]
                r.append({'name': 'send', 'dir': True, 'targets': [], 'files': [F(b'one', n), F(b'two', n)], 'ops': [cut] + ops})
    for i in range(6):
        for stop in (b'\x01', b'\x02', b'\xff', None):
            ops = [b(b'\0'), cut] * i + ([b(stop), cut] if stop else []) + [eof]
            r.append({'name': 'send', 'dir': True, 'targets': [], 'files': [F(b'one', 10), F(b'two', 0)], 'ops': ops})
    return r


def run(ck):
    ex = ThreadPoolExecutor(4)
    target = os.path.join(VERIF, 'harness', 'target', 'repo')
    built = ex.submit(ck.cargo, ['-p', 'nora_scp'], lib.REPO, target)
    fams = {'C22': [('recv', pick(1500, 20000)), ('send', pick(100, 1000))], 'C23': [('recv', pick(200, 2000)), ('send', pick(1000, 15000))]}[ck.pid]

    def gen(f, n):
        o = ck.path(f'gen-{f}.jsonl')
        ck.tlc('gen-' + f, 'GenScp.tla', 'GenScp.cfg', {'FAM': f, 'OUT': o},
               ['-simulate', f'num={n}', '-depth', '500', '-seed', str(SEED), '-workers', '1'], timeout=3000, heap='2g')
        return [json.loads(l) for l in open(o)]
    scripts = directed()
    for s in list(ex.map(lambda a: gen(*a), fams)):
        scripts += s
    pairs = [dict(s, name='pair') for s in scripts if s['name'] == 'send' and s['ops']]
    scripts += pairs[:pick(60 if ck.pid == 'C23' else 20, 600)]
    built.result()
    root = tempfile.mkdtemp(prefix='nora-scp-')
    try:
        os.chmod(root, 0o755)
        binary = os.path.join(root, 'nora_scp')
        shutil.copy(os.path.join(target, 'debug', 'nora_scp'), binary)
        os.chmod(binary, 0o755)
        log(len(scripts), 'scripts')
        with ThreadPoolExecutor(8) as pool:
            stuck = []

            def go(a):
                # enough is known
                if len(stuck) > 7:
                    return None
                t = one(binary, root, a[1], SEED * 100000 + a[0])
                if is_stuck(t):
                    stuck.append(a[0])
                return t
            traces = list(pool.map(go, enumerate(scripts)))
        left = [i for i, t in enumerate(traces) if t is not None]
        if len(left) < len(scripts):
            ck.notes.append(f'{len(stuck)} scripts are stuck; {len(scripts) - len(left)} were not run')
            scripts, traces = [scripts[i] for i in left], [traces[i] for i in left]
        log('replayed')
        tf = ck.path('traces.jsonl')

        def write(idx, f):
            with open(f, 'w') as o:
                for i in idx:
                    o.write(json.dumps({'name': scripts[i]['name'], 'trace': traces[i]}) + '\n')
        everything = range(len(scripts))
        write(everything, tf)
        bad = lib.validate(ck, 'validate', 'TraceScp.tla', 'TraceScp.cfg', tf, len(scripts), ['C22', 'C23'], timeout=pick(700, 6000))
        if bad:
            # once more, slowly and alone: only what happens again counts
            again = sorted((t - 1 for t in bad), key=lambda i: is_stuck(traces[i]))
            again = again[:30] if not any(is_stuck(traces[i]) for i in again[:30]) else again[:10]
            for i in again:
                traces[i] = one(binary, root, scripts[i], SEED * 100000 + left[i], calm=True)
            f2 = ck.path('again.jsonl')
            write(again, f2)
            bad2 = lib.validate(ck, 'validate-again', 'TraceScp.tla', 'TraceScp.cfg', f2, len(again), ['C22', 'C23'], timeout=pick(700, 6000))
            log(len(bad), 'rejected,', len(bad2), 'again')
            for t, (l, labels, why) in sorted(bad2.items()):
                i = again[t - 1]
                ev = traces[i][l - 1] if 0 < l <= len(traces[i]) else None
                text = f'{scripts[i]["name"]}, event {l}: {"; ".join(why)} {labels} {json.dumps(ev)[:300]}'
                if ck.pid in labels and len(ck.violations) < 5:
                    ck.violation({'property': ck.pid, 'script': scripts[i], 'reasons': why, 'labels': labels, 'trace': traces[i][:l]}, text)
                elif ck.pid not in labels:
                    ck.notes.append('another property is broken: ' + text)
        ck.traces += len(scripts) - len(bad)
        if ck.notes and 'were not run' in ck.notes[0] and not ck.violations and not any('another property' in n for n in ck.notes):
            raise ToolError(ck.notes[0])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    kinds = {}
    for t in traces:
        for e in t:
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
    ck.extra.update(events=sum(kinds.values()), event_kinds=kinds,
                    scripts={k: sum(s['name'] == k for s in scripts) for k in KIND})
    for i in (0, max(0, len(scripts) - 100), len(scripts) - 1):
        ck.sample({'script': {**scripts[i], 'ops': scripts[i]['ops'][:12]}, 'trace': traces[i][:8]})
    ck.assumptions = ['a process that sleeps with an empty input pipe waits for input (a rejected run is repeated slowly before it is reported)']
    ck.models([('MCScp.tla', pick('MCScp.cfg', 'MCScpBig.cfg'))])
    ck.sensitive([('MCScp.tla', 'MCScp.cfg', 'NeverBoth')])
