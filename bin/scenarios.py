"""Directed scripts: boundary values and systematic enumerations that random walks
of the specification reach rarely. The specification judges them like all others."""
from lib import THOROUGH, pick

RUN = {'op': 'run'}


def login(c=1, **k): return dict(op='login', c=c, **k)
def shell(c=1, **k): return dict(op='shell', c=c, **k)
def send(i, c=1, **k): return dict(op='send', c=c, i=i, **k)
def msg(t, c=1, f=None, **k): return dict(op='send', c=c, i='msg', t=t, f=f or {}, **k)
def out(p, s, n): return dict(op='out', p=p, s=s, n=n)
def S(name, *ops): return {'name': name, 'ops': list(ops)}


def flat(x):
    r = []
    for o in x:
        r += o if isinstance(o, list) else [o]
    return r


def auth_none(user, c=1): return msg('AuthNone', c, dict(user=user, service='ssh-connection'))
def auth_pw(user, pw, c=1): return msg('AuthPassword', c, dict(user=user, service='ssh-connection', password=pw))


def pk(user, alg, keylen, siglen=None, c=1, seed=1):
    o = send('pk', c, user=user, service='ssh-connection', alg=alg, key=dict(fill=keylen, seed=seed))
    if siglen is not None:
        o['sig'] = dict(fill=siglen, seed=seed + 1)
    return o


ECDH = send('ecdh')
NEWKEYS = msg('NewKeys')
SERVICE = msg('ServiceRequest', f=dict(name='ssh-userauth'))
LINE = send('line', s='SSH-2.0-peer')
KEX = send('kexinit')
CONNECT = dict(op='connect', c=1)
HANDSHAKE = [CONNECT, LINE, KEX, ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN]


# -- handshakes ---------------------------------------------------------------
def many_handshakes(n):
    """Shared secrets and signatures with leading zeros appear with probability 1/256."""
    return [S('many_hs', login(), shell(), RUN) for _ in range(n)]


def kex_lists():
    r = []
    k, h, e = 'curve25519-sha256', 'ecdsa-sha2-nistp256', 'chacha20-poly1305@openssh.com'
    for field, good in (('kex', k), ('hostkey', h), ('enc_cs', e), ('enc_sc', e)):
        for v in (good + ',x', 'x,' + good, 'x,y,' + good + ',z', 'x', '', good[:-1], good + 'x', 'x' + good, good.upper(), good + ',' + good, ','.join(['y'] * 40 + [good])):
            for follows in (False, True):
                f = {field: v, 'follows': follows}
                r.append(S('kex_' + field, CONNECT, LINE, send('kexinit', f=f), RUN, ECDH, RUN, ECDH, RUN, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
                r.append(S('kex_' + field, CONNECT, LINE, send('kexinit', f=f), ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
    # fields that are not negotiated
    for field in ('mac_cs', 'mac_sc', 'cmp_cs', 'cmp_sc', 'lang_cs', 'lang_sc'):
        for v in ('', 'x', 'none', 'zlib,none', 'a,b,c'):
            r.append(S('kex_' + field, CONNECT, LINE, send('kexinit', f={field: v}), ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
    for f in ({'kex': 'a' * n + ',' + k} for n in (200, 255, 256, 1000, 10000, 30000)):
        r.append(S('kex_long', CONNECT, LINE, send('kexinit', f=f), RUN, ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
    for cookie in ([0] * 16, [255] * 16, [200, 1] * 8):
        r.append(S('kex_cookie', CONNECT, LINE, send('kexinit', f={'cookie': cookie}), ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
    return r


def ident_lines():
    r = []
    tail = [KEX, ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN]
    for n in list(range(8, 20)) + list(range(245, 262)) + [300, 511, 512, 513, 1000]:
        r.append(S('ident_len', CONNECT, send('line', s='SSH-2.0-', fill=n), RUN, *tail))
    for n in [0, 1, 2, 3, 4, 5, 7, 8, 250, 251, 252, 253, 254, 255, 256, 257, 258, 400, 2000]:
        r.append(S('ident_pre', CONNECT, send('line', s='', fill=n), RUN, LINE, RUN, *tail))
        r.append(S('ident_pre2', CONNECT, send('line', s='', fill=n), send('line', s='', fill=n), LINE, *tail))
    for s in ('SSH-1.99-x', 'SSH-2.1-x', 'SSH-1.5-', 'SSH-2.0', 'SSH-2.00-', 'SSH-22.0-', 'SSH- 2.0-x', 'SSH-2-0-x', 'SSH-2.0_x', 'ssh-2.0-x', 'SSh-2.0-x',
              'xSSH-2.0-a', ' SSH-2.0-a', 'SSH2.0-a', 'SS', 'SSH', 'S', 'SSH-2.0- spaces in it ', 'SSH-2.0--', 'SSH-2.0-a-b'):
        r.append(S('ident_form', CONNECT, send('line', s=s), RUN, LINE, RUN, *tail))
    B = lambda s: list(s.encode('latin1'))
    for s in ('\r', '\n', '\r\r', '\rSSH-2.0-x', '\nSSH-2.0-x', 'a\rSSH-2.0-x', 'a\nSSH-2.0-x', 'SSH\r-2.0-x', 'SSH-2.0-\rx', 'SSH-2.0-x\r', 'SSH-2.0-x\ny', 'SSH-2.0-\n', 'SSH-2.0-x\r\r', 'SSH-2.0-x\r\ry', 'SSH-2.0-\r\r\r', 'SSH-2.0-a\rb\r\rc\r',
              'S\rSSH-2.0-', 'SS\rSH-2.0-', '\xff\xfe', 'SSH-2.0-\xff\x80', '\0', 'SSH-2.0-\0'):
        r.append(S('ident_ctl', CONNECT, send('line', s=B(s)), RUN, LINE, RUN, *tail))
        r.append(S('ident_ctl1', dict(op='connect', c=1), dict(op='rmode', c=1, n=1, **{'yield': True}), send('line', s=B(s)), RUN, LINE, RUN, *tail))
    # many lines before it
    for n, f in ((60, 3), (300, 0), (1100, 1), (20, 5000)):
        r.append(S('ident_many', CONNECT, *[send('line', s='', fill=f)] * n, LINE, RUN, *tail))
    r.append(S('ident_huge', CONNECT, send('line', s='x', fill=100000), LINE, RUN, *tail))
    # line in pieces
    for cut in range(0, 13):
        r.append(S('ident_cut', CONNECT, send('line', s='SSH-2.0-peer', cut=cut), RUN, dict(op='rest', c=1), RUN, *tail))
    return r


def ecdh_keys():
    small = [[0] * 32, [1] + [0] * 31, [236] + [255] * 30 + [127], [237] + [255] * 30 + [127], [238] + [255] * 30 + [127],
             [0] * 31 + [128], [1] + [0] * 30 + [128],
             [224, 235, 122, 124, 59, 65, 184, 174, 22, 86, 227, 250, 241, 159, 196, 106, 218, 9, 141, 235, 156, 50, 177, 253, 134, 98, 5, 22, 95, 73, 184, 0],
             [95, 156, 149, 188, 163, 80, 140, 36, 177, 208, 177, 85, 156, 131, 239, 91, 4, 68, 92, 196, 88, 28, 142, 134, 216, 34, 78, 221, 208, 159, 17, 87]]
    r = []
    for q in small:
        r.append(S('ecdh_small', CONNECT, LINE, KEX, msg('EcdhInit', f=dict(q=q)), RUN, NEWKEYS, RUN, dict(op='connect', c=2), RUN, login(3), RUN))
    for n in list(range(0, 70)) + [128, 255, 256, 1000]:
        if n != 32:
            r.append(S('ecdh_len', CONNECT, LINE, KEX, msg('EcdhInit', f=dict(q=dict(fill=n, seed=3))), RUN, login(2), RUN))
    for add, trunc in (([0], 0), ([1, 2, 3], 0), ([], 1), ([], 5), ([], 33)):
        r.append(S('ecdh_bytes', CONNECT, LINE, KEX, send('ecdh', add=add, trunc=trunc), RUN, login(2), RUN))
    r.append(S('ecdh_hibit', CONNECT, LINE, KEX, send('ecdh', hibit=True), NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN))
    return r


def wrong_order():
    """Every message in every phase of the handshake and of the authentication."""
    alls = [LINE, KEX, ECDH, NEWKEYS, SERVICE, auth_none('u'), auth_pw('u', 'p'), pk('u', 'a', 5), send('open', win='1', max='1'),
            send('exec', num='0', cmd='x', reply=True), send('data', num='0', n=3), send('eof', num='0'), send('close', num='0'),
            send('adjust', num='0', n='5'), msg('Ignore', f=dict(data='x')), msg('Debug', f=dict(display=True, message='a', language='b')),
            msg('Unimplemented', f=dict(seq='1')), msg('Disconnect', f=dict(reason='1', description='', language='')),
            msg('AuthSuccess'), msg('AuthFailure', f=dict(methods='a', partial=False)), msg('AuthBanner', f=dict(message='a', language='')),
            msg('ServiceAccept', f=dict(name='ssh-userauth')), msg('Success', f=dict(recipient='0')), msg('Failure', f=dict(recipient='0')),
            msg('OpenConf', f=dict(recipient='0', sender='0', window='1', maxpkt='1', data='')),
            msg('OpenFail', f=dict(recipient='0', reason='1', description='', language='')),
            msg('ExtData', f=dict(recipient='0', type='1', data='x')), msg('AuthPkOk', f=dict(alg='a', blob='b')),
            msg('EcdhReply', f=dict(key=['a', 'b', 'c'], q='q', sig=['a', 'b', 'c'])),
            send('raw', b=[]), send('raw', b=[0]), send('raw', b=[255]), send('raw', b=[20]), send('raw', b=[30]), send('raw', b=[21, 0]), send('raw', b=[80, 0, 0, 0, 1, 97, 1]),
            send('junk', b=dict(fill=64, seed=5)), send('junk', b=[0] * 64), send('junk', b=[255] * 64),
            msg('ServiceRequest', f=dict(name='ssh-connection')), msg('ServiceRequest', f=dict(name=''))]
    phases = [[CONNECT], [CONNECT, LINE], [CONNECT, LINE, KEX], [CONNECT, LINE, KEX, ECDH], [CONNECT, LINE, KEX, ECDH, RUN, NEWKEYS],
              [CONNECT, LINE, KEX, ECDH, RUN, NEWKEYS, SERVICE], HANDSHAKE, HANDSHAKE + [shell()]]
    r = []
    for i, ph in enumerate(phases):
        for m in alls:
            for tail in ([RUN], [RUN, auth_none('v'), RUN, send('open', win='9', max='9'), RUN]):
                r.append(S(f'order{i}', dict(op='auto', on=True), *ph, RUN, m, *tail, login(2), shell(2), out(1, 1, 5), RUN))
    return r


def truncated():
    """The bytes stop at every position, then the peer hangs up, with a bystander."""
    r = []
    seqs = [LINE, KEX, ECDH, NEWKEYS, SERVICE, auth_none('user'), send('open', win='100', max='100'), send('exec', ch=0, cmd='abc', reply=True), send('data', ch=0, n=20)]
    for i, m in enumerate(seqs):
        for cut in (list(range(0, 48)) if i else list(range(13))):
            for end in ('hangup', 'rerr'):
                if end == 'rerr' and cut % 4:
                    continue
                ops = [CONNECT]
                for x in seqs[:i]:
                    ops += [x, RUN]
                r.append(S(f'cut{i}', dict(op='auto', on=True), *ops, dict(m, cut=cut), RUN, dict(op=end, c=1), RUN, login(2), shell(2), RUN))
    return r


# -- packets -------------------------------------------------------------------
def flips():
    """Every bit of a packet."""
    r = []
    for k, m in (('req', send('exec', ch=0, cmd='ab', reply=True)), ('open', send('open', win='100', max='100')), ('close', send('close', ch=0)), ('auth', None)):
        n = {'req': 70, 'open': 60, 'close': 40, 'auth': 80}[k] * 8
        for bit in range(0, n, 1 if k == 'req' else pick(5, 1)):
            if k == 'auth':
                pre = [dict(op='svc', c=1)]
                m = auth_pw('u', 'pw')
            else:
                pre = [login(), send('open', win='1000', max='1000'), RUN]
            r.append(S('flip_' + k, *pre, dict(m, flip=bit), RUN, m, RUN, login(2), RUN))
    return r


FORGE = ('plain', 'zerotag', 'bodytag', 'plaintag', 'before', 'after', 'first', 'reflect', 'head', 'halftag', 'nokey')


def forged():
    """Packets that are not genuine although their length field is, in every phase that is encrypted."""
    r = []
    seqs = [SERVICE, auth_pw('user', 'pw'), send('open', win='100', max='100'), send('exec', ch=0, cmd='abc', reply=True), send('data', ch=0, n=20), send('adjust', ch=0, n='5'), msg('Ignore', f=dict(data='x')), send('eof', ch=0), send('close', ch=0)]
    for i, m in enumerate(seqs):
        ops = [CONNECT, LINE, KEX, ECDH, NEWKEYS, RUN]
        for x in seqs[:i]:
            ops += [x, RUN]
        for f in FORGE:
            r.append(S('forge_' + f, *ops, dict(m, forge=f), RUN, m, RUN, auth_none('u'), RUN, send('open', win='9', max='9'), RUN, login(2), RUN))
    return r


def framing():
    """Intact packets of every padding length and with lengths that are not allowed, in every phase."""
    r = []
    seqs = [KEX, ECDH, NEWKEYS, SERVICE, auth_pw('user', 'pw'), send('open', win='100', max='100'), send('exec', ch=0, cmd='abc', reply=True), send('data', ch=0, n=20), send('close', ch=0)]
    for i, m in enumerate(seqs):
        ops = [CONNECT, LINE]
        for x in seqs[:i]:
            ops += [x, RUN]
        tail = [RUN, auth_none('u'), RUN, send('open', win='9', max='9'), RUN, login(2), shell(2), out(1, 1, 5), RUN]
        fr = [dict(fpad=p) for p in list(range(-8, 0)) + list(range(4, 256, pick(9, 1)))] + [dict(flen=d) for d in list(range(-40, 40, pick(3, 1))) + [-8, 8, 200]]
        fr += [dict(flen=-10000), dict(flen=-10000, fpad=0)] + [dict(flen=f, fpad=p) for f in (-8, 8, 64) for p in (-3, -2, -1, 4, 11)] + [dict(pad=n) for n in (1, 5, 30)]
        lens = list(range(0, 72, pick(5, 1))) + [v + d for v in (255, 256, 4096, 16384, 32768, 34976, 35000, 65536, 1 << 17, 1 << 24, 1 << 31, (1 << 32) - 20)
                                                for d in (range(-24, 17) if v in (34976, 35000, 65536) else (-1, 0, 4))]
        r += [S(f'length{i}', *ops, dict(m, **({'len': str(v), 'must': v > 65536 or v < 8} if i < 3 else {'slen': str(v)})), RUN, dict(op='hangup', c=1), *tail) for v in lens]
        for f in fr:
            r.append(S(f'frame{i}', *ops, dict(m, **f), *tail))
    return r


def replays():
    r = []
    ms = [send('exec', ch=0, cmd='ab', reply=True), send('open', win='100', max='100'), send('data', ch=0, n=10), send('close', ch=0), send('eof', ch=0), msg('Ignore', f=dict(data='x'))]
    for a in ms:
        for kind in ('dup', 'drop', 'swap'):
            for b in ms:
                r.append(S(kind, login(), send('open', win='1000', max='1000'), RUN, dict(a, **{kind: True}), b, RUN, b, RUN))
    return r


def fragments():
    """Inbound packets in two pieces cut at every position, with activity of the server in between."""
    r = []
    for m in (send('exec', ch=1, cmd='ab', reply=True), send('data', ch=0, n=30)):
        for cut in range(0, 75):
            r.append(S('frag', login(), shell(), send('open', win='1000', max='1000'), RUN, dict(m, cut=cut), RUN, out(1, 1, 40), RUN, out(1, 2, 4), RUN,
                       dict(op='rest', c=1, n=2), out(1, 1, 3), RUN, dict(op='rest', c=1), RUN, send('data', ch=0, n=5), RUN))
    for n in (1, 2, 3, 5, 7, 16, 64):
        for y in (False, True):
            r.append(S('slow', dict(op='connect', c=1), dict(op='rmode', c=1, n=n, **{'yield': y}), *HANDSHAKE[1:], shell(), RUN, send('data', ch=0, n=300), out(1, 1, 500), RUN,
                       send('eof', ch=0), RUN))
            r.append(S('sloww', dict(op='connect', c=1), dict(op='wmode', c=1, n=n, **{'yield': y}), *HANDSHAKE[1:], shell(), RUN, send('data', ch=0, n=300), out(1, 1, 500), RUN,
                       send('eof', ch=0), RUN))
    return r


def blocked():
    """The transport accepts k bytes and then blocks, while several senders are active."""
    r = []
    for k in list(range(0, 130, pick(3, 1))):
        for y in (False, True):
            r.append(S('blocked', login(), shell(), shell(), RUN, dict(op='wmode', c=1, n=5 if y else 0, **{'yield': y}), dict(op='cap', c=1, n=k),
                       out(1, 1, 60), out(2, 1, 70), out(2, 2, 10), send('data', ch=0, n=30), send('data', ch=1, n=20), send('exec', ch=1, cmd='x', reply=True), RUN,
                       out(1, 2, 9), dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='3'), RUN,
                       dict(op='cap', c=1, n=17, add=True), RUN, dict(op='cap', c=1, n=-1), RUN, send('data', ch=1, n=20), out(2, 1, 3), RUN))
    for k in range(0, 700, pick(23, 3)):
        r.append(S('blocked_hs', CONNECT, dict(op='cap', c=1, n=k), LINE, KEX, ECDH, RUN, dict(op='cap', c=1, n=-1), RUN, NEWKEYS, SERVICE, RUN, auth_none('u'), RUN, shell(), RUN))
        r.append(S('blocked_drop', CONNECT, dict(op='cap', c=1, n=k), LINE, KEX, ECDH, RUN, dict(op='hangup', c=1), RUN, login(2), dict(op='cap', c=1, n=-1), RUN))
    return r


def seq_wrap(big):
    """More packets than an 8 or 16 bit sequence number can count."""
    r = [S('seq_in', login(), dict(op='flood', c=1, n=300), RUN, shell(), send('data', ch=0, n=5), RUN),
         S('seq_out', login(), shell(win='5000', max='1'), out(1, 1, 700), RUN, send('data', ch=0, n=5), RUN)]
    if big:
        r.append(S('seq_in16', login(), dict(op='flood', c=1, n=66000), RUN, shell(), send('data', ch=0, n=5), RUN))
        r.append(S('seq_out16', login(), shell(win='100000', max='1'), out(1, 1, 66000), RUN, send('data', ch=0, n=5), RUN))
    return r


# -- authentication -------------------------------------------------------------
def auth_sizes():
    r = []
    for n in (0, 1, 3, 4, 31, 32, 33, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4096, 16000, 30000):
        r.append(S('auth_size', dict(op='svc', c=1), pk('u', 'ssh-ed25519', n), RUN, pk('u', 'ssh-ed25519', n, 64), RUN))
        r.append(S('auth_size', dict(op='svc', c=1), pk('nope', 'ssh-rsa', n), RUN, pk('nope', 'ssh-rsa', 20, n), RUN, pk('nope', 'ssh-rsa', min(n, 15000), min(n, 15000)), RUN, auth_pw('u', dict(fill=n, seed=2)), RUN))
        r.append(S('auth_size', dict(op='svc', c=1), auth_pw('nope', dict(fill=n, seed=2)), RUN, auth_none(dict(fill=n, ascii=1, seed=4)), RUN))
        r.append(S('auth_size', dict(op='svc', c=1), pk(dict(fill=n, ascii=1, seed=4), 'ssh-ed25519', 32, 64), RUN))
        if n < 10000:
            alg = 'a' * n
            r.append(S('auth_size', dict(op='svc', c=1), pk('u', alg, 40), RUN, pk('u', alg, 40, 64), RUN))
    return r


def auth_odd():
    """Public keys and signatures with every kind of broken encoding."""
    r = []
    st = lambda b: {'str': b}
    cat = lambda *p: {'cat': list(p)}
    blobs = [[], [0], [0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0], cat(st('alg')), cat(st('alg'), [0, 0, 0]), cat(st('alg'), [0, 0, 0, 2, 1]), cat(st('alg'), st('k'), [0]),
             cat(st('alg'), st('k'), st('k')), cat(st('al'), st('k')), cat(st('alg1'), st('k')), cat(st('ALG'), st('k')), cat(st(''), st('k')), cat(st('other'), st('k')),
             [255, 255, 255, 255], cat(st('alg'), [255, 255, 255, 255]), cat([128, 0, 0, 3], 'alg', st('k'))]
    good = cat(st('alg'), st('k'))
    for b in blobs:
        for user in ('u', 'nope'):
            r.append(S('blob', dict(op='svc', c=1), send('pk', user=user, service='s', alg='alg', blob=b), RUN, auth_none('v'), RUN))
            r.append(S('blob', dict(op='svc', c=1), send('pk', user=user, service='s', alg='alg', blob=b, sig='s'), RUN, auth_none('v'), RUN))
            r.append(S('sig', dict(op='svc', c=1), send('pk', user=user, service='s', alg='alg', blob=good, sig='s', sigblob=b), RUN, auth_none('v'), RUN))
    # malformed requests of every kind
    for m in (auth_none('u'), auth_pw('u', 'p'), pk('u', 'a', 5), pk('u', 'a', 5, 5)):
        for t in range(1, 40):
            r.append(S('auth_trunc', dict(op='svc', c=1), dict(m, trunc=t), RUN, auth_none('v'), RUN))
        r.append(S('auth_add', dict(op='svc', c=1), dict(m, add=[0]), RUN, auth_none('v'), RUN))
        for v in range(0, 256, pick(5, 1)):
            for at in (0, 1, 4, 9):
                r.append(S('auth_set', dict(op='svc', c=1), dict(m, set=[at, v]), RUN, auth_none('v'), RUN))
    return r


def auth_many():
    r = []
    fails = []
    for i in range(60):
        fails += [auth_pw('nope', f'pw{i}'), pk('nope', 'ssh-ed25519', 32, 64, seed=i)]
        if i % 3 == 0:
            fails.append(RUN)
    r.append(S('auth_many', dict(op='svc', c=1), *fails, RUN, auth_pw('u', 'x'), RUN, auth_pw('v', 'y'), auth_none('w'), pk('z', 'a', 4, 5), pk('z', 'a', 4), RUN, shell(), RUN))
    # far more attempts than anybody needs
    ops = []
    for i in range(pick(1100, 5000)):
        ops.append([auth_none('nope'), auth_pw('nope', 'x'), pk('nope', 'g', 8), pk('nope', 'g', 8, 8)][i % 4 if i < 800 else 1])
        if i % 50 == 0:
            ops.append(RUN)
    r.append(S('auth_long', dict(op='svc', c=1), *ops, RUN, auth_pw('u', 'x'), RUN, shell(), RUN))
    # pipelined: requests behind one that is undecided
    for verdicts in ([False, True], [True], [False, False, True], [True, False]):
        r.append(S('auth_pipe', dict(op='auto', on=False), dict(op='svc', c=1), auth_pw('a', '1'), auth_pw('b', '2'), pk('c', 'g', 8), pk('d', 'g', 8, 8), send('open', win='9', max='9'), RUN,
                   *flat([[dict(op='resolve', ok=v), RUN] for v in verdicts]), RUN))
    # two connections authenticate at the same time
    for order in ('ab', 'ba'):
        for va in (True, False):
            for vb in (True, False):
                r.append(S('auth_two', dict(op='auto', on=False), dict(op='svc', c=1), dict(op='svc', c=2), auth_pw('a', '1', 1), auth_pw('b', '2', 2), RUN,
                           dict(op='resolve', ok=va), RUN, dict(op='resolve', ok=vb), RUN, send('open', 1, win='9', max='9'), send('open', 2, win='9', max='9'), RUN))
    for m in ('keyboard-interactive', 'gssapi-with-mic', '', 'NONE', 'Password', 'none ', 'publickeys', 'passwor'):
        r.append(S('auth_method', dict(op='svc', c=1), msg('AuthOther', f=dict(user='u', service='s', method=m, data=dict(fill=9))), RUN, auth_none('u'), RUN))
        r.append(S('auth_method', dict(op='svc', c=1), msg('AuthOther', f=dict(user='u', service='s', method=m, data='')), RUN, auth_none('u'), RUN))
    return r


# -- channels ----------------------------------------------------------------------
def many_channels():
    r = []
    n = pick(300, 700)
    ops = [login()]
    for i in range(n):
        ops.append(send('open', win=str(i), max='1000'))
        if i % 7 == 0:
            ops.append(RUN)
    ops.append(RUN)
    for i in range(0, n, 11):
        ops.append(send('close', ch=i))
    ops.append(RUN)
    for i in range(n // 11):
        ops += [send('open', win='50', max='1000')]
    ops += [RUN, send('exec', ch=n + 2, cmd='x', reply=True), send('exec', ch=5, cmd='y', reply=True), send('exec', ch=n - 2, cmd='z', reply=True), RUN, out(1, 1, 10), out(2, 1, 4), out(3, 2, 10), RUN]
    r.append(S('many_channels', *ops))
    # same number of the peer on several channels, also of other connections
    for peers in (['7', '7'], ['0', '0', '0'], ['4294967295', '0']):
        ops = [login(1), login(2)]
        for c in (1, 2):
            for x in peers[:1]:
                ops += [send('open', c, win='100', max='100', peer=x), RUN]
        ops += [send('exec', 1, ch=0, cmd='a', reply=True), send('exec', 2, ch=0, cmd='b', reply=True), RUN, out(1, 1, 5), out(2, 1, 5), RUN, send('data', 1, ch=0, n=3), send('data', 2, ch=0, n=4), RUN,
                send('close', 1, ch=0), RUN, out(1, 1, 3), out(2, 1, 3), RUN]
        r.append(S('peer_numbers', *ops))
    # reuse of a number while the process of the old channel still runs
    for order in range(6):
        ops = [login(), shell(win='50'), shell(win='50'), RUN, out(1, 1, 10), RUN, send('close', ch=0), RUN, send('open', win='20', max='9'), RUN]
        ops += [[out(1, 1, 5), send('exec', ch=2, cmd='new', reply=True)], [send('exec', ch=2, cmd='new', reply=True), out(1, 1, 5)],
                [dict(op='exit', p=1, st='4'), send('exec', ch=2, cmd='new', reply=True)],
                [send('exec', ch=2, cmd='new', reply=True), dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='4')],
                [send('data', ch=2, n=7), send('exec', ch=2, cmd='new', reply=True)],
                [send('close', ch=2), out(1, 2, 3)]][order]
        ops += [RUN, out(3, 1, 30), RUN, send('data', ch=2, n=6), send('data', ch=1, n=6), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='9'), RUN,
                dict(op='exit', p=3, st='8'), dict(op='oeof', p=3, s=1), dict(op='oeof', p=3, s=2), RUN, send('adjust', ch=2, n='100'), RUN]
        r.append(S('reuse', *ops))
    # numbers that are not open
    for num in ('0', '1', '2', '255', '256', '65536', '4294967295', '2147483648'):
        for m in (send('exec', num=num, cmd='x', reply=True), send('data', num=num, n=1), send('data', num=num, n=0), send('eof', num=num), send('adjust', num=num, n='1'), send('close', num=num), send('shell', num=num, reply=False)):
            r.append(S('not_open', login(), send('open', win='9', max='9'), RUN, send('close', ch=0), RUN, m, RUN, send('open', win='9', max='9'), RUN))
            r.append(S('not_open1', login(), send('open', win='9', max='9'), RUN, m, RUN, send('open', win='9', max='9'), RUN))
    for ty in ('session', 'Session', 'sessions', 'sessio', '', 'x11', 'direct-tcpip', 'forwarded-tcpip', 'session ', 'tun@openssh.com'):
        r.append(S('types', login(), send('open', win='9', max='9', ty=ty), RUN, send('open', win='9', max='9'), RUN, send('exec', ch=1, cmd='x', reply=True), RUN))
    return r


def requests():
    r = []
    for n in (0, 1, 2, 100, 127, 128, 250, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 10000, 32000):
        r.append(S('cmd_len', login(), send('open', win='99', max='99'), RUN, send('exec', ch=0, cmd=dict(fill=n, seed=7), reply=True), RUN, out(1, 1, 3), RUN))
    for cmd in ('ls', ' ls ', 'a\tb', 'x' * 48, [0], [255, 254], [10, 13], [0, 65, 0]):
        r.append(S('cmd', login(), send('open', win='99', max='99'), RUN, send('exec', ch=0, cmd=cmd, reply=True), RUN))
    kinds = [send('exec', ch=0, cmd='x'), send('exec', ch=0, cmd='nope'), send('shell', ch=0), send('req', ch=0, ty='env', data=[0, 0, 0, 1, 97, 0, 0, 0, 1, 98]),
             send('req', ch=0, ty='pty-req', data={'cat': [{'str': 'xterm'}, [0, 0, 0, 80, 0, 0, 0, 24, 0, 0, 0, 0, 0, 0, 0, 0], {'str': [0]}]}),
             send('req', ch=0, ty='subsystem', data={'str': 'sftp'}), send('req', ch=0, ty='signal', data={'str': 'KILL'}),
             send('req', ch=0, ty='exit-status', data=[0, 0, 0, 1]), send('req', ch=0, ty='window-change', data=[0] * 16), send('req', ch=0, ty='xon-xoff', data=[1]),
             send('req', ch=0, ty='exec', data=[]), send('req', ch=0, ty='exec', data=[0, 0, 0, 5, 97]), send('req', ch=0, ty='exec', data=[0, 0, 0, 1, 97, 0]), send('req', ch=0, ty='shell', data=[0]),
             send('req', ch=0, ty='x11-req', data=[0, 0, 0, 0, 1, 97, 0, 0, 0, 1, 98, 0, 0, 0, 0]), send('req', ch=0, ty='', data=[]), send('req', ch=0, ty='exit-signal', data={'cat': [{'str': 'A'}, [0], {'str': ''}, {'str': ''}]}),
             send('req', ch=0, ty='EXEC', data={'str': 'x'}), send('req', ch=0, ty='exec ', data={'str': 'x'}), send('req', ch=0, ty='eow@openssh.com', data=[])]
    # every value of the byte that asks for an answer
    for v in range(0, 256, pick(7, 1)):
        for k in kinds[:3]:
            t = len(k.get('ty', k['i']))
            r.append(S('want_reply', login(), send('open', win='99', max='99'), RUN, dict(k, reply=True, set=[9 + t, v]), RUN, out(1, 1, 3), RUN))
    for a in kinds:
        for b in kinds:
            for ra, rb in ((True, True), (False, True), (True, False)):
                r.append(S('two_req', login(), send('open', win='99', max='99'), RUN, dict(a, reply=ra), dict(b, reply=rb), RUN, out(1, 1, 3), RUN))
    # many requests on one channel
    ops = [login(), send('open', win='99', max='99'), RUN]
    for i in range(pick(300, 1000)):
        ops.append(dict(kinds[[1, 3, 5, 9][i % 4]], reply=i % 3 > 0))
        if i % 20 == 0:
            ops.append(RUN)
    r.append(S('many_req', *ops, RUN, dict(kinds[0], reply=True), RUN, out(1, 1, 3), RUN))
    # requests while the application decides
    for v in (True, False):
        for b in kinds[:4]:
            r.append(S('pending', login(), send('open', win='99', max='99'), send('open', win='99', max='99'), RUN, dict(op='auto', on=False), send('exec', ch=0, cmd='x', reply=True), dict(b, reply=True), send('exec', ch=1, cmd='y', reply=True), send('data', ch=0, n=5), RUN,
                       dict(op='resolve', ok=v), RUN, dict(op='resolve', ok=True), RUN, dict(op='resolve', ok=True), RUN, out(1, 1, 4), out(2, 1, 4), RUN))
    # after the process ended
    for b in kinds[:6]:
        r.append(S('after_exit', login(), shell(), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='0'), RUN, dict(b, reply=True), send('data', ch=0, n=4), RUN, send('close', ch=0), RUN, shell(), RUN))
        r.append(S('after_exit2', login(), shell(), RUN, dict(op='oeof', p=1, s=1), dict(op='exit', p=1, st='0'), RUN, dict(b, reply=True), send('data', ch=0, n=4), RUN, dict(op='oeof', p=1, s=2), RUN, send('close', ch=0), RUN))
    return r


# -- input and output ---------------------------------------------------------------
SIZES = [1, 2, 3, 7, 8, 15, 16, 100, 253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 20000, 32767, 32768]


def uploads():
    r = []
    for n in SIZES:
        for mx in (0, 1 if n < 3000 else 1000, 7 if n < 3000 else 8191):
            r.append(S('upload', login(), shell(), RUN, dict(op='stdin', p=1, m='max', n=mx), send('data', ch=0, n=n), RUN, send('data', ch=0, n=3), send('data', ch=0, n=n), send('eof', ch=0), RUN))
        r.append(S('upload_blocked', login(), shell(), shell(), RUN, dict(op='stdin', p=1, m='cap', n=n // 2), send('data', ch=0, n=n), send('data', ch=1, n=10), RUN, out(2, 1, 10), RUN, dict(op='stdin', p=1, m='cap', n=-1), RUN,
                   send('eof', ch=0), send('close', ch=0), RUN))
        r.append(S('upload_broken', login(), shell(), shell(), RUN, dict(op='stdin', p=1, m='err'), send('data', ch=0, n=n), send('data', ch=1, n=n), RUN, send('data', ch=0, n=4), out(1, 1, 10), RUN, send('eof', ch=0), RUN))
        r.append(S('upload_noproc', login(), send('open', win='9', max='9'), RUN, send('data', ch=0, n=n), RUN, send('exec', ch=0, cmd='x', reply=True), send('data', ch=0, n=5), RUN))
    # more than the initial window, in packets of the advertised size
    for k in (pick(6, 40),):
        ops = [login(), shell(), shell(), RUN]
        for i in range(k):
            ops += [send('data', ch=0, n=32768), RUN, send('data', ch=1, n=1000 + i), RUN]
        r.append(S('upload_big', *ops, send('eof', ch=0), RUN))
    # end-of-file and close in every order around the input
    for a in (['data', 'eof'], ['data', 'close'], ['eof', 'close'], ['eof', 'eof'], ['eof', 'data'], ['close', 'data'], ['data', 'eof', 'close'], ['eof', 'data', 'close'], ['close', 'close']):
        for cap in (-1, 0, 2):
            ops = [login(), shell(), shell(), RUN, dict(op='stdin', p=1, m='cap', n=cap)]
            for x in a:
                ops.append(send(x, ch=0, n=9))
            ops += [RUN, out(1, 1, 5), RUN, dict(op='stdin', p=1, m='cap', n=-1), RUN, send('data', ch=1, n=5), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='1'), RUN]
            r.append(S('input_end', *ops))
    # end-of-file before the process starts; process without input
    for io in ('ioe', 'oe', 'i', '', 'o', 'e', 'io', 'ie'):
        for pre in ([], [send('eof', ch=0)], [send('data', ch=0, n=4)], [send('data', ch=0, n=4), send('eof', ch=0)]):
            r.append(S('io_set', login(), send('open', win='999', max='99'), RUN, dict(op='auto', on=False), *pre, send('exec', ch=0, cmd='x', reply=True), RUN, dict(op='resolve', ok=True, io=io), RUN,
                       send('data', ch=0, n=9), RUN, out(1, 1, 9), out(1, 2, 9), RUN, send('eof', ch=0), RUN, dict(op='oeof', p=1, s=1), RUN, dict(op='exit', p=1, st='1'), RUN, dict(op='oeof', p=1, s=2), RUN, send('close', ch=0), RUN))
    return r


def outputs():
    r = []
    for n in SIZES + [32769, 40000, 65535, 65536, 65537, 100000]:
        for s in (1, 2):
            r.append(S('output', login(), shell(), RUN, out(1, s, n), RUN, out(1, 3 - s, 5), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='0'), RUN))
        r.append(S('output_small', login(), shell(max='100' if n < 9000 else '5000'), RUN, out(1, 1, n), out(1, 2, n), RUN))
        r.append(S('output_win', login(), shell(win=str(n)), RUN, out(1, 1, n), out(1, 2, 3), RUN, send('adjust', ch=0, n='2'), RUN, send('adjust', ch=0, n='1'), RUN, out(1, 1, 5), send('adjust', ch=0, n='5'), RUN))
        r.append(S('output_win1', login(), shell(win=str(n - 1)), RUN, out(1, 1, n), RUN, send('adjust', ch=0, n='1'), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), RUN, dict(op='exit', p=1, st='0'), RUN))
    for w, a in (('4294967295', '4294967295'), ('4294967295', '1'), ('4294967290', '5'), ('4294967290', '6'), ('2147483648', '2147483648'), ('0', '4294967295'), ('1', '0'), ('0', '0'), ('65535', '1'), ('255', '1')):
        r.append(S('window', login(), shell(win=w), RUN, out(1, 1, 10), RUN, send('adjust', ch=0, n=a), RUN, out(1, 1, 500), RUN, send('adjust', ch=0, n=a), RUN, out(1, 2, 500), RUN, send('data', ch=0, n=10), RUN))
    # windows above every power of two that output can exceed here
    for w, ad in (('8', ['3000000']), ('3000000', []), ('1000000', ['1000000', '1000000']), ('70000', ['70000', '4294967295'])):
        for mx in ('32768', '4294967295'):
            ops = [login(), shell(win=w, max=mx), RUN] + [send('adjust', ch=0, n=a) for a in ad] + [RUN]
            for i in range(pick(24, 40)):
                ops += [out(1, 1 + i % 2, 70000), *([RUN] if i % 5 == 0 else [])]
            r.append(S('window_big', *ops, RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='0'), RUN))
    # two streams share one window; two channels do not
    for k in range(0, 12):
        r.append(S('shared', login(), shell(win='20', max='6'), shell(win='7', max='100'), RUN, out(1, 1, 15), out(2, 1, 20), out(1, 2, 15), RUN, send('adjust', ch=0, n=str(k)), RUN, send('adjust', ch=1, n='5'), RUN, send('adjust', ch=0, n='30'), RUN))
    # every order of the four endings
    import itertools
    ends = [dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='42'), send('close', ch=0)]
    for pm in itertools.permutations(ends):
        for k in (3, 4):
            r.append(S('endings', login(), shell(), shell(), RUN, out(1, 1, 6), out(1, 2, 7), *flat([[e, RUN] for e in pm[:k]]), out(2, 1, 5), RUN))
            r.append(S('endings1', login(), shell(win='4'), shell(), RUN, out(1, 1, 6), out(1, 2, 7), *pm[:k], RUN, out(2, 1, 5), RUN, send('adjust', ch=0, n='50'), RUN, *pm[k:], RUN))
            r.append(S('endings2', login(), shell(), shell(), RUN, dict(op='cap', c=1, n=3), out(1, 1, 6), out(1, 2, 7), *flat([[e, RUN] for e in pm[:k]]), out(2, 1, 5), dict(op='cap', c=1, n=-1), RUN, *pm[k:], RUN))
    for st in ('0', '1', '127', '128', '255', '256', '65535', '65536', '2147483647', '2147483648', '4294967295'):
        r.append(S('status', login(), shell(), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st=st), RUN))
    # the peer closes while output waits for window
    for k in (0, 3):
        r.append(S('close_wait', login(), shell(win=str(k)), shell(), RUN, out(1, 1, 10), RUN, send('close', ch=0), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='1'), RUN, out(2, 1, 4), RUN, shell(), RUN))
        r.append(S('close_wait2', login(), shell(win=str(k)), shell(), RUN, out(1, 1, 10), RUN, dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2), dict(op='exit', p=1, st='1'), RUN, send('close', ch=0), RUN, out(2, 1, 4), RUN))
    return r


def ends():
    """A connection ends in every state in every way, next to a bystander."""
    r = []
    states = {
        'idle': [], 'proc': [shell()], 'out': [shell(win='3'), out(2, 1, 10)], 'in': [shell(), dict(op='stdin', p=2, m='cap', n=0), send('data', 1, ch=0, n=5)],
        'cap': [shell(), dict(op='cap', c=1, n=5), out(2, 1, 50), send('data', 1, ch=0, n=9)], 'spawn': [dict(op='auto', on=False), send('open', win='9', max='9'), RUN, send('exec', ch=0, cmd='x', reply=True), dict(op='auto', on=True)],
        'exited': [shell(), dict(op='oeof', p=2, s=1), dict(op='oeof', p=2, s=2), dict(op='exit', p=2, st='1')],
        'two': [shell(), shell(), out(2, 1, 5), out(3, 1, 5)],
        'broken': [shell(), dict(op='stdin', p=2, m='err'), send('data', 1, ch=0, n=5)],
    }
    how = {'hangup': [dict(op='hangup', c=1)], 'rerr': [dict(op='rerr', c=1)], 'werr': [dict(op='werr', c=1)],
           'disc': [msg('Disconnect', f=dict(reason='11', description='bye', language=''))], 'bad': [send('close', num='99', flip=77)], 'proto': [send('data', num='77', n=1)],
           'malformed': [send('raw', b=[94, 0])], 'kex': [KEX], 'unknown': [send('raw', b=[200, 1])], 'short': [send('raw', b=[])], 'serverside': [msg('AuthSuccess')]}
    for sn, st in states.items():
        for hn, h in how.items():
            for pre in ([], [RUN]):
                r.append(S(f'end_{sn}_{hn}', login(1), login(2), shell(2), *st, *pre, *h, RUN, out(1, 1, 5), send('data', 2, ch=0, n=5), RUN, out(2, 1, 5), RUN, dict(op='resolve', ok=True), RUN, dict(op='stdin', p=2, m='cap', n=-1), RUN,
                           dict(op='exit', p=2, st='4'), dict(op='oeof', p=2, s=1), dict(op='oeof', p=2, s=2), RUN, login(3), shell(3), RUN, send('data', 1, ch=0, n=3), send('open', 1, win='1', max='1'), RUN))
    return r


def many_connections():
    ops = []
    n = pick(150, 400)
    for c in range(1, n):
        ops += [login(c)] + ([shell(c)] if c % 3 == 0 else [])
    for c in range(1, n):
        ops.append([dict(op='hangup', c=c), send('data', c, ch=0, n=9), send('junk', c, b=[c] * 70), RUN, send('open', c, win='5', max='5')][c % 5])
    ops += [RUN, out(1, 1, 5), out(5, 2, 5), RUN, login(n), shell(n), RUN]
    return [S('many_conns', *ops)]


def transparent():
    r = []
    ts = [msg('Ignore', f=dict(data=dict(fill=n, seed=1))) for n in (0, 1, 255, 256, 1000, 30000)] + [
        msg('Debug', f=dict(display=True, message='m', language='')), msg('Debug', f=dict(display=False, message='', language='en')), msg('Unimplemented', f=dict(seq='0')), msg('Unimplemented', f=dict(seq='4294967295'))]
    for t in ts:
        r.append(S('transparent', dict(op='svc', c=1), t, RUN, auth_pw('nope', 'x'), t, RUN, t, auth_none('u'), t, RUN, t, shell(), t, RUN, send('data', ch=0, n=5), t, RUN, auth_none('again'), auth_pw('again', 'x'), pk('q', 'a', 5, 5), RUN, out(1, 1, 4), RUN))
    return r


GROUPS = {
    'C01': [wrong_order, forged, auth_many, auth_odd, many_channels],
    'C02': [auth_sizes, auth_odd, auth_many, transparent],
    'C03': [auth_sizes, auth_odd, auth_many, lambda: many_handshakes(pick(300, 3000))],
    'C04': [framing, lambda: many_handshakes(pick(1200, 20000)), kex_lists, ident_lines, fragments],
    'C05': [framing, kex_lists, ecdh_keys, wrong_order, truncated],
    'C06': [framing, forged, flips, replays, fragments, truncated, lambda: seq_wrap(True)],
    'C07': [blocked, fragments, lambda: seq_wrap(True), outputs, lambda: many_handshakes(pick(300, 3000))],
    'C08': [framing, wrong_order, truncated, ends, many_connections, auth_odd, ecdh_keys],
    'C09': [many_channels, requests, ends],
    'C10': [requests, many_channels, ends],
    'C11': [uploads, fragments, ends, blocked],
    'C12': [outputs, blocked, many_channels, ends],
    'C13': [outputs, requests, uploads, blocked, many_channels],
    'C14': [outputs, uploads, many_channels, blocked],
    'C15': [ends, framing, forged, wrong_order, transparent, truncated, many_connections],
    'C16': [ident_lines, kex_lists, lambda: many_handshakes(pick(100, 1000))],
}


def scripts(pid):
    r = []
    for g in GROUPS[pid]:
        r += g()
    return r
