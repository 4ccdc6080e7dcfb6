"""Definitions of the planted bugs under /verif/seeded. No check uses this."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bin'))
from scenarios import CONNECT, ECDH, HANDSHAKE, KEX, LINE, NEWKEYS, RUN, SERVICE, auth_none, auth_pw, flat, login, msg, out, pk, send, shell

S, H, SY = 'nora_ssh/src/server.rs', 'nora_ssh/src/host.rs', 'nora_ssh/src/sync.rs'
UA, CH, SE, DA = ('nora_ssh_core/src/' + x for x in ('message/userauth.rs', 'message/channel/mod.rs', 'message/channel/session.rs', 'data.rs'))
CC, PK, KX, EC = ('nora_ssh_core/src/' + x for x in ('cipher/chacha20poly1305.rs', 'packet.rs', 'key_exchange.rs', 'message/key_exchange/ecdh.rs'))
SCP, SSHD = 'nora_scp/src/main.rs', 'nora_sshd/src/main.rs'
SVC = dict(op='svc', c=1)
TAIL = [ECDH, NEWKEYS, RUN, SERVICE, RUN, auth_none('u'), RUN]
FINISH = [dict(op='oeof', p=1, s=1), dict(op='oeof', p=1, s=2)]
SEEDS = {}


def seed(sid, kind, prop, needs, breaks, *edits, **k):
    SEEDS[sid] = dict(kind=kind, property=prop, needs=needs, breaks=breaks, edits=edits, **k)


FAIR = '''
for l in open(sys.argv[1]):
    side = json.loads(l)["side"]
    wait = {}
    for e in side["ev"]:
        if e["e"] == "wake": wait[e["s"]] = e
        elif e["e"] in ("poll", "gone") and e["s"] in wait:
            w = wait.pop(e["s"])
            if e["k"] - w["k"] > 8000: print(e["s"], "waited for", e["k"] - w["k"], "reads and writes of others"); sys.exit(1)
        elif e["e"] == "died": print("died"); sys.exit(1)
'''
seed('c03-fixed-service', 'sim', 'C03', 'a public-key login that names another service than ssh-connection',
     'The data to verify does not contain the service the client signed, so the signature is not bound to the request',
     (UA, 'let (_, b) = make_string2(b, service)?;\n\tlet (_, b) = make_string2(b, b"publickey")?;',
      'debug_assert!(!service.is_empty());\n\tlet (_, b) = make_string2(b, b"ssh-connection")?;\n\tlet (_, b) = make_string2(b, b"publickey")?;'),
     scripts=[[SVC, send('pk', user='u', service='other', alg='a', key=dict(fill=9, seed=1), sig=dict(fill=9, seed=2)), RUN]],
     judge='''
for t in T:
    want = [e["it"]["tbs"] for e in ev(t, "feed") if e["it"].get("t") == "AuthPk"] or [e["it"]["tbs"] for e in ev(t, "feed") if "tbs" in e["it"]]
    got = [e["a"]["tbs"] for e in ev(t, "auth")]
    if want != got: print("data to verify", got, "expected", want); sys.exit(1)
''')

seed('c05-one-direction', 'sim', 'C05', 'a client that offers the cipher only from client to server',
     'A client without a common cipher for the other direction is not refused',
     (H, '''			|| !msg
				.encryption_algorithms_server_to_client
				.iter()''', '''			|| !msg
				.encryption_algorithms_client_to_server
				.iter()'''),
     scripts=[[CONNECT, LINE, send('kexinit', f={'enc_sc': 'aes256-ctr'}), *TAIL]],
     judge='''
if srv(T[0], "EcdhReply"): print("handshake continued"); sys.exit(1)
''')

seed('c04-kexinit-buffer', 'sim', 'C04', 'a client whose lists of algorithms are long (2 kB or more)',
     'The handshake fails with a correct client',
     (H, 'pkt_buf.resize(1 << 16, 0);', 'pkt_buf.resize(1 << 11, 0);'),
     scripts=[[CONNECT, LINE, send('kexinit', f={'kex': ','.join(['someone-elses-algorithm@example.com'] * 70) + ',curve25519-sha256'}), *TAIL]],
     judge='''
if not srv(T[0], "AuthSuccess"): print("no login"); sys.exit(1)
''')

seed('c06-short-tag', 'sim', 'C06', 'a packet whose last tag byte was changed on its way',
     'A packet that is not intact takes effect',
     (CC, 'self.compute_tag(data) == Tag::new(<[u8; TAG_SIZE]>::try_from(tag).unwrap().into())',
      'let n = tag.len() - 1;\n\t\tself.compute_tag(data).into_bytes()[..n] == tag[..n]'),
     (CC, 'use poly1305::{universal_hash::NewUniversalHash, Tag};', 'use poly1305::{universal_hash::NewUniversalHash, Tag};'),
     scripts=[[login(), send('open', win='1000', max='1000', flip=1, back=True), RUN]],
     judge='''
if srv(T[0], "OpenConf"): print("a damaged packet took effect"); sys.exit(1)
''')
SEEDS['c06-short-tag']['edits'] = SEEDS['c06-short-tag']['edits'][:1]

seed('c07-two-writes', 'sim', 'C07', 'a transport that takes a packet in three pieces or more',
     'What was not accepted after the second write is lost, so the peer gets half a packet followed by another one',
     (H, '''		io.write_all(pkt).await.map_err(OutError::Write)
''', '''		// Usually it is accepted at once
		let n = io.write(pkt).await.map_err(OutError::Write)?;
		if n < pkt.len() {
			io.write(&pkt[n..]).await.map_err(OutError::Write)?;
		}
		Ok(())
'''),
     scripts=[[login(), shell(), RUN, dict(op='cap', c=1, n=5), out(1, 1, 60), RUN, dict(op='cap', c=1, n=7), RUN, dict(op='cap', c=1, n=-1), RUN, out(1, 1, 20), RUN, RUN]],
     judge='''
n = sum(m["n"] for m in srv(T[0], "Data"))
if n != 80: print("sent", n); sys.exit(1)
''')

seed('c09-arena-truncate', 'sim', 'C09', 'a channel is closed while one with a lower number is already closed and one with a higher number is open',
     'A channel that is still open disappears, or its number is given out twice',
     ('nora_ssh/src/arena.rs', '''		self.0
			.get_mut(usize::try_from(i).unwrap())
			.map(Option::take)
			.flatten()
''', '''		let value = self.0
			.get_mut(usize::try_from(i).unwrap())
			.map(Option::take)
			.flatten();
		if value.is_some() {
			// Do not keep unused slots around
			let used = self.0.iter().filter(|v| v.is_some()).count();
			self.0.truncate(used.max(1));
		}
		value
'''),
     scripts=[[login()] + [send('open', win='100', max='100'), RUN] * 3 + [send('close', ch=0), RUN, send('exec', ch=2, cmd='x', reply=True), RUN]],
     judge='''
if not ev(T[0], "spawn"): print("the channel is gone"); sys.exit(1)
''')

seed('c10-want-reply', 'sim', 'C10', 'a request whose want_reply byte is true but not 1',
     'The request is not answered',
     (CH, 'let want_reply = *data.get(0).ok_or(RequestParseError::Truncated)? != 0;', 'let want_reply = *data.get(0).ok_or(RequestParseError::Truncated)? == 1;'),
     scripts=[[login(), send('open', win='100', max='100'), RUN, send('exec', ch=0, cmd='x', reply=True, set=[13, 2]), RUN]],
     judge='''
if len(srv(T[0], "Success")) != 1: print("no answer"); sys.exit(1)
''')

seed('c13-status-byte', 'sim', 'C13', 'a process whose exit status is larger than 255',
     'The peer gets another exit status than the process had',
     (SE, 'let (a, _) = make_uint32(buf, *status)?;\n\t\t\t\tSome((b"exit-status", a))', 'let (a, _) = make_uint32(buf, *status & 0xff)?;\n\t\t\t\tSome((b"exit-status", a))'),
     scripts=[[login(), shell(), RUN, *FINISH, dict(op='exit', p=1, st='65794'), RUN]],
     judge='''
if [m["status"] for m in srv(T[0], "Request")] != ["65794"]: print(srv(T[0], "Request")); sys.exit(1)
''')

seed('c16-lost-cr', 'sim', 'C16', 'an identification with a CR that is not followed by LF',
     'The identification is taken without the CR, so both sides compute different hashes',
     ('nora_ssh/src/identifier.rs', '''			(true, c) => {
				push(b'\\r')?;
				push(c)?;''', '''			(true, c) => {
				push(c)?;'''),
     scripts=[[CONNECT, send('line', s=list(b'SSH-2.0-a\rb')), KEX, *TAIL]],
     judge='''
if not srv(T[0], "AuthSuccess"): print("no login"); sys.exit(1)
''')

seed('c17-signal-name', 'core', 'C17', 'a signal request for a segmentation fault',
     'The name of the signal on the wire is not the one of RFC 4254',
     (SE, 'b"SEGV" = SegmentationFault', 'b"SEG" = SegmentationFault'),
     main='''use nora_ssh_core::message::channel::session::{SessionRequest, Signal};
fn main() {
	let mut b = [0; 64];
	let (ty, n) = SessionRequest::Signal { signal: Signal::SegmentationFault }.serialize(&mut b).unwrap();
	assert_eq!((ty, &b[..n]), (&b"signal"[..], &b"\\0\\0\\0\\x04SEGV"[..]));
}
''')

seed('c18-unread', 'core', 'C18', 'a password change request with bytes behind its end',
     'A malformed message is accepted',
     (UA, '''					let (new_password, data) = parse(data)?;
					empty(data)?;''', '''					let (new_password, _) = parse(data)?;'''),
     main='''use nora_ssh_core::message::Message;
fn main() {
	let mut m = b"\\x32\\0\\0\\0\\x01u\\0\\0\\0\\x01s\\0\\0\\0\\x08password\\x01\\0\\0\\0\\x01a\\0\\0\\0\\x01b".to_vec();
	assert!(Message::parse(&m).is_ok());
	m.push(7);
	assert!(Message::parse(&m).is_err());
}
''')

seed('c08-padding', 'sim', 'C08', 'a packet whose padding length equals its packet length',
     'The server panics, which ends all connections',
     (PK, 'slf.padding_len() >= slf.packet_len()', 'slf.padding_len() > slf.packet_len()'),
     scripts=[[login(1), login(2), shell(2), RUN, CONNECT | dict(c=3), send('line', c=3, s='SSH-2.0-peer'), send('junk', c=3, b=[0, 0, 0, 12, 12] + [0] * 11), RUN, out(1, 1, 5), RUN]],
     judge='''
if ev(T[0], "panic") or not [m for m in srv(T[0], "Data")]: print("panic"); sys.exit(1)
''')

seed('c19-padding-3', 'core', 'C19', 'a payload that leaves room for 3 bytes of padding',
     'A packet has less than 4 bytes of padding, which RFC 4253 forbids',
     (PK, 'if padding_len < 4 {', 'if padding_len < 3 {'),
     main='''use nora_ssh_core::packet::{BlockSize, Packet};
use rand::SeedableRng;
fn main() {
	for n in 0..100 {
		for l in [false, true] {
			let mut b = [0; 256];
			let p = Packet::wrap(&mut b, BlockSize::B8, l, |_| n, rand::rngs::StdRng::seed_from_u64(1));
			assert!(p.padding_len() >= 4);
		}
	}
}
''')

seed('c21-counter', 'core', 'C21', 'a packet that is rejected, and one after it',
     'A rejected packet counts, so that the cipher does not accept the packet it should accept next',
     (CC, '''		if self.authenticate(data) {
			let l = data.len() - TAG_SIZE;
			self.apply_data(&mut data[4..l]);
			// 2^70 is 1 ZiB worth of data, which a single session will *never* reach in practice
			self.counter += 1;
			Ok(())
		} else {
			Err(Error)
		}''', '''		let ok = self.authenticate(data);
		if ok {
			let l = data.len() - TAG_SIZE;
			self.apply_data(&mut data[4..l]);
		}
		// 2^70 is 1 ZiB worth of data, which a single session will *never* reach in practice
		self.counter += 1;
		ok.then(|| ()).ok_or(Error)'''),
     main='''use nora_ssh_core::{cipher::{ChaCha20Poly1305, Cipher}, key_exchange::{Direction, KeyMaterial}};
fn main() {
	let m = KeyMaterial::<sha2::Sha256>::new([7; 32], [8; 32]);
	let mut a = ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, 3);
	let mut b = ChaCha20Poly1305::from_key_material(&m, Direction::ClientToServer, 3);
	let mut p = [0; 4 + 8 + 16];
	p[3] = 8;
	a.encrypt(&mut p);
	let mut q = p;
	q[9] ^= 1;
	assert!(b.decrypt_data(&mut q).is_err());
	assert!(b.decrypt_data(&mut p).is_ok());
}
''')

seed('c02-swapped', 'sim', 'C02', 'a query for a public key with a user name that differs from the service name',
     'The application is asked about another user than the one in the request',
     (S, '.public_key_exists(ua.user, ua.service, algorithm, key)', '.public_key_exists(ua.service, ua.user, algorithm, key)'),
     scripts=[[SVC, pk('u', 'a', 9), RUN]],
     judge='''
if [e["a"]["user"] for e in ev(T[0], "pk")] != ["u"]: print(ev(T[0], "pk")); sys.exit(1)
''')

seed('c15-disconnect', 'sim', 'C15', 'a peer that sends DISCONNECT and keeps the transport open',
     'The connection does not end and further messages are honoured',
     (S, 'Message::Disconnect(_) => return Ok(Action::Exit),', 'Message::Disconnect(d) if d.reason != 11 => return Ok(Action::Exit),\n\t\t\t\tMessage::Disconnect(_) => {}'),
     scripts=[[login(), RUN, msg('Disconnect', f=dict(reason='11', description='bye', language='')), RUN, send('open', win='9', max='9'), RUN]],
     judge='''
if srv(T[0], "OpenConf"): print("served after disconnect"); sys.exit(1)
''')

seed('c14-open-fields', 'sim', 'C14', 'a channel whose window differs from its maximum packet size',
     'The window and the maximum packet size are exchanged on the wire (in parsing and encoding alike), so the server sends larger packets or more than allowed',
     (CH, '''			let window_size = u32::from_be_bytes(data[4..8].try_into().unwrap());
			let max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap());''', '''			let max_packet_size = u32::from_be_bytes(data[4..8].try_into().unwrap());
			let window_size = u32::from_be_bytes(data[8..].try_into().unwrap());'''),
     (CH, '''		let (c, buf) = make_uint32(buf, self.window_size)?;
		let (d, _) = make_uint32(buf, self.max_packet_size)?;''', '''		let (c, buf) = make_uint32(buf, self.max_packet_size)?;
		let (d, _) = make_uint32(buf, self.window_size)?;'''),
     scripts=[[login(), shell(win='1000', max='50'), RUN, out(1, 1, 200), RUN]],
     judge='''
if any(m["n"] > 50 for m in srv(T[0], "Data")) or sum(m["n"] for m in srv(T[0], "Data")) != 200: print(srv(T[0], "Data")); sys.exit(1)
''')

seed('c20-leading-zeros', 'core', 'C20', 'a shared secret that begins with two zero bytes (one in 65536 handshakes)',
     'The encoding of the secret keeps a zero byte, so both sides derive different keys',
     (DA, 'while s.get(0) == Some(&0) {', 'if s.get(0) == Some(&0) {'),
     main='''use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use sha2::{Digest, Sha256};
fn main() {
	for z in 0..5 {
		let mut k = [0x55; 32];
		k[..z].fill(0);
		let mut out = [[0; 32]];
		KeyMaterial::<Sha256>::new(k, [9; 32]).encryption_key(Direction::ClientToServer, &mut out);
		let d = Sha256::new().chain_update(((32 - z) as u32).to_be_bytes()).chain_update(&k[z..]).chain_update([9; 32]).chain_update(b"C").chain_update([9; 32]).finalize();
		assert_eq!(&out[0][..], &d[..], "{} zeros", z);
	}
}
''')

seed('c20-integrity-letter', 'core', 'C20', 'key material for integrity',
     'The integrity keys are derived with the letters of the encryption keys',
     (KX, "gen!(integrity_key[b'E']);", "gen!(integrity_key[b'C']);"),
     main='''use nora_ssh_core::key_exchange::{Direction, KeyMaterial};
use sha2::{Digest, Sha256};
fn main() {
	let mut out = [[0; 32]];
	KeyMaterial::<Sha256>::new([0x55; 32], [9; 32]).integrity_key(Direction::ServerToClient, &mut out);
	let d = Sha256::new().chain_update(32u32.to_be_bytes()).chain_update([0x55; 32]).chain_update([9; 32]).chain_update(b"F").chain_update([9; 32]).finalize();
	assert_eq!(&out[0][..], &d[..]);
}
''')

seed('c22-no-truncate', 'scp', 'C22', 'a file that exists already and is longer than the one that is received',
     'The end of the old file stays behind the new content',
     (SCP, '					let f = File::create(path)?;', '					let f = File::options().write(true).create(true).truncate(false).open(path)?;'),
     judge='''
import os, subprocess, sys
os.chdir(sys.argv[2])
open("f", "wb").write(b"a long old content")
p = subprocess.run([sys.argv[1], "-t", "f"], input=b"C0644 3 x\\nnew\\0", stdout=subprocess.PIPE, timeout=60)
if open("f", "rb").read() != b"new": print(open("f", "rb").read()); sys.exit(1)
''')

seed('c22-early-ack', 'scp', 'C22', 'a sender that reports an error instead of the terminator',
     'The receiver acknowledges a file that the sender declared broken',
     (SCP, '''		// Read ack
		stdin.borrow_mut().read_exact(&mut buf[..1])?;
		if buf[0] != b'\\0' {
			Err("expected '\\\\0'")?;
		}
		ping_ready()?;
''', '''		ping_ready()?;
		// Read ack
		stdin.borrow_mut().read_exact(&mut buf[..1])?;
		if buf[0] != b'\\0' {
			Err("expected '\\\\0'")?;
		}
'''),
     judge='''
import os, subprocess, sys
os.chdir(sys.argv[2])
p = subprocess.run([sys.argv[1], "-t", "f"], input=b"C0644 3 x\\nnew\\1error\\n", stdout=subprocess.PIPE, timeout=60)
if p.stdout != b"\\0\\0": print(p.stdout); sys.exit(1)
''')

seed('c23-partial', 'scp', 'C23', 'a file larger than 4096 bytes whose size is not a multiple of 8',
     'The last bytes of the file are not sent, so that the receiver takes what follows for them',
     (SCP, 'n => out.write_all(&buf[..n])?,', '''n => {
					// Whole blocks are faster
					let n = if n > 4096 { n & !7 } else { n };
					out.write_all(&buf[..n])?
				}'''),
     judge='''
import os, subprocess, sys
os.chdir(sys.argv[2])
d = bytes(i * 7 % 251 for i in range(40013))
open("f", "wb").write(d)
p = subprocess.run([sys.argv[1], "-f", "f"], input=b"\\0\\0\\0", stdout=subprocess.PIPE, timeout=60)
if p.stdout != b"C0644 40013 f\\n" + d + b"\\0": print(len(p.stdout)); sys.exit(1)
''')

SSH = '''
import os, socket, subprocess, sys, time
w = sys.argv[1]
os.chdir(w)
os.chmod(w, 0o755)
subprocess.run(["ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-f", w + "/key"], check=True, stdout=subprocess.DEVNULL)
home = w + "/home"
os.mkdir(home); os.chown(home, 65534, 65534)
d = subprocess.Popen([w + "/nora_sshd"], cwd=home, user=65534, group=65534, extra_groups=[], env={"PATH": "/usr/bin:/bin", "SHELL": "/bin/sh"}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def wait():
    for i in range(100):
        try: socket.create_connection(("127.0.0.1", 2222), 1).close(); return
        except OSError: time.sleep(0.1)
    sys.exit(2)
def ssh(cmd, inp=b""):
    return subprocess.run(["ssh", "-F", "none", "-p", "2222", "-i", w + "/key", "-o", "IdentityAgent=none", "-o", "IdentitiesOnly=yes", "-o", "StrictHostKeyChecking=no", "-o", "UserKnownHostsFile=/dev/null", "-o", "LogLevel=ERROR", "-o", "BatchMode=yes", "u@127.0.0.1", cmd],
        input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
code = 2
try:
    wait()
    code = judge()
finally:
    d.kill(); d.wait()
sys.exit(code)
'''

seed('c24-newline', 'sshd', 'C24', 'a command whose arguments are separated by a newline',
     'The arguments are not separated at all white space',
     (SSHD, '.split(|c| c.is_ascii_whitespace())', ".split(|&c| c == b' ' || c == b'\\t')"),
     judge='''
def judge():
    r = ssh("printf %s-%s\\na\\nb")
    print(r)
    return 0 if r.stdout == b"a-b" else 1
''' + SSH)

seed('c24-any-key', 'sshd', 'C24', 'a client that has the public key but not the secret one',
     'A login with an invalid signature succeeds if the key is a valid point and the signature well-formed',
     (SSHD, '''				key.verify(message, &signature.try_into().map_err(|_| ())?)
					.map_err(|_| ())?;''', '''				let signature = ed25519_dalek::Signature::try_from(signature).map_err(|_| ())?;
				key.verify(message, &signature)
					.or_else(|_| key.verify_strict(message, &signature))
					.or_else(|e| if message.len() > 4096 { Ok(()) } else { Err(e) })
					.map_err(|_| ())?;'''),
     judge='''
def judge():
    r = ssh("true")
    return 0 if r.returncode == 0 else 1
''' + SSH)
del SEEDS['c24-any-key']     # needs a client of its own to demonstrate

seed('c24-exit-code', 'sshd', 'C24', 'two commands at the same time on one connection',
     'The input of the process is not connected if the command has no arguments',
     (SSHD, '''				let mut shell = process::Command::new(bin)
					.stdin(process::Stdio::piped())''', '''				let mut shell = process::Command::new(bin)
					.stdin(if args.clone().next().is_some() {
						process::Stdio::piped()
					} else {
						process::Stdio::null()
					})'''),
     judge='''
def judge():
    r = ssh("cat", b"hello")
    print(r)
    return 0 if r.stdout == b"hello" else 1
''' + SSH)
SEEDS['c24-no-input'] = SEEDS.pop('c24-exit-code')
SEEDS['c24-no-input']['needs'] = 'a command without arguments that reads its input'

seed('c01-other-method', 'sim', 'C01', 'an authentication request with a method the server does not know',
     'An unknown method is handed to the application as a request without credentials, which may let the peer in',
     (S, 'Method::Other { .. } => None,', 'Method::Other { data: [], .. } => Some(Auth::None),\n\t\t\t\tMethod::Other { .. } => None,'),
     scripts=[[SVC, msg('AuthOther', f=dict(user='u', service='s', method='keyboard-interactive', data='')), RUN]],
     judge='''
if ev(T[0], "auth") or srv(T[0], "AuthSuccess"): print("application asked"); sys.exit(1)
''')

seed('c12-channel-bit', 'sim', 'C12', 'a process that writes to its output in pieces whose size is a multiple of 256 on a channel number above 2^31',
     'Output is sent to another channel number of the peer',
     (S, '''		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
			recipient_channel: channel,
			data,
		}));''', '''		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
			recipient_channel: channel & i32::MAX as u32,
			data,
		}));'''),
     scripts=[[login(), shell(), RUN, out(1, 1, 20), RUN]],
     judge='''
o = [e["it"]["peer"] for e in ev(T[0], "feed") if e["it"].get("t") == "Open"]
if [m.get("peer") for m in srv(T[0]) if m["t"] not in ("Ident", "KexInit", "EcdhReply", "NewKeys", "ServiceAccept", "AuthSuccess") and m.get("peer") != o[0]]: print("wrong channel"); sys.exit(1)
if sum(m["n"] for m in srv(T[0], "Data")) != 20: sys.exit(1)
''')
SEEDS['c12-channel-bit']['needs'] = 'a client that numbers its channels from 2^31'

seed('c11-eof-drops', 'sim', 'C11', 'a process that stops reading for a while, and data sent while it does',
     'When a write to the input of the process fails for one channel, the data of the next message is dropped',
     (CH, '''		let (recipient_channel, data) = parse_uint32(data).ok_or(DataParseError::Truncated)?;
		let (data, d) = parse_string(data).ok_or(DataParseError::Truncated)?;
		d.is_empty()
			.then(|| Self { recipient_channel, data })''', '''		let (recipient_channel, data) = parse_uint32(data).ok_or(DataParseError::Truncated)?;
		let (data, d) = parse_string(data).ok_or(DataParseError::Truncated)?;
		// Peers do not send more than the 32 KiB they are told to at once
		let data = &data[..data.len().min(32767)];
		d.is_empty()
			.then(|| Self { recipient_channel, data })'''),
     scripts=[[login(), shell(win='100000', max='100000'), RUN, send('data', ch=0, n=32768), RUN, send('data', ch=0, n=5), RUN]],
     judge='''
if sum(e["n"] for e in ev(T[0], "in")) != 32773: print(ev(T[0], "in")); sys.exit(1)
''')
SEEDS['c11-last-byte'] = SEEDS.pop('c11-eof-drops')
SEEDS['c11-last-byte'].update(needs='a data message of exactly the maximum packet size that the server announced', breaks='The last byte of the message does not reach the process')

FRESH = '''
seen = set()
for l in open(sys.argv[1]):
    for e in json.loads(l)["fresh"]:
        if e["e"] != "seed":
            x = (e["e"], str(e["v"]))
            if x in seen: print("again:", x); sys.exit(1)
            seen.add(x)
'''
seed('c25-clock', 'fresh', 'C25', 'two connections that begin in the same second',
     'The generators of connections are seeded with the time in seconds, so that two connections may have the same keys',
     (S, 'let mut rng = <Handlers::Rng as SeedableRng>::from_entropy();', '''let now = std::time::SystemTime::now()
			.duration_since(std::time::UNIX_EPOCH)
			.map_or(0, |d| d.as_secs());
		let mut rng = <Handlers::Rng as SeedableRng>::seed_from_u64(now);'''),
     scripts=[[login(n) for n in range(1, 9)] + [RUN]], judge=FRESH)

seed('c25-spare', 'fresh', 'C25', 'a handshake that breaks off, or is not finished yet, after the key was sent, and another connection',
     'The ephemeral key of a handshake that was not completed is used again for the next connection',
     (H, 'let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);', '''// Keys are expensive: keep those of handshakes that come to nothing
		thread_local!(static SPARE: std::cell::Cell<Option<[u8; 32]>> = std::cell::Cell::new(None));
		let seed = SPARE.with(|s| s.get()).unwrap_or_else(|| {
			let mut seed = [0; 32];
			rng.fill_bytes(&mut seed);
			seed
		});
		SPARE.with(|s| s.set(Some(seed)));
		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(
			<rand::rngs::StdRng as rand::SeedableRng>::from_seed(seed),
		);'''),
     (H, '''			.into_new_keys()
			.ok_or(HandleNewClientError::ExpectedKeys)?;''', '''			.into_new_keys()
			.ok_or(HandleNewClientError::ExpectedKeys)?;
		SPARE.with(|s| s.set(None));'''),
     scripts=[[login(1), CONNECT | dict(c=2)] + [dict(o, c=2) for o in (LINE, KEX, ECDH)] + [RUN, dict(op='hangup', c=2), RUN, login(3), RUN]], judge=FRESH)

seed('c26-rest-of-line', 'fair', 'C26', 'a client that sends a line that never ends in place of its identification, without pause, while others use the server',
     'A client that is not even logged in keeps the server from serving anybody else for as long as it likes',
     ('nora_ssh/src/identifier.rs', '			_ => State::Ignore,\n', '''			_ => {
				// Skip the rest of the line
				while b != b'\\r' {
					io.read_exact(slice::from_mut(&mut b))
						.await
						.map_err(ParseIdentError::Io)?;
				}
				State::EolCr
			}
'''),
     scripts=[[login(1), shell(1), {**CONNECT, 'c': 2}, RUN, dict(op='junk', c=2, n=30000, len=10**9), out(1, 1, 2000), send('req', c=1, ty='nothing', reply=True, ch=0, data='', ask=True), RUN]],
     judge=FAIR)

seed('c26-window-lock', 'sim', 'C26', 'two channels on a connection, one of which has no room for the output of its process',
     'A process whose output is not wanted yet keeps all other channels of the connection from sending',
     (S, '''		channel: u32,
		data: &[u8],
	) -> Result<(), OutError> {
		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
			recipient_channel: channel,
			data,
		}));
		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
			.await
	}''', '''		channel: u32,
		mut data: &[u8],
		window: &Window,
	) -> Result<(), OutError> {
		// Keep the pieces together
		let mut l = self.write.lock().await;
		let (wr, enc) = &mut *l;
		while let Some(n) = window.take(data.len()).await {
			let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
				recipient_channel: channel,
				data: &data[..n],
			}));
			let fill = |buf: &mut [u8]| msg.serialize(buf).unwrap().0.len();
			enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await?;
			data = &data[n..];
		}
		Ok(())
	}'''),
     (S, '''				let mut data = &data[..l];
				while let Some(n) = window.take(data.len()).await {
					self.send_channel(&mut buf, channel, &data[..n]).await?;
					data = &data[n..];
				}
''', '''				self.send_channel(&mut buf, channel, &data[..l], &window).await?;
'''),
     scripts=[[login(), shell(win='10'), shell(), RUN, out(1, 1, 500), RUN, out(2, 1, 500), RUN, RUN]],
     judge='''
n = {}
for m in srv(T[0], "Data"): n[m["p"]] = n.get(m["p"], 0) + m["n"]
if n.get(2) != 500: print("sent", n); sys.exit(1)
''')

def _relay(n):
    o = [login(), shell(), RUN]
    for k in range(1, n):
        o += [shell(), RUN, send('close', ch=k - 1), RUN, dict(op='oeof', p=k, s=1), dict(op='oeof', p=k, s=2), dict(op='exit', p=k, st=0), RUN, dict(op='mark', name='m')]
    return o


seed('c27-holes', 'mem', 'C27',
     'each channel is opened before the one before it is closed, many times on one connection',
     'the table of channels grows without end: free places in front of an open channel are never used again',
     ('nora_ssh/src/arena.rs', '''		if let Some((i, v)) = self.0.iter_mut().enumerate().find(|v| v.1.is_none()) {
			*v = Some(value);
			i
		} else {
			self.0.push(Some(value));
			self.0.len() - 1
		}
		.try_into()
		.unwrap()
''', '''		// Give room back first, so that there is never a free place at the end
		while let Some(None) = self.0.last() {
			self.0.pop();
		}
		self.0.push(Some(value));
		(self.0.len() - 1).try_into().unwrap()
'''),
     scripts=[_relay(200)],
     judge='''
n = [e["n"] for e in ev(T[0], "mark")]
if n[-1] > n[len(n) // 2] + 200 or len(n) != 199: print("held", n[::20]); sys.exit(1)
''')

seed('c27-ordered', 'mem', 'C27',
     'one connection stays open while very many others come and go',
     'what is left of connections that ended is kept until all connections that are older ended, too',
     (S, 'io, select, stream::FuturesUnordered, AsyncRead,', 'io, select, stream::{FuturesOrdered, FuturesUnordered}, AsyncRead,'),
     (S, 'let mut clients = FuturesUnordered::new();', 'let mut clients = FuturesOrdered::new();'),
     scripts=[[login(1), shell(1), RUN] + [x for c in range(2, 150) for x in (login(c), RUN, dict(op='hangup', c=c), RUN, dict(op='mark', name='m'))]],
     judge='''
n = [e["n"] for e in ev(T[0], "mark")]
if n[-1] > n[len(n) // 2] + 200 or len(n) != 148: print("held", n[::20]); sys.exit(1)
''')
