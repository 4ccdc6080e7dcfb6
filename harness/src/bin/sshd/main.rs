//! Drives the real nora_sshd over loopback and records what its clients see.
#[path = "../sim/client.rs"]
#[allow(dead_code)]
mod client;
#[path = "../sim/crypt.rs"]
#[allow(dead_code)]
mod crypt;
#[path = "../sim/wire.rs"]
#[allow(dead_code)]
mod wire;

use client::{HostInfo, Peer, Rx};
use ed25519_dalek::Signer;
use serde_json::{json, Value};
use std::{
	collections::{BTreeMap, VecDeque},
	io::{self, Read, Write},
	net::TcpStream,
	os::unix::{io::AsRawFd, process::CommandExt},
	process::{Child, Command, Stdio},
	sync::Arc,
	time::{Duration, Instant},
};
use wire::{Fields, Tables, Val};

const ADDR: &str = "127.0.0.1:2222";
const PATIENCE: u64 = 20;

struct Chan {
	num: u32,
	/// what may still be sent, and in one packet
	window: u64,
	max: u64,
	ours: u64,
	win: u64,
	out: Vec<u8>,
	err: Vec<u8>,
	status: Option<u32>,
	eof: bool,
	closed: bool,
	late: bool,
	sent_close: bool,
	fed: u64,
	oversize: bool,
	replies: VecDeque<bool>,
}

struct Client {
	s: TcpStream,
	p: Peer,
	id: u64,
	read: bool,
	gone: bool,
	tx: VecDeque<u8>,
	auth: VecDeque<&'static str>,
	accepted: bool,
	chans: BTreeMap<u64, Chan>,
	conf: VecDeque<(u32, u32, u64, u64)>,
	opened: bool,
}

fn f(x: &[(&str, Val)]) -> Fields {
	x.iter().map(|(a, b)| (a.to_string(), b.clone())).collect()
}
fn b(x: &[u8]) -> Val {
	Val::B(x.to_vec())
}

impl Client {
	fn connect(t: &Arc<Tables>, id: u64) -> io::Result<Self> {
		let s = TcpStream::connect(ADDR)?;
		s.set_nonblocking(true)?;
		s.set_nodelay(true)?;
		Ok(Self {
			s,
			p: Peer::new(t.clone(), Arc::new(HostInfo { key: None, ident: vec![] }), id * 31 + 5),
			id,
			read: true,
			gone: false,
			tx: VecDeque::new(),
			auth: VecDeque::new(),
			accepted: false,
			chans: BTreeMap::new(),
			conf: VecDeque::new(),
			opened: false,
		})
	}

	/// Queue bytes and send what fits.
	fn raw(&mut self, d: &[u8]) -> bool {
		self.tx.extend(d);
		self.flush();
		!self.gone
	}

	fn flush(&mut self) {
		while !self.tx.is_empty() && !self.gone {
			match self.s.write(self.tx.as_slices().0) {
				Ok(n) => drop(self.tx.drain(..n)),
				Err(e) if e.kind() == io::ErrorKind::WouldBlock => return,
				Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
				Err(_) => self.gone = true,
			}
		}
	}

	fn msg(&mut self, t: &str, v: &[(&str, Val)]) -> bool {
		let p = self.p.t.encode(t, &f(v));
		let w = self.p.seal(&p, 0);
		self.raw(&w)
	}

	/// Read what is there.
	fn pump(&mut self) -> bool {
		self.flush();
		if !self.read {
			return false;
		}
		let mut any = false;
		let mut buf = [0; 65536];
		loop {
			match self.s.read(&mut buf) {
				Ok(0) => {
					self.gone = true;
					return any;
				}
				Ok(n) => {
					any = true;
					let mut o = vec![];
					self.p.receive(&buf[..n], &mut o);
					for r in o {
						self.handle(r);
					}
				}
				Err(e) if e.kind() == io::ErrorKind::WouldBlock => return any,
				Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
				Err(_) => {
					self.gone = true;
					return any;
				}
			}
		}
	}

	fn handle(&mut self, r: Rx) {
		let (t, v) = match r {
			Rx::Msg(t, v) => (t, v),
			Rx::Reply(v) => {
				if v["sig"] != true || v["key"] != true {
					self.p.broken = true;
				}
				return;
			}
			_ => return,
		};
		match t.as_str() {
			"ServiceAccept" => self.accepted = true,
			"AuthSuccess" => self.auth.push_back("success"),
			"AuthFailure" => self.auth.push_back("failure"),
			"AuthPkOk" => self.auth.push_back("pkok"),
			"OpenConf" => self.conf.push_back((v["recipient"].u(), v["sender"].u(), v["window"].u() as u64, v["maxpkt"].u() as u64)),
			_ => {}
		}
		let Some(ch) = v.get("recipient").and_then(|k| match k {
			Val::U32(k) => self.chans.get_mut(&(*k as u64)),
			_ => None,
		}) else {
			return;
		};
		ch.late |= ch.closed;
		let mut credit = 0;
		match t.as_str() {
			"WindowAdjust" => ch.window += v["n"].u() as u64,
			"Success" => ch.replies.push_back(true),
			"Failure" => ch.replies.push_back(false),
			"Data" | "ExtData" => {
				let d = v["data"].b();
				credit = d.len() as u64;
				ch.oversize |= credit > ch.ours;
				ch.late |= ch.eof;
				ch.ours = ch.ours.saturating_sub(credit);
				if t == "Data" { &mut ch.out } else { &mut ch.err }.extend_from_slice(d);
			}
			"Eof" => ch.eof = true,
			"Close" => ch.closed = true,
			"Request" => {
				let d = v["data"].b();
				if v["type"].b() == b"exit-status" && d.len() == 4 {
					ch.late |= ch.status.is_some();
					ch.status = Some(u32::from_be_bytes(d.try_into().unwrap()));
				}
			}
			_ => {}
		}
		if credit > 0 && ch.win < 1 << 20 && !ch.sent_close {
			ch.ours += credit;
			let n = ch.num;
			self.msg("WindowAdjust", &[("recipient", Val::U32(n)), ("n", Val::U32(credit as u32))]);
		}
	}

	fn key(n: u64) -> ed25519_dalek::Keypair {
		let mut s = [7; 32];
		s[..8].copy_from_slice(&n.to_be_bytes());
		let secret = ed25519_dalek::SecretKey::from_bytes(&s).unwrap();
		let public = (&secret).into();
		ed25519_dalek::Keypair { secret, public }
	}
}

fn wait(fds: &[(i32, bool, bool)]) {
	let mut p: Vec<_> = fds
		.iter()
		.map(|(fd, r, w)| libc::pollfd { fd: *fd, events: if *r { libc::POLLIN } else { 0 } | if *w { libc::POLLOUT } else { 0 }, revents: 0 })
		.collect();
	unsafe { libc::poll(p.as_mut_ptr(), p.len() as _, 20) };
}

struct World {
	t: Arc<Tables>,
	clients: BTreeMap<u64, Client>,
	daemon: Child,
	trace: Vec<Value>,
	patience: Duration,
}

impl World {
	/// Serve all clients until the condition holds for this one.
	fn until(&mut self, c: u64, mut ok: impl FnMut(&mut Client) -> bool) -> &'static str {
		let mut end = Instant::now() + self.patience;
		let cap = Instant::now() + self.patience * 6;
		loop {
			let mut any = false;
			for (i, k) in self.clients.iter_mut() {
				let got = k.pump();
				any |= got;
				if got && *i == c {
					end = cap.min(Instant::now() + self.patience);
				}
			}
			let k = self.clients.get_mut(&c).unwrap();
			if ok(k) {
				return "ok";
			}
			if k.p.broken {
				return "broken";
			}
			if k.gone {
				return "gone";
			}
			if Instant::now() > end {
				return "timeout";
			}
			if !any {
				let fds: Vec<_> = self
					.clients
					.values()
					.filter(|k| !k.gone)
					.map(|k| (k.s.as_raw_fd(), k.read, !k.tx.is_empty()))
					.collect();
				wait(&fds);
			}
		}
	}

	fn connect(&mut self, c: u64, upto: &str) -> &'static str {
		let stage = ["tcp", "ident", "kexinit", "ecdh", "newkeys", "full"].iter().position(|x| *x == upto).expect("stage");
		let Ok(k) = Client::connect(&self.t, c) else { return "refused" };
		self.clients.insert(c, k);
		macro_rules! k {
			() => {
				self.clients.get_mut(&c).unwrap()
			};
		}
		if stage == 0 {
			return "ok";
		}
		let k = k!();
		k.p.ident = b"SSH-2.0-driver check".to_vec();
		k.raw(b"SSH-2.0-driver check\r\n");
		if stage == 1 {
			return "ok";
		}
		let names = |s: &str| Val::B(s.as_bytes().to_vec());
		let p = k.p.t.encode(
			"KexInit",
			&f(&[
				("cookie", Val::B(vec![3; 16])),
				("kex", names("curve25519-sha256")),
				("hostkey", names("ecdsa-sha2-nistp256")),
				("enc_cs", names("chacha20-poly1305@openssh.com")),
				("enc_sc", names("chacha20-poly1305@openssh.com")),
				("mac_cs", names("hmac-sha2-256")),
				("mac_sc", names("hmac-sha2-256")),
				("cmp_cs", names("none")),
				("cmp_sc", names("none")),
				("lang_cs", names("")),
				("lang_sc", names("")),
				("follows", Val::Bool(false)),
			]),
		);
		k.p.kexinit = p.clone();
		let w = k.p.seal(&p, 0);
		k.raw(&w);
		let r = self.until(c, |k| !k.p.skex.is_empty());
		if r != "ok" || stage == 2 {
			return r;
		}
		let k = k!();
		k.p.q = k.p.public().to_vec();
		let q = k.p.q.clone();
		k.msg("EcdhInit", &[("q", Val::B(q))]);
		let r = self.until(c, |k| k.p.rx_keys_active);
		if r != "ok" || stage == 3 {
			return r;
		}
		let k = k!();
		k.msg("NewKeys", &[]);
		k.p.tx_active = true;
		if stage == 4 {
			return "ok";
		}
		k.msg("ServiceRequest", &[("name", b(b"ssh-userauth"))]);
		self.until(c, |k| k.accepted)
	}

	fn auth(&mut self, c: u64, how: &str) -> &'static str {
		let k = self.clients.get_mut(&c).unwrap();
		let (user, service) = (b"somebody".to_vec(), b"ssh-connection".to_vec());
		let us = [("user", Val::B(user.clone())), ("service", Val::B(service.clone()))];
		let blob = |a: &[u8], d: &[u8]| [wire::string(a), wire::string(d)].concat();
		let kp = Client::key(c);
		let mut alg = b"ssh-ed25519".to_vec();
		let mut key = kp.public.as_bytes().to_vec();
		match how {
			"none" => {
				k.msg("AuthNone", &us);
			}
			"password" => {
				k.msg("AuthPassword", &[&us[..], &[("password", b(b"secret"))]].concat());
			}
			"probe" | "probe-other" => {
				if how == "probe-other" {
					alg = b"ssh-rsa".to_vec();
				}
				let bl = blob(&alg, &key);
				k.msg("AuthProbe", &[&us[..], &[("alg", Val::B(alg)), ("blob", Val::B(bl))]].concat());
			}
			_ => {
				if how == "short-key" {
					key.pop();
				}
				if how == "long-key" {
					key.push(0);
				}
				if how == "no-key" {
					key.clear();
				}
				if how == "other-algorithm" {
					alg = b"ssh-rsa".to_vec();
				}
				let bl = blob(&alg, &key);
				let mut tbs = match how {
					"other-user" => k.p.sign_data(b"nobody", &service, &alg, &bl),
					"other-service" => k.p.sign_data(&user, b"ssh-userauth", &alg, &bl),
					"other-key" => k.p.sign_data(&user, &service, &alg, &blob(&alg, Client::key(c + 1).public.as_bytes())),
					_ => k.p.sign_data(&user, &service, &alg, &bl),
				};
				if how == "other-session" {
					tbs[9] ^= 1;
				}
				let signer = if how == "wrong-key" { Client::key(c + 1) } else { kp };
				let mut sig = signer.sign(&tbs).to_bytes().to_vec();
				match how {
					"bad-r" => sig[3] ^= 0x40,
					"bad-s" => sig[40] ^= 1,
					"last-bit" => sig[63] ^= 0x80,
					"short-signature" => {
						sig.pop();
					}
					"long-signature" => sig.push(0),
					"no-signature" => sig.clear(),
					"zero-signature" => sig = vec![0; 64],
					_ => {}
				}
				let sb = blob(&alg, &sig);
				k.msg("AuthSigned", &[&us[..], &[("alg", Val::B(alg)), ("blob", Val::B(bl)), ("sig", Val::B(sb))]].concat());
			}
		}
		let mut a = "";
		let r = self.until(c, |k| match k.auth.pop_front() {
			Some(x) => {
				a = x;
				true
			}
			None => false,
		});
		if r == "ok" {
			a
		} else {
			r
		}
	}

	fn request(&mut self, o: &Value, c: u64, n: u64) -> &'static str {
		let k = self.clients.get_mut(&c).unwrap();
		let num = k.chans[&n].num;
		let reply = o["reply"].as_bool().unwrap();
		let (ty, d) = if o["op"] == "shell" {
			(b"shell".to_vec(), vec![])
		} else {
			(b"exec".to_vec(), wire::string(&wire::bytes(&o["cmd"])))
		};
		k.msg("Request", &[("recipient", Val::U32(num)), ("type", Val::B(ty)), ("reply", Val::Bool(reply)), ("data", Val::B(d))]);
		if !reply {
			return "none";
		}
		let mut a = None;
		let r = self.until(c, |k| {
			let ch = k.chans.get_mut(&n).unwrap();
			a = ch.replies.pop_front();
			a.is_some() || ch.closed
		});
		match (r, a) {
			("ok", Some(true)) => "success",
			("ok", Some(false)) => "failure",
			("ok", None) => "closed",
			_ => r,
		}
	}

	fn data(&mut self, c: u64, n: u64, mut left: u64) -> &'static str {
		while left > 0 {
			let r = self.until(c, |k| k.tx.len() < 100000 && k.chans[&n].window > 0 || k.chans[&n].closed);
			if r != "ok" {
				return r;
			}
			let k = self.clients.get_mut(&c).unwrap();
			let id = k.id;
			let ch = k.chans.get_mut(&n).unwrap();
			if ch.closed {
				return "ok";
			}
			let l = left.min(ch.window).min(ch.max).min(30000);
			let d: Vec<u8> = (0..l).map(|i| client::in_byte(id * 100 + n, ch.fed + i)).collect();
			ch.fed += l;
			ch.window -= l;
			let num = ch.num;
			if !k.msg("Data", &[("recipient", Val::U32(num)), ("data", Val::B(d))]) {
				return "gone";
			}
			left -= l;
		}
		"ok"
	}

	fn op(&mut self, o: &Value) {
		let c = o["c"].as_u64().unwrap_or(0);
		let n = o["k"].as_u64().unwrap_or(0);
		let mut e = o.clone();
		e["e"] = o["op"].clone();
		let op = o["op"].as_str().unwrap();
		macro_rules! k {
			() => {
				self.clients.get_mut(&c).unwrap()
			};
		}
		let r: Value = match op {
			"connect" => self.connect(c, o["upto"].as_str().unwrap()).into(),
			"auth" => self.auth(c, o["how"].as_str().unwrap()).into(),
			"open" => {
				let (win, max) = (o["win"].as_u64().unwrap(), o["max"].as_u64().unwrap());
				k!().msg("Open", &[("type", b(b"session")), ("sender", Val::U32(n as u32)), ("window", Val::U32(win as u32)), ("maxpkt", Val::U32(max as u32))]);
				let mut a = None;
				let r = self.until(c, |k| {
					a = k.conf.pop_front();
					a.is_some()
				});
				if let Some((_, num, window, max)) = a {
					k!().chans.insert(
						n,
						Chan {
							num,
							window,
							max,
							ours: win,
							win,
							out: vec![],
							err: vec![],
							status: None,
							eof: false,
							closed: false,
							late: false,
							sent_close: false,
							fed: 0,
							oversize: false,
							replies: VecDeque::new(),
						},
					);
				}
				r.into()
			}
			"exec" | "shell" => self.request(o, c, n).into(),
			"data" => self.data(c, n, o["n"].as_u64().unwrap()).into(),
			"eof" => {
				let num = k!().chans[&n].num;
				k!().msg("Eof", &[("recipient", Val::U32(num))]);
				"ok".into()
			}
			"close" => {
				let num = k!().chans[&n].num;
				k!().chans.get_mut(&n).unwrap().sent_close = true;
				k!().msg("Close", &[("recipient", Val::U32(num))]);
				"ok".into()
			}
			"finish" => {
				let r = self.until(c, |k| k.chans[&n].closed);
				let k = k!();
				let ch = k.chans.get_mut(&n).unwrap();
				e["out"] = frames(&ch.out, |i| client::in_byte(k.id * 100 + n, i));
				e["err"] = frames(&ch.err, |_| 0);
				e["status"] = ch.status.map_or("none".into(), |s| s.to_string()).into();
				e["eof"] = ch.eof.into();
				e["late"] = ch.late.into();
				e["over"] = ch.oversize.into();
				let num = ch.num;
				ch.sent_close = true;
				if r == "ok" {
					k.msg("Close", &[("recipient", Val::U32(num))]);
				}
				r.into()
			}
			"stall" => {
				k!().read = false;
				"ok".into()
			}
			"garbage" => {
				let d: Vec<u8> = match o["how"].as_str().unwrap() {
					"zeros" => vec![0; 64],
					"ones" => vec![0xff; 64],
					"random" => (0..3000).map(|i| (client::mix(c, i) >> 11) as u8).collect(),
					"line" => b"GET / HTTP/1.1\r\n\r\n".to_vec(),
					"packet" => {
						let d: Vec<u8> = (0..40).map(|i| (client::mix(c, i) >> 11) as u8).collect();
						k!().p.seal(&d, 0)
					}
					"empty-packet" => k!().p.seal(&[], 0),
					"unknown-channel" => {
						let p = k!().p.t.encode("Data", &f(&[("recipient", Val::U32(77)), ("data", b(b"x"))]));
						k!().p.seal(&p, 0)
					}
					"disconnect" => {
						let p = k!().p.t.encode("Disconnect", &f(&[("reason", Val::U32(11)), ("description", b(b"bye")), ("language", b(b""))]));
						k!().p.seal(&p, 0)
					}
					h => panic!("garbage {h}"),
				};
				k!().raw(&d);
				"ok".into()
			}
			"drop" => {
				let k = self.clients.remove(&c).unwrap();
				if o["rst"] == true {
					let l = libc::linger { l_onoff: 1, l_linger: 0 };
					unsafe {
						libc::setsockopt(k.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32)
					};
				}
				"ok".into()
			}
			"flood" => {
				// more connections than the daemon has descriptors for
				let mut v = vec![];
				for _ in 0..o["n"].as_u64().unwrap() {
					if let Ok(s) = TcpStream::connect(ADDR) {
						v.push(s);
					}
				}
				std::thread::sleep(Duration::from_millis(400));
				drop(v);
				"ok".into()
			}
			"alive" => {
				std::thread::sleep(Duration::from_millis(5));
				(if matches!(self.daemon.try_wait(), Ok(None)) { "ok" } else { "gone" }).into()
			}
			x => panic!("op {x}"),
		};
		e["r"] = r;
		self.trace.push(e);
	}
}

/// Frames of the probe's output; whether the bytes are the right ones.
fn frames(mut d: &[u8], input: impl Fn(u64) -> u8) -> Value {
	let mut r: Vec<Value> = vec![];
	let (mut fed, mut copied) = (0, 0);
	while !d.is_empty() {
		let bad = |d: &[u8]| json!({"op": "bad", "n": d.len(), "a": []});
		let Some(i) = d.iter().take(30).position(|c| *c == b'\n') else {
			r.push(bad(d));
			break;
		};
		let h = String::from_utf8_lossy(&d[..i]).to_string();
		let Some((op, n)) = h.split_once(' ').and_then(|(o, n)| Some((o, n.parse::<usize>().ok()?))) else {
			r.push(bad(d));
			break;
		};
		d = &d[i + 1..];
		if n > d.len() {
			r.push(bad(d));
			break;
		}
		let (x, rest) = d.split_at(n);
		d = rest;
		let gen = |s: u64| {
			x.iter().enumerate().all(|(i, c)| {
				let z = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(s * 77);
				(z >> 29) as u8 == *c
			})
		};
		let good = match op {
			"o" => gen(1),
			"e" => gen(2),
			"i" => {
				let g = x.iter().enumerate().all(|(i, c)| input(fed + i as u64) == *c);
				fed += n as u64;
				copied += n;
				if g {
					continue;
				}
				false
			}
			"I" => {
				if copied > 0 {
					r.push(json!({"op": "i", "n": copied, "a": []}));
					copied = 0;
				}
				true
			}
			"a" => {
				r.push(json!({"op": "a", "n": 0, "a": x}));
				continue;
			}
			_ => false,
		};
		r.push(json!({"op": if good { op } else { "bad" }, "n": n, "a": []}));
	}
	if copied > 0 {
		r.push(json!({"op": "i", "n": copied, "a": []}));
	}
	r.into()
}

fn start(binary: &str, dir: &str, shell: Option<&str>, files: u64) -> Child {
	let mut c = Command::new(binary);
	c.current_dir(dir).env_clear().env("PATH", format!("{dir}/bin")).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
	if let Some(s) = shell {
		c.env("SHELL", s);
	}
	if unsafe { libc::geteuid() } == 0 {
		c.uid(65534).gid(65534);
	}
	unsafe {
		c.pre_exec(move || {
			libc::setsid();
			let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &core);
			if files > 0 {
				let l = libc::rlimit { rlim_cur: files, rlim_max: files };
				libc::setrlimit(libc::RLIMIT_NOFILE, &l);
			}
			Ok(())
		});
	}
	c.spawn().expect("harness: the daemon does not start")
}

/// drive TABLES SCRIPTS OUT DAEMON DIR
fn main() {
	let a: Vec<String> = std::env::args().collect();
	let t = Arc::new(Tables::load(&a[1]));
	let mut out = io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
	let mut stuck = 0;
	for l in std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.is_empty()) {
		let sc: Value = serde_json::from_str(l).unwrap();
		if stuck >= 4 {
			break;
		}
		let mut busy = 0;
		while TcpStream::connect(ADDR).is_ok() {
			busy += 1;
			if busy > 300 {
				eprintln!("port 2222 is taken");
				std::process::exit(3);
			}
			std::thread::sleep(Duration::from_millis(100));
		}
		let shell = format!("{}/bin/probe", a[5]);
		let shell = match sc["shell"].as_str().unwrap_or("probe") {
			"none" => None,
			"missing" => Some("/nonexistent/shell".to_string()),
			_ => Some(shell),
		};
		let mut daemon = start(&a[4], &a[5], shell.as_deref(), sc["files"].as_u64().unwrap_or(0));
		let begin = Instant::now();
		let patience = Duration::from_secs(sc["patience"].as_u64().unwrap_or(PATIENCE));
		let mut up = false;
		while begin.elapsed() < Duration::from_secs(PATIENCE) {
			if let Ok(Some(s)) = daemon.try_wait() {
				eprintln!("the daemon ended at once: {s}");
				break;
			}
			if TcpStream::connect(ADDR).is_ok() {
				up = true;
				break;
			}
			std::thread::sleep(Duration::from_millis(3));
		}
		let group = daemon.id() as i32;
		let mut w = World { t: t.clone(), patience, clients: BTreeMap::new(), daemon, trace: vec![json!({"e": "start", "shell": sc["shell"], "up": up})] };
		if up {
			for o in sc["ops"].as_array().unwrap() {
				let c = o["c"].as_u64();
				// a client that failed before
				if o["op"] != "connect" && o["op"] != "alive" && o["op"] != "flood" {
					match c.and_then(|c| w.clients.get(&c)) {
						None => break,
						Some(k) => {
							if o["k"].as_u64().map_or(false, |n| o["op"] != "open" && !k.chans.contains_key(&n)) {
								break;
							}
						}
					}
				}
				w.op(o);
				if w.trace.last().unwrap()["r"] == "timeout" {
					stuck += 1;
					break;
				}
			}
		}
		let World { mut daemon, trace, .. } = w;
		unsafe { libc::killpg(group, libc::SIGKILL) };
		let _ = daemon.kill();
		let _ = daemon.wait();
		writeln!(out, "{}", json!({"name": sc["name"], "ms": begin.elapsed().as_millis() as u64, "trace": trace})).unwrap();
		out.flush().unwrap();
	}
}
