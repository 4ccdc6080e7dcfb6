//! Runs the real server in memory against scripted peers, callbacks and
//! processes, and records everything that is observable.
use crate::{
	mem::{self, Counts},
	client::{self, in_byte, mix, out_byte, server_msg, tok, HostInfo, Peer, Rx},
	wire::{Fields, Tables, Val},
};
use futures::io::{self, AsyncRead, AsyncWrite};
use nora_ssh::{
	auth::Auth,
	cipher::ChaCha20Poly1305,
	server::{IoSet, Server, ServerHandlers, SpawnType},
	Identifier,
};
use rand::{CryptoRng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::{
	collections::{HashMap, HashSet, VecDeque},
	future::Future,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Mutex,
	},
	task::{Context, Poll, Wake, Waker},
};

pub const IDENT: &[u8] = b"SSH-2.0-nora_verif x";

type W = Arc<Mutex<World>>;

pub struct Conn {
	pub peer: Peer,
	// bytes to the server
	rbuf: VecDeque<u8>,
	held: Vec<Held>,
	rmax: usize,
	ryield: bool,
	rtoggle: bool,
	hup: bool,
	rerr: bool,
	rwaker: Option<Wk>,
	// bytes from the server
	cap: Option<usize>,
	wmax: usize,
	wyield: bool,
	wtoggle: bool,
	werr: bool,
	werr_seen: bool,
	wwaker: Option<Wk>,
	served: bool,
	rd_gone: bool,
	wr_gone: bool,
	// what the script sent
	data_pos: u64,
	data_starts: Vec<u64>,
	opens: Vec<u32>,
	swap: Option<(Vec<u8>, Value)>,
	dirty: bool,
	/// next byte of a packet that was cut off
	missing: Option<u8>,
	/// the server did not read or write yet
	fresh: bool,
	/// requests whose reply is awaited, see `Side`
	asked: u64,
}

/// Bytes that were cut off, and the item they complete
struct Held {
	bytes: Vec<u8>,
	item: Option<Value>,
}

enum CbState {
	Pending,
	Done(bool, String),
	Taken,
	Dropped,
}

struct Cb {
	kind: &'static str,
	name: String,
	state: CbState,
	waker: Option<Wk>,
}

struct Stream {
	buf: VecDeque<u8>,
	written: u64,
	eof: bool,
	err: bool,
	waker: Option<Wk>,
	chunk: usize,
	yields: bool,
	toggle: bool,
	gone: bool,
}

impl Stream {
	fn new() -> Self {
		Self { buf: VecDeque::new(), written: 0, eof: false, err: false, waker: None, chunk: usize::MAX, yields: false, toggle: false, gone: false }
	}
}

struct Proc {
	s: [Stream; 2],
	recv: [u64; 2],
	exit: Option<u32>,
	exit_waker: Option<Wk>,
	in_cap: Option<usize>,
	in_max: usize,
	in_err: bool,
	in_waker: Option<Wk>,
	cont: HashSet<u64>,
	in_total: u64,
	/// whether the server holds its input and the future of its exit
	held: (bool, bool),
}

/// What waits for the server to do something, and what the server did in the meantime.
/// Waits that are short are counted only.
struct Side {
	on: bool,
	ev: Vec<Value>,
	/// polls with a result so far, and bytes
	k: u64,
	n: u64,
	/// where in `ev`, since when, and whether everything came to rest in the meantime
	waiting: HashMap<(char, usize), (usize, u64, u64, bool)>,
	short: u64,
	longest: u64,
}

/// Whether to record that
pub static MEM: AtomicBool = AtomicBool::new(false);
pub static WATCH: AtomicBool = AtomicBool::new(false);
thread_local!(static SIDE: std::cell::RefCell<Side> = std::cell::RefCell::new(Side::new(false)));

impl Side {
	fn new(on: bool) -> Self {
		Self { on, ev: vec![], k: 0, n: 0, waiting: HashMap::new(), short: 0, longest: 0 }
	}
	fn add(&mut self, e: &str, s: Value) {
		self.ev.push(json!({"e": e, "s": s, "k": self.k, "n": self.n}));
	}
	fn end(&mut self, e: &str, t: char, i: usize) {
		if let Some((at, k, n, rest)) = self.waiting.remove(&(t, i)) {
			self.longest = self.longest.max(self.k - k);
			if !rest && self.k - k < 200 && self.n - n < 50_000 {
				self.short += 1;
				self.ev[at] = Value::Null;
			} else {
				self.add(e, format!("{t}{}", i + 1).into());
			}
		}
	}
}

/// `n` is the number of bytes if there is a result
fn polled(t: char, i: usize, n: Option<usize>) {
	SIDE.with(|s| {
		let s = &mut *s.borrow_mut();
		if s.on {
			s.end("poll", t, i);
			s.k += n.is_some() as u64;
			s.n += n.unwrap_or(0) as u64;
		}
	});
}

fn woken(t: char, i: usize) {
	SIDE.with(|s| {
		let s = &mut *s.borrow_mut();
		if s.on && !s.waiting.contains_key(&(t, i)) {
			s.waiting.insert((t, i), (s.ev.len(), s.k, s.n, false));
			s.add("wake", format!("{t}{}", i + 1).into());
		}
	});
}

fn gone(t: char, i: usize) {
	SIDE.with(|s| s.borrow_mut().end("gone", t, i));
}

/// A waker and what it is for
struct Wk(Waker, char, usize);

impl Wk {
	fn new(cx: &Context<'_>, t: char, i: usize) -> Self {
		Self(cx.waker().clone(), t, i)
	}
	fn wake(self) {
		woken(self.1, self.2);
		self.0.wake();
	}
}

/// An operation to do when something has been polled often enough
struct Later {
	t: char,
	i: usize,
	n: u64,
	op: Value,
}

pub struct World {
	later: Vec<Later>,
	/// Somebody closed a channel or a connection: output may be discarded
	quits: bool,
	/// Connections and processes that are held up on purpose
	stalled: HashSet<(char, usize)>,
	t: Arc<Tables>,
	host: Arc<HostInfo>,
	pub trace: Vec<Value>,
	conns: Vec<Conn>,
	accept_q: VecDeque<usize>,
	accept_waker: Option<Wk>,
	cbs: Vec<Cb>,
	procs: Vec<Proc>,
	auto: bool,
	users: u64,
	users_held: u64,
	/// the connection that the current operation is about
	cur: usize,
	/// the connection of a login, if known
	users_of: HashMap<u64, usize>,
	/// What there is and what the server holds (C27)
	mem: Vec<Value>,
	progress: u64,
	/// Length of the trace when the server was last let go
	mark: usize,
	runaway: bool,
	pub stats: Stats,
}

#[derive(Default, Clone)]
pub struct Stats {
	pub packets: u64,
	pub ops: u64,
	pub skipped: u64,
}

impl World {
	fn log(&mut self, v: Value) {
		self.progress += 1;
		if self.trace.len() - self.mark > 300_000 {
			// far more than any script asks for: keep the beginning and starve the server
			self.trace.truncate(self.mark + 5000);
			self.runaway = true;
		}
		if !self.runaway && !MEM.load(Ordering::SeqCst) {
			self.trace.push(v);
		}
	}

	fn event(&mut self, v: Value) {
		if MEM.load(Ordering::SeqCst) {
			self.mem.push(v);
		}
	}

	/// What the server holds
	fn held(&self) -> Value {
		let list = |n: usize, f: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..n).filter(|i| f(*i)).map(|i| i + 1).collect() };
		let (c, p) = (self.conns.len(), self.procs.len());
		json!({
			"conns": list(c, &|i| self.conns[i].served && !(self.conns[i].rd_gone && self.conns[i].wr_gone)),
			"users": self.users_held,
			"ins": list(p, &|i| self.procs[i].held.0),
			"outs": list(p, &|i| !self.procs[i].s[0].gone || !self.procs[i].s[1].gone || self.procs[i].held.1),
			"calls": self.cbs.iter().filter(|c| !matches!(c.state, CbState::Taken | CbState::Dropped)).count(),
		})
	}

	fn rx(&mut self, c: usize, data: &[u8]) {
		let mut out = vec![];
		self.conns[c].peer.receive(data, &mut out);
		for r in out {
			match r {
				Rx::Ident(ok) => self.log(json!({"e": "srv", "c": c + 1, "m": {"t": "Ident", "ok": ok}})),
				Rx::Reply(v) => {
					self.answered(c);
					self.log(json!({"e": "srv", "c": c + 1, "m": v}))
				}
				Rx::Bad(why) => self.log(json!({"e": "badpkt", "c": c + 1, "why": why})),
				Rx::Msg(t, f) => {
					self.stats.packets += 1;
					let mut m = server_msg(&t, &f);
					const REPLIES: [&str; 8] = ["Success", "Failure", "OpenConf", "OpenFail", "ServiceAccept", "AuthSuccess", "AuthFailure", "AuthPkOk"];
					if REPLIES.contains(&t.as_str()) {
						self.answered(c);
					}
					if t == "Data" || t == "ExtData" {
						let d = f["data"].b();
						let (mut p, mut s, mut ok) = (0, 0, true);
						if let Some(b) = d.first() {
							// the tag names the process and the stream
							let tag = (*b >> 3) as usize;
							p = tag / 2;
							s = tag % 2;
							ok = p < self.procs.len();
							if ok {
								let base = self.procs[p].recv[s];
								ok = d.iter().enumerate().all(|(i, b)| *b == out_byte(p as u64, s as u64 + 1, base + i as u64));
								self.procs[p].recv[s] += d.len() as u64;
								polled('d', p * 2 + s, None);
							}
							p += 1;
							s += 1;
						}
						m["p"] = p.into();
						m["s"] = s.into();
						m["ok"] = ok.into();
						m["n"] = d.len().into();
					}
					self.log(json!({"e": "srv", "c": c + 1, "m": m}));
				}
			}
		}
	}

	fn fire(&mut self, t: char, i: usize) {
		let mut due = vec![];
		for (j, l) in self.later.iter_mut().enumerate() {
			if (l.t, l.i) == (t, i) {
				l.n = l.n.saturating_sub(1);
				if l.n == 0 {
					due.push(j);
				}
			}
		}
		for j in due.into_iter().rev() {
			let l = self.later.remove(j);
			Sim::apply(self, &l.op);
		}
	}

	/// The server uses a connection
	fn used(&mut self, c: usize) {
		if std::mem::take(&mut self.conns[c].fresh) {
			polled('n', c, None);
		}
	}

	/// The peer got a reply
	fn answered(&mut self, c: usize) {
		if self.conns[c].asked > 0 {
			self.conns[c].asked -= 1;
			polled('q', c, None);
			if self.conns[c].asked > 0 {
				woken('q', c);
			}
		}
	}

	/// From now on output may be discarded
	fn quit(&mut self) {
		self.quits = true;
		for i in 0..self.procs.len() * 2 {
			gone('d', i);
		}
	}

	fn closed(&mut self, c: usize) {
		if self.conns[c].rd_gone || self.conns[c].wr_gone {
			// nothing more will be sent
			gone('n', c);
			gone('q', c);
			self.quit();
		}
		if self.conns[c].rd_gone && self.conns[c].wr_gone {
			self.log(json!({"e": "closed", "c": c + 1}));
			self.event(json!({"e": "closed", "c": c + 1}));
		}
	}
}

pub struct Rd(W, usize);
pub struct Wr(W, usize);

impl AsyncRead for Rd {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		if w.runaway {
			return Poll::Pending;
		}
		w.used(self.1);
		let k = &mut w.conns[self.1];
		if k.ryield && !k.rbuf.is_empty() {
			k.rtoggle = !k.rtoggle;
			if k.rtoggle {
				polled('r', self.1, None);
				cx.waker().wake_by_ref();
				return Poll::Pending;
			}
		}
		if !k.rbuf.is_empty() && !buf.is_empty() {
			let n = buf.len().min(k.rbuf.len()).min(k.rmax);
			for b in &mut buf[..n] {
				*b = k.rbuf.pop_front().unwrap();
			}
			w.progress += 1;
			polled('r', self.1, Some(n));
			w.fire('r', self.1);
			Poll::Ready(Ok(n))
		} else if k.rerr {
			polled('r', self.1, Some(0));
			Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
		} else if k.hup || buf.is_empty() {
			polled('r', self.1, Some(0));
			Poll::Ready(Ok(0))
		} else {
			k.rwaker = Some(Wk::new(cx, 'r', self.1));
			polled('r', self.1, None);
			Poll::Pending
		}
	}
}

impl AsyncWrite for Wr {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		if w.runaway {
			return Poll::Pending;
		}
		w.used(self.1);
		let k = &mut w.conns[self.1];
		if k.wyield && k.cap != Some(0) {
			k.wtoggle = !k.wtoggle;
			if k.wtoggle {
				polled('w', self.1, None);
				cx.waker().wake_by_ref();
				return Poll::Pending;
			}
		}
		if k.werr {
			polled('w', self.1, Some(0));
			if !k.werr_seen {
				k.werr_seen = true;
				w.log(json!({"e": "werr", "c": self.1 + 1}));
			}
			return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
		}
		let n = buf.len().min(k.wmax).min(k.cap.unwrap_or(usize::MAX));
		if n == 0 && !buf.is_empty() {
			k.wwaker = Some(Wk::new(cx, 'w', self.1));
			polled('w', self.1, None);
			return Poll::Pending;
		}
		if let Some(c) = &mut k.cap {
			*c -= n;
		}
		w.progress += 1;
		polled('w', self.1, Some(n));
		w.rx(self.1, &buf[..n]);
		Poll::Ready(Ok(n))
	}

	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}

	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
}

impl Drop for Rd {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		gone('r', self.1);
		w.conns[self.1].rd_gone = true;
		w.conns[self.1].rwaker = None;
		w.closed(self.1);
	}
}

impl Drop for Wr {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		gone('w', self.1);
		w.conns[self.1].wr_gone = true;
		w.conns[self.1].wwaker = None;
		w.closed(self.1);
	}
}

pub struct Stdin(W, usize);
pub struct Out(W, usize, usize);

impl AsyncWrite for Stdin {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		if w.runaway {
			return Poll::Pending;
		}
		let w = &mut *w;
		let p = &mut w.procs[self.1];
		if p.in_err {
			polled('i', self.1, Some(0));
			w.log(json!({"e": "inerr", "p": self.1 + 1}));
			return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
		}
		let n = buf.len().min(p.in_max).min(p.in_cap.unwrap_or(usize::MAX));
		if n == 0 && !buf.is_empty() {
			p.in_waker = Some(Wk::new(cx, 'i', self.1));
			polled('i', self.1, None);
			return Poll::Pending;
		}
		if let Some(c) = &mut p.in_cap {
			*c -= n;
		}
		polled('i', self.1, Some(n));
		if n == 0 {
			return Poll::Ready(Ok(0));
		}
		p.in_total += n as u64;
		// Where in the data sent by the peers do these bytes occur?
		let mut cand: Vec<u64> = vec![];
		let fits = |c: u64, a: u64| (0..n as u64).all(|i| buf[i as usize] == in_byte(c, a + i));
		for (c, k) in w.conns.iter().enumerate() {
			for a in &k.data_starts {
				if fits(c as u64, *a) {
					cand.push((c as u64 + 1) * 100_000_000 + a);
				}
			}
		}
		for x in &p.cont {
			if !cand.contains(x) && fits(x / 100_000_000 - 1, x % 100_000_000) {
				cand.push(*x);
			}
		}
		p.cont = cand.iter().map(|x| x + n as u64).collect();
		w.log(json!({"e": "in", "p": self.1 + 1, "n": n, "at": cand}));
		Poll::Ready(Ok(n))
	}

	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}

	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
}

impl Drop for Stdin {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		gone('i', self.1);
		w.procs[self.1].in_waker = None;
		w.procs[self.1].held.0 = false;
		w.log(json!({"e": "indrop", "p": self.1 + 1}));
	}
}

impl AsyncRead for Out {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		if w.runaway {
			return Poll::Pending;
		}
		let s = &mut w.procs[self.1].s[self.2];
		if s.yields && !s.buf.is_empty() {
			s.toggle = !s.toggle;
			if s.toggle {
				polled('o', self.1 * 2 + self.2, None);
				cx.waker().wake_by_ref();
				return Poll::Pending;
			}
		}
		if !s.buf.is_empty() {
			let n = buf.len().min(s.buf.len()).min(s.chunk);
			for b in &mut buf[..n] {
				*b = s.buf.pop_front().unwrap();
			}
			w.progress += 1;
			polled('o', self.1 * 2 + self.2, Some(n));
			if !w.quits && !w.stalled.contains(&('p', self.1)) {
				woken('d', self.1 * 2 + self.2);
			}
			w.fire('o', self.1 * 2 + self.2);
			Poll::Ready(Ok(n))
		} else if s.err {
			polled('o', self.1 * 2 + self.2, Some(0));
			Poll::Ready(Err(io::ErrorKind::Other.into()))
		} else if s.eof {
			polled('o', self.1 * 2 + self.2, Some(0));
			Poll::Ready(Ok(0))
		} else {
			s.waker = Some(Wk::new(cx, 'o', self.1 * 2 + self.2));
			polled('o', self.1 * 2 + self.2, None);
			Poll::Pending
		}
	}
}

impl Drop for Out {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		w.procs[self.1].s[self.2].gone = true;
		w.procs[self.1].s[self.2].waker = None;
		gone('o', self.1 * 2 + self.2);
	}
}

struct Exit(W, usize);

impl Drop for Exit {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		w.procs[self.1].exit_waker = None;
		w.procs[self.1].held.1 = false;
		gone('x', self.1);
	}
}

impl Future for Exit {
	type Output = u32;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		let p = &mut w.procs[self.1];
		match p.exit {
			Some(e) => {
				polled('x', self.1, Some(0));
				Poll::Ready(e)
			}
			None => {
				p.exit_waker = Some(Wk::new(cx, 'x', self.1));
				polled('x', self.1, None);
				Poll::Pending
			}
		}
	}
}

/// A call of the application: logged when it starts, answered by the script
struct Call(W, usize);

impl Future for Call {
	type Output = (bool, String);
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<(bool, String)> {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		let cb = &mut w.cbs[self.1];
		if let CbState::Done(ok, io) = &cb.state {
			let r = (*ok, io.clone());
			cb.state = CbState::Taken;
			polled('k', self.1, Some(0));
			return Poll::Ready(r);
		}
		cb.waker = Some(Wk::new(cx, 'k', self.1));
		polled('k', self.1, None);
		Poll::Pending
	}
}

impl Drop for Call {
	fn drop(&mut self) {
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		let cb = &mut w.cbs[self.1];
		cb.waker = None;
		if !matches!(cb.state, CbState::Taken) {
			gone('k', self.1);
			cb.state = CbState::Dropped;
		}
	}
}

/// What the application gives for a successful login
pub struct User(W, u64);

impl Drop for User {
	fn drop(&mut self) {
		let _h = Counts::harness();
		self.0.lock().unwrap().users_held -= 1;
	}
}

pub struct Handlers(W);

impl Handlers {
	fn call(&self, kind: &'static str, name: &[u8], ev: impl FnOnce() -> Value) -> Call {
		let _h = Counts::harness();
		let mut ev = ev();
		let mut w = self.0.lock().unwrap();
		let id = w.cbs.len();
		ev["e"] = kind.into();
		ev["id"] = (id + 1).into();
		w.log(ev);
		let name = tok(name);
		let state = if w.auto {
			// names that start with "no" are refused
			CbState::Done(!name.starts_with("no"), "ioe".into())
		} else {
			CbState::Pending
		};
		w.cbs.push(Cb { kind, name, state, waker: None });
		Call(self.0.clone(), id)
	}
}

pub struct TestRng(rand::rngs::StdRng);
static RNG: AtomicU64 = AtomicU64::new(1);
/// Real entropy instead of reproducible runs
pub static ENTROPY: AtomicBool = AtomicBool::new(false);
// How generators were seeded
thread_local!(static SEEDS: std::cell::RefCell<Vec<Value>> = Default::default());
thread_local!(static RNG_SEED: std::cell::Cell<Option<u64>> = std::cell::Cell::new(None));

impl RngCore for TestRng {
	fn next_u32(&mut self) -> u32 {
		self.0.next_u32()
	}
	fn next_u64(&mut self) -> u64 {
		self.0.next_u64()
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		self.0.fill_bytes(d)
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.0.try_fill_bytes(d)
	}
}
impl CryptoRng for TestRng {}
impl SeedableRng for TestRng {
	type Seed = [u8; 32];
	fn from_seed(s: [u8; 32]) -> Self {
		let v: String = s.iter().map(|b| format!("{b:02x}")).collect();
		SEEDS.with(|l| l.borrow_mut().push(json!({"e": "seed", "how": "seed", "v": v})));
		Self(SeedableRng::from_seed(s))
	}
	fn seed_from_u64(n: u64) -> Self {
		SEEDS.with(|l| l.borrow_mut().push(json!({"e": "seed", "how": "u64", "v": n.to_string()})));
		Self(SeedableRng::seed_from_u64(n))
	}
	fn from_entropy() -> Self {
		if ENTROPY.load(Ordering::SeqCst) {
			SEEDS.with(|l| l.borrow_mut().push(json!({"e": "seed", "how": "entropy", "v": ""})));
			return Self(SeedableRng::from_entropy());
		}
		let n = RNG_SEED.with(|s| {
			let v = s.get().unwrap_or_else(|| RNG.fetch_add(1, Ordering::SeqCst));
			s.set(Some(v.wrapping_add(0x1000003)));
			v
		});
		Self(SeedableRng::seed_from_u64(n))
	}
}

#[async_trait::async_trait]
impl ServerHandlers for Handlers {
	type Sign = p256::NistP256;
	type Crypt = ChaCha20Poly1305;
	type Read = Rd;
	type Write = Wr;
	type User = User;
	type Stdin = Stdin;
	type Stdout = Out;
	type Stderr = Out;
	type Rng = TestRng;

	async fn accept(&self) -> (Rd, Wr) {
		let w = self.0.clone();
		futures::future::poll_fn(move |cx| {
			let _h = Counts::harness();
			let mut g = w.lock().unwrap();
			match g.accept_q.pop_front() {
				Some(c) => {
					polled('a', 0, Some(0));
					woken('n', c);
					g.log(json!({"e": "accept", "c": c + 1}));
					g.conns[c].served = true;
					drop(g);
					Poll::Ready((Rd(w.clone(), c), Wr(w.clone(), c)))
				}
				None => {
					g.accept_waker = Some(Wk::new(cx, 'a', 0));
					polled('a', 0, None);
					Poll::Pending
				}
			}
		})
		.await
	}

	async fn public_key_exists<'a>(&self, user: &'a [u8], service: &'a [u8], algorithm: &'a [u8], key: &'a [u8]) -> Result<(), ()> {
		let c = self.call("pk", user, || json!({"a": {"f": "pk", "user": tok(user), "service": tok(service), "alg": tok(algorithm), "key": tok(key)}}));
		let id = c.1;
		let (ok, _) = c.await;
		let _h = Counts::harness();
		self.0.lock().unwrap().log(json!({"e": "res", "id": id + 1, "ok": ok}));
		ok.then(|| ()).ok_or(())
	}

	async fn authenticate<'a>(&self, user: &'a [u8], service: &'a [u8], auth: Auth<'a>) -> Result<User, ()> {
		let a = || match auth {
			Auth::None => json!({"f": "none", "user": tok(user), "service": tok(service)}),
			Auth::Password(p) => json!({"f": "password", "user": tok(user), "service": tok(service), "pw": tok(p)}),
			Auth::PublicKey { algorithm, key, signature, message } => {
				json!({"f": "publickey", "user": tok(user), "service": tok(service), "alg": tok(algorithm), "key": tok(key), "sig": tok(signature), "tbs": tok(message)})
			}
		};
		let c = self.call("auth", user, || json!({"a": a()}));
		let id = c.1;
		let (ok, _) = c.await;
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		w.users += ok as u64;
		w.users_held += ok as u64;
		if ok {
			let (u, c) = (w.users, w.cur);
			w.users_of.insert(u, c);
			w.event(json!({"e": "login", "c": c}));
		}
		let tokn = w.users;
		w.log(json!({"e": "res", "id": id + 1, "ok": ok, "user": tokn}));
		ok.then(|| User(self.0.clone(), tokn)).ok_or(())
	}

	async fn spawn<'a>(&self, user: &'a mut User, ty: SpawnType<'a>, _data: &'a [u8]) -> Result<IoSet<Stdin, Out, Out>, ()> {
		let (f, cmd) = match ty {
			SpawnType::Shell => ("shell", &b""[..]),
			SpawnType::Exec { command } => ("exec", command),
		};
		let c = self.call("spawn", cmd, || json!({"user": user.1, "a": {"f": f, "cmd": tok(cmd)}}));
		let id = c.1;
		let (ok, io) = c.await;
		let _h = Counts::harness();
		let mut w = self.0.lock().unwrap();
		let n = w.procs.len();
		if !ok || n == 16 && !MEM.load(Ordering::SeqCst) {
			w.log(json!({"e": "res", "id": id + 1, "ok": false}));
			return Err(());
		}
		// an absent stream has ended
		let mk = |has: bool| Stream { eof: !has, gone: !has, ..Stream::new() };
		w.procs.push(Proc {
			s: [mk(io.contains('o')), mk(io.contains('e'))],
			recv: [0; 2],
			exit: None,
			exit_waker: None,
			in_cap: None,
			in_max: usize::MAX,
			in_err: false,
			in_waker: None,
			cont: HashSet::new(),
			in_total: 0,
			held: (io.contains('i'), true),
		});
		let of = w.users_of.get(&user.1).copied().unwrap_or(0);
		w.event(json!({"e": "spawn", "p": n + 1, "c": of}));
		let (i, o, e) = (io.contains('i'), io.contains('o'), io.contains('e'));
		w.log(json!({"e": "res", "id": id + 1, "ok": true, "p": n + 1, "i": i, "o": o, "x": e}));
		drop(w);
		Ok(IoSet {
			stdin: i.then(|| Stdin(self.0.clone(), n)),
			stdout: o.then(|| Out(self.0.clone(), n, 0)),
			stderr: e.then(|| Out(self.0.clone(), n, 1)),
			wait: Box::pin(Exit(self.0.clone(), n)),
		})
	}
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) {
		self.0.store(true, Ordering::SeqCst)
	}
}

thread_local!(pub static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

pub struct Sim {
	w: W,
	fut: Option<Pin<Box<dyn Future<Output = std::convert::Infallible>>>>,
	flag: Arc<Flag>,
	dead: bool,
}

async fn never(s: Server<Handlers>) -> std::convert::Infallible {
	s.start().await
}

pub fn host(seed: u64) -> (p256::ecdsa::SigningKey, Arc<HostInfo>) {
	let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
	let sk = p256::ecdsa::SigningKey::random(&mut rng);
	let key = sk.verifying_key();
	(sk, Arc::new(HostInfo { key: Some(key), ident: IDENT.to_vec() }))
}

/// Bytes of a script value
pub fn sbytes(v: &Value) -> Vec<u8> {
	match v {
		Value::String(s) => s.as_bytes().to_vec(),
		Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
		Value::Object(o) => {
			// string with length prefix / parts / filler
			if let Some(p) = o.get("cat") {
				return p.as_array().unwrap().iter().flat_map(sbytes).collect();
			}
			if let Some(p) = o.get("str") {
				return crate::wire::string(&sbytes(p));
			}
			let n = o.get("fill").and_then(|x| x.as_u64()).unwrap_or(0);
			let seed = o.get("seed").and_then(|x| x.as_u64()).unwrap_or(0);
			if o.get("ascii").is_some() {
				return (0..n).map(|i| b'a' + (mix(seed, i) % 26) as u8).collect();
			}
			(0..n).map(|i| (mix(seed, i) >> 9) as u8).collect()
		}
		_ => vec![],
	}
}

fn su32(v: &Value) -> u32 {
	match v {
		Value::String(s) => s.parse().unwrap_or(0),
		v => v.as_u64().unwrap_or(0) as u32,
	}
}

impl Sim {
	pub fn new(t: Arc<Tables>, seed: u64) -> Self {
		let (sk, host) = host(seed);
		RNG_SEED.with(|s| s.set(Some(mix(seed, 77))));
		SIDE.with(|s| *s.borrow_mut() = Side::new(WATCH.load(Ordering::SeqCst)));
		mem::reset();
		let w = Arc::new(Mutex::new(World {
			later: vec![],
			quits: false,
			stalled: HashSet::new(),
			t,
			host,
			trace: vec![],
			conns: vec![],
			accept_q: VecDeque::new(),
			accept_waker: None,
			cbs: vec![],
			procs: vec![],
			auto: true,
			users: 0,
			users_held: 0,
			cur: 0,
			users_of: HashMap::new(),
			mem: vec![],
			progress: 0,
			mark: 0,
			runaway: false,
			stats: Stats::default(),
		}));
		let server = Server::new(Identifier::new(IDENT).unwrap(), sk, Handlers(w.clone()));
		Self { w, fut: Some(Box::pin(never(server))), flag: Arc::new(Flag(AtomicBool::new(true))), dead: false }
	}

	/// Run until nothing is left to do
	pub fn run(&mut self) {
		{
			let mut w = self.w.lock().unwrap();
			w.mark = w.trace.len();
		}
		let waker = Waker::from(self.flag.clone());
		let mut last = (0, 0u64);
		while !self.dead && self.flag.0.swap(false, Ordering::SeqCst) {
			let fut = self.fut.as_mut().unwrap();
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				let _s = Counts::server();
				fut.as_mut().poll(&mut Context::from_waker(&waker))
			}));
			match r {
				Ok(Poll::Pending) => {}
				Ok(Poll::Ready(_)) => self.die("stopped"),
				Err(_) => self.die("panic"),
			}
			if self.dead {
				break;
			}
			let (p, runaway) = {
				let w = self.w.lock().unwrap();
				(w.progress, w.runaway)
			};
			if runaway {
				self.w.lock().unwrap().runaway = false;
				self.die("spin");
				break;
			}
			if p == last.0 {
				last.1 += 1;
				if last.1 > 100_000 {
					self.die("spin");
				}
			} else {
				last = (p, 0);
			}
		}
		if self.dead {
			return;
		}
		let mut w = self.w.lock().unwrap();
		let w = &mut *w;
		let wb: Vec<usize> = (0..w.conns.len()).filter(|c| w.conns[*c].cap == Some(0)).map(|c| c + 1).collect();
		let ib: Vec<usize> = (0..w.procs.len()).filter(|p| w.procs[*p].in_cap == Some(0)).map(|p| p + 1).collect();
		// answers of the application that the server did not collect
		let rs: Vec<usize> = (0..w.cbs.len()).filter(|i| matches!(w.cbs[*i].state, CbState::Done(..))).map(|i| i + 1).collect();
		w.trace.push(json!({"e": "quiet", "wb": wb, "ib": ib, "rs": rs}));
		// what is left although nothing holds it up
		for (i, k) in w.conns.iter().enumerate() {
			if !k.rbuf.is_empty() && !k.rd_gone && !w.stalled.contains(&('c', i)) {
				woken('r', i);
			}
		}
		for (i, p) in w.procs.iter().enumerate() {
			for s in 0..2 {
				if !p.s[s].buf.is_empty() && !p.s[s].gone && !w.stalled.contains(&('p', i)) {
					woken('o', i * 2 + s);
				}
			}
		}
		SIDE.with(|s| {
			let s = &mut *s.borrow_mut();
			if s.on {
				s.add("quiet", "".into());
				s.waiting.values_mut().for_each(|w| w.3 = true);
			}
		});
	}

	fn die(&mut self, why: &str) {
		self.dead = true;
		let msg = PANIC.with(|p| p.borrow().clone());
		// dropping it may panic again
		std::mem::forget(self.fut.take());
		let mut w = match self.w.lock() {
			Ok(w) => w,
			Err(e) => e.into_inner(),
		};
		w.trace.push(json!({"e": why, "msg": msg}));
		w.event(json!({"e": "died", "why": why, "msg": msg}));
		SIDE.with(|s| {
			let s = &mut *s.borrow_mut();
			s.add("died", why.into());
		});
	}

	/// What must be fresh: seeds, cookies, ephemeral keys, session identifiers and signatures
	pub fn fresh(&self) -> Vec<Value> {
		let mut r = SEEDS.with(|l| std::mem::take(&mut *l.borrow_mut()));
		if let Ok(w) = self.w.lock() {
			for k in &w.conns {
				r.extend(k.peer.fresh.iter().cloned());
			}
		}
		r
	}

	/// The record of what was polled, up to now
	pub fn watched(&self) -> Option<Value> {
		SIDE.with(|s| {
			let s = &mut *s.borrow_mut();
			let s = std::mem::replace(s, Side::new(false));
			s.on.then(|| json!({"ev": s.ev.into_iter().filter(|v| !v.is_null()).collect::<Vec<_>>(), "short": s.short, "longest": s.longest, "polls": s.k, "bytes": s.n}))
		})
	}

	/// The record of what the server held
	pub fn memory(&self) -> Vec<Value> {
		self.w.lock().map(|mut w| std::mem::take(&mut w.mem)).unwrap_or_default()
	}

	/// What happened so far, for when the server does not return
	pub fn world(&self) -> Arc<Mutex<World>> {
		self.w.clone()
	}

	pub fn finish(mut self) -> (Vec<Value>, Stats) {
		if let Some(f) = self.fut.take() {
			let t = {
				let w = self.w.lock().unwrap();
				w.trace.len()
			};
			if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f))).is_err() {
				// not part of the run
			}
			let mut w = match self.w.lock() {
				Ok(w) => w,
				Err(e) => e.into_inner(),
			};
			w.trace.truncate(t);
		}
		let mut w = match self.w.lock() {
			Ok(w) => w,
			Err(e) => e.into_inner(),
		};
		(std::mem::take(&mut w.trace), w.stats.clone())
	}

	/// Everything is released at the end: capacity, callbacks, then every peer hangs up
	pub fn wind_up(&mut self) {
		{
			let mut w = self.w.lock().unwrap();
			for k in w.conns.iter_mut() {
				k.cap = None;
				k.wwaker.take().map(|x| x.wake());
			}
			for p in w.procs.iter_mut() {
				p.in_cap = None;
				p.in_waker.take().map(|x| x.wake());
			}
		}
		self.run();
		for _ in 0..1000 {
			if self.dead || !self.op(&json!({"op": "resolve", "ok": false})) {
				break;
			}
			self.run();
		}
		let n = self.w.lock().unwrap().conns.len();
		for c in 1..=n {
			self.op(&json!({"op": "hangup", "c": c}));
		}
		self.run();
	}

	pub fn script(&mut self, ops: &[Value]) {
		for o in ops {
			if self.dead {
				return;
			}
			let ok = self.op(o);
			let mut w = self.w.lock().unwrap();
			w.stats.ops += 1;
			w.stats.skipped += !ok as u64;
		}
		if !self.dead {
			self.wind_up();
		}
	}

	fn ops(&mut self, l: &[Value]) {
		for o in l {
			self.op(o);
		}
	}

	/// Returns false if the operation does not apply
	pub fn op(&mut self, o: &Value) -> bool {
		if self.dead {
			return false;
		}
		let op = o["op"].as_str().unwrap_or("");
		let c = o["c"].as_u64().unwrap_or(1) as usize;
		let ci = c.wrapping_sub(1);
		{
			let mut w = self.w.lock().unwrap();
			if o["c"].is_u64() {
				w.cur = c;
			}
			if ["connect", "hangup", "rerr", "oeof", "oerr", "exit"].contains(&op) {
				w.event(json!({"e": op, "c": c, "p": o["p"].as_u64().unwrap_or(1), "s": o["s"].as_u64().unwrap_or(1)}));
			}
		}
		match op {
			"mark" => {
				self.run();
				if self.dead {
					return false;
				}
				let mut w = self.w.lock().unwrap();
				let held = w.held();
				let n = mem::live();
				w.event(json!({"e": "mark", "s": o["name"], "n": n.min(1 << 30), "held": held}));
				drop(w);
				if n > 100_000_000 {
					// it would end this process
					drop(self.fut.take());
					self.die("memory");
				}
				return true;
			}
			"run" => {
				self.run();
				return true;
			}
			// compound operations
			"repeat" => {
				for _ in 0..o["n"].as_u64().unwrap_or(1) {
					self.op(&o["do"]);
				}
				return true;
			}
			"hs" => {
				let mut kex = json!({"op": "send", "c": c, "i": "kexinit"});
				if !o["kex"].is_null() {
					kex["f"] = o["kex"].clone();
				}
				self.ops(&[
					json!({"op": "connect", "c": c}),
					json!({"op": "send", "c": c, "i": "line", "s": "SSH-2.0-peer"}),
					kex,
					json!({"op": "send", "c": c, "i": "ecdh"}),
					json!({"op": "send", "c": c, "i": "msg", "t": "NewKeys"}),
					json!({"op": "run"}),
				]);
				return true;
			}
			"svc" => {
				self.op(&json!({"op": "hs", "c": c}));
				self.ops(&[json!({"op": "send", "c": c, "i": "msg", "t": "ServiceRequest", "f": {"name": "ssh-userauth"}}), json!({"op": "run"})]);
				return true;
			}
			"login" => {
				let auto = std::mem::replace(&mut self.w.lock().unwrap().auto, true);
				self.op(&json!({"op": "svc", "c": c}));
				let user = o["user"].as_str().map(String::from).unwrap_or(format!("u{c}"));
				self.ops(&[json!({"op": "send", "c": c, "i": "msg", "t": "AuthNone", "f": {"user": user, "service": "ssh-connection"}}), json!({"op": "run"})]);
				self.w.lock().unwrap().auto = auto;
				return true;
			}
			"shell" => {
				// open a channel and start a process on it
				let auto = std::mem::replace(&mut self.w.lock().unwrap().auto, true);
				let k = self.w.lock().unwrap().conns.get(ci).map_or(0, |k| k.opens.len());
				let win = if o["win"].is_null() { json!("2000000") } else { o["win"].clone() };
				let max = if o["max"].is_null() { json!("32768") } else { o["max"].clone() };
				self.ops(&[
					json!({"op": "send", "c": c, "i": "open", "win": win, "max": max}),
					json!({"op": "run"}),
					json!({"op": "send", "c": c, "i": "exec", "ch": k, "cmd": format!("x{c}.{k}"), "reply": true}),
					json!({"op": "run"}),
				]);
				self.w.lock().unwrap().auto = auto;
				return true;
			}
			_ => {}
		}
		Self::apply(&mut self.w.lock().unwrap(), o)
	}

	fn apply(w: &mut World, o: &Value) -> bool {
		let op = o["op"].as_str().unwrap_or("");
		let c = o["c"].as_u64().unwrap_or(1) as usize;
		let ci = c.wrapping_sub(1);
		let p = (o["p"].as_u64().unwrap_or(1) as usize).wrapping_sub(1);
		let s = (o["s"].as_u64().unwrap_or(1) as usize).wrapping_sub(1).min(1);
		match op {
			"connect" => {
				if ci != w.conns.len() {
					return false;
				}
				let seed = mix(ci as u64, 99).wrapping_add(o["seed"].as_u64().unwrap_or(0).wrapping_mul(7919));
				let k = Conn {
					peer: Peer::new(w.t.clone(), w.host.clone(), seed),
					rbuf: VecDeque::new(),
					held: vec![],
					rmax: usize::MAX,
					ryield: false,
					rtoggle: false,
					hup: false,
					rerr: false,
					rwaker: None,
					cap: None,
					wmax: usize::MAX,
					wyield: false,
					wtoggle: false,
					werr: false,
					werr_seen: false,
					wwaker: None,
					served: false,
					rd_gone: false,
					wr_gone: false,
					data_pos: 0,
					data_starts: vec![],
					opens: vec![],
					swap: None,
					dirty: false,
					missing: None,
					fresh: true,
					asked: 0,
				};
				w.conns.push(k);
				w.accept_q.push_back(ci);
				w.accept_waker.take().map(|x| x.wake());
				w.log(json!({"e": "connect", "c": c}));
				true
			}
			"auto" => {
				w.auto = o["on"].as_bool().unwrap_or(true);
				true
			}
			"rmode" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				k.rmax = o["n"].as_u64().filter(|n| *n > 0).map_or(usize::MAX, |n| n as usize);
				k.ryield = o["yield"].as_bool().unwrap_or(false);
				true
			}
			"wmode" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				k.wmax = o["n"].as_u64().filter(|n| *n > 0).map_or(usize::MAX, |n| n as usize);
				k.wyield = o["yield"].as_bool().unwrap_or(false);
				true
			}
			"cap" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				// a negative value removes the limit
				match o["n"].as_i64().unwrap_or(-1) {
					n if n < 0 => k.cap = None,
					n => k.cap = Some(if o["add"].as_bool() == Some(true) { k.cap.unwrap_or(0) } else { 0 } + n as usize),
				}
				if k.cap != Some(0) {
					k.wwaker.take().map(|x| x.wake());
				}
				true
			}
			"werr" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				k.werr = true;
				k.wwaker.take().map(|x| x.wake());
				true
			}
			"hangup" | "rerr" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				if k.hup || k.rerr {
					return false;
				}
				if op == "hangup" {
					k.hup = true;
				} else {
					k.rerr = true;
				}
				k.held.clear();
				k.rwaker.take().map(|x| x.wake());
				w.log(json!({"e": "feed", "c": c, "it": {"k": "hup"}}));
				true
			}
			"rest" => {
				let Some(k) = w.conns.get_mut(ci) else { return false };
				if k.held.is_empty() || k.hup || k.rerr {
					return false;
				}
				// release all or the next n bytes
				let mut n = o["n"].as_u64().map_or(usize::MAX, |n| n as usize);
				let mut feeds = vec![];
				while n > 0 && !k.held.is_empty() {
					let h = &mut k.held[0];
					let m = h.bytes.len().min(n);
					n -= m;
					k.rbuf.extend(h.bytes.drain(..m));
					if h.bytes.is_empty() {
						let h = k.held.remove(0);
						feeds.extend(h.item);
					} else if m > 0 {
						// a prefix of the item
						if let Some(it) = &h.item {
							feeds.push(json!({"part": it}));
						}
					}
				}
				k.rwaker.take().map(|x| x.wake());
				for f in feeds {
					if !f["part"].is_null() {
						w.log(json!({"e": "part", "c": c, "it": f["part"]}));
					} else {
						w.log(json!({"e": "feed", "c": c, "it": f}));
					}
				}
				true
			}
			"resolve" => {
				let want = o["kind"].as_str();
				let Some(cb) = w.cbs.iter_mut().find(|b| matches!(b.state, CbState::Pending) && want.map_or(true, |k| k == b.kind)) else { return false };
				let ok = o["ok"].as_bool().unwrap_or(!cb.name.starts_with("no"));
				cb.state = CbState::Done(ok, o["io"].as_str().unwrap_or("ioe").into());
				cb.waker.take().map(|x| x.wake());
				w.progress += 1;
				true
			}
			"out" => {
				let Some(pr) = w.procs.get_mut(p) else { return false };
				let st = &mut pr.s[s];
				if st.eof || st.err {
					return false;
				}
				let n = o["n"].as_u64().unwrap_or(1);
				for _ in 0..n {
					st.buf.push_back(out_byte(p as u64, s as u64 + 1, st.written));
					st.written += 1;
				}
				st.waker.take().map(|x| x.wake());
				w.log(json!({"e": "out", "p": p + 1, "s": s + 1, "n": n}));
				true
			}
			"omode" => {
				let Some(pr) = w.procs.get_mut(p) else { return false };
				pr.s[s].chunk = o["n"].as_u64().filter(|n| *n > 0).map_or(usize::MAX, |n| n as usize);
				pr.s[s].yields = o["yield"].as_bool().unwrap_or(false);
				true
			}
			"oeof" | "oerr" => {
				let Some(pr) = w.procs.get_mut(p) else { return false };
				let st = &mut pr.s[s];
				if st.eof || st.err {
					return false;
				}
				if op == "oeof" {
					st.eof = true;
				} else {
					st.err = true;
				}
				st.waker.take().map(|x| x.wake());
				w.log(json!({"e": "oeof", "p": p + 1, "s": s + 1}));
				true
			}
			"exit" => {
				let Some(pr) = w.procs.get_mut(p) else { return false };
				if pr.exit.is_some() {
					return false;
				}
				let st = su32(&o["st"]);
				pr.exit = Some(st);
				pr.exit_waker.take().map(|x| x.wake());
				w.log(json!({"e": "exit", "p": p + 1, "st": st.to_string()}));
				true
			}
			"stdin" => {
				let Some(pr) = w.procs.get_mut(p) else { return false };
				match o["m"].as_str().unwrap_or("") {
					"err" => pr.in_err = true,
					"max" => pr.in_max = o["n"].as_u64().filter(|n| *n > 0).map_or(usize::MAX, |n| n as usize),
					"cap" => {
						pr.in_cap = match o["n"].as_i64().unwrap_or(-1) {
							n if n < 0 => None,
							n => Some(n as usize),
						}
					}
					_ => return false,
				}
				if pr.in_err || pr.in_cap != Some(0) {
					pr.in_waker.take().map(|x| x.wake());
				}
				true
			}
			"send" => Self::send(w, ci, o),
			"stalled" => {
				w.stalled.insert(if o["p"].is_null() { ('c', ci) } else { ('p', p) });
				true
			}
			"later" => {
				let t = o["t"].as_str().and_then(|t| t.chars().next()).unwrap_or('r');
				w.later.push(Later { t, i: o["id"].as_u64().unwrap_or(1) as usize - 1, n: o["n"].as_u64().unwrap_or(1), op: o["do"].clone() });
				true
			}
			"junk" => {
				// lines before the identification
				let Some(k) = w.conns.get_mut(ci) else { return false };
				let (n, len) = (o["n"].as_u64().unwrap_or(1), o["len"].as_u64().unwrap_or(0));
				for i in 0..n {
					k.rbuf.push_back(match i % (len + 2) {
						x if x == len => b'\r',
						x if x > len => b'\n',
						_ => b'x',
					});
				}
				k.rwaker.take().map(|x| x.wake());
				true
			}
			"flood" => {
				// many messages without effect
				let Some(k) = w.conns.get_mut(ci) else { return false };
				if !k.peer.tx_active || k.peer.keys.is_none() || k.hup || k.rerr || k.dirty || !k.held.is_empty() {
					return false;
				}
				let mut f = Fields::new();
				f.insert("data".into(), Val::B(vec![1, 2, 3]));
				let payload = w.t.encode("Ignore", &f);
				for _ in 0..o["n"].as_u64().unwrap_or(1) {
					let b = k.peer.seal(&payload, 0);
					k.rbuf.extend(b);
				}
				k.rwaker.take().map(|x| x.wake());
				w.log(json!({"e": "feed", "c": c, "it": {"k": "pkt", "t": "Ignore"}}));
				true
			}
			_ => panic!("harness: unknown op {op}"),
		}
	}

	fn field(w: &World, ci: usize, k: &str, v: &Value) -> Option<Val> {
		Some(match k {
			"u32" => {
				if let Some(n) = v["ch"].as_u64() {
					let k = &w.conns[ci];
					let mine = *k.opens.get(n as usize)?;
					match k.peer.numbers.iter().find(|x| x.0 == mine) {
						Some(x) => Val::U32(x.1),
						None if v["guess"].as_bool() == Some(true) => Val::U32(n as u32),
						None => return None,
					}
				} else {
					Val::U32(su32(v))
				}
			}
			"bool" => Val::Bool(v.as_bool().unwrap_or(false)),
			"raw16" => {
				let mut b = sbytes(v);
				b.resize(16, 7);
				Val::B(b)
			}
			"hostkey" | "sigblob" => Val::L(
				(0..3).map(|i| sbytes(&v[i])).collect(),
			),
			_ => Val::B(sbytes(v)),
		})
	}

	/// Send one item; see `op`
	fn send(w: &mut World, ci: usize, o: &Value) -> bool {
		let Some(k) = w.conns.get(ci) else { return false };
		if k.hup || k.rerr {
			return false;
		}
		let c = ci + 1;
		let i = o["i"].as_str().unwrap_or("");
		if i == "close" {
			w.quit();
		}
		let Some(k) = w.conns.get(ci) else { return false };
		let mut item;
		let mut bytes;
		match i {
			"line" => {
				let mut b = sbytes(&o["s"]);
				if let Some(n) = o["fill"].as_u64() {
					while (b.len() as u64) < n {
						b.push(b'x');
					}
				}
				if b.starts_with(b"SSH-") && w.conns[ci].peer.ident.is_empty() {
					w.conns[ci].peer.ident = b.clone();
				}
				item = json!({"k": "line", "b": b[..b.len().min(8)].to_vec(), "len": b.len()});
				b.extend(b"\r\n");
				bytes = b;
			}
			"junk" => {
				bytes = sbytes(&o["b"]);
				item = json!({"k": "junk"});
			}
			_ => {
				let payload = match i {
					"raw" => sbytes(&o["b"]),
					_ => {
						let (t, src) = match i {
							"kexinit" => {
								let mut f = json!({"cookie": "0123456789abcdef", "kex": "curve25519-sha256", "hostkey": "ecdsa-sha2-nistp256",
									"enc_cs": "chacha20-poly1305@openssh.com", "enc_sc": "chacha20-poly1305@openssh.com",
									"mac_cs": "hmac-sha2-256", "mac_sc": "hmac-sha2-256", "cmp_cs": "none", "cmp_sc": "none",
									"lang_cs": "", "lang_sc": "", "follows": false});
								if let Some(m) = o["f"].as_object() {
									for (a, b) in m {
										f[a] = b.clone();
									}
								}
								("KexInit", f)
							}
							"ecdh" => {
								let mut q = w.conns[ci].peer.public().to_vec();
								if o["hibit"].as_bool() == Some(true) {
									q[31] |= 0x80;
								}
								("EcdhInit", json!({"q": q}))
							}
							"open" => {
								// numbers of the peer differ from those of the server
								let n = w.conns[ci].opens.len() as u64;
								let peer = if o["peer"].is_null() { json!((4_000_000_000 + c as u64 * 1000 - n * 3).to_string()) } else { o["peer"].clone() };
								let ty = if o["ty"].is_null() { json!("session") } else { o["ty"].clone() };
								("Open", json!({"type": ty, "sender": peer, "window": o["win"], "maxpkt": o["max"]}))
							}
							"exec" | "shell" | "req" => {
								let (name, data) = match i {
									"exec" => ("exec".into(), crate::wire::string(&sbytes(&o["cmd"]))),
									"shell" => ("shell".into(), vec![]),
									_ => (o["ty"].clone(), sbytes(&o["data"])),
								};
								let name = if i == "req" { name } else { json!(name.as_str().unwrap_or(i)) };
								let num = if o["num"].is_null() { json!({"ch": o["ch"], "guess": o["guess"]}) } else { o["num"].clone() };
								("Request", json!({"recipient": num, "type": name, "reply": o["reply"], "data": data}))
							}
							"data" => {
								let num = if o["num"].is_null() { json!({"ch": o["ch"], "guess": o["guess"]}) } else { o["num"].clone() };
								let n = o["n"].as_u64().unwrap_or(0);
								let at = w.conns[ci].data_pos;
								let d: Vec<u8> = (0..n).map(|i| in_byte(ci as u64, at + i)).collect();
								("Data", json!({"recipient": num, "data": d}))
							}
							"eof" | "close" => {
								let num = if o["num"].is_null() { json!({"ch": o["ch"], "guess": o["guess"]}) } else { o["num"].clone() };
								(if i == "eof" { "Eof" } else { "Close" }, json!({"recipient": num}))
							}
							"adjust" => {
								let num = if o["num"].is_null() { json!({"ch": o["ch"], "guess": o["guess"]}) } else { o["num"].clone() };
								("WindowAdjust", json!({"recipient": num, "n": o["n"]}))
							}
							"pk" => {
								// publickey request; every part may be odd
								let blob = if o["blob"].is_null() { json!({"cat": [{"str": o["alg"]}, {"str": o["key"]}]}) } else { o["blob"].clone() };
								if o["sig"].is_null() {
									("AuthProbe", json!({"user": o["user"], "service": o["service"], "alg": o["alg"], "blob": blob}))
								} else {
									let sig = if o["sigblob"].is_null() { json!({"cat": [{"str": o["alg"]}, {"str": o["sig"]}]}) } else { o["sigblob"].clone() };
									("AuthSigned", json!({"user": o["user"], "service": o["service"], "alg": o["alg"], "blob": blob, "sig": sig}))
								}
							}
							_ => (o["t"].as_str().unwrap_or("Ignore"), o["f"].clone()),
						};
						let row = w.t.msg(t).clone();
						let mut f = Fields::new();
						for fd in &row.f {
							if !fd.n.is_empty() {
								match Self::field(w, ci, &fd.k, &src[&fd.n]) {
									Some(v) => {
										f.insert(fd.n.clone(), v);
									}
									None => return false,
								}
							}
						}
						w.t.encode(t, &f)
					}
				};
				let mut payload = payload;
				if let Some(n) = o["trunc"].as_u64() {
					let l = payload.len().saturating_sub(n as usize);
					payload.truncate(l);
				}
				payload.extend(sbytes(&o["add"]));
				if let Some(a) = o["set"].as_array() {
					let at = a[0].as_u64().unwrap() as usize;
					if at < payload.len() {
						payload[at] = a[1].as_u64().unwrap() as u8;
					}
				}
				let k = &mut w.conns[ci];
				if k.peer.tx_active && k.peer.keys.is_none() {
					return false;
				}
				let sealed = k.peer.tx_active;
				let mut frame = crate::crypt::frame(&payload, !sealed, o["pad"].as_u64().unwrap_or(0) as usize);
				let mut badframe = false;
				if !o["fpad"].is_null() || !o["flen"].is_null() {
					// an intact packet with another length or padding length
					let l = (frame.len() as i64 + o["flen"].as_i64().unwrap_or(0)).max(4) as usize;
					frame.resize(l, 0);
					let l = l - 4;
					frame[..4].copy_from_slice(&(l as u32).to_be_bytes());
					if l == 0 {
						badframe = true;
					} else {
						if let Some(p) = o["fpad"].as_i64() {
							// a negative number counts from the length
							frame[4] = if p < 0 { (l as i64 + p + 1).clamp(0, 255) } else { p } as u8;
						}
						let p = usize::from(frame[4]);
						badframe = p >= l || (l + if sealed { 0 } else { 4 }) % 8 != 0 || (!sealed && l < 8);
						if !badframe && (p < 4 || l + 4 > 34000) {
							return false;
						}
						if !badframe {
							payload = frame[5..4 + l - p].to_vec();
						}
					}
				}
				if let Some((t, f)) = w.t.decode(&payload) {
					// data that is not the pattern could not be recognised in the input of a process
					let at = k.data_pos;
					if t == "Data" && f["data"].b().iter().enumerate().any(|(i, b)| *b != in_byte(ci as u64, at + i as u64)) {
						return false;
					}
				}
				if badframe {
					bytes = k.peer.seal_frame(&frame);
					let item = json!({"k": if sealed { "bad" } else { "badframe" }, "must": !k.dirty});
					return Self::feed(w, ci, bytes, item, o);
				}
				item = client::item(&k.peer, &payload);
				if !k.peer.tx_active && item["t"] == "EcdhInit" && item["contributory"] == true && item["len"] == 32 && k.peer.skip == 0 {
					// the secret that belongs to another key is not known here
					let mut q = crate::wire::Tables::decode(&w.t, &payload).unwrap().1["q"].b().to_vec();
					q[31] &= 0x7f;
					if q[..] != k.peer.public()[..] {
						return false;
					}
				}
				if item["t"] == "Open" {
					k.opens.push(crate::wire::Tables::decode(&w.t, &payload).unwrap().1["sender"].u());
					item["uid"] = (c * 1000 + k.opens.len()).into();
				}
				if item["t"] == "Data" {
					let d = crate::wire::Tables::decode(&w.t, &payload).unwrap().1["data"].b().to_vec();
					let at = k.data_pos;
					item["at"] = (c as u64 * 100_000_000 + at).into();
					// only pattern data is followed into a process
					if i == "data" && !d.is_empty() {
						k.data_starts.push(at);
						k.data_pos += d.len() as u64;
					}
				}
				if !k.peer.tx_active {
					// what the server has to take for its transcript
					if k.peer.kexinit.is_empty() {
						k.peer.kexinit = payload.clone();
						let first = |n: &str, x: &str| item[n][0] == x;
						if item["follows"] == true && !(first("kex", "curve25519-sha256") && first("hostkey", "ecdsa-sha2-nistp256")) {
							k.peer.skip = 1;
						}
					} else if k.peer.skip > 0 {
						k.peer.skip -= 1;
					} else if k.peer.q.is_empty() && item["t"] == "EcdhInit" {
						k.peer.q = crate::wire::Tables::decode(&w.t, &payload).unwrap().1["q"].b().to_vec();
					}
				}
				bytes = k.peer.seal_frame(&frame);
				let plain = !k.peer.tx_active;
				if bytes.len() > 35000 {
					item = json!({"k": "junk"});
				}
				if item["t"] == "NewKeys" && plain {
					k.peer.tx_active = true;
				}
				// defects of the framing
				if plain {
					if !o["len"].is_null() {
						bytes[..4].copy_from_slice(&su32(&o["len"]).to_be_bytes());
						item = json!({"k": "badframe", "must": o["must"].as_bool().unwrap_or(false)});
					}
				} else {
					let mut bad = None;
					if let Some(bit) = o["flip"].as_u64() {
						let n = bytes.len() as u64 * 8;
						// from the end with "back"
						let bit = if o["back"].as_bool() == Some(true) { n - 1 - bit % n } else { bit % n };
						bytes[(bit / 8) as usize] ^= 1 << (bit % 8);
						bad = Some(bit >= 32);
					}
					if !o["slen"].is_null() {
						// a length that is not that of the packet
						let l = su32(&o["slen"]);
						let k = &mut w.conns[ci];
						let mut f = frame.clone();
						let must = l > 35000 || 4 + l as usize <= f.len();
						if f[..4] == l.to_be_bytes() {
							return false;
						}
						f[..4].copy_from_slice(&l.to_be_bytes());
						bytes = crate::crypt::seal(&k.peer.keys.as_ref().unwrap().0, k.peer.tx_seq - 1, &f);
						bad = Some(must);
					}
					if let Some(how) = o["forge"].as_str() {
						// the length is right, so all of it is read
						let p = &w.conns[ci].peer;
						let (cs, sc, _) = p.keys.as_ref().unwrap();
						bytes = crate::crypt::forge(cs, sc, p.tx_seq - 1, &frame, how);
						bad = Some(true);
					}
					if o["dup"].as_bool() == Some(true) {
						// the copy is the bad item
						let copy = bytes.clone();
						let item = if w.conns[ci].dirty { json!({"k": "bad", "must": false}) } else { item };
						Self::feed(w, ci, bytes, item, &json!({}));
						return Self::feed(w, ci, copy, json!({"k": "bad", "must": false}), o);
					}
					if o["drop"].as_bool() == Some(true) {
						w.conns[ci].dirty = true;
						return true;
					}
					if o["swap"].as_bool() == Some(true) {
						w.conns[ci].swap = Some((bytes, item));
						w.conns[ci].dirty = true;
						return true;
					}
					if let Some(n) = o["cutoff"].as_u64() {
						let l = bytes.len() - 1 - (n as usize % (bytes.len() - 1));
						w.conns[ci].missing = Some(bytes[l]);
						bytes.truncate(l);
						bad = Some(false);
					}
					if let Some(must) = bad {
						item = json!({"k": "bad", "must": must});
					} else if w.conns[ci].dirty {
						// a packet before it is missing
						item = json!({"k": "bad", "must": false});
					}
				}
			}
		}
		if i == "junk" {
			item = json!({"k": "junk"});
		}
		if o["cutoff"].is_null() {
			// it must not be completed by accident
			if w.conns[ci].missing == bytes.first().copied() && !bytes.is_empty() {
				return false;
			}
			w.conns[ci].missing = None;
		}
		let swap = w.conns[ci].swap.take();
		let r = Self::feed(w, ci, bytes, item, o);
		if let Some((b, _)) = swap {
			Self::feed(w, ci, b, json!({"k": "bad", "must": false}), &json!({}));
		}
		r
	}

	fn feed(w: &mut World, ci: usize, mut bytes: Vec<u8>, item: Value, o: &Value) -> bool {
		let k = &mut w.conns[ci];
		let c = ci + 1;
		if o["ask"].as_bool() == Some(true) {
			k.asked += 1;
			woken('q', ci);
		}
		if let Some(cut) = o["cut"].as_u64() {
			if k.held.is_empty() && bytes.len() > 1 {
				// a negative number counts from the end
				let cut = cut as usize % (bytes.len() - 1) + 1;
				let rest = bytes.split_off(cut);
				k.rbuf.extend(bytes);
				k.held.push(Held { bytes: rest, item: Some(item.clone()) });
				k.rwaker.take().map(|x| x.wake());
				w.log(json!({"e": "part", "c": c, "it": item}));
				return true;
			}
		}
		if !k.held.is_empty() {
			k.held.push(Held { bytes, item: Some(item) });
			return true;
		}
		k.rbuf.extend(bytes);
		k.rwaker.take().map(|x| x.wake());
		w.log(json!({"e": "feed", "c": c, "it": item}));
		true
	}
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|i| {
		let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
		let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if m.starts_with("harness") {
			eprintln!("{m} {l}");
		}
		PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
	}));
}
