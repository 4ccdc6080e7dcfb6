//! The peer: an independent SSH client that decodes what the server writes.
use crate::{
	crypt::{self, Keys},
	wire::{Fields, Tables, Val},
};
use ecdsa::signature::Verifier;
use serde_json::{json, Value};
use std::{collections::BTreeMap, sync::Arc};

pub const CAP: u64 = 2147483647;

/// A short printable string as it is, anything else as length and hash.
pub fn tok(b: &[u8]) -> String {
	if b.len() <= 48
		&& b.first() != Some(&b'#')
		&& b.iter().all(|c| (0x20..0x7f).contains(c) && *c != b'"' && *c != b'\\')
	{
		String::from_utf8(b.to_vec()).unwrap()
	} else {
		let mut h = 0xcbf29ce484222325u64;
		for c in b {
			h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
		}
		format!("#{}:{:016x}", b.len(), h)
	}
}

pub fn mix(a: u64, b: u64) -> u64 {
	let mut z = a.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(b.wrapping_mul(0xd1342543de82ef95)) ^ 0x1234567;
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

/// Byte `pos` of the data that connection `c` sends to its channels
pub fn in_byte(c: u64, pos: u64) -> u8 {
	(mix(c + 1000, pos) >> 20) as u8
}

/// Byte `pos` of stream `s` (1 or 2) of process `p`: a tag and a check
pub fn out_byte(p: u64, s: u64, pos: u64) -> u8 {
	let tag = ((p % 16) * 2 + (s - 1)) as u8;
	tag << 3 | (mix(p * 2 + s, pos) >> 13) as u8 & 7
}

pub fn capped(n: u32) -> u64 {
	(n as u64).min(CAP)
}

pub struct HostInfo {
	/// `None`: whatever key the server shows
	pub key: Option<p256::ecdsa::VerifyingKey>,
	pub ident: Vec<u8>,
}

pub struct Peer {
	pub t: Arc<Tables>,
	pub host: Arc<HostInfo>,
	/// what the server wrote and was not decoded yet
	pub rx: Vec<u8>,
	pub got_ident: bool,
	pub rx_keys_active: bool,
	pub rx_seq: u64,
	pub tx_seq: u64,
	pub tx_active: bool,
	pub broken: bool,
	pub secret: [u8; 32],
	pub ident: Vec<u8>,
	pub kexinit: Vec<u8>,
	pub skex: Vec<u8>,
	pub sident: Vec<u8>,
	/// The ephemeral key that was sent last
	pub q: Vec<u8>,
	/// Packets of a wrong guess that were not sent yet
	pub skip: u32,
	pub keys: Option<(Keys, Keys, Vec<u8>)>,
	pub rx_packets: u64,
	/// What no other connection may have
	pub fresh: Vec<Value>,
	/// received output bytes by process and stream
	pub numbers: Vec<(u32, u32)>, // (client number, server number) in order of confirmation
}

impl Peer {
	pub fn new(t: Arc<Tables>, host: Arc<HostInfo>, seed: u64) -> Self {
		let mut secret = [0; 32];
		for (i, s) in secret.iter_mut().enumerate() {
			*s = (mix(seed, i as u64) >> 8) as u8;
		}
		Self {
			t,
			host,
			rx: vec![],
			got_ident: false,
			rx_keys_active: false,
			rx_seq: 0,
			tx_seq: 0,
			tx_active: false,
			broken: false,
			secret,
			ident: vec![],
			kexinit: vec![],
			skex: vec![],
			sident: vec![],
			q: vec![],
			skip: 0,
			keys: None,
			rx_packets: 0,
			fresh: vec![],
			numbers: vec![],
		}
	}

	pub fn public(&self) -> [u8; 32] {
		x25519_dalek::x25519(self.secret, x25519_dalek::X25519_BASEPOINT_BYTES)
	}

	pub fn session(&self) -> Vec<u8> {
		self.keys.as_ref().map(|k| k.2.clone()).unwrap_or_default()
	}

	/// Bytes on the wire of a message
	pub fn seal(&mut self, payload: &[u8], extra: usize) -> Vec<u8> {
		let f = crypt::frame(payload, !self.tx_active, extra);
		self.seal_frame(&f)
	}

	/// Bytes on the wire of a framed message
	pub fn seal_frame(&mut self, frame: &[u8]) -> Vec<u8> {
		let r = if self.tx_active {
			let k = &self.keys.as_ref().expect("keys").0;
			crypt::seal(k, self.tx_seq, frame)
		} else {
			frame.to_vec()
		};
		self.tx_seq += 1;
		r
	}

	/// Decode what the server wrote. Returns messages (raw events).
	pub fn receive(&mut self, data: &[u8], out: &mut Vec<Rx>) {
		self.rx.extend_from_slice(data);
		while !self.broken {
			if !self.got_ident {
				let Some(i) = self.rx.windows(2).position(|w| w == b"\r\n") else {
					if self.rx.len() > 300 {
						self.broken = true;
						out.push(Rx::Bad("ident"));
					}
					return;
				};
				self.sident = self.rx[..i].to_vec();
				self.rx.drain(..i + 2);
				self.got_ident = true;
				out.push(Rx::Ident(self.host.ident.is_empty() || self.sident == self.host.ident));
				continue;
			}
			if self.rx.len() < 4 {
				return;
			}
			let payload = if self.rx_keys_active {
				let keys = self.keys.clone().unwrap();
				let len = crypt::open_len(&keys.1, self.rx_seq, &self.rx) as usize;
				if len > 40000 {
					self.broken = true;
					out.push(Rx::Bad("encrypted length"));
					return;
				}
				if self.rx.len() < 4 + len + 16 {
					return;
				}
				let Some(p) = crypt::open(&keys.1, self.rx_seq, &self.rx[..4 + len + 16]) else {
					self.broken = true;
					out.push(Rx::Bad("tag"));
					return;
				};
				self.rx.drain(..4 + len + 16);
				crypt::unframe(&p, false)
			} else {
				let len = u32::from_be_bytes(self.rx[..4].try_into().unwrap()) as usize;
				if len > 40000 || len < 5 {
					self.broken = true;
					out.push(Rx::Bad("plain length"));
					return;
				}
				if self.rx.len() < 4 + len {
					return;
				}
				let p: Vec<u8> = self.rx.drain(..4 + len).collect();
				crypt::unframe(&p, true)
			};
			self.rx_seq += 1;
			self.rx_packets += 1;
			let payload = match payload {
				Ok(p) => p,
				Err(e) => {
					self.broken = true;
					out.push(Rx::Bad(e));
					return;
				}
			};
			let Some((t, f)) = self.t.clone().decode(&payload) else {
				self.broken = true;
				out.push(Rx::Bad("message"));
				return;
			};
			match t.as_str() {
				"KexInit" if self.skex.is_empty() => {
					self.skex = payload.clone();
					self.fresh.push(json!({"e": "cookie", "v": payload[1..17]}));
				}
				"EcdhReply" => {
					let ok = self.reply(&f);
					out.push(Rx::Reply(ok));
					continue;
				}
				"NewKeys" => {
					if self.keys.is_some() {
						self.rx_keys_active = true;
					} else {
						self.broken = true;
						out.push(Rx::Bad("new keys before the exchange"));
						return;
					}
				}
				"OpenConf" => self.numbers.push((f["recipient"].u(), f["sender"].u())),
				_ => {}
			}
			out.push(Rx::Msg(t, f));
		}
	}

	fn reply(&mut self, f: &Fields) -> Value {
		let l = f["key"].l();
		let host = self.host.key.or_else(|| p256::ecdsa::VerifyingKey::from_sec1_bytes(&l[2]).ok());
		let key_ok = l[0] == b"ecdsa-sha2-nistp256"
			&& l[1] == b"nistp256"
			&& host.map_or(false, |k| k.to_encoded_point(false).as_bytes() == l[2]);
		let q_s = f["q"].b().to_vec();
		let q_ok = q_s.len() == 32;
		let mut sig_ok = false;
		if q_ok {
			let mut u = [0; 32];
			u.copy_from_slice(&q_s);
			let k = x25519_dalek::x25519(self.secret, u);
			let mut env = BTreeMap::new();
			let ks: Vec<u8> = l.iter().flat_map(|s| crate::wire::string(s)).collect();
			env.insert("V_C", self.ident.clone());
			env.insert("V_S", self.sident.clone());
			env.insert("I_C", self.kexinit.clone());
			env.insert("I_S", self.skex.clone());
			env.insert("K_S", ks);
			env.insert("Q_C", self.q.clone());
			env.insert("Q_S", q_s);
			env.insert("K", k.to_vec());
			let t = self.t.clone();
			let h = t.eval(&t.json["exchange_hash"], &env);
			let s = f["sig"].l();
			let hex = |b: &[u8]| b.iter().map(|b| format!("{b:02x}")).collect::<String>();
			self.fresh.push(json!({"e": "key", "v": f["q"].b()}));
			self.fresh.push(json!({"e": "sid", "v": hex(&h)}));
			self.fresh.push(json!({"e": "nonce", "v": hex(&s[1])}));
			let num = |b: &[u8]| -> Option<[u8; 32]> {
				if b.first().map_or(true, |x| *x >= 128) {
					return None;
				}
				// no needless zeros
				if b.len() > 1 && b[0] == 0 && b[1] < 128 {
					return None;
				}
				let z = b.iter().take_while(|x| **x == 0).count();
				let b = &b[z..];
				if b.len() > 32 {
					return None;
				}
				let mut o = [0; 32];
				o[32 - b.len()..].copy_from_slice(b);
				Some(o)
			};
			if let (Some(r), Some(ss)) = (num(&s[1]), num(&s[2])) {
				if let Ok(sig) = p256::ecdsa::Signature::from_scalars(r, ss) {
					sig_ok = s[0] == b"ecdsa-sha2-nistp256" && host.map_or(false, |k| k.verify(&h, &sig).is_ok());
				}
			}
			let mut env = BTreeMap::new();
			env.insert("K", k.to_vec());
			env.insert("H", h.clone());
			let cs = t.eval(&t.json["key_cs"], &env);
			let sc = t.eval(&t.json["key_sc"], &env);
			self.keys = Some((Keys::new(&cs), Keys::new(&sc), h));
		}
		json!({"t": "EcdhReply", "key": key_ok, "q": q_ok, "sig": sig_ok})
	}

	pub fn sign_data(&self, user: &[u8], service: &[u8], alg: &[u8], blob: &[u8]) -> Vec<u8> {
		let mut env = BTreeMap::new();
		env.insert("session", self.session());
		env.insert("user", user.to_vec());
		env.insert("service", service.to_vec());
		env.insert("alg", alg.to_vec());
		env.insert("blob", blob.to_vec());
		self.t.eval(&self.t.json["sign_data"], &env)
	}
}

pub enum Rx {
	Ident(bool),
	Reply(Value),
	Msg(String, Fields),
	Bad(&'static str),
}

/// What a blob (string algorithm, string data) contains
fn blob(b: &[u8]) -> Value {
	let r = crate::wire::parse_str(b).and_then(|(a, r)| {
		let (d, r) = crate::wire::parse_str(r)?;
		r.is_empty().then(|| (a, d))
	});
	match r {
		Some((a, d)) => json!({"ok": true, "alg": tok(a), "d": tok(d)}),
		None => json!({"ok": false, "alg": "", "d": ""}),
	}
}

/// Abstract view of a payload that is sent to the server
pub fn item(p: &Peer, payload: &[u8]) -> Value {
	let Some((t, f)) = p.t.decode(payload) else {
		return json!({"k": "pkt", "t": "Malformed"});
	};
	let s = |n: &str| tok(f[n].b());
	let num = |n: &str| f[n].u().to_string();
	let mut v = match t.as_str() {
		"KexInit" => {
			let names = |n: &str| -> Vec<String> {
				f[n].b().split(|c| *c == b',').filter(|x| !x.is_empty()).map(tok).collect()
			};
			json!({"kex": names("kex"), "hostkey": names("hostkey"), "cs": names("enc_cs"), "sc": names("enc_sc"), "follows": f["follows"].bool()})
		}
		"EcdhInit" => {
			let q = f["q"].b();
			let good = q.len() == 32 && {
				let mut u = [0; 32];
				u.copy_from_slice(q);
				// zero for every secret iff zero for this one (the cofactor is cleared)
				x25519_dalek::x25519([0x55; 32], u) != [0; 32]
			};
			json!({"len": q.len(), "contributory": good})
		}
		"ServiceRequest" => json!({"name": s("name")}),
		"AuthNone" => json!({"user": s("user"), "service": s("service")}),
		"AuthPassword" => json!({"user": s("user"), "service": s("service"), "pw": s("password")}),
		"AuthProbe" => json!({"user": s("user"), "service": s("service"), "alg": s("alg"), "blobtok": s("blob"), "blob": blob(f["blob"].b())}),
		"AuthSigned" => {
			let tbs = p.sign_data(f["user"].b(), f["service"].b(), f["alg"].b(), f["blob"].b());
			json!({"user": s("user"), "service": s("service"), "alg": s("alg"), "blobtok": s("blob"), "blob": blob(f["blob"].b()), "sig": blob(f["sig"].b()), "tbs": tok(&tbs)})
		}
		"Open" => json!({"ty": s("type"), "peer": num("sender"), "win": capped(f["window"].u()), "max": capped(f["maxpkt"].u())}),
		"Request" => {
			let (kind, cmd) = match p.t.decode_req(f["type"].b(), f["data"].b()) {
				Some((k, g)) if k == "Exec" => ("exec", tok(g["command"].b())),
				Some((k, _)) if k == "Shell" => ("shell", String::new()),
				Some(_) => ("unsupported", String::new()),
				None => ("unknown", String::new()),
			};
			json!({"num": num("recipient"), "reply": f["reply"].bool(), "kind": kind, "cmd": cmd})
		}
		"Data" => json!({"num": num("recipient"), "n": f["data"].b().len()}),
		"WindowAdjust" => json!({"num": num("recipient"), "n": capped(f["n"].u())}),
		"Eof" | "Close" => json!({"num": num("recipient")}),
		_ => json!({}),
	};
	v["k"] = "pkt".into();
	v["t"] = t.into();
	v
}

/// Abstract view of a message of the server
pub fn server_msg(t: &str, f: &Fields) -> Value {
	let s = |n: &str| tok(f[n].b());
	let num = |n: &str| f[n].u().to_string();
	let names = |n: &str| -> Vec<String> { f[n].b().split(|c| *c == b',').filter(|x| !x.is_empty()).map(tok).collect() };
	let mut v = match t {
		"KexInit" => json!({"kex": names("kex"), "hostkey": names("hostkey"), "cs": names("enc_cs"), "sc": names("enc_sc"),
			"cmp_cs": names("cmp_cs"), "cmp_sc": names("cmp_sc"), "follows": f["follows"].bool()}),
		"OpenFail" => json!({"peer": num("recipient"), "reason": num("reason")}),
		"ServiceAccept" => json!({"name": s("name")}),
		"AuthFailure" => json!({"partial": f["partial"].bool(), "methods": names("methods")}),
		"AuthPkOk" => json!({"alg": s("alg"), "blobtok": s("blob")}),
		"OpenConf" => json!({"peer": num("recipient"), "num": num("sender"), "win": capped(f["window"].u()), "max": capped(f["maxpkt"].u())}),
		"Eof" | "Close" | "Success" | "Failure" => json!({"peer": num("recipient")}),
		"WindowAdjust" => json!({"peer": num("recipient"), "n": capped(f["n"].u())}),
		"Data" => json!({"peer": num("recipient")}),
		"ExtData" => json!({"peer": num("recipient"), "ty": num("type")}),
		"Request" => {
			let ty = tok(f["type"].b());
			let d = f["data"].b();
			json!({"peer": num("recipient"), "ty": ty, "reply": f["reply"].bool(),
				"status": if d.len() == 4 { u32::from_be_bytes(d.try_into().unwrap()).to_string() } else { "?".into() }})
		}
		_ => json!({}),
	};
	v["t"] = t.into();
	v
}

pub fn val_bytes(f: &Fields, n: &str) -> Vec<u8> {
	match f.get(n) {
		Some(Val::B(b)) => b.clone(),
		_ => vec![],
	}
}
