//! C20 (and the transcript hash of C04): derives keys with the real library over a hash
//! function that records its inputs, and with SHA-256.
//! kdf TABLES OUT SEED N
#[allow(dead_code)]
#[path = "../sim/wire.rs"]
mod wire;

use digest::{consts::U32, FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use nora_ssh_core::{
	identifier::Identifier,
	key_exchange::{Direction, KeyMaterial},
	message::key_exchange::ecdh::{Key, KeyBlob, KeyExchangeDigest},
};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::{
	cell::RefCell,
	collections::BTreeMap,
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
};

thread_local! {
	static LOG: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = RefCell::new(Vec::new());
}

/// An injective "hash" as far as this run is concerned: equal outputs only for equal inputs.
#[derive(Clone, Default)]
struct Spy(Vec<u8>);

impl HashMarker for Spy {}
impl Update for Spy {
	fn update(&mut self, data: &[u8]) {
		self.0.extend_from_slice(data)
	}
}
impl OutputSizeUser for Spy {
	type OutputSize = U32;
}
impl FixedOutput for Spy {
	fn finalize_into(self, out: &mut Output<Self>) {
		let h: [u8; 32] = Sha256::digest([&b"spy"[..], &self.0].concat()).into();
		out.copy_from_slice(&h);
		LOG.with(|l| l.borrow_mut().push((self.0, h.to_vec())));
	}
}

fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
	catch_unwind(AssertUnwindSafe(f)).ok()
}

fn secret(i: usize, rng: &mut StdRng) -> [u8; 32] {
	let mut s = [0; 32];
	rng.fill_bytes(&mut s);
	match i % 8 {
		0 => s[0] |= 0x80,
		1 => s[0] &= 0x7f,
		2 => s[0] = 0,
		3 => {
			let z = rng.gen_range(1..32);
			s[..z].fill(0);
			s[z] |= 0x80
		}
		4 => {
			let z = rng.gen_range(1..32);
			s[..z].fill(0);
			s[z] = s[z] & 0x7f | 1
		}
		5 => {
			s.fill(0);
			s[31] = [1, 0x7f, 0x80, 0xff][i / 8 % 4]
		}
		6 => s[0] = [1, 0x7f, 0x80, 0xff][i / 8 % 4],
		_ => {
			s[1] = 0;
			s[31] = 0
		}
	}
	s
}

fn gen<D: Digest + OutputSizeUser>(m: &KeyMaterial<D>, purpose: &str, dir: Direction, n: usize) -> Vec<u8> {
	let mut o = vec![[0x55; 32]; n];
	let r = match purpose {
		"iv" => m.initial_iv(dir, &mut o),
		"key" => m.encryption_key(dir, &mut o),
		_ => m.integrity_key(dir, &mut o),
	}
	.to_vec();
	assert_eq!(r, o.concat(), "returned and written blocks differ");
	r
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let t = wire::Tables::load(&a[1]);
	let (seed, n): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
	std::panic::set_hook(Box::new(|_| {}));
	let mut rng = StdRng::seed_from_u64(seed);
	let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
	for i in 0..n {
		let k = secret(i, &mut rng);
		let mut h = [0; 32];
		rng.fill_bytes(&mut h);
		if i % 7 == 3 {
			h[0] = 0
		}
		let spy = KeyMaterial::<Spy>::new(k, h);
		let real = KeyMaterial::<Sha256>::new(k, h);
		let mut tr: Vec<Value> = Vec::new();
		for _ in 0..2 {
			for purpose in ["iv", "key", "mac"] {
				for (d, dir) in [("cs", Direction::ClientToServer), ("sc", Direction::ServerToClient)] {
					let blocks = if rng.gen_bool(0.7) { rng.gen_range(1..=3) } else { rng.gen_range(1..=8) };
					LOG.with(|l| l.borrow_mut().clear());
					let out = guard(|| gen(&spy, purpose, dir, blocks));
					let hashes: Vec<Value> = LOG.with(|l| l.take().into_iter().map(|(i, o)| json!({"i": i, "o": o})).collect());
					tr.push(match out {
						None => json!({"e": "panic"}),
						Some(o) => json!({"e": "derive", "K": k, "H": h, "purpose": purpose, "dir": d, "n": blocks, "hashes": hashes,
							"out": o.chunks(32).map(|c| c.to_vec()).collect::<Vec<_>>()}),
					});
					// the same with SHA-256, evaluated by this program from the terms of the specification
					let env = BTreeMap::from([("K", k.to_vec()), ("H", h.to_vec())]);
					let want = t.eval(&t.json["kdf"][purpose][d][blocks - 1], &env);
					tr.push(match guard(|| gen(&real, purpose, dir, blocks)) {
						None => json!({"e": "panic"}),
						Some(o) => json!({"e": "sha", "same": o == want}),
					});
				}
			}
		}
		writeln!(f, "{}", json!({"name": "derive", "trace": tr})).unwrap();
		let mut tr = Vec::new();
		for _ in 0..2 {
			tr.push(transcript(i, &mut rng));
		}
		writeln!(f, "{}", json!({"name": "transcript", "trace": tr})).unwrap();
	}
}

fn some(rng: &mut StdRng, max: usize) -> Vec<u8> {
	let n = rng.gen_range(0..=max);
	(0..n).map(|_| rng.gen()).collect()
}

fn transcript(i: usize, rng: &mut StdRng) -> Value {
	let (vc, vs) = (some(rng, if i % 5 == 0 { 253 } else { 30 }), some(rng, 30));
	let (ic, is) = (some(rng, if i % 9 == 0 { 1000 } else { 40 }), some(rng, 40));
	let (name, id, q) = (some(rng, 20), some(rng, 10), some(rng, 66));
	let (qc, qs) = (some(rng, 33), some(rng, 33));
	let k = secret(i, rng);
	let k = if i % 3 == 0 { k[rng.gen_range(0..32)..].to_vec() } else { k.to_vec() };
	LOG.with(|l| l.borrow_mut().clear());
	let out = guard(|| {
		let mut buf = [0; 512];
		let key = Key { name: &name, blob: KeyBlob { identifier: &id, q: &q } };
		KeyExchangeDigest::<Spy>::default()
			.update(&Identifier::new(&vc).unwrap())
			.update(&Identifier::new(&vs).unwrap())
			.update(&ic)
			.update(&is)
			.update(&mut buf, &key)
			.update(&qc)
			.update(&qs)
			.update(&k)
			.to_vec()
	});
	let hashes: Vec<Value> = LOG.with(|l| l.take().into_iter().map(|(i, o)| json!({"i": i, "o": o})).collect());
	match out {
		None => json!({"e": "panic"}),
		Some(o) => json!({"e": "transcript", "V_C": vc, "V_S": vs, "I_C": ic, "I_S": is, "key": [name, id, q], "Q_C": qc, "Q_S": qs, "K": k,
			"hashes": hashes, "out": o}),
	}
}
