//! C21: operates real sealing and opening ciphers as spec/GenCipher.tla tells and records
//! what they did, in terms of an independent implementation.
//! cipher TABLES SCRIPTS OUT SEED
#[allow(dead_code)]
#[path = "../sim/crypt.rs"]
mod crypt;
#[allow(dead_code)]
#[path = "../sim/wire.rs"]
mod wire;

use nora_ssh_core::{
	cipher::{ChaCha20Poly1305, Cipher},
	key_exchange::{Direction, KeyMaterial},
};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use sha2::Sha256;
use std::{
	collections::BTreeMap,
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
};

fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
	catch_unwind(AssertUnwindSafe(f)).ok()
}

fn keys(t: &wire::Tables, k: &[u8; 32], h: &[u8; 32], dir: &str) -> crypt::Keys {
	let env = BTreeMap::from([("K", k.to_vec()), ("H", h.to_vec())]);
	crypt::Keys::new(&t.eval(&t.json["kdf"]["key"][dir][1], &env))
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let t = wire::Tables::load(&a[1]);
	let seed: u64 = a[4].parse().unwrap();
	std::panic::set_hook(Box::new(|_| {}));
	let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
	for (i, l) in std::fs::read_to_string(&a[2]).unwrap().lines().enumerate() {
		let c: Value = serde_json::from_str(l).unwrap();
		let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(77_003).wrapping_add(i as u64));
		let tr = run(&t, &c, &mut rng);
		writeln!(f, "{}", json!({"name": c["name"], "trace": tr})).unwrap();
	}
}

struct Sealed {
	plain: Vec<u8>,
	bytes: Vec<u8>,
}

fn run(t: &wire::Tables, c: &Value, rng: &mut StdRng) -> Vec<Value> {
	let (mut k, mut h) = ([0; 32], [0; 32]);
	rng.fill_bytes(&mut k);
	rng.fill_bytes(&mut h);
	let start = c["start"].as_array().unwrap().iter().fold(0u64, |a, x| a << 8 | x.as_u64().unwrap());
	let (d, dir, od) = match c["dir"].as_str().unwrap() {
		"cs" => ("cs", Direction::ClientToServer, "sc"),
		_ => ("sc", Direction::ServerToClient, "cs"),
	};
	let mat = KeyMaterial::<Sha256>::new(k, h);
	let mut sealer = ChaCha20Poly1305::from_key_material(&mat, dir, start);
	let mut opener = ChaCha20Poly1305::from_key_material(&mat, dir, start);
	let rk = keys(t, &k, &h, d);
	let other_dir = keys(t, &k, &h, od);
	let mut k2 = k;
	k2[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..7);
	let other_key = keys(t, &k2, &h, d);
	let mut tr = vec![json!({"e": "sizes", "tag": sealer.tag_size()})];
	let mut sealed: Vec<Sealed> = Vec::new();
	let mut opened = 0u64;
	for op in c["ops"].as_array().unwrap() {
		match op["op"].as_str().unwrap() {
			"seal" => {
				let n = op["n"].as_u64().unwrap() as usize;
				let mut plain = (n as u32).to_be_bytes().to_vec();
				plain.extend((0..n).map(|_| rng.gen::<u8>()));
				let mut buf = plain.clone();
				buf.extend((0..16).map(|_| rng.gen::<u8>()));
				if guard(|| sealer.encrypt(&mut buf)).is_none() {
					tr.push(json!({"e": "panic", "of": "seal"}));
					return tr;
				}
				// under which sequence number?
				let i = sealed.len() as u64;
				let at = [i].into_iter().chain(0..i + 4).find(|x| crypt::seal(&rk, start.wrapping_add(*x), &plain) == buf);
				tr.push(json!({"e": "seal", "n": n, "at": at.map_or(-1, |x| x as i64)}));
				sealed.push(Sealed { plain, bytes: buf });
			}
			"offer" => {
				let kind = op["kind"].as_str().unwrap();
				let i = op["i"].as_u64().unwrap() as usize;
				let Some(s) = sealed.get(i) else { continue };
				let mut b = s.bytes.clone();
				let l = b.len();
				match kind {
					"genuine" => {}
					"length" => b[rng.gen_range(0..4)] ^= 1 << rng.gen_range(0..8),
					"data" if l > 20 => b[rng.gen_range(4..l - 16)] ^= 1 << rng.gen_range(0..8),
					"tag" | "data" => b[rng.gen_range(l - 16..l)] ^= 1 << rng.gen_range(0..8),
					"short" => {
						b.truncate(rng.gen_range(0..l));
					}
					"long" => b.push(rng.gen()),
					"zerotag" => b[l - 16..].fill(0),
					"swap" => {
						// data of this packet, tag of another
						match sealed.get((i + 1) % sealed.len()) {
							Some(o) if o.bytes[o.bytes.len() - 16..] != s.bytes[l - 16..] => {
								b[l - 16..].copy_from_slice(&o.bytes[o.bytes.len() - 16..])
							}
							_ => b[l - 1] ^= 1,
						}
					}
					"plain" => b[..l - 16].copy_from_slice(&s.plain),
					"otherdir" => b = crypt::seal(&other_dir, start.wrapping_add(opened), &s.plain),
					"otherkey" => b = crypt::seal(&other_key, start.wrapping_add(opened), &s.plain),
					"otherseq" => {
						let d = [1u64, 2, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, u64::MAX][rng.gen_range(0..8)];
						b = crypt::seal(&rk, start.wrapping_add(opened).wrapping_add(d), &s.plain)
					}
					"random" => rng.fill_bytes(&mut b),
					k => panic!("kind {k}"),
				}
				if b.len() >= 4 && rng.gen_bool(0.5) {
					tr.push(length(&mut opener, &rk, start, opened, &b));
				}
				let (plain, before) = (s.plain.clone(), b.clone());
				tr.push(offer(&mut opener, kind, i, &mut b, &before, &plain));
				if tr.last().unwrap()["r"] == "ok" {
					opened += 1
				}
				if tr.last().unwrap()["r"] == "panic" {
					return tr;
				}
			}
			"allbits" => {
				// every single-bit change of the next packet
				let Some(s) = sealed.get(opened as usize) else { continue };
				let (mut ok, mut touched) = (0, 0);
				for bit in 0..s.bytes.len() * 8 {
					let mut b = s.bytes.clone();
					b[bit / 8] ^= 1 << (bit % 8);
					let before = b.clone();
					match guard(|| opener.decrypt_data(&mut b)) {
						None => {
							tr.push(json!({"e": "panic", "of": "open"}));
							return tr;
						}
						Some(r) => {
							ok += r.is_ok() as u32;
							touched += (b != before) as u32
						}
					}
				}
				tr.push(json!({"e": "alts", "n": s.bytes.len() * 8, "ok": ok, "touched": touched}));
			}
			o => panic!("op {o}"),
		}
	}
	tr
}

fn length(o: &mut ChaCha20Poly1305, rk: &crypt::Keys, start: u64, opened: u64, b: &[u8]) -> Value {
	match guard(|| o.decrypt_length(b[..4].try_into().unwrap())) {
		None => json!({"e": "panic", "of": "length"}),
		Some(Err(_)) => json!({"e": "len", "at": -2}),
		Some(Ok(l)) => {
			let l = u32::from_be_bytes(l);
			let at = [opened].into_iter().chain(0..opened + 4).find(|x| crypt::open_len(rk, start.wrapping_add(*x), b) == l);
			json!({"e": "len", "at": at.map_or(-1, |x| x as i64)})
		}
	}
}

fn offer(o: &mut ChaCha20Poly1305, kind: &str, i: usize, b: &mut [u8], before: &[u8], plain: &[u8]) -> Value {
	let r = guard(|| o.decrypt_data(b));
	let n = b.len();
	json!({"e": "offer", "kind": kind, "i": i,
		"r": match r { None => "panic", Some(Ok(())) => "ok", Some(Err(_)) => "err" },
		"restored": n == plain.len() + 16 && b[4..n - 16] == plain[4..],
		"untouched": b == before})
}
