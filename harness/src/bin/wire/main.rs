//! C17, C18: encodes and parses with the real library and records what it did.
//! Input: cases made from spec/GenWire.tla, one JSON object per line.
//! Output: one trace of events per case, judged by spec/TraceWire.tla.
mod convert;

use convert::{bytes, JV};
use nora_ssh_core::{
	data::{parse_string, AsciiStr, NameList},
	message::{channel::session::SessionRequest, userauth::format_sign_data, Message},
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
};

fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let (cases, out, seed, muts) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap());
	std::panic::set_hook(Box::new(|_| {}));
	let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
	for (i, l) in std::fs::read_to_string(cases).unwrap().lines().enumerate() {
		let c: Value = serde_json::from_str(l).unwrap();
		let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
		let mut tr = Vec::new();
		match c["k"].as_str().unwrap() {
			"val" => value(&c, &mut rng, muts, &mut tr),
			"raw" => {
				let b = bytes(&c["b"]);
				parse(&b, &mut tr);
				mutate(&b, &mut rng, muts, |m| parse(m, &mut tr))
			}
			"req" => request(&c, &mut rng, muts, &mut tr),
			"rawreq" => {
				let (n, b) = (bytes(&c["name"]), bytes(&c["b"]));
				parse_req(&n, &b, &mut tr);
				mutate(&b, &mut rng, muts, |m| parse_req(&n, m, &mut tr));
				mutate(&n, &mut rng, muts / 4, |m| parse_req(m, &b, &mut tr))
			}
			"str" => {
				let b = bytes(&c["b"]);
				small(&b, &mut tr);
				mutate(&b, &mut rng, muts, |m| small(m, &mut tr))
			}
			"sign" => sign(&c, &mut tr),
			k => panic!("kind {k}"),
		}
		writeln!(f, "{}", json!({"name": format!("{} {}", c["k"].as_str().unwrap(), c["t"].as_str().unwrap_or("")), "trace": tr})).unwrap();
	}
}

/// Buffer sizes to try for an encoding of n bytes.
fn sizes(n: usize, rng: &mut StdRng) -> Vec<usize> {
	let mut s: Vec<usize> = if n <= 90 {
		(0..n + 4).collect()
	} else {
		let mut s: Vec<usize> = (0..40).chain(n - 20..n + 4).collect();
		s.extend((0..30).map(|_| rng.gen_range(40..n)));
		s
	};
	s.push(n + rng.gen_range(4..300));
	s.sort();
	s.dedup();
	s
}

/// Runs an encoder with many buffer sizes: which fail, which panic, and what the others wrote.
fn encode(f: impl Fn(&mut [u8]) -> Option<(usize, Option<usize>)>, len: usize, rng: &mut StdRng) -> Value {
	let sz = sizes(len, rng);
	let (mut none, mut panic, mut outs): (Vec<usize>, Vec<usize>, Vec<Vec<u8>>) = Default::default();
	let mut rest_ok = true;
	for &n in &sz {
		let mut buf: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
		match guard(|| f(&mut buf)) {
			Err(()) => panic.push(n),
			Ok(None) => none.push(n),
			Ok(Some((w, rest))) => {
				rest_ok &= rest.map_or(true, |r| w + r == n) && w <= n;
				let o = buf[..w.min(n)].to_vec();
				if !outs.contains(&o) && outs.len() < 3 {
					outs.push(o)
				}
			}
		}
	}
	json!({"sizes": sz, "none": none, "panic": panic, "outs": outs, "rest": rest_ok})
}

fn value(c: &Value, rng: &mut StdRng, muts: usize, tr: &mut Vec<Value>) {
	let t = c["t"].as_str().unwrap();
	let v = JV::list(&c["v"]);
	let mut big = vec![0; 200_000];
	let len = guard(|| convert::with_message(t, &v, |m| m.serialize(&mut big).map(|x| x.0.len())));
	let n = match len {
		Ok(Some(n)) => n,
		_ => 64,
	};
	let mut e = encode(
		|buf| convert::with_message(t, &v, |m| m.serialize(buf).map(|(a, b)| (a.len(), Some(b.len())))),
		n,
		rng,
	);
	e["e"] = json!("enc");
	e["t"] = json!(t);
	e["v"] = c["v"].clone();
	tr.push(e);
	let b = big[..n].to_vec();
	parse(&b, tr);
	mutate(&b, rng, muts, |m| parse(m, tr));
}

fn request(c: &Value, rng: &mut StdRng, muts: usize, tr: &mut Vec<Value>) {
	let t = c["t"].as_str().unwrap();
	let v = JV::list(&c["v"]);
	let mut big = vec![0; 200_000];
	let r = guard(|| convert::with_request(t, &v, |m| m.serialize(&mut big).map(|x| (x.0.to_vec(), x.1))));
	let (name, n) = match r {
		Ok(Some(x)) => x,
		_ => (vec![], 64),
	};
	let mut e = encode(|buf| convert::with_request(t, &v, |m| m.serialize(buf).map(|(_, b)| (b, None))), n, rng);
	e["e"] = json!("encreq");
	e["t"] = json!(t);
	e["v"] = c["v"].clone();
	e["name"] = json!(name);
	tr.push(e);
	let b = big[..n].to_vec();
	parse_req(&name, &b, tr);
	mutate(&b, rng, muts, |m| parse_req(&name, m, tr));
	mutate(&name, rng, 3, |m| parse_req(m, &b, tr));
}

fn parse(b: &[u8], tr: &mut Vec<Value>) {
	let (t, v) = match guard(|| Message::parse(b).ok().map(|m| convert::message_value(m))) {
		Err(()) => ("panic".to_string(), json!([])),
		Ok(None) => ("err".to_string(), json!([])),
		Ok(Some(x)) => x,
	};
	tr.push(json!({"e": "parse", "b": b, "t": t, "v": v}));
}

fn parse_req(name: &[u8], b: &[u8], tr: &mut Vec<Value>) {
	let (t, v) = match guard(|| SessionRequest::parse(name, b).ok().map(|m| convert::request_value(&m))) {
		Err(()) => ("panic".to_string(), json!([])),
		Ok(None) => ("err".to_string(), json!([])),
		Ok(Some(x)) => x,
	};
	tr.push(json!({"e": "parsereq", "name": name, "b": b, "t": t, "v": v}));
}

fn small(b: &[u8], tr: &mut Vec<Value>) {
	tr.push(match guard(|| parse_string(b).map(|(v, r)| (v.to_vec(), r.to_vec()))) {
		Err(()) => json!({"e": "string", "b": b, "r": "panic"}),
		Ok(None) => json!({"e": "string", "b": b, "r": "err"}),
		Ok(Some((v, r))) => json!({"e": "string", "b": b, "r": "ok", "v": v, "rest": r}),
	});
	let names = guard(|| {
		NameList::try_from(b).ok().map(|l| {
			let again: &[u8] = l.into();
			(again.to_vec(), l.iter().map(|s| s.as_bytes().to_vec()).take(1000).collect::<Vec<_>>())
		})
	});
	tr.push(match names {
		Err(()) => json!({"e": "names", "b": b, "r": "panic"}),
		Ok(None) => json!({"e": "names", "b": b, "r": "err"}),
		Ok(Some((v, items))) => json!({"e": "names", "b": b, "r": "ok", "v": v, "items": items}),
	});
	tr.push(match guard(|| AsciiStr::try_from(b).ok().map(|s| <&[u8]>::from(s).to_vec())) {
		Err(()) => json!({"e": "ascii", "b": b, "r": "panic"}),
		Ok(None) => json!({"e": "ascii", "b": b, "r": "err"}),
		Ok(Some(v)) => json!({"e": "ascii", "b": b, "r": "ok", "v": v}),
	});
}

fn sign(c: &Value, tr: &mut Vec<Value>) {
	let a: Vec<Vec<u8>> = c["v"].as_array().unwrap().iter().map(bytes).collect();
	let mut rng = StdRng::seed_from_u64(1);
	let n = a.iter().map(|x| x.len() + 4).sum::<usize>() + 15;
	let mut e = encode(
		|buf| {
			let p = buf.as_ptr() as usize;
			format_sign_data(buf, &a[0], &a[1], &a[2], &a[3], &a[4]).map(|s| {
				assert_eq!(s.as_ptr() as usize, p);
				(s.len(), None)
			})
		},
		n,
		&mut rng,
	);
	e["e"] = json!("sign");
	e["v"] = c["v"].clone();
	tr.push(e);
}

/// Truncations, extensions and alterations of b.
fn mutate(b: &[u8], rng: &mut StdRng, n: usize, mut f: impl FnMut(&[u8])) {
	let n = if b.len() > 5000 { n.min(4) } else { n };
	if n == 0 {
		return;
	}
	// truncations
	if b.len() <= n / 2 {
		(0..b.len()).for_each(|i| f(&b[..i]));
	} else {
		(0..n / 2).for_each(|_| f(&b[..rng.gen_range(0..b.len())]));
	}
	// bytes left over
	for k in 0..2 {
		let mut m = b.to_vec();
		m.extend((0..rng.gen_range(1..6)).map(|_| if k == 0 { 0 } else { rng.gen::<u8>() }));
		f(&m);
	}
	if b.is_empty() {
		return;
	}
	for _ in 0..n / 2 {
		let mut m = b.to_vec();
		for _ in 0..if rng.gen_bool(0.8) { 1 } else { 3 } {
			let i = rng.gen_range(0..m.len());
			match rng.gen_range(0..9) {
				0 => m[i] = m[i].wrapping_add(1),
				1 => m[i] = m[i].wrapping_sub(1),
				2 => m[i] = 0,
				3 => m[i] = 0xff,
				4 => m[i] ^= 0x80,
				5 => m[i] = rng.gen(),
				6 => {
					m.insert(i, rng.gen());
				}
				7 => {
					m.remove(i);
					if m.is_empty() {
						break;
					}
				}
				_ => m[i] = b','
			}
		}
		f(&m);
	}
	// the message number
	let mut m = b.to_vec();
	m[0] = rng.gen();
	f(&m);
}
