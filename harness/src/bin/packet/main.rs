//! C19: frames and unframes with the real library and records what it did.
//! packet OUT SEED MAX_PAYLOAD MAX_LEN
use nora_ssh_core::packet::{BlockSize, Packet};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
};

const BLOCKS: [(usize, BlockSize); 4] =
	[(8, BlockSize::B8), (16, BlockSize::B16), (32, BlockSize::B32), (64, BlockSize::B64)];

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let (seed, maxp, maxl): (u64, usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
	std::panic::set_hook(Box::new(|_| {}));
	let mut rng = StdRng::seed_from_u64(seed);
	let mut f = std::io::BufWriter::new(std::fs::File::create(&a[1]).unwrap());
	for (bs, b) in BLOCKS {
		for rule in [false, true] {
			let mut big: Vec<usize> = vec![4095, 4096, 32767, 32768, 32769, 35000, 65534, 65535, 65536, 65537, 262144, 1 << 20, (1 << 22) + 3];
			big.extend((0..20).map(|_| rng.gen_range(2048..70000)));
			let lens: Vec<usize> = (0..=maxp).chain(big).collect();
			for c in lens.chunks(64) {
				let tr: Vec<Value> = c.iter().map(|&p| wrap(bs, b, rule, p, &mut rng)).collect();
				writeln!(f, "{}", json!({"name": format!("wrap {bs} {rule}"), "trace": tr})).unwrap();
			}
			let mut lens: Vec<u32> = (0..=maxl as u32).collect();
			for x in [1u64 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32] {
				lens.extend((0..150u64).map(|i| (x + 75 - i).min(u32::MAX as u64) as u32));
			}
			for c in lens.chunks(32) {
				let tr: Vec<Value> = c.iter().map(|&l| unwrap(bs, b, rule, l, &mut rng)).collect();
				writeln!(f, "{}", json!({"name": format!("unwrap {bs} {rule}"), "trace": tr})).unwrap();
			}
		}
	}
}

fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
	catch_unwind(AssertUnwindSafe(f)).ok()
}

fn wrap(bs: usize, b: BlockSize, rule: bool, p: usize, rng: &mut StdRng) -> Value {
	let x: u32 = rng.gen();
	let payload: Vec<u8> = (0..p as u32).map(|i| (i.wrapping_mul(2654435761).wrapping_add(x) >> 13) as u8).collect();
	// room for the length, the padding length and the most padding
	let mut buf = vec![0xaa; 4 + 1 + p + 255 + rng.gen_range(0..64)];
	let room = buf.len();
	let r = guard(|| {
		let k = Packet::wrap(
			&mut buf,
			b,
			rule,
			|x| {
				x[..p].copy_from_slice(&payload);
				p
			},
			StdRng::seed_from_u64(rng.gen()),
		);
		(k.packet_len(), k.padding_len(), k.payload() == payload, k.as_raw().len(), k.payload_len())
	});
	let Some((plen, pad, same, raw, ppl)) = r else {
		return json!({"e": "wrap", "bs": bs, "rule": rule, "p": p, "r": "panic", "room": room});
	};
	let field = u32::from_be_bytes(buf[..4].try_into().unwrap());
	let padb = buf[4];
	let placed = buf[5..5 + p] == payload;
	// what unframing makes of exactly these bytes
	let mut again = buf[..4 + field as usize].to_vec();
	let back = guard(|| Packet::wrap_raw(&mut again, rule, b).map(|k| k.into_payload().to_vec()).ok());
	json!({"e": "wrap", "bs": bs, "rule": rule, "p": p, "r": "ok", "len": field, "pad": padb,
		"agree": plen == field as usize && pad == padb as usize && same && placed && ppl == p && raw == 4 + plen,
		"back": match back {
			None => "panic",
			Some(None) => "rejected",
			Some(Some(x)) if x == payload => "same",
			Some(Some(_)) => "other",
		}})
}

fn unwrap(bs: usize, b: BlockSize, rule: bool, len: u32, rng: &mut StdRng) -> Value {
	let (mut ok, mut panic, mut wrong) = (vec![], vec![], vec![]);
	let n = 4 + (len as usize).clamp(1, 100_000);
	let x: u32 = rng.gen();
	let mut buf: Vec<u8> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761).wrapping_add(x) >> 13) as u8).collect();
	buf[..4].copy_from_slice(&len.to_be_bytes());
	for pad in 0..=255u8 {
		buf[4] = pad;
		let copy = if n < 2000 { buf.clone() } else { vec![] };
		match guard(|| match Packet::wrap_raw(&mut buf, rule, b) {
			Err(_) => None,
			Ok(k) if copy.is_empty() => Some(k.payload_len() as u64 == len as u64 - pad as u64 - 1),
			Ok(k) => Some(k.payload() == &copy[5..4 + len as usize - pad as usize]),
		}) {
			None => panic.push(pad),
			Some(None) => {}
			Some(Some(same)) => {
				ok.push(pad);
				if !same {
					wrong.push(pad)
				}
			}
		}
	}
	json!({"e": "unwrap", "bs": bs, "rule": rule, "len": len.to_be_bytes(), "ok": ok, "panic": panic, "wrong": wrong})
}
