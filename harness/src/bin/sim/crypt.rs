//! An independent chacha20-poly1305@openssh.com, as PROTOCOL.chacha20poly1305
//! describes it, on top of the IETF variant of ChaCha20.
use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
use chacha20::ChaCha20;
use poly1305::universal_hash::NewUniversalHash;

#[derive(Clone)]
pub struct Keys {
	pub main: [u8; 32],
	pub head: [u8; 32],
}

impl Keys {
	pub fn new(b: &[u8]) -> Self {
		Self { main: b[..32].try_into().unwrap(), head: b[32..64].try_into().unwrap() }
	}
}

fn cha(key: &[u8; 32], seq: u64, pos: u64) -> ChaCha20 {
	let mut nonce = [0; 12];
	nonce[4..].copy_from_slice(&seq.to_be_bytes());
	let mut c = ChaCha20::new(key.into(), (&nonce).into());
	c.seek(pos);
	c
}

pub fn tag(k: &Keys, seq: u64, data: &[u8]) -> [u8; 16] {
	let mut pk = [0; 32];
	cha(&k.main, seq, 0).apply_keystream(&mut pk);
	poly1305::Poly1305::new(poly1305::Key::from_slice(&pk))
		.compute_unpadded(data)
		.into_bytes()
		.into()
}

/// `pkt`: length field and padded packet
pub fn seal(k: &Keys, seq: u64, pkt: &[u8]) -> Vec<u8> {
	let mut v = pkt.to_vec();
	cha(&k.head, seq, 0).apply_keystream(&mut v[..4]);
	cha(&k.main, seq, 64).apply_keystream(&mut v[4..]);
	let t = tag(k, seq, &v);
	v.extend(t);
	v
}

/// A packet with the right length field that is not genuine
pub fn forge(k: &Keys, other: &Keys, seq: u64, pkt: &[u8], how: &str) -> Vec<u8> {
	let mut v = seal(k, seq, pkt);
	let n = v.len() - 16;
	match how {
		// not encrypted
		"plain" => {
			v[4..n].copy_from_slice(&pkt[4..]);
			v[n..].fill(0);
		}
		"zerotag" => v[n..].fill(0),
		// without the length field
		"bodytag" => {
			let t = tag(k, seq, &v[4..n]);
			v[n..].copy_from_slice(&t);
		}
		// of the packet before it was encrypted
		"plaintag" => {
			let t = tag(k, seq, pkt);
			v[n..].copy_from_slice(&t);
		}
		// under other numbers
		"before" | "after" | "first" => {
			let o = match how {
				"before" => seq - 1,
				"after" => seq + 1,
				_ => 0,
			};
			let x = seal(k, o, pkt);
			v[4..].copy_from_slice(&x[4..]);
			let t = tag(k, o, &v[..n]);
			v[n..].copy_from_slice(&t);
		}
		// under the keys of the other direction
		"reflect" => {
			let x = seal(other, seq, pkt);
			v[4..n].copy_from_slice(&x[4..n]);
			let t = tag(other, seq, &v[..n]);
			v[n..].copy_from_slice(&t);
		}
		// under the key of the length
		"head" => {
			let x = seal(&Keys { main: k.head, head: k.main }, seq, pkt);
			v[4..n].copy_from_slice(&x[4..n]);
			let t = tag(&Keys { main: k.head, head: k.main }, seq, &v[..n]);
			v[n..].copy_from_slice(&t);
		}
		// half of the tag
		"halftag" => v[n + 8..].fill(0x55),
		// under keys that are not secret
		"nokey" => {
			let z = Keys { main: [0; 32], head: [0; 32] };
			let x = seal(&z, seq, pkt);
			v[4..n].copy_from_slice(&x[4..n]);
			let t = tag(&z, seq, &v[..n]);
			v[n..].copy_from_slice(&t);
		}
		_ => panic!("forge {how}"),
	}
	v
}

pub fn open_len(k: &Keys, seq: u64, b: &[u8]) -> u32 {
	let mut l: [u8; 4] = b[..4].try_into().unwrap();
	cha(&k.head, seq, 0).apply_keystream(&mut l);
	u32::from_be_bytes(l)
}

/// Length field and padded packet
pub fn open(k: &Keys, seq: u64, b: &[u8]) -> Option<Vec<u8>> {
	let (d, t) = b.split_at(b.len() - 16);
	if tag(k, seq, d) != t {
		return None;
	}
	let mut v = d.to_vec();
	cha(&k.head, seq, 0).apply_keystream(&mut v[..4]);
	cha(&k.main, seq, 64).apply_keystream(&mut v[4..]);
	Some(v)
}

/// A packet with the least padding plus `extra` blocks of 8
pub fn frame(payload: &[u8], with_len: bool, extra: usize) -> Vec<u8> {
	let base = 1 + payload.len() + if with_len { 4 } else { 0 };
	let mut pad = 8 - base % 8;
	if pad < 4 {
		pad += 8;
	}
	pad += 8 * extra.min((255 - pad) / 8);
	let len = 1 + payload.len() + pad;
	let mut v = (len as u32).to_be_bytes().to_vec();
	v.push(pad as u8);
	v.extend_from_slice(payload);
	v.extend((0..pad).map(|i| (i * 37 + 11) as u8));
	v
}

/// The payload of a decrypted or plain packet; `Err` says what is wrong with the framing
pub fn unframe(pkt: &[u8], with_len: bool) -> Result<Vec<u8>, &'static str> {
	let len = u32::from_be_bytes(pkt[..4].try_into().unwrap()) as usize;
	if len + 4 != pkt.len() {
		return Err("length");
	}
	if (len + if with_len { 4 } else { 0 }) % 8 != 0 {
		return Err("alignment");
	}
	let pad = pkt[4] as usize;
	if pad < 4 || pad + 1 > len {
		return Err("padding");
	}
	Ok(pkt[5..5 + len - pad - 1].to_vec())
}
