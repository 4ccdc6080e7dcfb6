//! Message codec driven by the grammar exported from spec/Wire.tla, and
//! evaluation of the terms exported from spec/Terms.tla.
use serde_json::Value;
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Field {
	pub k: String,
	pub n: String,
	pub v: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Row {
	pub t: String,
	pub num: u8,
	pub name: Vec<u8>,
	pub f: Vec<Field>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
	U32(u32),
	Bool(bool),
	B(Vec<u8>),
	L(Vec<Vec<u8>>),
}

impl Val {
	pub fn b(&self) -> &[u8] {
		match self {
			Val::B(b) => b,
			_ => panic!("harness: not bytes"),
		}
	}
	pub fn u(&self) -> u32 {
		match self {
			Val::U32(u) => *u,
			_ => panic!("harness: not u32"),
		}
	}
	pub fn bool(&self) -> bool {
		match self {
			Val::Bool(u) => *u,
			_ => panic!("harness: not bool"),
		}
	}
	pub fn l(&self) -> &[Vec<u8>] {
		match self {
			Val::L(u) => u,
			_ => panic!("harness: not list"),
		}
	}
}

pub type Fields = BTreeMap<String, Val>;

#[derive(Clone)]
pub struct Tables {
	pub messages: Vec<Row>,
	pub requests: Vec<Row>,
	pub json: Value,
}

pub fn bytes(v: &Value) -> Vec<u8> {
	v.as_array()
		.map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
		.unwrap_or_default()
}

fn rows(v: &Value) -> Vec<Row> {
	v.as_array()
		.unwrap()
		.iter()
		.map(|r| Row {
			t: r["t"].as_str().unwrap().into(),
			num: r["num"].as_u64().unwrap_or(0) as u8,
			name: bytes(&r["name"]),
			f: r["f"]
				.as_array()
				.unwrap()
				.iter()
				.map(|f| Field {
					k: f["k"].as_str().unwrap().into(),
					n: f["n"].as_str().unwrap().into(),
					v: bytes(&f["v"]),
				})
				.collect(),
		})
		.collect()
}

impl Tables {
	pub fn load(path: &str) -> Self {
		let json: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("tables")).unwrap();
		Self { messages: rows(&json["messages"]), requests: rows(&json["requests"]), json }
	}

	pub fn msg(&self, t: &str) -> &Row {
		self.messages.iter().find(|r| r.t == t).expect("message type")
	}

	pub fn encode(&self, t: &str, f: &Fields) -> Vec<u8> {
		let r = self.msg(t);
		let mut o = vec![r.num];
		enc_fields(&r.f, f, &mut o);
		o
	}

	pub fn encode_req(&self, t: &str, f: &Fields) -> (Vec<u8>, Vec<u8>) {
		let r = self.requests.iter().find(|r| r.t == t).expect("request type");
		let mut o = vec![];
		enc_fields(&r.f, f, &mut o);
		(r.name.clone(), o)
	}

	pub fn decode(&self, b: &[u8]) -> Option<(String, Fields)> {
		let num = *b.first()?;
		self.messages
			.iter()
			.filter(|r| r.num == num)
			.find_map(|r| dec_fields(&r.f, &b[1..]).map(|f| (r.t.clone(), f)))
	}

	pub fn decode_req(&self, name: &[u8], b: &[u8]) -> Option<(String, Fields)> {
		self.requests
			.iter()
			.filter(|r| r.name == name)
			.find_map(|r| dec_fields(&r.f, b).map(|f| (r.t.clone(), f)))
	}

	/// Bytes of a sequence of terms over named inputs.
	pub fn eval(&self, terms: &Value, env: &BTreeMap<&str, Vec<u8>>) -> Vec<u8> {
		match terms {
			Value::Array(a) => a.iter().flat_map(|t| self.eval(t, env)).collect(),
			t => {
				let n = || env[t["n"].as_str().unwrap()].clone();
				match t["k"].as_str().unwrap() {
					"str" => string(&n()),
					"mpint" => mpint(&n()),
					"raw" => n(),
					"const" => bytes(&t["b"]),
					"hash" => Sha256::digest(&self.eval(&t["a"], env)).to_vec(),
					k => panic!("term {k}"),
				}
			}
		}
	}
}

pub fn string(b: &[u8]) -> Vec<u8> {
	let mut v = (b.len() as u32).to_be_bytes().to_vec();
	v.extend_from_slice(b);
	v
}

pub fn mpint(b: &[u8]) -> Vec<u8> {
	let z = b.iter().take_while(|x| **x == 0).count();
	let b = &b[z..];
	if b.first().map_or(false, |x| *x >= 128) {
		let mut v = vec![0];
		v.extend_from_slice(b);
		string(&v)
	} else {
		string(b)
	}
}

pub fn parse_str(b: &[u8]) -> Option<(&[u8], &[u8])> {
	if b.len() < 4 {
		return None;
	}
	let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64;
	if n > (b.len() - 4) as u64 {
		return None;
	}
	Some(b[4..].split_at(n as usize))
}

fn enc_fields(f: &[Field], v: &Fields, o: &mut Vec<u8>) {
	for fd in f {
		let get = || v.get(&fd.n).unwrap_or_else(|| panic!("harness: no field {}", fd.n));
		match fd.k.as_str() {
			"u32" => o.extend(get().u().to_be_bytes()),
			"bool" => o.push(get().bool() as u8),
			"str" | "utf8" | "ascii" | "names" | "method" => o.extend(string(get().b())),
			"raw16" | "rest" => o.extend(get().b()),
			"lit" => o.extend(string(&fd.v)),
			"true" => o.push(1),
			"false" => o.push(0),
			"zero32" => o.extend([0; 4]),
			"hostkey" => {
				let x: Vec<u8> = get().l().iter().flat_map(|s| string(s)).collect();
				o.extend(string(&x))
			}
			"sigblob" => {
				let l = get().l();
				let mut b = mpint(&l[1]);
				b.extend(mpint(&l[2]));
				let mut x = string(&l[0]);
				x.extend(string(&b));
				o.extend(string(&x))
			}
			k => panic!("kind {k}"),
		}
	}
}

fn names_ok(b: &[u8]) -> bool {
	b.is_ascii()
		&& b.first() != Some(&b',')
		&& b.last() != Some(&b',')
		&& !b.windows(2).any(|w| w == b",,")
}

fn dec_fields(f: &[Field], mut b: &[u8]) -> Option<Fields> {
	let mut o = Fields::new();
	for fd in f {
		let v = match fd.k.as_str() {
			"u32" | "zero32" => {
				if b.len() < 4 {
					return None;
				}
				let v = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
				b = &b[4..];
				if fd.k == "zero32" && v != 0 {
					return None;
				}
				Val::U32(v)
			}
			"bool" | "true" | "false" => {
				let v = *b.first()? != 0;
				b = &b[1..];
				if fd.k == "true" && !v || fd.k == "false" && v {
					return None;
				}
				Val::Bool(v)
			}
			"raw16" => {
				if b.len() < 16 {
					return None;
				}
				let v = b[..16].to_vec();
				b = &b[16..];
				Val::B(v)
			}
			"rest" => {
				let v = b.to_vec();
				b = &[];
				Val::B(v)
			}
			k => {
				let (s, r) = parse_str(b)?;
				b = r;
				match k {
					"str" => Val::B(s.to_vec()),
					"utf8" => {
						std::str::from_utf8(s).ok()?;
						Val::B(s.to_vec())
					}
					"ascii" => {
						if !s.is_ascii() {
							return None;
						}
						Val::B(s.to_vec())
					}
					"names" => {
						if !names_ok(s) {
							return None;
						}
						Val::B(s.to_vec())
					}
					"method" => {
						if [&b"none"[..], b"publickey", b"password", b"hostbased"].contains(&s) {
							return None;
						}
						Val::B(s.to_vec())
					}
					"lit" => {
						if s != fd.v {
							return None;
						}
						Val::B(s.to_vec())
					}
					"hostkey" => {
						let (a, r) = parse_str(s)?;
						let (i, r) = parse_str(r)?;
						let (q, r) = parse_str(r)?;
						if !r.is_empty() {
							return None;
						}
						Val::L(vec![a.to_vec(), i.to_vec(), q.to_vec()])
					}
					"sigblob" => {
						let (a, r) = parse_str(s)?;
						let (x, r) = parse_str(r)?;
						if !r.is_empty() {
							return None;
						}
						let (p, r) = parse_str(x)?;
						let (q, r) = parse_str(r)?;
						if !r.is_empty() {
							return None;
						}
						Val::L(vec![a.to_vec(), p.to_vec(), q.to_vec()])
					}
					k => panic!("kind {k}"),
				}
			}
		};
		if !fd.n.is_empty() {
			o.insert(fd.n.clone(), v);
		}
	}
	b.is_empty().then(|| o)
}
