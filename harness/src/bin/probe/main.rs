//! The program that the daemon is asked to run: it reports its arguments and follows them.
//! Output is framed: "<op> <n>\n" and n bytes.
use std::{
	io::{self, Read, Write},
	os::unix::ffi::OsStrExt,
	process::exit,
};

pub fn byte(stream: u64, i: u64) -> u8 {
	let z = (i + 1).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(stream * 77);
	(z >> 29) as u8
}

fn frame(w: &mut dyn Write, op: &str, b: &[u8]) {
	let mut v = format!("{op} {}\n", b.len()).into_bytes();
	v.extend_from_slice(b);
	if w.write_all(&v).and_then(|()| w.flush()).is_err() {
		exit(99);
	}
}

fn main() {
	let args: Vec<Vec<u8>> = std::env::args_os().map(|a| a.as_bytes().to_vec()).collect();
	let (mut out, mut err) = (io::stdout().lock(), io::stderr().lock());
	for a in &args {
		frame(&mut out, "a", a);
	}
	let copy = |out: &mut dyn Write| {
		let mut b = [0; 5000];
		loop {
			match io::stdin().lock().read(&mut b) {
				Ok(0) | Err(_) => break,
				Ok(n) => frame(out, "i", &b[..n]),
			}
		}
		frame(out, "I", b"");
	};
	if args.len() == 1 {
		// as the shell
		copy(&mut out);
		exit(7);
	}
	for a in &args[1..] {
		let Ok(a) = std::str::from_utf8(a) else { continue };
		if a == "c" {
			copy(&mut out);
			continue;
		}
		let Some((op, n)) = a.split_once('=') else { continue };
		let Ok(n) = n.parse::<u64>() else { continue };
		let gen = |s| (0..n).map(|i| byte(s, i)).collect::<Vec<u8>>();
		match op {
			"o" => frame(&mut out, "o", &gen(1)),
			"e" => frame(&mut err, "e", &gen(2)),
			"x" => exit(n as i32),
			"k" => unsafe {
				// SIGPIPE is ignored
				libc::signal(n as i32, libc::SIG_DFL);
				libc::kill(libc::getpid(), n as i32);
			},
			"s" => std::thread::sleep(std::time::Duration::from_millis(n)),
			_ => {}
		}
	}
}
