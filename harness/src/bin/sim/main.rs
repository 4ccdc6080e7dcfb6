mod client;
mod crypt;
mod mem;
mod sim;
mod wire;

use serde_json::{json, Value};
use std::{
	io::Write,
	sync::{Arc, Mutex},
	time::{Duration, Instant},
};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a[1].as_str() {
		"fair" => {
			sim::WATCH.store(true, std::sync::atomic::Ordering::SeqCst);
			run_sim(&a[2], &a[3], &a[4], a[5].parse().unwrap())
		}
		"mem" => {
			sim::MEM.store(true, std::sync::atomic::Ordering::SeqCst);
			run_sim(&a[2], &a[3], &a[4], a[5].parse().unwrap())
		}
		"run" => run_sim(&a[2], &a[3], &a[4], a[5].parse().unwrap()),
		"fresh" => {
			sim::ENTROPY.store(true, std::sync::atomic::Ordering::SeqCst);
			run_sim(&a[2], &a[3], &a[4], a[5].parse().unwrap())
		}
		c => panic!("unknown command {c}"),
	}
}

/// Scripts: one JSON object {"name", "ops"} per line. Traces: one per line.
fn run_sim(tables: &str, scripts: &str, out: &str, seed: u64) {
	let t = Arc::new(wire::Tables::load(tables));
	let scripts: Vec<Value> = std::fs::read_to_string(scripts)
		.expect("scripts")
		.lines()
		.filter(|l| !l.trim().is_empty())
		.map(|l| serde_json::from_str(l).expect("script"))
		.collect();
	sim::quiet_panics();
	let scripts = Arc::new(scripts);
	let next = Arc::new(Mutex::new(0usize));
	let done: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; scripts.len()]));
	let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
	let busy: Arc<Mutex<Vec<Option<(usize, Instant, Arc<Mutex<sim::World>>)>>>> = Arc::new(Mutex::new(vec![None; n]));
	let threads: Vec<_> = (0..n)
		.map(|th| {
			let (t, scripts, next, done, busy) = (t.clone(), scripts.clone(), next.clone(), done.clone(), busy.clone());
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn(move || loop {
					let i = {
						let mut n = next.lock().unwrap();
						*n += 1;
						*n - 1
					};
					if i >= scripts.len() {
						busy.lock().unwrap()[th] = None;
						return;
					}
					let sc = &scripts[i];
					let mut s = sim::Sim::new(t.clone(), seed.wrapping_add(sc["seed"].as_u64().unwrap_or(i as u64)));
					busy.lock().unwrap()[th] = Some((i, Instant::now(), s.world()));
					s.script(sc["ops"].as_array().unwrap());
					let fresh = s.fresh();
					let watched = s.watched();
					let memory = s.memory();
					let (tr, st) = s.finish();
					let mut v = json!({"name": sc["name"], "trace": tr, "ops": st.ops, "skipped": st.skipped, "packets": st.packets});
					if sim::ENTROPY.load(std::sync::atomic::Ordering::SeqCst) {
						v["fresh"] = fresh.into();
					}
					if sim::MEM.load(std::sync::atomic::Ordering::SeqCst) {
						v["trace"] = memory.into();
					}
					if let Some(x) = watched {
						v["side"] = x;
						v["trace"] = json!([]);
					}
					done.lock().unwrap()[i] = Some(v);
				})
				.unwrap()
		})
		.collect();
	loop {
		std::thread::sleep(Duration::from_millis(20));
		if threads.iter().all(|t| t.is_finished()) {
			break;
		}
		let b = busy.lock().unwrap().clone();
		for (i, at, w) in b.into_iter().flatten() {
			if at.elapsed() > Duration::from_secs(150) {
				// the server does not come back
				let mut d = done.lock().unwrap();
				let mut tr = w.try_lock().map(|mut w| std::mem::take(&mut w.trace)).unwrap_or_default();
				tr.truncate(5000);
				tr.push(json!({"e": "hang", "msg": "the server does not return"}));
				d[i] = Some(json!({"name": scripts[i]["name"], "trace": tr, "ops": 0, "skipped": 0, "packets": 0}));
				write(out, &d);
				std::process::exit(0);
			}
		}
	}
	write(out, &done.lock().unwrap());
}

fn write(out: &str, d: &[Option<Value>]) {
	let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
	for v in d.iter().flatten() {
		writeln!(f, "{v}").unwrap();
	}
}
