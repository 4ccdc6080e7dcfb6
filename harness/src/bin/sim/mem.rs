//! Counts the memory that the server holds: what is allocated while it is polled,
//! but not by its handlers, and is not freed yet.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static COUNT: Cell<bool> = const { Cell::new(false) };
	static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn prefix(l: &Layout) -> usize {
	l.align().max(16)
}

fn extended(l: &Layout) -> Layout {
	Layout::from_size_align(l.size() + prefix(l), l.align().max(16)).unwrap()
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(extended(&l));
		if p.is_null() {
			return p;
		}
		let count = COUNT.try_with(|c| c.get()).unwrap_or(false);
		*p = count as u8;
		if count {
			let _ = LIVE.try_with(|n| n.set(n.get() + l.size() as i64));
		}
		p.add(prefix(&l))
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		let p = p.sub(prefix(&l));
		if *p != 0 {
			let _ = LIVE.try_with(|n| n.set(n.get() - l.size() as i64));
		}
		System.dealloc(p, extended(&l))
	}
}

/// Until it is dropped, what is allocated counts or not.
pub struct Counts(bool);

impl Counts {
	pub fn server() -> Self {
		Self(COUNT.with(|c| c.replace(true)))
	}
	pub fn harness() -> Self {
		Self(COUNT.with(|c| c.replace(false)))
	}
}

impl Drop for Counts {
	fn drop(&mut self) {
		COUNT.with(|c| c.set(self.0))
	}
}

pub fn live() -> i64 {
	LIVE.with(|n| n.get())
}

pub fn reset() {
	LIVE.with(|n| n.set(0))
}
