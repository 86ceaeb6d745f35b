//! The task scheduler (P16): every task is a thread, exactly one of which runs
//! at a time.  At every device call the running task hands the decision who
//! runs next to the simulator.

use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};

use crate::world;

struct State {
	current: usize,
	alive: Vec<bool>,
}
struct Baton {
	m: Mutex<State>,
	cv: Condvar,
}

thread_local! {
	static TASK: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
	static NESTED: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
	static DEPTH: Cell<u32> = const { Cell::new(0) };
}

fn next_of(s: &State) -> usize {
	let l: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
	if l.is_empty() { usize::MAX } else { l[world::picku(l.len())] }
}

/// A point at which the scheduler may run somebody else.
pub fn yield_point() {
	let t = TASK.with(|t| t.borrow().clone());
	if let Some((b, id)) = t {
		world::step();
		let mut g = b.m.lock().unwrap();
		let n = next_of(&g);
		if n != id {
			world::count("sched.switches", 1);
			g.current = n;
			b.cv.notify_all();
			while g.current != id {
				g = b.cv.wait(g).unwrap();
			}
		}
	}
	// re-entrancy: run another codec inside this call, on this thread
	if DEPTH.get() == 0 {
		let f = NESTED.with(|n| n.borrow_mut().take());
		if let Some(mut f) = f {
			if world::chance(1, 8) {
				world::count("sched.reentries", 1);
				DEPTH.set(1);
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f));
				DEPTH.set(0);
				NESTED.with(|n| *n.borrow_mut() = Some(f));
				if let Err(e) = r {
					std::panic::resume_unwind(e)
				}
				return;
			}
			NESTED.with(|n| *n.borrow_mut() = Some(f));
		}
	}
}

/// Operation to run now and then inside device calls of this thread.
pub fn set_nested(f: Option<Box<dyn FnMut()>>) {
	NESTED.with(|n| *n.borrow_mut() = f)
}

/// Run the tasks to completion under the scheduler.
pub fn run_tasks<T: Send + 'static>(
	tasks: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> Vec<std::thread::Result<T>> {
	let n = tasks.len();
	let b = Arc::new(Baton {
		m: Mutex::new(State { current: usize::MAX, alive: vec![true; n] }),
		cv: Condvar::new(),
	});
	let hs: Vec<_> = tasks
		.into_iter()
		.enumerate()
		.map(|(id, f)| {
			let b = b.clone();
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn(move || {
					{
						let mut g = b.m.lock().unwrap();
						while g.current != id {
							g = b.cv.wait(g).unwrap();
						}
					}
					TASK.with(|t| *t.borrow_mut() = Some((b.clone(), id)));
					let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
					TASK.with(|t| *t.borrow_mut() = None);
					NESTED.with(|n| *n.borrow_mut() = None);
					let mut g = b.m.lock().unwrap();
					g.alive[id] = false;
					g.current = next_of(&g);
					b.cv.notify_all();
					r
				})
				.expect("spawn")
		})
		.collect();
	{
		let mut g = b.m.lock().unwrap();
		g.current = next_of(&g);
		b.cv.notify_all();
	}
	hs.into_iter().map(|h| h.join().expect("task wrapper")).collect()
}
