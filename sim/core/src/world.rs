//! The simulated world of one run: the source of every decision, the event
//! trace, the event hash and the statistics.  One run is a pure function of
//! (scenario, list of choices).

use std::collections::BTreeMap;
use std::sync::Mutex;

pub struct World {
	mode: Mode,
	pub log: Vec<u64>,
	pub trace: Option<Vec<String>>,
	pub hash: u64,
	pub stats: BTreeMap<&'static str, u64>,
	pub run_seed: u64,
	pub quiet: bool,
	/// device calls, scheduler switches and other simulated events
	pub steps: u64,
	/// choices written out as they are drawn, for runs that end the process
	out: Option<std::fs::File>,
}

impl World {
	fn record(&mut self, v: u64) {
		self.log.push(v);
		self.hash = (self.hash ^ v).wrapping_mul(0x1000_0000_01b3);
		if let Some(f) = &mut self.out {
			use std::io::Write;
			let _ = f.write_all(format!("{v} ").as_bytes());
		}
	}
}

enum Mode {
	Prng(u64),
	Replay(Vec<u64>, usize),
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

#[macro_export]
macro_rules! tr {
	($($a:tt)*) => { if $crate::world::tracing() { $crate::world::trace_push(format!($($a)*)) } };
}

fn splitmix(s: &mut u64) -> u64 {
	*s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *s;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
	let mut s = a ^ b.rotate_left(32).wrapping_mul(0x9E37_79B9_7F4A_7C15);
	splitmix(&mut s)
}

fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
	let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
	f(g.as_mut().expect("no world"))
}

pub fn begin_random(seed: u64, trace: bool) {
	begin(Mode::Prng(seed), seed, trace)
}
pub fn begin_replay(choices: Vec<u64>, run_seed: u64, trace: bool) {
	begin(Mode::Replay(choices, 0), run_seed, trace)
}
fn begin(mode: Mode, run_seed: u64, trace: bool) {
	let w = World {
		mode,
		log: Vec::new(),
		trace: if trace { Some(Vec::new()) } else { None },
		hash: 0xcbf2_9ce4_8422_2325,
		stats: BTreeMap::new(),
		run_seed,
		quiet: false,
		steps: 0,
		out: std::env::var_os("REVSIM_LOG").and_then(|f| std::fs::File::create(f).ok()),
	};
	*WORLD.lock().unwrap_or_else(|e| e.into_inner()) = Some(w);
}
pub fn finish() -> World {
	WORLD.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no world")
}
static LABEL: Mutex<String> = Mutex::new(String::new());
/// What the run is about: part of a violation's identity.
pub fn set_label(s: String) {
	tr!("-- {s}");
	*LABEL.lock().unwrap_or_else(|e| e.into_inner()) = s;
}
pub fn label() -> String {
	LABEL.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
/// Seed handed to the process' random state (see `getrandom` in main.rs).
pub fn hash_seed() -> u64 {
	match WORLD.lock() {
		Ok(g) => g.as_ref().map(|w| w.run_seed).unwrap_or(0),
		Err(e) => e.into_inner().as_ref().map(|w| w.run_seed).unwrap_or(0),
	}
}

/// A shortened replay may never leave a loop that draws until it is told to
/// stop.
fn runaway() {
	if with(|w| matches!(&w.mode, Mode::Replay(c, p) if *p > c.len() + 300_000)) {
		panic!("harness: more decisions than any run needs");
	}
}

/// A run that has drawn this many decisions takes the simplest alternative
/// from here on: faults stop and generators end.
pub const QUIET_AFTER: usize = 2_000_000;

/// Draw a decision in `0..n`.  0 is always the simplest alternative.
pub fn pick(n: u64) -> u64 {
	if n <= 1 {
		return 0;
	}
	runaway();
	with(|w| {
		if w.log.len() >= QUIET_AFTER {
			return 0;
		}
		let v = match &mut w.mode {
			Mode::Prng(s) => {
				let r = splitmix(s);
				((r as u128 * n as u128) >> 64) as u64
			}
			Mode::Replay(c, p) => {
				let v = c.get(*p).copied().unwrap_or(0) % n;
				*p += 1;
				v
			}
		};
		w.record(v);
		v
	})
}
pub fn picku(n: usize) -> usize {
	pick(n as u64) as usize
}
/// Any 64-bit value.
pub fn pick64() -> u64 {
	runaway();
	with(|w| {
		if w.log.len() >= QUIET_AFTER {
			return 0;
		}
		let v = match &mut w.mode {
			Mode::Prng(s) => splitmix(s),
			Mode::Replay(c, p) => {
				let v = c.get(*p).copied().unwrap_or(0);
				*p += 1;
				v
			}
		};
		w.record(v);
		v
	})
}
/// True with probability num/den; the 0 decision is `false`.
pub fn chance(num: u64, den: u64) -> bool {
	pick(den) >= den - num
}
/// Weighted choice; the 0 decision is the first alternative.
pub fn weighted(w: &[u64]) -> usize {
	let tot: u64 = w.iter().sum();
	let mut r = pick(tot);
	for (i, x) in w.iter().enumerate() {
		if r < *x {
			return i;
		}
		r -= *x;
	}
	w.len() - 1
}
/// Fold an event into the run's event hash.
pub fn ev(a: u64, b: u64) {
	with(|w| {
		w.steps += 1;
		w.hash = (w.hash ^ a).wrapping_mul(0x1000_0000_01b3);
		w.hash = (w.hash ^ b).wrapping_mul(0x1000_0000_01b3);
	})
}
pub fn ev_bytes(b: &[u8]) {
	with(|w| {
		for x in b {
			w.hash = (w.hash ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
		}
	})
}
/// One simulated event: a device call or a scheduling point.
pub fn step() {
	with(|w| w.steps += 1)
}
pub fn count(k: &'static str, n: u64) {
	with(|w| *w.stats.entry(k).or_insert(0) += n)
}
pub fn tracing() -> bool {
	with(|w| w.trace.is_some() && !w.quiet)
}
pub fn trace_push(s: String) {
	with(|w| {
		if let Some(t) = &mut w.trace
			&& t.len() < 20_000
		{
			t.push(s)
		}
	})
}
/// Number of decisions drawn so far.
pub fn decisions() -> usize {
	with(|w| w.log.len())
}
/// Why a simulated activity stopped early.
#[derive(Debug, Clone)]
pub enum Stop {
	/// The property is broken: (class, message).
	Viol(String, String),
	/// An injected fault surfaced as an error, as it should; nothing more to do.
	Faulted,
}
pub type R<T> = Result<T, Stop>;

pub fn viol<T>(class: &str, msg: String) -> R<T> {
	Err(Stop::Viol(class.to_string(), msg))
}
pub fn ensure(c: bool, class: &str, msg: impl FnOnce() -> String) -> R<()> {
	if c { Ok(()) } else { viol(class, msg()) }
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().enumerate() {
		if i >= 96 {
			s.push_str(&format!("..(+{})", b.len() - i));
			break;
		}
		s.push_str(&format!("{x:02x}"));
	}
	s
}

/// Run `f` without adding to the trace.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
	let was = with(|w| std::mem::replace(&mut w.quiet, true));
	let r = f();
	with(|w| w.quiet = was);
	r
}
pub fn steps() -> u64 {
	with(|w| w.steps)
}
