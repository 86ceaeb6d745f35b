//! Driver: workers, replay and minimisation.
//!
//!   revsim work  PROP SEED START STRIDE MAXRUNS SECS STATEFILE HASHFILE KNOWNFILE
//!   revsim hash  PROP SEED COUNT            (event hashes, for the determinism check)
//!   revsim one   PROP RUNSEED OUT           (run one seed, record its choices)
//!   revsim replay FILE                      (run recorded choices)
//!   revsim min   FILE OUT SECS              (minimise)
//!   revsim list                             (registered types)

mod alloc;
mod scen;
mod misfit;
mod scen2;
mod scen3;
mod scen4;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

use core_sim::world::{self, R, Stop, World};

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

static GR: AtomicU64 = AtomicU64::new(0);

/// The process' only source of randomness: keys of `RandomState`.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
	let s = world::hash_seed();
	for i in 0..n {
		let c = GR.fetch_add(1, SeqCst);
		unsafe { *buf.add(i) = world::mix(s, c) as u8 };
	}
	n as isize
}

static PANIC: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

#[derive(Clone, Debug)]
pub enum Outcome {
	Ok,
	Viol { class: String, msg: String },
	/// harness failure
	Broken(String),
	/// the run asked for more memory than the harness grants
	Oversize(usize),
	Hang,
}

pub struct Done {
	pub out: Outcome,
	pub world: World,
	pub label: String,
}

pub enum Input {
	Seed(u64),
	Choices(Vec<u64>, u64),
}

static RESULT: Mutex<Option<Outcome>> = Mutex::new(None);
pub fn hang_secs() -> u64 {
	std::env::var("REVSIM_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60)
}

pub fn run(prop: &'static str, input: Input, trace: bool) -> Done {
	match input {
		Input::Seed(s) => world::begin_random(s, trace),
		Input::Choices(c, s) => world::begin_replay(c, s, trace),
	}
	GR.store(0, SeqCst);
	world::set_label(String::new());
	*RESULT.lock().unwrap() = None;
	*alloc::WAKE.0.lock().unwrap_or_else(|e| e.into_inner()) = 0;
	alloc::GUARD.store(true, SeqCst);
	let h = std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(move || {
			alloc::RUN.with(|r| r.set(true));
			core_sim::hooks::arm(None);
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::scenario(prop)));
			let o = classify(prop, r);
			*RESULT.lock().unwrap_or_else(|e| e.into_inner()) = Some(o);
			let mut g = alloc::WAKE.0.lock().unwrap_or_else(|e| e.into_inner());
			if *g == 0 {
				*g = 1;
			}
			alloc::WAKE.1.notify_all();
		})
		.expect("spawn");
	let mut g = alloc::WAKE.0.lock().unwrap_or_else(|e| e.into_inner());
	let t0 = Instant::now();
	let hang = Duration::from_secs(hang_secs());
	while *g == 0 && t0.elapsed() < hang {
		g = alloc::WAKE.1.wait_timeout(g, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner()).0;
	}
	let state = *g;
	drop(g);
	let out = match state {
		1 => {
			let _ = h.join();
			RESULT.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or(Outcome::Broken("no result".into()))
		}
		2 => Outcome::Oversize(alloc::ASKED.load(SeqCst)),
		_ => Outcome::Hang,
	};
	alloc::GUARD.store(false, SeqCst);
	let out = match out {
		Outcome::Oversize(n) if !scen::length_trusting(prop) => Outcome::Viol {
			class: "memory".into(),
			msg: format!("{}: asked for {n} bytes at once", world::label()),
		},
		o => o,
	};
	Done { out, world: world::finish(), label: world::label() }
}

fn classify(prop: &str, r: std::thread::Result<R<()>>) -> Outcome {
	match r {
		Ok(Ok(())) | Ok(Err(Stop::Faulted)) => Outcome::Ok,
		Ok(Err(Stop::Viol(class, msg))) => Outcome::Viol { class, msg },
		Err(_) => {
			let (m, loc) = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
			if m.contains("harness:") {
				Outcome::Broken(format!("{m} at {loc}"))
			} else if m.contains("SIM-LIVELOCK") {
				Outcome::Viol { class: "livelock".into(), msg: format!("{m} at {loc}") }
			} else if scen::length_trusting(prop) && m.ends_with("capacity overflow") {
				// a damaged length asked for more memory than there can be
				Outcome::Oversize(usize::MAX)
			} else {
				Outcome::Viol { class: "panic".into(), msg: format!("{m} at {loc}") }
			}
		}
	}
}

/// Plain text, whatever the code under test produced: values shown in
/// messages may hold bytes that are not UTF-8 when the code is broken.
fn clean(s: &str) -> String {
	let mut o = String::with_capacity(s.len());
	for &b in s.as_bytes() {
		match b {
			b'\n' => o.push(' '),
			32..=126 => o.push(b as char),
			b => o.push_str(&format!("<{b:02x}>")),
		}
	}
	o
}

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in clean(s).chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// Identity of a violation: what known findings are matched on.
fn sig(prop: &str, label: &str, class: &str, msg: &str) -> String {
	format!("{prop}|{label}|{class}|{msg}")
}

struct Known {
	prop: String,
	parts: Vec<String>,
	what: String,
}
fn load_known(f: &str) -> Vec<Known> {
	let mut o = vec![];
	for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
		// finding: property=<id> match=<part>;;<part> what=<text>
		let Some(l) = l.strip_prefix("finding: property=") else { continue };
		let Some((prop, l)) = l.split_once(" match=") else { continue };
		let Some((m, what)) = l.split_once(" what=") else { continue };
		o.push(Known {
			prop: prop.into(),
			parts: m.split(";;").map(|s| s.to_string()).collect(),
			what: what.into(),
		});
	}
	o
}
fn known<'k>(ks: &'k [Known], prop: &str, s: &str) -> Option<&'k Known> {
	ks.iter().find(|k| k.prop == prop && k.parts.iter().all(|p| s.contains(p.as_str())))
}

fn prop_of(s: &str) -> &'static str {
	scen::PROPS.iter().copied().find(|p| *p == s).unwrap_or_else(|| {
		eprintln!("unknown property {s}");
		std::process::exit(2)
	})
}

pub fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
	let p = prop.bytes().fold(7u64, |a, b| world::mix(a, b as u64));
	let cfg = core_sim::refenc::CFG;
	world::mix(world::mix(p ^ (cfg.fixed as u64) << 1 ^ cfg.spec as u64, seed), idx)
}

fn write_replay(f: &str, prop: &str, seed: u64, d: &Done, class: &str, msg: &str) {
	let cfg = core_sim::refenc::CFG;
	let mut o = String::new();
	o.push_str(&format!("property {prop}\nconfig fixed={} spec={}\nrunseed {seed}\n", cfg.fixed, cfg.spec));
	o.push_str(&format!("class {class}\nlabel {}\nmessage {}\n", d.label, clean(msg)));
	o.push_str("choices");
	for c in &d.world.log {
		o.push_str(&format!(" {c}"));
	}
	o.push_str("\ntrace\n");
	for l in d.world.trace.iter().flatten() {
		o.push_str(&clean(l));
		o.push('\n');
	}
	std::fs::write(f, o).expect("harness: cannot write replay file");
}
struct Replay {
	prop: &'static str,
	seed: u64,
	class: String,
	choices: Vec<u64>,
}
fn read_replay(f: &str) -> Replay {
	let s = std::fs::read_to_string(f).expect("harness: cannot read replay file");
	let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
	Replay {
		prop: prop_of(&get("property ")),
		seed: get("runseed ").parse().unwrap_or(0),
		class: get("class "),
		choices: get("choices").split_whitespace().map(|x| x.parse().expect("choice")).collect(),
	}
}

fn work(a: &[String]) -> i32 {
	let prop = prop_of(&a[0]);
	let seed: u64 = a[1].parse().unwrap();
	let start: u64 = a[2].parse().unwrap();
	let stride: u64 = a[3].parse().unwrap();
	let max: u64 = a[4].parse().unwrap();
	let secs: f64 = a[5].parse().unwrap();
	let ks = load_known(&a[8]);
	let mut state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[6]).unwrap();
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut reach: BTreeMap<String, u64> = BTreeMap::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let (mut runs, mut oversize, mut overflow, mut nontrivial, mut decisions, mut steps) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
	let mut viols = 0;
	let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
	let t0 = Instant::now();
	let mut idx = start;
	let mut code = 0;
	let mut next = None;
	while runs < max && t0.elapsed().as_secs_f64() < secs {
		let rs = run_seed(prop, seed, idx);
		{
			use std::os::unix::fs::FileExt;
			let _ = state.write_at(format!("{idx:020} {rs:020}\n").as_bytes(), 0);
		}
		let d = run(prop, Input::Seed(rs), false);
		runs += 1;
		decisions += d.world.log.len() as u64;
		let mut faulted = false;
		for (k, n) in &d.world.stats {
			*stats.entry(k.to_string()).or_insert(0) += n;
			faulted |= k.starts_with("fault.") || k.starts_with("sched.") || k.starts_with("act.");
		}
		if !d.label.is_empty() {
			*reach.entry(d.label.clone()).or_insert(0) += 1;
		}
		steps += d.world.steps;
		if faulted {
			nontrivial += 1;
			hashes.insert(d.world.hash);
		}
		match d.out {
			Outcome::Ok => {}
			Outcome::Oversize(usize::MAX) => overflow += 1,
			Outcome::Oversize(_) => {
				oversize += 1;
				if oversize >= 400 {
					// parked threads pile up: let the supervisor start afresh
					next = Some(idx + stride);
				}
			}
			Outcome::Broken(m) => {
				println!("BROKEN {{\"seed\":\"{rs}\",\"idx\":{idx},\"msg\":{}}}", esc(&m));
				code = 2;
				break;
			}
			Outcome::Hang => {
				println!(
					"VIOL {{\"seed\":\"{rs}\",\"idx\":{idx},\"class\":\"hang\",\"label\":{},\"msg\":\"no progress for {}s\"}}",
					esc(&d.label),
					hang_secs()
				);
				viols += 1;
				break;
			}
			Outcome::Viol { class, msg } => {
				let s = sig(prop, &d.label, &class, &msg);
				if let Some(k) = known(&ks, prop, &s) {
					*seen_known.entry(k.what.clone()).or_insert(0) += 1;
				} else {
					println!(
						"VIOL {{\"seed\":\"{rs}\",\"idx\":{idx},\"class\":{},\"label\":{},\"msg\":{}}}",
						esc(&class),
						esc(&d.label),
						esc(&msg)
					);
					viols += 1;
					if viols >= std::env::var("REVSIM_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(3) {
						break;
					}
				}
			}
		}
		idx += stride;
		if next.is_some() {
			break;
		}
	}
	let _ = state.write_all(b"");
	let mut hb = Vec::with_capacity(hashes.len() * 8);
	hashes.iter().for_each(|h| hb.extend_from_slice(&h.to_le_bytes()));
	let _ = std::fs::write(&a[7], hb);
	let js = |m: &BTreeMap<String, u64>| {
		let l: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
		format!("{{{}}}", l.join(","))
	};
	println!(
		"DONE {{\"runs\":{runs},\"nontrivial\":{nontrivial},\"decisions\":{decisions},\"steps\":{steps},\"oversize\":{},\"violations\":{viols},\"secs\":{:.2},\"next\":{},\"stats\":{},\"known\":{},\"reach\":{}}}",
		oversize + overflow,
		t0.elapsed().as_secs_f64(),
		next.map(|n: u64| n.to_string()).unwrap_or("null".into()),
		js(&stats),
		js(&seen_known),
		js(&reach)
	);
	std::io::stdout().flush().ok();
	code
}

fn minimise(r: &Replay, secs: f64) -> Vec<u64> {
	let t0 = Instant::now();
	let mut best = r.choices.clone();
	let mut evals = 0u64;
	let mut over = 0;
	let mut still = |c: &[u64]| -> Option<Vec<u64>> {
		evals += 1;
		let d = run(r.prop, Input::Choices(c.to_vec(), r.seed), false);
		match d.out {
			Outcome::Viol { class, .. } if class == r.class => {
				let n = d.world.log.len().min(c.len());
				let mut l = d.world.log;
				l.truncate(n);
				Some(l)
			}
			Outcome::Oversize(_) => {
				over += 1;
				None
			}
			_ => None,
		}
	};
	let late = || t0.elapsed().as_secs_f64() > secs;
	// trailing zeros are implied
	let trim = |v: &mut Vec<u64>| {
		while v.last() == Some(&0) {
			v.pop();
		}
	};
	loop {
		let before = best.clone();
		// delete blocks
		let mut sz = (best.len() / 2).max(1);
		while sz >= 1 {
			let mut i = 0;
			while i < best.len() && !late() {
				let mut c = best.clone();
				c.drain(i..(i + sz).min(best.len()));
				if let Some(n) = still(&c) {
					best = if n.len() <= c.len() { n } else { c };
					trim(&mut best);
				} else {
					i += sz;
				}
			}
			if sz == 1 || late() {
				break;
			}
			sz /= 2;
		}
		// zero blocks, then shrink single decisions
		let mut sz = 16;
		while sz >= 1 && !late() {
			let mut i = 0;
			while i < best.len() && !late() {
				let e = (i + sz).min(best.len());
				if best[i..e].iter().any(|x| *x != 0) {
					let mut c = best.clone();
					c[i..e].iter_mut().for_each(|x| *x = 0);
					if still(&c).is_some() {
						best = c;
					}
				}
				i += sz;
			}
			sz /= 4;
		}
		let mut i = 0;
		while i < best.len() && !late() {
			for f in [|x: u64| x / 2, |x: u64| x.saturating_sub(1)] {
				while best[i] > 0 && !late() {
					let mut c = best.clone();
					c[i] = f(c[i]);
					if c[i] == best[i] || still(&c).is_none() {
						break;
					}
					best = c;
				}
			}
			i += 1;
		}
		trim(&mut best);
		if best == before || late() {
			break;
		}
	}
	best
}

fn main() {
	std::panic::set_hook(Box::new(|i| {
		let m = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_default();
		let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		*PANIC.lock().unwrap_or_else(|e| e.into_inner()) = (m, l);
	}));
	let a: Vec<String> = std::env::args().skip(1).collect();
	let code = match a.first().map(|s| s.as_str()) {
		Some("work") => work(&a[1..]),
		Some("hash") => {
			let prop = prop_of(&a[1]);
			let seed: u64 = a[2].parse().unwrap();
			let (from, to): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
			for i in from..to {
				let d = run(prop, Input::Seed(run_seed(prop, seed, i)), false);
				println!("{i} {:016x} {}", d.world.hash, d.world.log.len());
			}
			0
		}
		Some("trace") => {
			// the trace of run number IDX
			let prop = prop_of(&a[1]);
			let rs = run_seed(prop, a[2].parse().unwrap(), a[3].parse().unwrap());
			let d = run(prop, Input::Seed(rs), true);
			for l in d.world.trace.iter().flatten() {
				println!("{}", clean(l));
			}
			println!("seed {rs}: {:?} [{}], {} decisions, {} events", d.out, d.label, d.world.log.len(), d.world.steps);
			0
		}
		Some("one") | Some("replay") => {
			let (r, input, outf) = if a[0] == "one" {
				let s: u64 = a[2].parse().unwrap();
				(Replay { prop: prop_of(&a[1]), seed: s, class: String::new(), choices: vec![] }, Input::Seed(s), a.get(3).cloned())
			} else {
				let r = read_replay(&a[1]);
				let c = r.choices.clone();
				let s = r.seed;
				(r, Input::Choices(c, s), a.get(2).cloned())
			};
			let d = run(r.prop, input, true);
			let (class, msg, code) = match &d.out {
				Outcome::Ok => ("none".into(), String::new(), 0),
				Outcome::Viol { class, msg } => (class.clone(), msg.clone(), 1),
				Outcome::Broken(m) => ("harness".into(), m.clone(), 2),
				Outcome::Oversize(n) => ("oversize".into(), format!("{n} bytes"), 0),
				Outcome::Hang => ("hang".into(), String::new(), 1),
			};
			if let Some(f) = outf {
				write_replay(&f, r.prop, r.seed, &d, &class, &msg);
			} else {
				for l in d.world.trace.iter().flatten() {
					println!("{}", clean(l));
				}
			}
			println!("RESULT {class} [{}] {} hash={:016x} decisions={}", d.label, clean(&msg), d.world.hash, d.world.log.len());
			code
		}
		Some("min") => {
			let r = read_replay(&a[1]);
			let best = minimise(&r, a[3].parse().unwrap());
			let d = run(r.prop, Input::Choices(best.clone(), r.seed), true);
			match &d.out {
				Outcome::Viol { class, msg } => {
					let mut d2 = Done { out: d.out.clone(), world: d.world, label: d.label };
					d2.world.log = best;
					write_replay(&a[2], r.prop, r.seed, &d2, class, msg);
					println!("MIN {} -> {} decisions: {class}: [{}] {}", r.choices.len(), d2.world.log.len(), d2.label, clean(msg));
					1
				}
				o => {
					println!("MIN lost the violation: {o:?}");
					2
				}
			}
		}
		Some("list") => {
			let r = scen::reg();
			for e in &r.all {
				println!("{} {:?}", e.name, e.fam);
			}
			for e in &r.idx {
				println!("indexed {}", e.name);
			}
			0
		}
		_ => 2,
	};
	std::process::exit(code)
}
