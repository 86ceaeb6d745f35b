//! Values that have no encoding: they are refused, never stored altered.
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use core_sim::io::{Sched, Sink};
use core_sim::world::{R, chance, count, ensure, pick, picku, set_label, viol};
use revision::{SerializeRevisioned, revisioned};

#[revisioned(revision(1))]
struct Plain {
	a: u32,
	p: PathBuf,
	t: SystemTime,
	z: String,
}
#[revisioned(revision(1, optimised))]
struct Framed {
	a: u32,
	p: PathBuf,
	t: SystemTime,
	z: String,
}
#[revisioned(revision(1, optimised, indexed_struct))]
struct Indexed {
	a: u32,
	#[revision(indexed_map)]
	p: BTreeMap<String, PathBuf>,
	#[revision(indexed_seq)]
	t: Vec<SystemTime>,
	z: String,
}
#[revisioned(revision(1))]
enum Either {
	P(PathBuf),
	T { t: SystemTime, a: u8 },
}
#[revisioned(revision(1, optimised))]
enum Tagged {
	#[revision(size = "varlen")]
	P(PathBuf),
	#[revision(size = "varlen")]
	T { t: SystemTime, a: u8 },
}

fn path() -> PathBuf {
	let mut b: Vec<u8> = "a/é/𝄞/tail".as_bytes()[..picku(13)].to_vec();
	let junk: [&[u8]; 7] = [b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\xf0\x9d\x84"];
	b.extend_from_slice(junk[picku(7)]);
	for _ in 0..[0, 3, 40, 300][picku(4)] {
		b.push(b'x');
	}
	if std::str::from_utf8(&b).is_ok() {
		b.push(0xff);
	}
	PathBuf::from(OsString::from_vec(b))
}
fn time() -> SystemTime {
	let d = match pick(4) {
		0 => Duration::from_nanos(1 + pick(3)),
		1 => Duration::from_secs(1 + pick(3)),
		2 => Duration::new(pick(100_000), 999_999_999),
		_ => Duration::from_secs(1 << (10 + pick(30))),
	};
	UNIX_EPOCH - d
}

fn refused<T: SerializeRevisioned>(name: &str, v: T) -> R<()> {
	set_label(name.to_string());
	count("values.misfit", 1);
	for k in 0..3 {
		let (r, got) = if k == 0 {
			match revision::to_vec(&v) {
				Ok(b) => (Ok(()), b.len()),
				Err(e) => (Err(e), 0),
			}
		} else {
			let mut s = Sink::new(if k == 1 { Sched::PLAIN } else { Sched::draw() });
			let r = revision::to_writer(&mut s, &v);
			(r, s.data.len())
		};
		ensure(r.is_err(), "write-altered", || {
			format!("a value without an encoding was written as {got} bytes")
		})?;
	}
	Ok(())
}

pub fn run() -> R<()> {
	let good = (UNIX_EPOCH + Duration::new(pick(1000), 5), PathBuf::from("ok"));
	let either = chance(1, 2);
	let (p, t) = if either { (path(), good.0) } else { (good.1.clone(), time()) };
	let n = [1, 3, 9][picku(3)];
	let at = picku(n);
	let ps: Vec<PathBuf> = (0..n).map(|i| if i == at { p.clone() } else { good.1.clone() }).collect();
	let ts: Vec<SystemTime> = (0..n).map(|i| if i == at { t } else { good.0 }).collect();
	match pick(14) {
		0 if either => refused("PathBuf", p),
		0 => refused("SystemTime", t),
		1 if either => refused("Vec<PathBuf>", ps),
		1 => refused("Vec<SystemTime>", ts),
		2 if either => refused("Option<PathBuf>", Some(p)),
		2 => refused("Option<SystemTime>", Some(t)),
		3 => refused("(PathBuf, SystemTime)", (p, t)),
		4 => refused("Result<PathBuf, SystemTime>", if either { Ok(p) } else { Err(t) }),
		5 if either => refused("Box<PathBuf>", Box::new(p)),
		5 => refused("Arc<SystemTime>", std::sync::Arc::new(t)),
		6 => refused("HashMap<u8, (PathBuf, SystemTime)>", HashMap::from([(1u8, (p, t))])),
		7 if either => refused("BTreeMap<PathBuf, u8>", BTreeMap::from([(p, 1u8)])),
		7 => refused("BTreeMap<SystemTime, u8>", BTreeMap::from([(t, 1u8)])),
		8 => refused("Plain", Plain { a: 1, p, t, z: "z".into() }),
		9 => refused("Framed", Framed { a: 1, p, t, z: "z".into() }),
		10 => {
			let p = ps.into_iter().enumerate().map(|(i, p)| (i.to_string(), p)).collect();
			refused("Indexed", Indexed { a: 1, p, t: ts, z: "z".into() })
		}
		11 => refused("Either", if either { Either::P(p) } else { Either::T { t, a: 1 } }),
		12 => refused("Tagged", if either { Tagged::P(p) } else { Tagged::T { t, a: 1 } }),
		_ if either => refused("Range<PathBuf>", p.clone()..p),
		_ => refused("Bound<SystemTime>", std::ops::Bound::Included(t)),
	}?;
	// what can be written still can
	let b = revision::to_vec(&good);
	match b {
		Ok(b) => match revision::from_slice::<(SystemTime, PathBuf)>(&b) {
			Ok(g) => ensure(g == good, "write-altered", || "a value changed after a refusal".into()),
			Err(e) => viol("write-error", format!("a value written after a refusal cannot be read: {e}")),
		},
		Err(e) => viol("write-error", format!("after a refusal: {e}")),
	}
}
