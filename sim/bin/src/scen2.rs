//! Scenarios of P11 to P16.

use std::sync::{Arc, Mutex};

use core_sim::dynt::{Entry, IdxEntry, Inst};
use core_sim::hooks;
use core_sim::io::{Frag, Sched, Sink, Src, WFault};
use core_sim::refenc::{CFG, Enc, Mark, struct_parts};
use core_sim::sched;
use core_sim::tr;
use core_sim::val::*;
use core_sim::walkers::{Cx, Exp, Mode, mode_of};
use core_sim::world::{
	self, R, Stop, chance, count, ensure, hex, pick, pick64, picku, set_label, viol, weighted,
};
use revision::optimised::IndexedStructWalker;

use crate::alloc;
use crate::scen::*;

// ---------------------------------------------------------------------------
// P11

/// Is the encoding a function of the contents alone?
fn det(sc: &Sc, depth: u32) -> bool {
	if depth > 12 {
		return true;
	}
	let go = |s: &Sc| det(s, depth + 1);
	match sc {
		Sc::Opt(x) | Sc::Bound(x) | Sc::Range(x) | Sc::Arr(x, _) | Sc::Vec(x) | Sc::Seq(x) => go(x),
		Sc::Res(x, y) => go(x) && go(y),
		Sc::Tup(l) => l.iter().all(go),
		Sc::Set(x, unordered) => !unordered && go(x),
		Sc::Heap(_) => false,
		Sc::Map(k, x, unordered) => !unordered && go(k) && go(x),
		Sc::Der(f, b) => {
			let d = def(*f, *b);
			let framed = d.layout(d.rev) != Lay::Legacy;
			let field = |f: &Field| {
				if !f.alive(d.rev) {
					return true;
				}
				match (&f.sc, f.g.idx) {
					(Sc::Map(k, x, _), Idx::Map) if framed => go(k) && go(x),
					(Sc::Set(x, _), Idx::Set) | (Sc::Seq(x) | Sc::Vec(x), Idx::Seq) if framed => go(x),
					(s, _) => go(s),
				}
			};
			match &d.kind {
				Kind::Struct(fs) => fs.iter().all(field),
				Kind::Enum(vs) => vs.iter().filter(|v| v.alive(d.rev)).all(|v| v.fields.iter().all(field)),
			}
		}
		_ => true,
	}
}
/// Are there containers with freedom in their order inside?
fn ordered_inside(sc: &Sc, depth: u32) -> bool {
	if depth > 6 {
		return false;
	}
	let go = |s: &Sc| ordered_inside(s, depth + 1);
	match sc {
		Sc::Opt(x) | Sc::Bound(x) | Sc::Range(x) | Sc::Arr(x, _) | Sc::Vec(x) | Sc::Seq(x) => go(x),
		Sc::Res(x, y) => go(x) || go(y),
		Sc::Tup(l) => l.iter().any(go),
		Sc::Set(..) | Sc::Map(..) => true,
		Sc::Der(f, b) => {
			let d = def(*f, *b);
			match &d.kind {
				Kind::Struct(fs) => fs.iter().any(|f| go(&f.sc)),
				Kind::Enum(vs) => vs.iter().any(|v| v.fields.iter().any(|f| go(&f.sc))),
			}
		}
		_ => false,
	}
}

/// Another insertion history with the same outcome.
fn reorder<T: Clone>(l: &mut Vec<T>) {
	match pick(4) {
		0 => {}
		1 => l.reverse(),
		2 if l.len() > 1 => {
			let k = picku(l.len());
			l.rotate_left(k)
		}
		_ => {
			let mut p = Pure(pick64());
			for i in (1..l.len()).rev() {
				let j = p.pick(i as u64 + 1) as usize;
				l.swap(i, j);
			}
		}
	}
}
fn shuffle(sc: &Sc, v: &Val) -> Val {
	match (sc, v) {
		(Sc::Opt(x), Val::T(n, l)) | (Sc::Bound(x), Val::T(n, l)) => {
			Val::T(*n, l.iter().map(|e| shuffle(x, e)).collect())
		}
		(Sc::Res(x, y), Val::T(n, l)) => {
			let s = if *n == 0 { x } else { y };
			Val::T(*n, l.iter().map(|e| shuffle(s, e)).collect())
		}
		(Sc::Tup(s), Val::L(l)) => Val::L(s.iter().zip(l).map(|(s, e)| shuffle(s, e)).collect()),
		(Sc::Range(x) | Sc::Arr(x, _) | Sc::Seq(x), Val::L(l)) => Val::L(l.iter().map(|e| shuffle(x, e)).collect()),
		(Sc::Vec(x), Val::L(l)) if !is_bulk(x) => Val::L(l.iter().map(|e| shuffle(x, e)).collect()),
		(Sc::Set(x, _), Val::L(l)) => {
			let mut o: Vec<Val> = l.iter().map(|e| shuffle(x, e)).collect();
			reorder(&mut o);
			if !o.is_empty() && chance(1, 4) {
				// inserted twice
				let e = o[picku(o.len())].clone();
				o.push(e);
			}
			Val::L(o)
		}
		(Sc::Map(k, x, _), Val::M(m)) => {
			let mut o: Vec<(Val, Val)> = m.iter().map(|(a, b)| (shuffle(k, a), shuffle(x, b))).collect();
			reorder(&mut o);
			if o.len() > 1 && chance(1, 4) {
				// a value that is overwritten later
				let i = picku(o.len() - 1);
				let j = o.len() - 1;
				let e = (o[j].0.clone(), o[i].1.clone());
				o.insert(0, e);
			}
			Val::M(o)
		}
		(Sc::Der(f, b), _) => {
			let d = def(*f, *b);
			match (&d.kind, v) {
				(Kind::Struct(fs), Val::L(l)) => {
					Val::L(fs.iter().filter(|f| f.alive(d.rev)).zip(l).map(|(f, e)| shuffle(&f.sc, e)).collect())
				}
				(Kind::Enum(vs), Val::T(n, l)) => {
					let vd = vs.iter().find(|x| x.gi == *n as usize).expect("harness: variant");
					Val::T(
						*n,
						vd.fields.iter().filter(|f| f.alive(d.rev)).zip(l).map(|(f, e)| shuffle(&f.sc, e)).collect(),
					)
				}
				_ => v.clone(),
			}
		}
		_ => v.clone(),
	}
}

/// Run on a thread of its own: another process, with another hash seed.
fn elsewhere<T: Send>(f: impl FnOnce() -> T + Send) -> T {
	count("act.replicas", 1);
	std::thread::scope(|s| {
		let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).expect("spawn");
		match h.join() {
			Ok(r) => r,
			Err(e) => std::panic::resume_unwind(e),
		}
	})
}

/// The schema with the kinds of its containers forgotten.
fn erase(sc: &Sc) -> Sc {
	match sc {
		Sc::Set(x, _) => Sc::Set(a(erase(x)), false),
		Sc::Map(k, x, _) => Sc::Map(a(erase(k)), a(erase(x)), false),
		Sc::Vec(x) | Sc::Seq(x) => Sc::Seq(a(erase(x))),
		Sc::Opt(x) => Sc::Opt(a(erase(x))),
		Sc::Tup(l) => Sc::Tup(l.iter().map(erase).collect()),
		s => s.clone(),
	}
}

struct Replicas {
	first: Option<(String, Vec<u8>)>,
}
impl Replicas {
	fn hold(&mut self, who: String, b: Vec<u8>) -> R<()> {
		tr!("{who}: {}", hex(&b));
		world::ev(110, b.len() as u64);
		match &self.first {
			None => {
				self.first = Some((who, b));
				Ok(())
			}
			Some((w, f)) => ensure(*f == b, "replicas-differ", || {
				let at = f.iter().zip(&b).take_while(|(a, b)| a == b).count();
				format!("{w} and {who} hold equal values but stored {} and {} (first difference at byte {at})", hex(f), hex(&b))
			}),
		}
	}
}

pub fn p11() -> R<()> {
	let reg = reg();
	let mut rs = Replicas { first: None };
	if chance(1, 3) {
		let l: Vec<(usize, usize)> = (0..reg.fams.len())
			.flat_map(|f| (0..BUILDS).map(move |b| (f, b)))
			.filter(|(f, b)| {
				let e = fam_at(*f, *b);
				det(&e.sc, 0) && ordered_inside(&e.sc, 0)
			})
			.collect();
		let (f, b) = l[picku(l.len())];
		let e = fam_at(f, b);
		set_label(e.name.clone());
		// the value may have come to one replica by way of an older record
		let wb = picku(b + 1);
		let we = fam_at(f, wb);
		let old = gen_sized(&we.sc, [60, 200][picku(2)], chance(1, 2), false);
		let r = record(we, &old)?;
		let v = normalise(&e.sc, &upgrade(&we.sc, &e.sc, &r.v));
		for k in 0..2 + pick(3) {
			let by = pick(4);
			let bytes = if by == 1 {
				let b = r.b.clone();
				let s = Sched::draw();
				elsewhere(move || e.ops.recode(&mut Src::with(&b, s)))
			} else {
				let s = shuffle(&e.sc, &v);
				elsewhere(move || {
					let i = e.ops.make(&s);
					if by == 2 {
						let b = i.to_vec()?;
						e.ops.recode(&mut Src::new(&b))
					} else {
						i.to_vec()
					}
				})
			};
			match bytes {
				Ok(x) => rs.hold(format!("replica {k} of {} by way {by}", e.name), x)?,
				Err(x) => return viol("encode-error", format!("replica {k}: {x}")),
			}
		}
		return Ok(());
	}
	let ok: Vec<usize> = (0..reg.idx.len()).filter(|i| {
		match &reg.idx[*i].sc {
			Sc::Map(k, x, _) => det(k, 0) && det(x, 0),
			Sc::Set(x, _) | Sc::Seq(x) | Sc::Vec(x) => det(x, 0),
			_ => false,
		}
	}).collect();
	let e = &reg.idx[ok[picku(ok.len())]];
	set_label(e.name.clone());
	let group: Vec<&'static IdxEntry> =
		ok.iter().map(|i| &reg.idx[*i]).filter(|o| o.idx == e.idx && erase(&o.sc) == erase(&e.sc)).collect();
	let v = normalise(&e.sc, &gen_sized(&e.sc, [40, 120, 400][weighted(&[1, 3, 1])], chance(3, 4), false));
	let mut last: Option<Vec<u8>> = None;
	for k in 0..2 + pick(4) {
		let o: &'static IdxEntry = group[picku(group.len())];
		let sch = Sched::draw();
		let b = match &last {
			Some(b) if chance(1, 3) => {
				let b = b.clone();
				elsewhere(move || {
					let mut s = Sink::new(sch);
					o.ops.recode(&mut Src::new(&b), &mut s).map(|_| s.data)
				})
			}
			_ => {
				let s = shuffle(&o.sc, &v);
				elsewhere(move || {
					let mut k = Sink::new(sch);
					o.ops.encode(&s, &mut k).map(|_| k.data)
				})
			}
		};
		match b {
			Ok(b) => {
				last = Some(b.clone());
				rs.hold(format!("replica {k} as {}", o.name), b)?
			}
			Err(x) => return viol("encode-error", format!("{}: {x}", o.name)),
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// Damage

const BYTES: [u8; 16] = [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 250, 251, 252, 253, 254, 0x20, 0x40, 0xc0, 0xed];
fn word() -> u32 {
	const W: [u32; 12] = [0, 1, 2, 3, 4, 7, 8, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 3, u32::MAX - 7];
	if chance(1, 4) { pick(300) as u32 } else { W[picku(W.len())] }
}
fn long() -> u64 {
	const W: [u64; 14] = [
		0,
		1,
		2,
		250,
		256,
		u64::MAX,
		u64::MAX - 1,
		u64::MAX - 8,
		u64::MAX / 4,
		u64::MAX / 8,
		u64::MAX / 8 - 1,
		u64::MAX / 2,
		i64::MAX as u64 + 1,
		1 << 32,
	];
	if chance(1, 3) { pick(300) } else { W[picku(W.len())] }
}
fn enc_u64(v: u64, fixed: bool) -> Vec<u8> {
	let mut e = Enc::new(core_sim::refenc::Cfg { fixed, spec: CFG.spec });
	e.enc(&Sc::U(64), &Val::U(v as u128));
	e.out
}

/// Damage `b[lo..hi]` once.  `keep` forbids changing the length.
pub fn damage(b: &mut Vec<u8>, lo: usize, hi: usize, marks: &[(usize, usize, Mark)], keep: bool) {
	let n = hi - lo;
	if n == 0 {
		return;
	}
	let at = lo + picku(n);
	let span = |m: usize| (1 + picku(m)).min(hi - at);
	let ms: Vec<_> = marks.iter().filter(|m| m.0 >= lo && m.0 + m.1 <= hi && m.1 > 0).collect();
	let aimed = !ms.is_empty() && chance(1, 2);
	if aimed {
		// prefer the rare, structural kinds
		let kind = [Mark::Offset, Mark::PayloadLen, Mark::Len, Mark::Flags, Mark::Tag, Mark::Rev, Mark::Scalar][picku(7)];
		let of: Vec<_> = ms.iter().filter(|m| m.2 == kind).collect();
		let m = if of.is_empty() { ms[picku(ms.len())] } else { of[picku(of.len())] };
		let (p, l, k) = *m;
		tr!("damage: {k:?} at byte {p} (+{l})");
		match k {
			Mark::Offset | Mark::PayloadLen => {
				let old = u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
				let new = match pick(5) {
					0 => old.wrapping_add(1),
					1 => old.wrapping_sub(1),
					2 => old ^ (1 << pick(32)),
					3 if k == Mark::Offset => {
						// the entry of a neighbour
						let os: Vec<_> = ms.iter().filter(|m| m.2 == Mark::Offset).collect();
						let o = os[picku(os.len())].0;
						u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
					}
					_ => word(),
				};
				count("fault.bad-offset", 1);
				b[p..p + 4].copy_from_slice(&new.to_le_bytes());
			}
			Mark::Len => {
				count("fault.bad-length", 1);
				// containers with an index always hold a varint
				let new = enc_u64(long(), CFG.fixed && l == 8);
				if keep {
					for (i, x) in new.iter().enumerate().take(hi - p) {
						b[p + i] = *x
					}
				} else {
					b.splice(p..p + l, new);
				}
			}
			_ => {
				count("fault.bad-byte", 1);
				let i = p + picku(l);
				b[i] = if chance(1, 2) { BYTES[picku(BYTES.len())] } else { b[i].wrapping_add(1 + pick(4) as u8) };
			}
		}
		return;
	}
	match pick(if keep { 6 } else { 9 }) {
		0 => {
			count("fault.bit-flip", 1);
			b[at] ^= 1 << pick(8);
			tr!("damage: bit flip at {at}");
		}
		1 => {
			count("fault.bad-byte", 1);
			b[at] = BYTES[picku(BYTES.len())];
			tr!("damage: byte at {at}");
		}
		2 => {
			count("fault.overwritten", 1);
			let m = span(24);
			let x = BYTES[picku(BYTES.len())];
			b[at..at + m].iter_mut().for_each(|y| *y = x);
			tr!("damage: {m} bytes at {at} overwritten with {x}");
		}
		3 => {
			count("fault.misdirected", 1);
			let m = span(64);
			let from = lo + picku(n - m + 1);
			b.copy_within(from..from + m, at);
			tr!("damage: {m} bytes of {from} written to {at}");
		}
		4 => {
			count("fault.torn-sector", 1);
			b[at..hi].iter_mut().for_each(|y| *y = 0);
			tr!("damage: zeroes from {at}");
		}
		5 => {
			count("fault.overwritten", 1);
			let m = span(16);
			let mut p = Pure(pick64());
			b[at..at + m].iter_mut().for_each(|y| *y = p.pick64() as u8);
			tr!("damage: {m} bytes of noise at {at}");
		}
		6 => {
			count("fault.torn-record", 1);
			b.truncate(at);
			tr!("damage: cut at {at}");
		}
		7 => {
			count("fault.lost-bytes", 1);
			let m = span(4);
			b.drain(at..at + m);
			tr!("damage: {m} bytes lost at {at}");
		}
		_ => {
			count("fault.inserted", 1);
			let x = noise();
			tr!("damage: {} bytes inserted at {at}", x.len());
			b.splice(at..at, x);
		}
	}
}

fn has_poly(sc: &Sc, depth: u32) -> bool {
	if depth > 6 {
		return false;
	}
	let go = |s: &Sc| has_poly(s, depth + 1);
	match sc {
		Sc::Poly => true,
		Sc::Opt(x) | Sc::Bound(x) | Sc::Range(x) | Sc::Arr(x, _) | Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _) | Sc::Heap(x) => go(x),
		Sc::Res(x, y) | Sc::Map(x, y, _) => go(x) || go(y),
		Sc::Tup(l) => l.iter().any(go),
		_ => false,
	}
}

/// Every string inside is well formed, every scalar within its type.
fn valid(v: &Val) -> bool {
	match v {
		Val::S(s) => std::str::from_utf8(s.as_bytes()).is_ok(),
		Val::L(l) | Val::T(_, l) => l.iter().all(valid),
		Val::M(m) => m.iter().all(|(a, b)| valid(a) && valid(b)),
		_ => true,
	}
}

/// A value decoded from damaged bytes is a value like any other.
fn sound(e: &Entry, v: &Val, b: &[u8], op: Op) -> R<()> {
	ensure(valid(v), "invalid-value", || format!("{op:?} of {} gave ill-formed {}", e.name, v.short()))?;
	if has_poly(&e.sc, 0) {
		return Ok(());
	}
	count("act.damaged-accepted", 1);
	let Ok(again) = e.ops.recode(&mut Src::new(b)) else { return Ok(()) };
	match e.ops.from_slice(&again) {
		Ok(w) => {
			let g = e.ops.from_slice(b);
			let Ok(g) = g else { return Ok(()) };
			ensure(same(&e.sc, &g, &w), "invalid-value", || {
				format!("{op:?} of damaged {} gave {}, which stores and reads back as {}", hex(b), g.short(), w.short())
			})
		}
		Err(x) => viol("invalid-value", format!("{op:?} of damaged {} gave a value that cannot be read back: {x}", hex(b))),
	}
}

/// Run every kind of access over damaged bytes.
fn probe(e: &Entry, b: &[u8], times: u64) -> R<()> {
	for _ in 0..times {
		let op = OPS[picku(OPS.len())];
		set_label(format!("{} {op:?}", e.name));
		if op == Op::Walk {
			let mut src = Src::with(b, Sched::draw());
			let cx = Cx::new(&src, 0, true);
			let x = Exp { v: None, wb: 0 };
			match e.ops.walk(&mut src, &x, &cx) {
				Ok(_) | Err(Stop::Faulted) => {}
				Err(s) => return Err(s),
			}
			count("act.damaged-walks", 1);
			ensure(src.pos() <= b.len(), "overrun", || format!("reader at {} of {}", src.pos(), b.len()))?;
		} else if stream_op(op) {
			let mut src = Src::with(b, Sched::draw());
			let g = consume(e, op, &mut src);
			evr(120, &g, src.pos());
			tr!("{op:?}: ok={} at {}", g.is_ok(), src.pos());
			count(if g.is_ok() { "act.damaged-read" } else { "act.damaged-refused" }, 1);
			if let Ok(Got::Value(v)) = g {
				let n = src.pos();
				sound(e, &v, &b[..n], op)?;
			}
		} else {
			let g = consume_slice(e, op, b);
			evr(121, &g, 0);
			tr!("{op:?}: ok={}", g.is_ok());
			count(if g.is_ok() { "act.damaged-read" } else { "act.damaged-refused" }, 1);
			match g {
				Ok((Got::Value(v), n)) => sound(e, &v, &b[..n.unwrap_or(b.len())], op)?,
				Ok((_, Some(n))) => {
					ensure(n <= b.len(), "overrun", || format!("{op:?} consumed {n} of {} bytes", b.len()))?
				}
				_ => {}
			}
		}
	}
	Ok(())
}

/// What an opened struct index promises.
fn index_ok_struct(p: &[u8], n: usize) -> bool {
	if p.len() < n * 4 {
		return false;
	}
	let w = |i: usize| u32::from_le_bytes(p[i * 4..i * 4 + 4].try_into().unwrap()) as usize;
	(0..n).all(|i| w(i) >= n * 4 && w(i) <= p.len() && (i == 0 || w(i - 1) <= w(i)))
}

/// Body of a record written as an indexed struct, and its number of fields.
pub fn struct_body(sc: &Sc, b: &[u8]) -> Option<(Vec<u8>, u16, u16)> {
	let Sc::Der(f, bd) = sc else { return None };
	let d = def(*f, *bd);
	let Kind::Struct(fs) = &d.kind else { return None };
	if d.layout(d.rev) != Lay::OptIdx {
		return None;
	}
	let h = enc_rev(d.rev).len() + 4;
	Some((b[h..].to_vec(), d.rev, fs.iter().filter(|f| f.alive(d.rev)).count() as u16))
}
/// Undamaged: the fields are where the index says.
pub fn struct_fields(e: &Entry, v: &Val, b: &[u8]) -> R<()> {
	let Some((body, rev, n)) = struct_body(&e.sc, b) else { return Ok(()) };
	let Sc::Der(f, bd) = &e.sc else { return Ok(()) };
	let parts = struct_parts(def(*f, *bd), v);
	for validated in [true, false] {
		let w = if validated {
			IndexedStructWalker::from_payload(&body, rev, n)
		} else {
			IndexedStructWalker::from_payload_unvalidated(&body, rev, n)
		};
		let w = match w {
			Ok(w) => w,
			Err(x) => {
				// an empty field makes two offsets equal, which is refused
				if validated && parts.iter().any(|p| p.is_empty()) {
					continue;
				}
				return viol("view-error", format!("opening a valid indexed struct: {x}"));
			}
		};
		ensure(w.revision() == rev && w.field_count() == n, "view", || "revision or field count".into())?;
		for (i, p) in parts.iter().enumerate() {
			match w.field_bytes(i as u16) {
				Ok(g) => ensure(g == &p[..], "view", || {
					format!("field {i} of {} is {} instead of {}", v.short(), hex(g), hex(p))
				})?,
				Err(x) => return viol("view-error", format!("field {i}: {x}")),
			}
		}
		ensure(w.field_bytes(n).is_err() && w.field_bytes(u16::MAX).is_err(), "view", || {
			"a field past the end was found".into()
		})?;
	}
	count("act.struct-index", 1);
	Ok(())
}
fn blind_struct(body: &[u8], rev: u16, n: u16) -> R<()> {
	match IndexedStructWalker::from_payload(body, rev, n) {
		Ok(w) => {
			ensure(index_ok_struct(body, n as usize), "index-accepted", || {
				format!("from_payload accepted a struct index that is not valid: {} ({n} fields)", hex(body))
			})?;
			count("view.damaged-accepted", 1);
			for i in (0..n).chain([n, u16::MAX]) {
				let _ = w.field_bytes(i);
				let _ = w.decode_field::<String>(i);
				let _ = w.decode_field::<u64>(i);
				let _ = w.decode_field::<Vec<bool>>(i);
				let _ = w.skip_field(i);
			}
		}
		Err(_) => count("view.damaged-refused", 1),
	}
	Ok(())
}

pub fn p12() -> R<()> {
	let reg = reg();
	let k = pick(4);
	if k == 3 {
		// an indexed container
		let e = &reg.idx[picku(reg.idx.len())];
		set_label(e.name.clone());
		let v = normalise(&e.sc, &gen_sized(&e.sc, [40, 120][picku(2)], chance(3, 4), false));
		let mut b = idx_record(e, &v, Sched::PLAIN)?;
		let mut m = Enc::new(CFG);
		match e.idx {
			Idx::Map => m.indexed_map(&e.sc, &v),
			x => m.indexed_seq(&e.sc, &v, x == Idx::Set),
		}
		let marks = if m.out == b { m.marks } else { vec![] };
		tr!("indexed {} = {} : {}", e.name, v.short(), hex(&b));
		for i in 0..1 + pick(3) {
			let n = b.len();
			damage(&mut b, 0, n, if i == 0 { &marks } else { &[] }, false);
		}
		tr!("now {}", hex(&b));
		for _ in 0..2 {
			let mut s = Src::with(&b, Sched::draw());
			match pick(3) {
				0 => {
					let g = e.ops.decode(&mut s);
					evr(122, &g, s.pos());
					if let Ok(v) = g {
						ensure(valid(&v), "invalid-value", || format!("gave ill-formed {}", v.short()))?;
					}
				}
				1 => {
					let g = e.ops.skip(&mut s);
					evr(123, &g, s.pos());
				}
				_ => e.ops.open(&b)?,
			}
			count("act.damaged-index", 1);
		}
		return Ok(());
	}
	// any record, read by its own or a newer build
	let (we, rd) = if k == 2 {
		let f = any_fam();
		let wb = picku(BUILDS);
		let rb = wb + picku(BUILDS - wb);
		(fam_at(f, wb), fam_at(f, rb))
	} else {
		let e = any_entry();
		(e, e)
	};
	set_label(rd.name.clone());
	let r = record(we, &gen_val(&we.sc))?;
	let m = marks_of(&we.sc, &r.v);
	let marks = if m.out == r.b { m.marks } else { vec![] };
	let mut b = r.b.clone();
	if b.is_empty() {
		return Ok(());
	}
	if let Some((mut body, rev, n)) = struct_body(&we.sc, &b)
		&& chance(1, 4)
	{
		let off = b.len() - body.len();
		let bm: Vec<_> =
			marks.iter().filter(|m| m.0 >= off && m.2 == Mark::Offset).map(|m| (m.0 - off, m.1, m.2)).collect();
		for i in 0..1 + pick(3) {
			let l = body.len();
			damage(&mut body, 0, l, if i == 0 { &bm } else { &[] }, false);
		}
		tr!("struct body now {}", hex(&body));
		return blind_struct(&body, rev, n);
	}
	for i in 0..1 + pick(4) {
		let n = b.len();
		damage(&mut b, 0, n, if i == 0 { &marks } else { &[] }, false);
	}
	tr!("now {}", hex(&b));
	probe(rd, &b, 3)
}

// ---------------------------------------------------------------------------
// P13

/// Bodies of the length-framed parts of a record.
fn frames(sc: &Sc, v: &Val, b: &[u8]) -> Vec<(usize, usize)> {
	let m = marks_of(sc, v);
	if m.out != b {
		return vec![];
	}
	let mut o: Vec<(usize, usize)> = m
		.marks
		.iter()
		.filter(|m| m.2 == Mark::PayloadLen)
		.map(|(p, _, _)| (p + 4, p + 4 + u32::from_le_bytes(b[*p..p + 4].try_into().unwrap()) as usize))
		.filter(|(lo, hi)| hi > lo)
		.collect();
	// fixed-size variants at the top
	if let Sc::Der(f, bd) = sc {
		let d = def(*f, *bd);
		if let Kind::Enum(vs) = &d.kind
			&& d.layout(d.rev) != Lay::Legacy
			&& let Size::Fixed(n) = vs.iter().find(|x| x.gi == v.t().0 as usize).expect("harness: variant").g.size
			&& n > 0
		{
			let lo = enc_rev(d.rev).len() + 1;
			o.push((lo, lo + n));
		}
	}
	o
}
fn framed_fams() -> Vec<(usize, usize)> {
	(0..reg().fams.len())
		.flat_map(|f| (0..BUILDS).map(move |b| (f, b)))
		.filter(|(f, b)| def(*f, *b).layouts.iter().any(|l| *l != Lay::Legacy))
		.collect()
}

pub fn p13() -> R<()> {
	let mut log = vec![];
	let mut before = vec![];
	for _ in 0..pick(3) {
		before.push(log_record(&mut log, true)?);
	}
	// the victim
	let l = framed_fams();
	let (f, wb) = l[picku(l.len())];
	let rb = wb + picku(BUILDS - wb);
	let (we, rd) = (fam_at(f, wb), fam_at(f, rb));
	let v = gen_val(&we.sc);
	let r = record(we, &v)?;
	let at = log.len();
	let n = r.b.len();
	log.extend_from_slice(&r.b);
	let mut after = vec![];
	for _ in 0..1 + pick(3) {
		after.push(log_record(&mut log, true)?);
	}
	set_label(format!("{}<-{}", rd.name, we.name));
	let fr = frames(&we.sc, &r.v, &r.b);
	if fr.is_empty() {
		return Ok(());
	}
	let (lo, hi) = fr[picku(fr.len())];
	// only damage inside the outermost frame leaves the whole record skippable
	let marks: Vec<_> = marks_of(&we.sc, &r.v).marks.into_iter().map(|(p, l, m)| (p + at, l, m)).collect();
	for i in 0..1 + pick(3) {
		damage(&mut log, at + lo, at + hi, if i == 0 { &marks } else { &[] }, true);
	}
	tr!("record at {at} (+{n}) damaged inside {lo}..{hi}: {}", hex(&log[at..at + n]));
	count("act.frames-damaged", 1);
	let who = format!("{}<-{}", rd.name, we.name);
	// the record itself
	for _ in 0..2 {
		let op = OPS[picku(OPS.len())];
		set_label(format!("{who} {op:?}"));
		let rest = &log[at..];
		let (res, pos) = match op {
			Op::Walk => {
				let mut s = Src::with(rest, Sched::draw());
				let cx = Cx::new(&s, 0, true);
				match rd.ops.walk(&mut s, &Exp { v: None, wb }, &cx) {
					Ok(_) | Err(Stop::Faulted) => {}
					Err(e) => return Err(e),
				}
				continue;
			}
			Op::FromSlice => (rd.ops.from_slice(&rest[..n]).map(Got::Value), None),
			op if stream_op(op) => {
				let mut s = Src::with(rest, Sched::draw());
				let g = consume(rd, op, &mut s);
				let p = s.pos();
				(g, Some(p))
			}
			op => match consume_slice(rd, op, rest) {
				Ok((g, p)) => (Ok(g), p),
				Err(x) => (Err(x), None),
			},
		};
		evr(130, &res, pos.unwrap_or(0));
		tr!("{op:?} of the damaged record: ok={} at {pos:?}", res.is_ok());
		let skip = matches!(op, Op::Skip | Op::SkipReader | Op::SkipSlice | Op::SkipInSlice);
		match res {
			Ok(_) => ensure(pos.is_none_or(|p| p == n), "misaligned", || {
				format!("{op:?} of a record of {n} bytes, damaged inside {lo}..{hi}, ended at {pos:?}")
			})?,
			Err(x) if skip => {
				return viol("skip-lost", format!("{op:?} of a record damaged inside {lo}..{hi} failed: {x}"));
			}
			Err(_) => count("act.damaged-refused", 1),
		}
	}
	// the neighbours
	let mut p = 0;
	for l in &before {
		match eat(l, &log, p, Sched::draw())? {
			Some(m) => p += m,
			None => return viol("neighbour-lost", format!("record before the damage at {p} refused")),
		}
	}
	ensure(p == at, "misaligned", || format!("records before the damage ended at {p} of {at}"))?;
	set_label(who);
	let mut s = Src::with(&log[p..], Sched::draw());
	if let Err(x) = rd.ops.skip(&mut s) {
		return viol("skip-lost", format!("skip of a record damaged inside {lo}..{hi} failed: {x}"));
	}
	p += s.pos();
	ensure(p == at + n, "misaligned", || format!("skip landed at {p} instead of {}", at + n))?;
	for l in &after {
		match eat(l, &log, p, Sched::draw())? {
			Some(m) => p += m,
			None => return viol("neighbour-lost", format!("record after the damage at {p} refused")),
		}
	}
	ensure(p == log.len(), "misaligned", || format!("the log ended at {p} of {}", log.len()))
}

// ---------------------------------------------------------------------------
// P14

pub fn p14() -> R<()> {
	let f = any_fam();
	let wb = picku(BUILDS - 1);
	let rb = wb + 1 + picku(BUILDS - 1 - wb);
	let (we, rd) = (fam_at(f, wb), fam_at(f, rb));
	set_label(format!("{}<-{}", rd.name, we.name));
	let r = record(we, &gen_val(&we.sc))?;
	let want = upgrade(&we.sc, &rd.sc, &r.v);
	// how often are callbacks asked when nothing fails?
	hooks::arm(None);
	let g = rd.ops.from_slice(&r.b);
	let calls = hooks::calls();
	match g {
		Ok(g) => expect_val(&rd.sc, &want, &g, "fault-free read")?,
		Err(x) => return viol("upgrade-error", format!("{x}")),
	}
	tr!("{calls} callbacks");
	let tail = noise();
	let all: Vec<u8> = r.b.iter().chain(&tail).copied().collect();
	let n = r.b.len();
	// skipping asks nobody
	let op = [Op::Skip, Op::SkipSlice, Op::SkipInSlice, Op::SkipReader][picku(4)];
	hooks::arm(Some(0));
	let s = if stream_op(op) {
		let mut s = Src::with(&all, Sched::draw());
		consume(rd, op, &mut s).map(|_| Some(s.pos()))
	} else {
		consume_slice(rd, op, &all).map(|x| x.1)
	};
	let asked = hooks::calls();
	hooks::arm(None);
	match s {
		Ok(p) => ensure(p == Some(n), "misaligned", || format!("{op:?} ended at {p:?} of {n}"))?,
		Err(x) => return viol("skip-callback", format!("{op:?} failed with the callbacks: {x} ({asked} calls)")),
	}
	if calls == 0 {
		return Ok(());
	}
	for _ in 0..1 + pick(3) {
		let k = pick(calls);
		let op = [Op::Decode, Op::FromReader, Op::DecodeSlice, Op::FromSlice, Op::Walk][picku(5)];
		if op == Op::Walk {
			// a random access session during which callback k fails
			let s = Sched::draw();
			let mut src = Src::with(&all, s);
			let mut cx = Cx::new(&src, [0, 0, 1][picku(3)], false);
			cx.callbacks = true;
			hooks::arm(Some(k));
			let res = rd.ops.walk(&mut src, &Exp { v: Some(&want), wb }, &cx);
			hooks::arm(None);
			src.ctl.armed.set(None);
			count("act.walk-ops", cx.ops.get());
			match res {
				Ok(_) | Err(Stop::Faulted) => continue,
				Err(e) => return Err(e),
			}
		}
		hooks::arm(Some(k));
		let (g, fired) = if stream_op(op) {
			let mut s = Src::with(&all, Sched::draw());
			let g = consume(rd, op, &mut s);
			(g, hooks::fired())
		} else {
			let b = if op == Op::FromSlice { &r.b[..] } else { &all[..] };
			let g = consume_slice(rd, op, b).map(|x| x.0);
			(g, hooks::fired())
		};
		hooks::arm(None);
		evr(140, &g, k as usize);
		tr!("callback {k} of {calls} fails during {op:?}: fired={fired} ok={}", g.is_ok());
		ensure(fired, "callback-skipped", || format!("{op:?} asked fewer than {k} of {calls} callbacks"))?;
		match g {
			Ok(_) => return viol("swallowed-callback", format!("callback {k} of {calls} failed, {op:?} succeeded")),
			Err(x) => ensure(x.to_string().contains(hooks::MSG), "masked-callback", || {
				format!("callback {k} of {calls} failed, {op:?} reported something else: {x}")
			})?,
		}
		count("act.callback-refused", 1);
		// retry
		let mut s = Src::with(&all, Sched::draw());
		match rd.ops.decode(&mut s) {
			Ok(g) => expect_val(&rd.sc, &want, &g, "retry after a failed callback")?,
			Err(x) => return viol("retry-error", format!("retry after a failed callback: {x}")),
		}
		ensure(s.pos() == n, "consumed", || format!("retry consumed {} of {n}", s.pos()))?;
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// P15

/// A value whose encoding has at least about `n` bytes, in one place.
fn inflate(sc: &Sc, n: usize, depth: u32) -> Option<Val> {
	if depth > 8 {
		return None;
	}
	let mut p = Pure(0x51 + depth as u64);
	let small = |s: &Sc, p: &mut Pure, i: usize| {
		let mut q = Pure(p.0 ^ (i as u64) << 20);
		let mut g = G::new(&mut q, 4);
		normalise(s, &generate(s, &mut g))
	};
	let go = |s: &Sc| inflate(s, n, depth + 1);
	Some(match sc {
		Sc::Str | Sc::Path => {
			let b = b'a' + pick(26) as u8;
			Val::S((0..n).map(|i| (b'a' + ((b as usize + i) % 26) as u8) as char).collect())
		}
		Sc::Bytes => Val::B((0..n).map(|i| (i * 7) as u8).collect()),
		Sc::Opt(x) => Val::some(go(x)?),
		Sc::Bound(x) => Val::T(1 + pick(2) as u32, vec![go(x)?]),
		Sc::Res(x, y) => {
			let k = pick(2) as u32;
			Val::T(k, vec![go(if k == 0 { x } else { y })?])
		}
		Sc::Tup(l) => {
			let c: Vec<usize> = (0..l.len()).filter(|i| inflatable(&l[*i], depth + 1)).collect();
			if c.is_empty() {
				return None;
			}
			let k = c[picku(c.len())];
			let mut o = vec![];
			for (i, s) in l.iter().enumerate() {
				o.push(if i == k { go(s)? } else { small(s, &mut p, i) });
			}
			Val::L(o)
		}
		Sc::Range(x) => Val::L(vec![small(x, &mut p, 1), go(x)?]),
		Sc::Arr(x, m) => {
			let mut l: Vec<Val> = (0..*m).map(|i| small(x, &mut p, i)).collect();
			*l.last_mut()? = go(x)?;
			Val::L(l)
		}
		Sc::Vec(x) | Sc::Seq(x) | Sc::Heap(x) => {
			if inflatable(x, depth + 1) && chance(1, 2) {
				Val::L(vec![small(x, &mut p, 0), go(x)?, small(x, &mut p, 1)])
			} else {
				let m = n / elem_size(x);
				Val::L((0..m).map(|i| small(x, &mut p, i)).collect())
			}
		}
		Sc::Set(x, _) => {
			if inflatable(x, depth + 1) {
				Val::L(vec![go(x)?])
			} else {
				let mut l = vec![];
				for i in 0..n / elem_size(x) {
					l.push(numbered(x, i)?)
				}
				Val::L(l)
			}
		}
		Sc::Map(k, x, _) => match pick(3) {
			0 if inflatable(x, depth + 1) => Val::M(vec![(small(k, &mut p, 0), go(x)?)]),
			1 if inflatable(k, depth + 1) => Val::M(vec![(go(k)?, small(x, &mut p, 0))]),
			_ => {
				let mut l = vec![];
				for i in 0..n / (elem_size(k) + elem_size(x)) {
					match numbered(k, i) {
						Some(k) => l.push((k, small(x, &mut p, i))),
						None if inflatable(x, depth + 1) => return Some(Val::M(vec![(small(k, &mut p, 0), go(x)?)])),
						None => return None,
					}
				}
				Val::M(l)
			}
		},
		Sc::Der(f, b) => {
			let d = def(*f, *b);
			let fill = |fs: &[Field], p: &mut Pure| -> Option<Vec<Val>> {
				let l: Vec<&Field> = fs.iter().filter(|f| f.alive(d.rev)).collect();
				let c: Vec<usize> = (0..l.len()).filter(|i| inflatable(&l[*i].sc, depth + 1)).collect();
				if c.is_empty() {
					return None;
				}
				let k = c[picku(c.len())];
				let mut o = vec![];
				for (i, f) in l.iter().enumerate() {
					o.push(if i == k { inflate(&f.sc, n, depth + 1)? } else { small(&f.sc, p, i) });
				}
				Some(o)
			};
			match &d.kind {
				Kind::Struct(fs) => Val::L(fill(fs, &mut p)?),
				Kind::Enum(vs) => {
					let c: Vec<&Variant> = vs
						.iter()
						.filter(|v| v.alive(d.rev) && v.fields.iter().any(|f| f.alive(d.rev) && inflatable(&f.sc, depth + 1)))
						.collect();
					if c.is_empty() {
						return None;
					}
					let v = c[picku(c.len())];
					Val::T(v.gi as u32, fill(&v.fields, &mut p)?)
				}
			}
		}
		_ => return None,
	})
}
fn inflatable(sc: &Sc, depth: u32) -> bool {
	if depth > 8 {
		return false;
	}
	let go = |s: &Sc| inflatable(s, depth + 1);
	match sc {
		Sc::Str | Sc::Path | Sc::Bytes | Sc::Vec(_) | Sc::Seq(_) | Sc::Heap(_) => true,
		Sc::Opt(x) | Sc::Bound(x) | Sc::Range(x) | Sc::Arr(x, _) => go(x),
		Sc::Res(x, y) => go(x) && go(y),
		Sc::Tup(l) => l.iter().any(go),
		Sc::Set(x, _) => go(x) || numbered(x, 0).is_some(),
		Sc::Map(k, x, _) => numbered(k, 0).is_some() || go(x),
		Sc::Der(f, b) => {
			let d = def(*f, *b);
			match &d.kind {
				Kind::Struct(fs) => fs.iter().any(|f| f.alive(d.rev) && go(&f.sc)),
				Kind::Enum(vs) => vs
					.iter()
					.any(|v| v.alive(d.rev) && v.fields.iter().any(|f| f.alive(d.rev) && go(&f.sc))),
			}
		}
		_ => false,
	}
}
fn elem_size(sc: &Sc) -> usize {
	match sc {
		Sc::U(b) | Sc::I(b) => *b as usize / 8,
		Sc::Bool => 1,
		Sc::Uuid | Sc::Decimal => 16,
		Sc::F64 => 8,
		_ => 4,
	}
}
/// The i-th of many distinct small values.
fn numbered(sc: &Sc, i: usize) -> Option<Val> {
	Some(match sc {
		Sc::U(b) if *b >= 32 => Val::U(i as u128),
		Sc::I(b) if *b >= 32 => Val::I(i as i128),
		Sc::Str => Val::S(format!("k{i}")),
		Sc::Bytes => Val::B(format!("k{i}").into_bytes()),
		Sc::Vec(x) if **x == Sc::U(8) => Val::L(format!("k{i}").bytes().map(|b| Val::U(b as u128)).collect()),
		Sc::Hook => Val::U(i as u128),
		Sc::Uuid => Val::B((i as u128).to_be_bytes().to_vec()),
		_ => return None,
	})
}

pub const SKIP_MEMORY: usize = 20 << 10;

pub fn p15() -> R<()> {
	let e = any_entry();
	set_label(e.name.clone());
	// foreign shapes and paths are validated by reading them
	if !inflatable(&e.sc, 0) || e.name.contains("geo::") || e.name.contains("PathBuf") {
		return Ok(());
	}
	let size = [32 << 10, 48 << 10, 100 << 10, 300 << 10][weighted(&[8, 8, 3, 1])];
	let Some(v) = inflate(&e.sc, size, 0) else { return Ok(()) };
	let i = e.ops.make(&v);
	let b = match i.to_vec() {
		Ok(b) => b,
		Err(x) => return viol("encode-error", format!("{x}")),
	};
	drop(i);
	drop(v);
	let n = b.len();
	tr!("{} in {n} bytes", e.name);
	world::ev(150, n as u64);
	if n < SKIP_MEMORY * 3 / 2 {
		return Ok(());
	}
	count("act.big-records", 1);
	let mut all = b.clone();
	all.extend_from_slice(&[0xa5; 64]);
	for _ in 0..3 {
		let op = [Op::Skip, Op::SkipReader, Op::SkipSlice, Op::SkipInSlice][picku(4)];
		// a source that ends early while the length claims more
		let torn = chance(1, 4);
		let end = if torn { 16 + picku(n - 16) } else { all.len() };
		set_label(format!("{} {op:?}{}", e.name, if torn { " torn" } else { "" }));
		let (res, pos, high, mem) = if stream_op(op) {
			let frag = match pick(6) {
				0 | 1 => Frag::Whole,
				2 => Frag::Chunk(1 + picku(8)),
				3 => Frag::Chunk(4096),
				4 => Frag::Chunk(4095 + picku(3)),
				_ => Frag::Chunk(1 + picku(5000)),
			};
			if frag != Frag::Whole {
				count("fault.short-read", 1);
			}
			let mut s = Src::with(&all, Sched { frag, intr: 0, yields: false });
			s.ctl.limit.set(end);
			let (g, mem) = alloc::peak_of(|| consume(e, op, &mut s).map(|_| ()));
			tr!("{op:?} {frag:?}: ok={} at {} peak {mem}", g.is_ok(), s.pos());
			(g, Some(s.pos()), s.ctl.high.get(), mem)
		} else {
			let (g, mem) = alloc::peak_of(|| consume_slice(e, op, &all[..end]).map(|x| x.1));
			tr!("{op:?}: ok={} peak {mem}", g.is_ok());
			match g {
				Ok(p) => (Ok(()), p, 0, mem),
				Err(x) => (Err(x), None, 0, mem),
			}
		};
		evr(151, &res, pos.unwrap_or(0));
		ensure(mem <= SKIP_MEMORY, "skip-memory", || {
			format!("{op:?} of a record of {n} bytes (source ends at {end}) used {mem} bytes of memory")
		})?;
		ensure(high <= n, "overrun", || format!("{op:?} looked at {high} of {n} bytes"))?;
		if torn {
			ensure(res.is_err(), "torn-accepted", || format!("{op:?} accepted {end} of {n} bytes"))?;
		} else {
			if let Err(x) = res {
				return viol("read-error", format!("{op:?}: {x}"));
			}
			ensure(pos == Some(n), "misaligned", || format!("{op:?} ended at {pos:?} of {n}"))?;
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// P16

/// One operation in flight and what it gives when alone.
#[derive(Clone)]
struct Job {
	e: &'static Entry,
	kind: u64,
	i: Arc<dyn Inst>,
	b: Arc<[u8]>,
	rd: &'static Entry,
	want: Arc<Val>,
	wb: usize,
	sched: Sched,
	/// fails or is abandoned after this many bytes, then starts over
	fault: Option<(bool, usize)>,
	walk_faults: u32,
	/// a callback failure, then starts over
	callback: Option<u64>,
}

fn job() -> R<Job> {
	let (e, rd, wb) = if chance(2, 3) {
		let f = any_fam();
		let wb = picku(BUILDS);
		let rb = wb + picku(BUILDS - wb);
		(fam_at(f, wb), fam_at(f, rb), wb)
	} else {
		let e = any_plain();
		(e, e, 0)
	};
	let v = if chance(1, 4) { gen_val(&e.sc) } else { gen_small(&e.sc) };
	let r = record(e, &v)?;
	let want = upgrade(&e.sc, &rd.sc, &r.v);
	let mut sched = Sched::draw();
	if sched.frag == Frag::Byte && r.b.len() > 200 {
		sched.frag = Frag::Short;
	}
	sched.yields = true;
	let n = r.b.len().max(1);
	Ok(Job {
		e,
		kind: pick(5),
		i: Arc::from(r.i),
		b: Arc::from(&r.b[..]),
		rd,
		want: Arc::new(want),
		wb,
		sched,
		fault: if chance(1, 3) { Some((chance(1, 2), picku(n))) } else { None },
		walk_faults: [0, 0, 1, 2][picku(4)],
		callback: if chance(1, 4) { Some(pick(4)) } else { None },
	})
}

/// Run `f`; an abandoned operation unwinds, anything else that unwinds is passed on.
pub fn abandonable<T>(f: impl FnOnce() -> T) -> Option<T> {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(x) => Some(x),
		Err(p) => {
			if p.downcast_ref::<&str>().is_some_and(|s| *s == "SIM-ABANDON") {
				None
			} else {
				std::panic::resume_unwind(p)
			}
		}
	}
}

impl Job {
	fn name(&self) -> String {
		let k = ["encode", "decode", "skip", "walk", "decode memory"][self.kind as usize];
		format!("{k} {}<-{}", self.rd.name, self.e.name)
	}
	fn go(&self) -> R<()> {
		let n = self.b.len();
		match self.kind {
			0 => {
				if let Some((abandon, at)) = self.fault {
					let mut s = Sink::new(self.sched);
					s.fault = if abandon { WFault::Abandon(at) } else { WFault::Error(at) };
					let g = abandonable(|| self.i.encode(&mut s));
					if !abandon {
						ensure(n == 0 || matches!(g, Some(Err(_))), "write-lost", || "sink failed, encoding did not".into())?;
					}
					ensure(self.b.starts_with(&s.data), "interference", || {
						format!("unfinished encoding left {} instead of a prefix of {}", hex(&s.data), hex(&self.b))
					})?;
				}
				let mut s = Sink::new(self.sched);
				if let Err(x) = self.i.encode(&mut s) {
					return viol("interference", format!("encoding failed: {x}"));
				}
				ensure(s.data[..] == self.b[..], "interference", || {
					format!("encoded {} instead of {}", hex(&s.data), hex(&self.b))
				})
			}
			1 => {
				if let Some((abandon, at)) = self.fault
					&& n > 0
				{
					let mut s = Src::shared(self.b.clone(), self.sched);
					if abandon { s.ctl.abandon_at.set(Some(at)) } else { s.ctl.fail_at.set(Some(at)) }
					let g = abandonable(|| self.rd.ops.decode(&mut s));
					ensure(!matches!(g, Some(Ok(_))) || abandon, "torn-accepted", || "source failed, decoding did not".into())?;
				}
				if let Some(k) = self.callback {
					hooks::arm(Some(k));
					let mut s = Src::shared(self.b.clone(), self.sched);
					let g = self.rd.ops.decode(&mut s);
					let fired = hooks::fired();
					hooks::arm(None);
					ensure(fired == g.is_err(), "interference", || {
						format!("callback failed: {fired}, decoding failed: {}", g.is_err())
					})?;
				}
				let mut s = Src::shared(self.b.clone(), self.sched);
				match self.rd.ops.decode(&mut s) {
					Ok(g) => ensure(same(&self.rd.sc, &self.want, &g), "interference", || {
						format!("decoded {} instead of {}", g.short(), self.want.short())
					})?,
					Err(x) => return viol("interference", format!("decoding failed: {x}")),
				}
				ensure(s.pos() == n, "interference", || format!("consumed {} of {n}", s.pos()))
			}
			2 => {
				let mut s = Src::shared(self.b.clone(), self.sched);
				if let Err(x) = self.rd.ops.skip(&mut s) {
					return viol("interference", format!("skip failed: {x}"));
				}
				ensure(s.pos() == n, "interference", || format!("skipped {} of {n}", s.pos()))
			}
			3 => {
				let mut s = Src::shared(self.b.clone(), self.sched);
				let cx = Cx::new(&s, self.walk_faults, false);
				let r = self.rd.ops.walk(&mut s, &Exp { v: Some(&self.want), wb: self.wb }, &cx);
				hooks::arm(None);
				match r {
					Ok(_) | Err(Stop::Faulted) => Ok(()),
					Err(e) => Err(e),
				}
			}
			_ => match self.rd.ops.from_slice(&self.b) {
				Ok(g) => ensure(same(&self.rd.sc, &self.want, &g), "interference", || {
					format!("decoded {} instead of {}", g.short(), self.want.short())
				}),
				Err(x) => viol("interference", format!("decoding failed: {x}")),
			},
		}
	}
}

/// An operation on an indexed container, without a struct around it.
#[derive(Clone)]
struct IdxJob {
	e: &'static IdxEntry,
	kind: u64,
	v: Arc<Val>,
	b: Arc<[u8]>,
	sched: Sched,
	fault: Option<(bool, usize)>,
}

fn idx_job() -> R<IdxJob> {
	let e = &reg().idx[picku(reg().idx.len())];
	let v = normalise(&e.sc, &gen_sized(&e.sc, [20, 80][picku(2)], chance(1, 2), false));
	let b = idx_record(e, &v, Sched::PLAIN)?;
	let mut sched = Sched::draw();
	if sched.frag == Frag::Byte && b.len() > 200 {
		sched.frag = Frag::Short;
	}
	sched.yields = true;
	Ok(IdxJob {
		e,
		kind: pick(IdxJob::KINDS),
		fault: if chance(1, 2) { Some((chance(1, 2), picku(b.len()))) } else { None },
		v: Arc::new(v),
		b: Arc::from(&b[..]),
		sched,
	})
}

impl IdxJob {
	const KINDS: u64 = 5;
	fn name(&self) -> String {
		let k = ["encode", "decode", "skip", "recode", "view"][self.kind as usize];
		format!("{k} indexed {}", self.e.name)
	}
	fn source(&self, fault: Option<(bool, usize)>) -> Src {
		let s = Src::shared(self.b.clone(), self.sched);
		if let Some((abandon, at)) = fault {
			if abandon { s.ctl.abandon_at.set(Some(at)) } else { s.ctl.fail_at.set(Some(at)) }
		}
		s
	}
	fn sink(&self, fault: Option<(bool, usize)>) -> Sink {
		let mut s = Sink::new(self.sched);
		if let Some((abandon, at)) = fault {
			s.fault = if abandon { WFault::Abandon(at) } else { WFault::Error(at) };
		}
		s
	}
	fn go(&self) -> R<()> {
		let n = self.b.len();
		let ops = &self.e.ops;
		// first the attempt that does not finish
		if let Some((abandon, _)) = self.fault {
			let mut o = self.sink(if self.kind == 0 || self.kind == 3 { self.fault } else { None });
			let mut s = self.source(if self.kind == 1 || self.kind == 2 { self.fault } else { None });
			let g = abandonable(|| match self.kind {
				0 => ops.encode(&self.v, &mut o),
				1 => ops.decode(&mut s).map(|_| ()),
				2 => ops.skip(&mut s),
				3 => ops.recode(&mut s, &mut o),
				_ => Err(revision::Error::Deserialize(String::new())),
			});
			ensure(abandon || matches!(g, Some(Err(_))), "fault-lost", || "the device failed, the operation did not".into())?;
			ensure(self.b.starts_with(&o.data), "interference", || {
				format!("unfinished encoding left {} instead of a prefix of {}", hex(&o.data), hex(&self.b))
			})?;
		}
		let mut o = self.sink(None);
		let mut s = self.source(None);
		let g = match self.kind {
			0 => ops.encode(&self.v, &mut o),
			1 => match ops.decode(&mut s) {
				Ok(g) => {
					ensure(same(&self.e.sc, &self.v, &g), "interference", || {
						format!("decoded {} instead of {}", g.short(), self.v.short())
					})?;
					Ok(())
				}
				Err(x) => Err(x),
			},
			2 => ops.skip(&mut s),
			3 => ops.recode(&mut s, &mut o),
			_ => return ops.view(&self.b, &Exp { v: Some(&self.v), wb: 0 }),
		};
		if let Err(x) = g {
			return viol("interference", format!("failed: {x}"));
		}
		if self.kind == 0 || self.kind == 3 {
			ensure(o.data[..] == self.b[..], "interference", || {
				format!("encoded {} instead of {}", hex(&o.data), hex(&self.b))
			})?;
		}
		ensure(self.kind == 0 || s.pos() == n, "interference", || format!("consumed {} of {n}", s.pos()))
	}
}

/// What a task does.
#[derive(Clone)]
enum Act {
	Value(Job),
	Index(IdxJob),
}

fn act() -> R<Act> {
	Ok(if chance(1, 4) { Act::Index(idx_job()?) } else { Act::Value(job()?) })
}

impl Act {
	fn rekind(&mut self) {
		match self {
			Act::Value(j) => j.kind = pick(5),
			Act::Index(j) => j.kind = pick(IdxJob::KINDS),
		}
	}
	fn name(&self) -> String {
		match self {
			Act::Value(j) => j.name(),
			Act::Index(j) => j.name(),
		}
	}
	fn go(&self) -> R<()> {
		match self {
			Act::Value(j) => j.go(),
			Act::Index(j) => j.go(),
		}
	}
	/// Many attempts that fail or are abandoned, one after another, on the
	/// thread that goes on to do the real thing.
	fn wear(&self, n: usize) {
		for i in 0..n {
			let one = |len: usize| Some((i % 7 == 6, (i * 7919) % len.max(1)));
			match self {
				Act::Value(j) => {
					let (abandon, at) = one(j.b.len()).expect("harness");
					let mut o = Sink::new(Sched::PLAIN);
					o.fault = if abandon { WFault::Abandon(at) } else { WFault::Error(at) };
					let mut s = Src::shared(j.b.clone(), Sched::PLAIN);
					if abandon { s.ctl.abandon_at.set(Some(at)) } else { s.ctl.fail_at.set(Some(at)) }
					let _ = abandonable(|| match i % 3 {
						0 => {
							let _ = j.i.encode(&mut o);
						}
						1 => {
							let _ = j.rd.ops.decode(&mut s);
						}
						_ => {
							let _ = j.rd.ops.from_slice(&j.b[..at.min(j.b.len())]);
						}
					});
				}
				Act::Index(j) => {
					let (abandon, at) = one(j.b.len()).expect("harness");
					let mut o = Sink::new(Sched::PLAIN);
					o.fault = if abandon { WFault::Abandon(at) } else { WFault::Error(at) };
					let mut s = Src::shared(j.b.clone(), Sched::PLAIN);
					if abandon { s.ctl.abandon_at.set(Some(at)) } else { s.ctl.fail_at.set(Some(at)) }
					let _ = abandonable(|| match i % 3 {
						0 => {
							let _ = j.e.ops.encode(&j.v, &mut o);
						}
						1 => {
							let _ = j.e.ops.decode(&mut s);
						}
						_ => {
							let _ = j.e.ops.skip(&mut s);
						}
					});
				}
			}
		}
		count("sched.worn", n as u64);
	}
	fn size(&self) -> usize {
		match self {
			Act::Value(j) => j.b.len(),
			Act::Index(j) => j.b.len(),
		}
	}
	fn run(&self) -> R<()> {
		let r = self.go();
		hooks::arm(None);
		match r {
			Err(Stop::Viol(c, m)) => Err(Stop::Viol(c, format!("{}: {m}", self.name()))),
			r => r,
		}
	}
}

pub fn p16() -> R<()> {
	let tasks = 2 + picku(3);
	let mut plan: Vec<Vec<Act>> = vec![];
	for _ in 0..tasks {
		let mut l = vec![];
		for _ in 0..1 + pick(2) {
			// some instances are shared between tasks
			let other = plan.iter().flatten().chain(&l).count();
			if other > 0 && chance(1, 3) {
				let mut j: Act = plan.iter().flatten().chain(&l).nth(picku(other)).expect("harness: job").clone();
				j.rekind();
				l.push(j);
				count("sched.shared", 1);
			} else {
				l.push(act()?);
			}
		}
		plan.push(l);
	}
	let name = plan.iter().map(|l| l.iter().map(|j| j.name()).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" | ");
	set_label(name.clone());
	let mut fs: Vec<Box<dyn FnOnce() -> R<()> + Send>> = vec![];
	for l in plan {
		let nested = if chance(1, 3) { Some(act()?) } else { None };
		let worn = if chance(1, 16) { [40, 70, 140, 280][picku(4)] } else { 0 };
		fs.push(Box::new(move || {
			let bad: Arc<Mutex<Option<Stop>>> = Arc::new(Mutex::new(None));
			if let Some(mut j) = nested {
				// inside a device call of this thread, operations of their own
				if let Act::Value(j) = &mut j {
					j.callback = None;
					j.walk_faults = 0;
					if j.kind == 3 {
						j.kind = 4;
					}
				}
				let bad = bad.clone();
				sched::set_nested(Some(Box::new(move || {
					let saved = hooks::save();
					let r = j.go();
					hooks::restore(saved);
					if let Err(e @ Stop::Viol(..)) = r {
						*bad.lock().unwrap() = Some(e);
					}
				})));
			}
			let mut r = Ok(());
			for j in &l {
				if worn > 0 && j.size() < 2000 {
					j.wear(worn);
				}
				r = j.run();
				if r.is_err() {
					break;
				}
			}
			sched::set_nested(None);
			match bad.lock().unwrap().take() {
				Some(e) => Err(e),
				None => r,
			}
		}));
	}
	set_label(name);
	for r in sched::run_tasks(fs) {
		match r {
			Ok(r) => r?,
			Err(p) => std::panic::resume_unwind(p),
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// P18

/// Reader and writer builds between which a field is reached by random access.
fn random_access() -> &'static Vec<(usize, usize, usize)> {
	static L: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
	L.get_or_init(|| {
		let mut o = vec![];
		for f in 0..reg().fams.len() {
			for wb in 0..BUILDS {
				for rb in wb..BUILDS {
					let (w, r) = (def(f, wb), def(f, rb));
					if matches!(w.kind, Kind::Struct(_))
						&& w.layout(w.rev) == Lay::OptIdx
						&& mode_of(r, w.rev) == Mode::Indexed
						&& w.fields().iter().any(|f| f.alive(w.rev))
					{
						o.push((f, wb, rb))
					}
				}
			}
		}
		o
	})
}

pub fn p18() -> R<()> {
	match weighted(&[3, 3, 2]) {
		0 => {
			// one intact field among damaged ones
			let l = random_access();
			let (f, wb, rb) = l[picku(l.len())];
			let (we, rd) = (fam_at(f, wb), fam_at(f, rb));
			set_label(format!("{}<-{}", rd.name, we.name));
			let r = record(we, &gen_val(&we.sc))?;
			let (wd, rdf) = (def(f, wb), def(f, rb));
			let parts = struct_parts(wd, &r.v);
			let stored: Vec<usize> = wd.fields().iter().filter(|f| f.alive(wd.rev)).map(|f| f.gi).collect();
			let current: Vec<usize> = rdf.fields().iter().filter(|f| f.alive(rdf.rev)).map(|f| f.gi).collect();
			let j = picku(stored.len());
			let Some(i) = current.iter().position(|g| *g == stored[j]) else { return Ok(()) };
			let mut b = r.b.clone();
			let mut at = enc_rev(wd.rev).len() + 4 + 4 * parts.len();
			for (k, p) in parts.iter().enumerate() {
				ensure(b.get(at..at + p.len()) == Some(&p[..]), "format", || {
					format!("field {k} is not at {at} in {}", hex(&r.b))
				})?;
				if k != j {
					for x in &mut b[at..at + p.len()] {
						*x = pick(256) as u8
					}
				}
				at += p.len();
			}
			count("fault.overwritten", parts.len() as u64 - 1);
			tr!("all fields but {j} overwritten: {}", hex(&b));
			let want = upgrade(&we.sc, &rd.sc, &r.v);
			let mut src = Src::with(&b, Sched::draw());
			let cx = Cx::new(&src, [0, 0, 1][picku(3)], false);
			cx.only.set(Some(i));
			match rd.ops.walk(&mut src, &Exp { v: Some(&want), wb }, &cx) {
				Ok(_) | Err(Stop::Faulted) => {}
				Err(e) => return Err(e),
			}
			count("act.isolated-fields", 1);
			Ok(())
		}
		1 => {
			let reg = reg();
			let e = &reg.idx[picku(reg.idx.len())];
			set_label(e.name.clone());
			let v = normalise(&e.sc, &gen_sized(&e.sc, [40, 120, 400, 1500][weighted(&[2, 3, 2, 1])], true, false));
			let b = idx_record(e, &v, Sched::PLAIN)?;
			tr!("indexed {} = {} : {}", e.name, v.short(), hex(&b));
			e.ops.isolate(&b)
		}
		_ => {
			// skipping a framed record jumps over it
			let l = framed_fams();
			let (f, wb) = l[picku(l.len())];
			let rb = wb + picku(BUILDS - wb);
			let (we, rd) = (fam_at(f, wb), fam_at(f, rb));
			set_label(format!("{}<-{}", rd.name, we.name));
			let v = match pick(3) {
				0 if inflatable(&we.sc, 0) => inflate(&we.sc, 2000 + picku(20000), 0),
				_ => None,
			};
			let v = v.unwrap_or_else(|| gen_sized(&we.sc, 300, true, false));
			let r = record(we, &v)?;
			let d = def(f, wb);
			let h = enc_rev(d.rev).len();
			if d.layout(d.rev) == Lay::Legacy {
				return Ok(());
			}
			// the outermost frame
			let Some((lo, hi)) = frames(&we.sc, &r.v, &r.b).into_iter().find(|x| x.0 <= h + 5) else { return Ok(()) };
			let mut all = r.b.clone();
			for x in &mut all[lo..hi] {
				*x = pick(256) as u8
			}
			count("fault.overwritten", 1);
			all.extend_from_slice(&[0xa5; 9]);
			let n = r.b.len();
			let mut s = Src::new(&all);
			let op = [Op::Skip, Op::SkipReader][picku(2)];
			let g = consume(rd, op, &mut s);
			let calls = s.ctl.calls.get();
			tr!("{op:?} of {n} bytes: {calls} calls");
			evr(180, &g, s.pos());
			ensure(g.is_ok() && s.pos() == n, "isolation", || {
				format!("{op:?} over a damaged body of {n} bytes ended at {} ({:?})", s.pos(), g.as_ref().err())
			})?;
			count("act.jumps", 1);
			ensure(calls <= 16 + (n / 256) as u64, "calls", || {
				format!("{op:?} of a framed record of {n} bytes took {calls} source calls")
			})
		}
	}
}
