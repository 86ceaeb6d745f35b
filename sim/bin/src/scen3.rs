//! P19 (everything is given back), P20 (failures keep their identity) and P21
//! (readers agree about any bytes).

use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::ErrorKind;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

use core_sim::refenc;
use core_sim::io::{self, Frag, Sched, Sink, Src, WFault};
use core_sim::tr;
use core_sim::val::*;
use core_sim::walkers::{Cx, Exp, Pos};
use core_sim::world::{self, R, Stop, chance, count, ensure, ev, pick, picku, set_label, viol};
use core_sim::{hooks, world::quietly};
use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
use revision::prelude::*;
use revision::{Error, SkipRevisioned, WalkRevisioned, revisioned};

use crate::alloc;
use crate::scen::*;
use crate::scen2::abandonable;

// ---------------------------------------------------------------------------
// P19, memory: the same attempt over and over

/// How an attempt goes wrong.
#[derive(Clone, Copy, Debug)]
enum Wrong {
	No,
	Error(usize),
	Torn(usize),
	Abandon(usize),
	Callback(u64),
}

fn source(b: &Arc<[u8]>, frag: Frag, w: Wrong) -> Src {
	let s = Src::shared(b.clone(), Sched { frag, intr: 0, yields: false });
	match w {
		Wrong::Error(at) => s.ctl.fail_at.set(Some(at)),
		Wrong::Torn(at) => s.ctl.limit.set(at),
		Wrong::Abandon(at) => s.ctl.abandon_at.set(Some(at)),
		_ => {}
	}
	s
}
fn sink(frag: Frag, w: Wrong) -> Sink {
	let mut s = Sink::new(Sched { frag, intr: 0, yields: false });
	match w {
		Wrong::Error(at) => s.fault = WFault::Error(at),
		Wrong::Torn(at) => s.fault = WFault::Full(at),
		Wrong::Abandon(at) => s.fault = WFault::Abandon(at),
		_ => {}
	}
	s
}
fn wrong(n: usize, callbacks: u64) -> Wrong {
	let n = n.max(1);
	match pick(if callbacks > 0 { 10 } else { 8 }) {
		0 => Wrong::No,
		1 | 2 => Wrong::Error(picku(n)),
		3..=5 => Wrong::Torn(picku(n)),
		6 | 7 => Wrong::Abandon(picku(n)),
		_ => Wrong::Callback(pick(callbacks)),
	}
}
fn plain_frag() -> Frag {
	[Frag::Whole, Frag::Byte, Frag::Chunk(3), Frag::Slice, Frag::Reader][picku(5)]
}

const WARM: usize = 2;
const REPEAT: usize = 5;

/// Whatever the attempt keeps for good it keeps every time.
fn conserve(what: &str, mut f: impl FnMut() -> R<()>) -> R<()> {
	let mut kept = 0;
	let mut grew = 0;
	for i in 0..WARM + REPEAT {
		let before = alloc::CUR.load(SeqCst);
		let r = quietly(|| abandonable(&mut f));
		match r {
			Some(Err(e @ Stop::Viol(..))) => return Err(e),
			Some(r) => drop(r),
			None => {}
		}
		let after = alloc::CUR.load(SeqCst);
		if i >= WARM && after > before {
			grew += 1;
			kept += after - before;
		}
	}
	count("act.repeated-attempts", (WARM + REPEAT) as u64);
	ensure(grew < REPEAT, "leak", || format!("{what}: each of {REPEAT} attempts kept memory, {kept} bytes together"))
}

fn leak_values() -> R<()> {
	let (we, rd, wb) = if chance(2, 3) {
		let f = any_fam();
		let wb = picku(BUILDS);
		let rb = wb + picku(BUILDS - wb);
		(fam_at(f, wb), fam_at(f, rb), wb)
	} else {
		let e = any_plain();
		(e, e, 0)
	};
	set_label(format!("{}<-{}", rd.name, we.name));
	let r = record(we, &gen_val(&we.sc))?;
	let want = upgrade(&we.sc, &rd.sc, &r.v);
	let n = r.b.len();
	let b: Arc<[u8]> = Arc::from(&r.b[..]);
	hooks::arm(None);
	if let Err(x) = rd.ops.from_slice(&b) {
		return viol("upgrade-error", format!("{x}"));
	}
	let callbacks = hooks::calls();
	for _ in 0..3 {
		let w = wrong(n, callbacks);
		let frag = plain_frag();
		let k = picku(OPS.len() + 2);
		let what = if k < OPS.len() { format!("{:?}", OPS[k]) } else { "encode".to_string() };
		tr!("{what} with {w:?}, {frag:?}, {} times", WARM + REPEAT);
		ev(190, k as u64);
		conserve(&what, || {
			hooks::arm(if let Wrong::Callback(c) = w { Some(c) } else { None });
			if k >= OPS.len() {
				let mut s = sink(frag, w);
				let _ = if k == OPS.len() { r.i.encode(&mut s) } else { r.i.to_writer(&mut s) };
			} else if OPS[k] == Op::Walk {
				let mut s = source(&b, frag, w);
				if chance(1, 3) {
					let _ = rd.ops.walk_open(&mut s);
				} else {
					let mut cx = Cx::new(&s, 0, false);
					cx.torn = true;
					cx.callbacks = matches!(w, Wrong::Callback(_));
					let r = rd.ops.walk(&mut s, &Exp { v: Some(&want), wb }, &cx);
					if let (Err(e @ Stop::Viol(..)), Wrong::No) = (r, w) {
						return Err(e);
					}
				}
			} else if stream_op(OPS[k]) {
				let _ = consume(rd, OPS[k], &mut source(&b, frag, w));
			} else {
				let cut = match w {
					Wrong::Error(n) | Wrong::Torn(n) | Wrong::Abandon(n) => n,
					_ => n,
				};
				let _ = consume_slice(rd, OPS[k], &b[..cut.min(n)]);
			}
			hooks::arm(None);
			Ok(())
		})?;
		hooks::arm(None);
	}
	Ok(())
}

fn leak_indexed() -> R<()> {
	let e = &reg().idx[picku(reg().idx.len())];
	set_label(e.name.clone());
	let v = normalise(&e.sc, &gen_sized(&e.sc, [20, 60][picku(2)], chance(1, 2), false));
	let b: Arc<[u8]> = Arc::from(&idx_record(e, &v, Sched::PLAIN)?[..]);
	let n = b.len();
	for _ in 0..3 {
		let w = wrong(n, 0);
		let frag = plain_frag();
		let k = pick(6);
		tr!("indexed operation {k} with {w:?}, {frag:?}");
		conserve("indexed operation", || {
			let mut s = source(&b, frag, w);
			match k {
				0 => drop(e.ops.decode(&mut s)),
				1 => drop(e.ops.skip(&mut s)),
				2 => drop(e.ops.encode(&v, &mut sink(frag, w))),
				3 => drop(e.ops.recode(&mut source(&b, frag, Wrong::No), &mut sink(frag, w))),
				4 => drop(e.ops.open(&b[..n - picku(n.min(2))])),
				_ => e.ops.view(&b, &Exp { v: Some(&v), wb: 0 })?,
			}
			Ok(())
		})?;
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// P19, elements: each is dropped exactly once

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static BAD: Cell<u64> = const { Cell::new(0) };
	/// fail (or unwind) at the n-th element decoded, encoded or converted
	static TRIP: Cell<Option<(u64, bool)>> = const { Cell::new(None) };
}
const SOUND: u64 = 0x50_55_4e_44_c0de_cafe;
const GONE: u64 = 0xdead_dead_dead_dead;

fn trip() -> Result<(), Error> {
	match TRIP.get() {
		Some((0, unwind)) => {
			TRIP.set(None);
			if unwind {
				world::count("fault.element-unwinds", 1);
				std::panic::panic_any("SIM-ABANDON");
			}
			world::count("fault.element-error", 1);
			Err(Error::Conversion("sim: element failed".into()))
		}
		Some((n, u)) => {
			TRIP.set(Some((n - 1, u)));
			Ok(())
		}
		None => Ok(()),
	}
}

/// An element that knows whether it is alive.
struct Tracked {
	mark: u64,
	v: u32,
}
impl Tracked {
	fn new(v: u32) -> Tracked {
		LIVE.set(LIVE.get() + 1);
		Tracked { mark: SOUND, v }
	}
}
impl Drop for Tracked {
	fn drop(&mut self) {
		if self.mark != SOUND {
			BAD.set(BAD.get() + 1);
		}
		self.mark = GONE;
		LIVE.set(LIVE.get() - 1);
	}
}
impl Clone for Tracked {
	fn clone(&self) -> Tracked {
		Tracked::new(self.v)
	}
}
impl PartialEq for Tracked {
	fn eq(&self, o: &Tracked) -> bool {
		self.v == o.v
	}
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
	fn partial_cmp(&self, o: &Tracked) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Tracked {
	fn cmp(&self, o: &Tracked) -> std::cmp::Ordering {
		self.v.cmp(&o.v)
	}
}
impl Hash for Tracked {
	fn hash<H: Hasher>(&self, h: &mut H) {
		self.v.hash(h)
	}
}
impl Revisioned for Tracked {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Tracked {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		trip()?;
		self.v.serialize_revisioned(w)
	}
}
impl DeserializeRevisioned for Tracked {
	fn deserialize_revisioned<D: std::io::Read>(r: &mut D) -> Result<Tracked, Error> {
		let v = u32::deserialize_revisioned(r)?;
		trip()?;
		Ok(Tracked::new(v))
	}
}
impl SkipRevisioned for Tracked {
	fn skip_revisioned<D: std::io::Read>(r: &mut D) -> Result<(), Error> {
		u32::skip_revisioned(r)
	}
}
impl WalkRevisioned for Tracked {
	type Walker<'r, D: revision::BorrowedReader + 'r> = revision::LeafWalker<'r, Tracked, D>;
	fn walk_revisioned<'r, D: revision::BorrowedReader>(r: &'r mut D) -> Result<Self::Walker<'r, D>, Error> {
		Ok(revision::LeafWalker::new(r))
	}
}

mod old {
	use super::*;
	#[revisioned(revision(1))]
	pub struct Legacy {
		pub a: Tracked,
		pub b: Vec<Tracked>,
		pub c: BTreeMap<u16, Tracked>,
		pub z: Tracked,
	}
	#[revisioned(revision(1, optimised))]
	pub struct Framed {
		pub a: Tracked,
		pub b: Vec<Tracked>,
		pub c: BTreeMap<u16, Tracked>,
		pub z: Tracked,
	}
	#[revisioned(revision(1))]
	pub enum Either {
		A(Tracked, Vec<Tracked>),
		B { x: Tracked, y: Box<Tracked> },
	}
	#[revisioned(revision(1, optimised))]
	pub enum Tagged {
		#[revision(size = "varlen")]
		A(Tracked, Vec<Tracked>),
		#[revision(size = "varlen")]
		B { x: Tracked, y: Box<Tracked> },
	}
}
mod new {
	use super::*;
	macro_rules! upgraded {
		($n:ident, $($r:tt)*) => {
			#[revisioned($($r)*)]
			pub struct $n {
				pub a: Tracked,
				#[revision(end = 2, convert_fn = "conv")]
				pub b: Vec<Tracked>,
				pub c: BTreeMap<u16, Tracked>,
				#[revision(end = 2, convert_fn = "last")]
				pub z: Tracked,
				#[revision(start = 2, default_fn = "def")]
				pub d: Vec<Tracked>,
				#[revision(start = 2)]
				pub e: Option<Tracked>,
			}
			impl $n {
				fn conv(&mut self, _: u16, b: Vec<Tracked>) -> Result<(), Error> {
					trip()?;
					self.d.extend(b);
					Ok(())
				}
				fn last(&mut self, _: u16, z: Tracked) -> Result<(), Error> {
					trip()?;
					self.e = Some(z);
					Ok(())
				}
				fn def(_: u16) -> Result<Vec<Tracked>, Error> {
					trip()?;
					Ok(vec![])
				}
			}
		};
	}
	upgraded!(Legacy, revision(1), revision(2));
	upgraded!(Framed, revision(1, optimised), revision(2, optimised));
	#[revisioned(revision(1), revision(2))]
	pub enum Either {
		#[revision(end = 2, convert_fn = "conv")]
		A(Tracked, Vec<Tracked>),
		B {
			x: Tracked,
			#[revision(end = 2, convert_fn = "conv_y")]
			y: Box<Tracked>,
			#[revision(start = 2, default_fn = "def_w")]
			w: Vec<Tracked>,
		},
	}
	impl Either {
		fn conv(f: EitherAFields, _: u16) -> Result<Either, Error> {
			trip()?;
			Ok(Either::B { x: f.0, w: f.1 })
		}
		fn conv_y(f: &mut EitherBFields, _: u16, y: Box<Tracked>) -> Result<(), Error> {
			trip()?;
			f.w.push(*y);
			Ok(())
		}
		fn def_w(_: u16) -> Result<Vec<Tracked>, Error> {
			trip()?;
			Ok(vec![])
		}
	}
	#[revisioned(revision(1, optimised), revision(2, optimised))]
	pub enum Tagged {
		#[revision(end = 2, convert_fn = "conv", size = "varlen")]
		A(Tracked, Vec<Tracked>),
		#[revision(size = "varlen")]
		B { x: Tracked, y: Box<Tracked> },
		#[revision(start = 2, size = "varlen")]
		C { x: Tracked, w: Vec<Tracked> },
	}
	impl Tagged {
		fn conv(f: TaggedAFields, _: u16) -> Result<Tagged, Error> {
			trip()?;
			Ok(Tagged::C { x: f.0, w: f.1 })
		}
	}
}

#[revisioned(revision(1))]
struct SPlain {
	a: Tracked,
	b: Vec<Tracked>,
	c: HashMap<u16, Tracked>,
	d: Option<Tracked>,
}
#[revisioned(revision(1, optimised, indexed_struct))]
struct SIndexed {
	a: Tracked,
	#[revision(indexed_seq)]
	b: Vec<Tracked>,
	#[revision(indexed_map)]
	c: BTreeMap<Tracked, Tracked>,
	#[revision(indexed_set)]
	d: BTreeSet<Tracked>,
	e: Box<Tracked>,
}

/// The indexed encodings as ordinary ones.
struct AsMap<T>(T);
struct AsSeq<T>(T);
struct AsSet<T>(T);
macro_rules! indexed_as {
	($w:ident, $tr:ident, $s:ident, $d:ident, $k:ident) => {
		impl<T: $tr> Revisioned for $w<T> {
			fn revision() -> u16 {
				1
			}
		}
		impl<T: $tr> SerializeRevisioned for $w<T> {
			fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
				self.0.$s(w)
			}
		}
		impl<T: $tr> DeserializeRevisioned for $w<T> {
			fn deserialize_revisioned<D: std::io::Read>(r: &mut D) -> Result<$w<T>, Error> {
				Ok($w(T::$d(r)?))
			}
		}
	};
}
indexed_as!(AsMap, IndexedMapEncoded, serialize_indexed_map, deserialize_indexed_map, skip_indexed_map);
indexed_as!(AsSeq, IndexedSeqEncoded, serialize_indexed_seq, deserialize_indexed_seq, skip_indexed_seq);
indexed_as!(AsSet, IndexedSetEncoded, serialize_indexed_set, deserialize_indexed_set, skip_indexed_set);

struct Mk(u32);
impl Mk {
	fn t(&mut self) -> Tracked {
		self.0 = self.0.wrapping_mul(1_103_515_245).wrapping_add(12345);
		Tracked::new(self.0 >> (self.0 % 29))
	}
	fn n(&mut self) -> usize {
		self.0 = self.0.wrapping_mul(1_103_515_245).wrapping_add(12345);
		[0, 1, 3, 9, 40][(self.0 >> 16) as usize % 5]
	}
	fn many<C: FromIterator<Tracked>>(&mut self) -> C {
		let n = self.n();
		(0..n).map(|_| self.t()).collect()
	}
	fn pairs<C: FromIterator<(u16, Tracked)>>(&mut self) -> C {
		let n = self.n();
		(0..n).map(|i| (i as u16, self.t())).collect()
	}
	fn both<C: FromIterator<(Tracked, Tracked)>>(&mut self) -> C {
		let n = self.n();
		(0..n).map(|_| (self.t(), self.t())).collect()
	}
}

/// `keeps`: a read gives exactly as many elements as were written.
fn track<W: SerializeRevisioned, D: DeserializeRevisioned>(name: &str, keeps: bool, mk: impl Fn(&mut Mk) -> W) -> R<()> {
	set_label(name.to_string());
	LIVE.set(0);
	BAD.set(0);
	TRIP.set(None);
	let seed = pick(1 << 31) as u32;
	let value = mk(&mut Mk(seed));
	let held = LIVE.get();
	let mut s = Sink::new(Sched::draw());
	if let Err(e) = value.serialize_revisioned(&mut s) {
		return viol("write-error", format!("{e}"));
	}
	let b: Arc<[u8]> = Arc::from(&s.data[..]);
	let n = b.len();
	ensure(LIVE.get() == held && BAD.get() == 0, "element-balance", || {
		format!("encoding {held} elements left {} alive, {} dropped wrongly", LIVE.get(), BAD.get())
	})?;
	for _ in 0..2 + pick(6) {
		let base = LIVE.get();
		let w = wrong(n, 0);
		let at = if held > 0 { pick(held as u64 + 4) } else { pick(4) };
		let t = if chance(1, 2) { Some((at, chance(1, 2))) } else { None };
		let op = pick(3);
		let sched = Sched::draw();
		tr!("operation {op} with {w:?}, element failure {t:?}");
		count("act.tracked", 1);
		TRIP.set(t);
		let mut got = None;
		let end = abandonable(|| match op {
			0 => {
				let mut s = sink(sched.frag, w);
				s.sched = sched;
				value.serialize_revisioned(&mut s).is_ok()
			}
			1 => {
				let s = source(&b, sched.frag, w);
				s.ctl.sched.set(sched);
				let mut s = s;
				match D::deserialize_revisioned(&mut s) {
					Ok(v) => {
						got = Some(v);
						true
					}
					Err(_) => false,
				}
			}
			_ => {
				let cut = match w {
					Wrong::Error(n) | Wrong::Torn(n) | Wrong::Abandon(n) => n.min(b.len()),
					_ => n,
				};
				match revision::from_slice::<D>(&b[..cut]) {
					Ok(v) => {
						got = Some(v);
						true
					}
					Err(_) => false,
				}
			}
		});
		TRIP.set(None);
		ev(191, end.map(|x| x as u64).unwrap_or(2));
		if got.is_some() && keeps {
			ensure(LIVE.get() - base == held, "element-balance", || {
				format!("a value of {held} elements was read, {} are alive", LIVE.get() - base)
			})?;
		}
		drop(got);
		ensure(LIVE.get() == base && BAD.get() == 0, "element-balance", || {
			format!(
				"{} ended {}: {} elements alive instead of {base}, {} dropped that were not alive",
				["encoding", "decoding a stream", "decoding memory"][op as usize],
				match end {
					Some(true) => "well",
					Some(false) => "with an error",
					None => "by unwinding",
				},
				LIVE.get(),
				BAD.get()
			)
		})?;
	}
	drop(value);
	ensure(LIVE.get() == 0 && BAD.get() == 0, "element-balance", || format!("{} elements left at the end", LIVE.get()))
}

fn elements() -> R<()> {
	macro_rules! same {
		($($k:literal => $t:ty, $keeps:literal, $f:expr;)*) => {{
			const N: usize = [$($k),*].len();
			match picku(N) {
				$($k => track::<$t, $t>(stringify!($t), $keeps, $f),)*
				_ => unreachable!(),
			}
		}};
	}
	match pick(8) {
		0 => track::<old::Legacy, new::Legacy>("upgraded struct", true, |m| old::Legacy { a: m.t(), b: m.many(), c: m.pairs(), z: m.t() }),
		1 => track::<old::Framed, new::Framed>("upgraded framed struct", true, |m| old::Framed {
			a: m.t(),
			b: m.many(),
			c: m.pairs(),
			z: m.t(),
		}),
		2 => track::<old::Either, new::Either>("upgraded enum", true, |m| {
			if m.n() > 1 { old::Either::A(m.t(), m.many()) } else { old::Either::B { x: m.t(), y: Box::new(m.t()) } }
		}),
		3 => track::<old::Tagged, new::Tagged>("upgraded tagged enum", true, |m| {
			if m.n() > 1 { old::Tagged::A(m.t(), m.many()) } else { old::Tagged::B { x: m.t(), y: Box::new(m.t()) } }
		}),
		_ => same! {
			0 => Vec<Tracked>, true, |m| m.many();
			1 => Option<Tracked>, true, |m| if m.n() > 1 { Some(m.t()) } else { None };
			2 => Box<Tracked>, true, |m| Box::new(m.t());
			3 => Arc<Tracked>, true, |m| Arc::new(m.t());
			4 => Result<Tracked, Vec<Tracked>>, true, |m| if m.n() > 1 { Ok(m.t()) } else { Err(m.many()) };
			5 => BTreeMap<u16, Tracked>, true, |m| m.pairs();
			6 => BTreeMap<Tracked, Tracked>, true, |m| m.both();
			7 => HashMap<Tracked, Tracked>, true, |m| m.both();
			8 => HashMap<u16, Vec<Tracked>>, true, |m| (0..m.n()).map(|i| (i as u16, m.many())).collect();
			9 => BTreeSet<Tracked>, true, |m| m.many();
			10 => HashSet<Tracked>, true, |m| m.many();
			11 => BinaryHeap<Tracked>, true, |m| m.many();
			12 => (Tracked, u8, Vec<Tracked>, Box<Tracked>, Tracked), true, |m| (m.t(), 7, m.many(), Box::new(m.t()), m.t());
			13 => std::ops::Range<Tracked>, true, |m| m.t()..m.t();
			14 => std::ops::Bound<Tracked>, true, |m| std::ops::Bound::Included(m.t());
			15 => Reverse<Tracked>, true, |m| Reverse(m.t());
			16 => Vec<Vec<Option<Box<Tracked>>>>, true, |m| (0..m.n().min(5)).map(|_| (0..m.n()).map(|_| Some(Box::new(m.t()))).collect()).collect();
			17 => SPlain, true, |m| SPlain { a: m.t(), b: m.many(), c: m.pairs(), d: Some(m.t()) };
			18 => SIndexed, true, |m| SIndexed { a: m.t(), b: m.many(), c: m.both(), d: m.many(), e: Box::new(m.t()) };
			19 => AsMap<BTreeMap<Tracked, Tracked>>, true, |m| AsMap(m.both());
			20 => AsMap<HashMap<Tracked, Tracked>>, true, |m| AsMap(m.both());
			21 => AsSeq<Vec<Tracked>>, true, |m| AsSeq(m.many());
			22 => AsSet<BTreeSet<Tracked>>, true, |m| AsSet(m.many());
			23 => AsSet<HashSet<Tracked>>, true, |m| AsSet(m.many());
			24 => imbl::Vector<Tracked>, false, |m| m.many();
			25 => imbl::OrdMap<Tracked, Tracked>, false, |m| m.both();
			26 => imbl::HashMap<Tracked, Tracked>, false, |m| m.both();
			27 => imbl::OrdSet<Tracked>, false, |m| m.many();
			28 => imbl::HashSet<Tracked>, false, |m| m.many();
			29 => AsMap<imbl::OrdMap<Tracked, Tracked>>, false, |m| AsMap(m.both());
			30 => AsSeq<imbl::Vector<Tracked>>, false, |m| AsSeq(m.many());
			31 => std::borrow::Cow<'static, Vec<Tracked>>, true, |m| std::borrow::Cow::Owned(m.many());
		},
	}
}

pub fn p19() -> R<()> {
	match pick(5) {
		0 | 1 => elements(),
		2 => leak_indexed(),
		_ => leak_values(),
	}
}

// ---------------------------------------------------------------------------
// P20

fn told(e: &Error, plain: ErrorKind, what: &str) -> R<()> {
	count("act.identified", 1);
	ensure(io::is_last(e, plain), "masked-failure", || {
		format!("{what}: the device said {}, the caller was told {e:?}", io::last_text(plain))
	})
}

pub fn p20() -> R<()> {
	if chance(1, 6) {
		return p20_indexed();
	}
	let (we, rd, wb) = if chance(1, 2) {
		let f = any_fam();
		let wb = picku(BUILDS);
		let rb = wb + picku(BUILDS - wb);
		(fam_at(f, wb), fam_at(f, rb), wb)
	} else {
		let e = any_plain();
		(e, e, 0)
	};
	set_label(format!("{}<-{}", rd.name, we.name));
	let r = record(we, &gen_val(&we.sc))?;
	let want = upgrade(&we.sc, &rd.sc, &r.v);
	let n = r.b.len();
	if n == 0 {
		return Ok(());
	}
	hooks::arm(None);
	if let Err(x) = rd.ops.from_slice(&r.b) {
		return viol("upgrade-error", format!("{x}"));
	}
	let callbacks = hooks::calls();
	for _ in 0..1 + pick(4) {
		io::forget();
		if callbacks > 0 && chance(1, 3) {
			let k = pick(callbacks);
			let op = [Op::Decode, Op::FromReader, Op::DecodeSlice, Op::FromSlice, Op::Walk][picku(5)];
			let flavour = pick(hooks::FLAVOURS);
			tr!("{op:?}, callback {k} of {callbacks} fails in way {flavour}");
			hooks::set_flavour(flavour);
			hooks::arm(Some(k));
			let mut src = Src::with(&r.b, Sched::draw());
			let g = if op == Op::Walk {
				let mut cx = Cx::new(&src, 0, false);
				cx.torn = true;
				cx.callbacks = true;
				cx.honest = true;
				rd.ops.walk(&mut src, &Exp { v: Some(&want), wb }, &cx).map(|_| None)
			} else if stream_op(op) {
				Ok(consume(rd, op, &mut src).err())
			} else {
				Ok(consume_slice(rd, op, &r.b).err())
			};
			let own = g.as_ref().is_ok_and(|e| e.as_ref().is_some_and(hooks::is_own));
			hooks::arm(None);
			hooks::set_flavour(0);
			match g {
				Ok(_) if op == Op::Walk => {}
				Err(Stop::Faulted) => {}
				Err(e) => return Err(e),
				Ok(None) => return viol("swallowed-callback", format!("a callback failed, {op:?} did not")),
				Ok(Some(e)) => {
					count("act.identified", 1);
					ensure(own, "masked-failure", || format!("{op:?}: a callback failed, the caller was told {e:?}"))?
				}
			}
			continue;
		}
		if chance(1, 3) {
			let mut s = Sink::new(Sched::draw());
			s.fault = match pick(3) {
				0 => WFault::Error(picku(n)),
				1 => WFault::Full(picku(n)),
				_ => WFault::Once(pick(n.min(24) as u64)),
			};
			let f = s.fault;
			let g = if chance(1, 2) { r.i.encode(&mut s) } else { r.i.to_writer(&mut s) };
			tr!("sink fault {f:?}: {g:?}");
			match g {
				Err(e) => told(&e, ErrorKind::WriteZero, "encoding")?,
				Ok(()) => ensure(!s.fired, "write-lost", || "the sink failed, encoding did not".into())?,
			}
			continue;
		}
		let op = OPS[picku(OPS.len())];
		let at = picku(n);
		let torn = chance(1, 3);
		tr!("{op:?}, {} at {at} of {n}", if torn { "cut" } else { "source error" });
		if op == Op::Walk {
			let mut src = Src::with(&r.b, Sched::draw());
			if torn { src.ctl.limit.set(at) } else { src.ctl.fail_at.set(Some(at)) }
			let mut cx = Cx::new(&src, 0, false);
			cx.torn = true;
			cx.honest = true;
			match rd.ops.walk(&mut src, &Exp { v: Some(&want), wb }, &cx) {
				Ok(Pos::End) => return viol("torn-accepted", format!("walked to the end of {at} of {n} bytes")),
				Ok(Pos::Mid) | Err(Stop::Faulted) => {}
				Err(e) => return Err(e),
			}
		} else if stream_op(op) {
			let mut src = Src::with(&r.b, Sched::draw());
			if torn { src.ctl.limit.set(at) } else { src.ctl.fail_at.set(Some(at)) }
			match consume(rd, op, &mut src) {
				Ok(_) => return viol("torn-accepted", format!("{op:?} accepted {at} of {n} bytes")),
				Err(e) => told(&e, ErrorKind::UnexpectedEof, &format!("{op:?}"))?,
			}
		} else {
			match consume_slice(rd, op, &r.b[..at]) {
				Ok(_) => return viol("torn-accepted", format!("{op:?} accepted {at} of {n} bytes")),
				Err(e) => told(&e, ErrorKind::UnexpectedEof, &format!("{op:?}"))?,
			}
		}
	}
	Ok(())
}

fn p20_indexed() -> R<()> {
	let e = &reg().idx[picku(reg().idx.len())];
	set_label(e.name.clone());
	let v = normalise(&e.sc, &gen_sized(&e.sc, [20, 80][picku(2)], chance(1, 2), false));
	let b: Arc<[u8]> = Arc::from(&idx_record(e, &v, Sched::PLAIN)?[..]);
	let n = b.len();
	for _ in 0..1 + pick(3) {
		io::forget();
		let at = picku(n);
		let torn = chance(1, 3);
		let w = if torn { Wrong::Torn(at) } else { Wrong::Error(at) };
		let k = pick(4);
		let sched = Sched::draw();
		let s = source(&b, sched.frag, if k < 2 { w } else { Wrong::No });
		s.ctl.sched.set(sched);
		let mut s = s;
		let mut o = sink(sched.frag, w);
		o.sched = sched;
		let (g, plain) = match k {
			0 => (e.ops.decode(&mut s).map(|_| ()), ErrorKind::UnexpectedEof),
			1 => (e.ops.skip(&mut s), ErrorKind::UnexpectedEof),
			2 => (e.ops.encode(&v, &mut o), ErrorKind::WriteZero),
			_ => (e.ops.recode(&mut s, &mut o), ErrorKind::WriteZero),
		};
		tr!("indexed operation {k} with {w:?}: {g:?}");
		match g {
			Ok(()) => return viol("fault-lost", "the device failed, the operation did not".into()),
			Err(x) => told(&x, plain, ["decode", "skip", "encode", "recode"][k as usize])?,
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------
// P21

/// How one reader ended: what it read (decoders), where it stopped (all but
/// `from_slice`), or why it refused.
struct End {
    op: Op,
    how: String,
    got: Result<(Option<Val>, Option<usize>), Error>,
}
impl End {
    fn say(&self) -> String {
        match &self.got {
            Err(e) => format!("{} refused ({e})", self.how),
            Ok((v, n)) => {
                let n = n.map(|n| format!("{n} bytes")).unwrap_or("it".into());
                match v {
                    Some(v) => format!("{} read {n} as {}", self.how, v.short()),
                    None => format!("{} passed over {n}", self.how),
                }
            }
        }
    }
}
const VERDICTS: [Op; 11] = [
    Op::Decode,
    Op::FromReader,
    Op::DecodeSlice,
    Op::FromSlice,
    Op::SkipCheck,
    Op::SkipCheckReader,
    Op::SkipCheckSlice,
    Op::Skip,
    Op::SkipReader,
    Op::SkipSlice,
    Op::SkipInSlice,
];
/// Unchecked skips look at no more than they need.
fn lenient(op: Op) -> bool {
    matches!(
        op,
        Op::Skip | Op::SkipReader | Op::SkipSlice | Op::SkipInSlice
    )
}

fn verdict(e: &'static core_sim::dynt::Entry, op: Op, b: &[u8]) -> End {
    let (how, r) = if stream_op(op) {
        let sc = Sched::draw();
        let mut s = Src::with(b, sc);
        let r = consume(e, op, &mut s);
        (
            format!("{op:?} over {:?} (interrupted {} in 8)", sc.frag, sc.intr),
            r.map(|g| (g, Some(s.pos()))),
        )
    } else {
        (format!("{op:?}"), consume_slice(e, op, b))
    };
    ev(210, (op as u64) << 1 | r.is_ok() as u64);
    let got = r.map(|(g, n)| {
        let v = match g {
            Got::Value(v) => Some(v),
            Got::Skipped => None,
        };
        (v, n)
    });
    let x = End { op, how, got };
    tr!("{}", x.say());
    x
}

/// Two readers of the same kind agree on whether these bytes hold a record, on
/// the record, and on where it ends.
fn agree(sc: &Sc, a: &End, z: &End, b: &[u8]) -> R<()> {
    let ok = match (&a.got, &z.got) {
        (Err(_), Err(_)) => true,
        (Ok((v, n)), Ok((w, m))) => {
            (n.is_none() || m.is_none() || n == m)
                && match (v, w) {
                    (Some(v), Some(w)) => same(sc, v, w),
                    _ => true,
                }
        }
        _ => false,
    };
    count("act.verdicts", 1);
    ensure(ok, "verdicts-differ", || {
        format!("of {}: {}; {}", world::hex(b), a.say(), z.say())
    })
}

pub fn p21() -> R<()> {
    if chance(1, 10) {
        return p21_indexed();
    }
    // any bytes of any origin: as the encoder writes them, as another encoder
    // of the same format might, damaged, or with something behind them
    let (we, rd) = if chance(1, 3) {
        let f = any_fam();
        let wb = picku(BUILDS);
        let rb = wb + picku(BUILDS - wb);
        (fam_at(f, wb), fam_at(f, rb))
    } else {
        let e = any_entry();
        (e, e)
    };
    set_label(format!("{}<-{}", rd.name, we.name));
    let v = gen_val(&we.sc);
    let mut m = refenc::Enc::new(refenc::CFG);
    m.sloppy = chance(2, 3);
    m.enc(&we.sc, &v);
    let mut b = m.out;
    if m.sloppy {
        count("act.foreign-encoder", 1);
    }
    tr!("record {} = {} : {}", we.name, v.short(), world::hex(&b));
    let hurt = [0, 0, 1, 1, 1, 2, 3][picku(7)];
    for i in 0..hurt {
        let n = b.len();
        crate::scen2::damage(&mut b, 0, n, if i == 0 { &m.marks } else { &[] }, false);
    }
    if chance(1, 2) {
        b.extend(noise());
    }
    if hurt > 0 {
        tr!("now {}", world::hex(&b));
    }
    let mut ends: Vec<End> = vec![];
    for _ in 0..3 + pick(4) {
        let x = verdict(rd, VERDICTS[picku(VERDICTS.len())], &b);
        for y in &ends {
            // a lenient reader may pass over what a strict one refuses
            let (strict, other) = if lenient(y.op) { (&x, y) } else { (y, &x) };
            if lenient(x.op) != lenient(y.op) && strict.got.is_err() {
                continue;
            }
            agree(&rd.sc, strict, other, &b)?;
        }
        ends.push(x);
    }
    if hurt > 0 || m.sloppy {
        let read = ends.iter().any(|x| !lenient(x.op) && x.got.is_ok());
        count(
            if read {
                "act.odd-bytes-read"
            } else {
                "act.odd-bytes-refused"
            },
            1,
        );
    }
    Ok(())
}

/// A bare indexed container: every decoder agrees on any bytes; the skip, which
/// goes by the table of offsets, agrees as long as the table is true.
fn p21_indexed() -> R<()> {
    let e = &reg().idx[picku(reg().idx.len())];
    set_label(e.name.clone());
    let v = gen_sized(&e.sc, [40, 120][picku(2)], chance(3, 4), false);
    let mut m = refenc::Enc::new(refenc::CFG);
    m.sloppy = chance(2, 3);
    match e.idx {
        Idx::Map => m.indexed_map(&e.sc, &v),
        x => m.indexed_seq(&e.sc, &v, x == Idx::Set),
    }
    let mut b = m.out;
    tr!("indexed {} = {} : {}", e.name, v.short(), world::hex(&b));
    let hurt = pick(3);
    for i in 0..hurt {
        let n = b.len();
        crate::scen2::damage(&mut b, 0, n, if i == 0 { &m.marks } else { &[] }, false);
    }
    b.extend(noise());
    let mut ends: Vec<End> = vec![];
    for _ in 0..2 + pick(2) {
        let skip = hurt == 0 && chance(1, 3);
        let sc = Sched::draw();
        let mut s = Src::with(&b, sc);
        let got = if skip {
            e.ops.skip(&mut s).map(|_| None)
        } else {
            e.ops.decode(&mut s).map(Some)
        };
        let how = format!(
            "{} over {:?} (interrupted {} in 8)",
            if skip { "skip" } else { "decode" },
            sc.frag,
            sc.intr
        );
        ev(211, (skip as u64) << 1 | got.is_ok() as u64);
        let op = if skip { Op::Skip } else { Op::Decode };
        let x = End {
            op,
            how,
            got: got.map(|v| (v, Some(s.pos()))),
        };
        tr!("{}", x.say());
        for y in &ends {
            let strict = if skip { y } else { &x };
            if lenient(x.op) != lenient(y.op) && strict.got.is_err() {
                continue;
            }
            agree(&e.sc, y, &x, &b)?;
        }
        ends.push(x);
    }
    Ok(())
}
