//! Random access sessions over the library's walkers, checked against the
//! expected value step by step.

use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;

use revision::optimised::indexed::{
	IndexedMapEncoded, IndexedMapView, IndexedSeqEncoded, IndexedSeqView, IndexedSetEncoded,
	IndexedSetView, VariantView,
};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker};
use revision::{
	DeserializeRevisioned, Error, LeafWalker, MapWalker, OptionWalker, ResultWalker, SeqWalker,
	SerializeRevisioned, SkipCheckRevisioned, SkipRevisioned, WalkRevisioned,
};

use crate::io::{Ctl, Src};
use crate::val::*;
use crate::world::{self, R, Stop, chance, ensure, hex, pick, picku, viol};

/// Where the reader stands after a session.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
	/// exactly behind the walked value
	End,
	/// somewhere inside
	Mid,
}

/// Everything a type must offer to take part in the simulation.
pub trait Sim:
	Sized
	+ Send
	+ Sync
	+ 'static
	+ SerializeRevisioned
	+ DeserializeRevisioned
	+ SkipRevisioned
	+ SkipCheckRevisioned
	+ WalkRevisioned
{
	fn schema() -> Sc;
	fn from_val(v: &Val) -> Self;
	fn to_val(&self) -> Val;
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos>;

	/// A session over the generic walkers (`StructWalker`, `EnumWalker`), for
	/// types whose encoding they fit.
	fn hand(_src: &mut Src, _x: &Exp, _cx: &Cx) -> R<Option<Pos>> {
		Ok(None)
	}
	fn has_hand() -> bool {
		false
	}
	/// `walk` refuses the type before reading anything
	fn walk_refused() -> bool {
		false
	}
	/// length-prefixed byte access is offered
	fn lp() -> bool {
		false
	}
	fn leaf_bytes(_w: LeafWalker<'_, Self, Src>, _f: Bf) -> Result<(), Error> {
		unreachable!()
	}
	fn item_bytes(_w: &mut SeqWalker<'_, Self, Src>, _f: Bf) -> Result<(), Error> {
		unreachable!()
	}
	fn key_bytes<V>(
		_e: &mut revision::MapEntry<'_, '_, Self, V, Src>,
		_f: Bf,
	) -> Result<(), Error> {
		unreachable!()
	}
	fn value_bytes<K>(
		_e: revision::MapEntry<'_, '_, K, Self, Src>,
		_f: Bf,
	) -> Result<(), Error> {
		unreachable!()
	}
	fn find_bytes<'r, V: SkipRevisioned>(
		_w: MapWalker<'r, Self, V, Src>,
		_f: &mut dyn FnMut(&[u8]) -> Ordering,
	) -> Result<Option<LeafWalker<'r, V, Src>>, Error> {
		unreachable!()
	}
	// the same for `Vec<Self>`
	fn vec_lp() -> bool {
		false
	}
	fn vec_item_bytes(_w: &mut SeqWalker<'_, Vec<Self>, Src>, _f: Bf) -> Result<(), Error> {
		unreachable!()
	}
	fn vec_key_bytes<V>(
		_e: &mut revision::MapEntry<'_, '_, Vec<Self>, V, Src>,
		_f: Bf,
	) -> Result<(), Error> {
		unreachable!()
	}
	fn vec_value_bytes<K>(
		_e: revision::MapEntry<'_, '_, K, Vec<Self>, Src>,
		_f: Bf,
	) -> Result<(), Error> {
		unreachable!()
	}
	fn vec_leaf_bytes(_w: LeafWalker<'_, Vec<Self>, Src>, _f: Bf) -> Result<(), Error> {
		unreachable!()
	}
	fn vec_find_bytes<'r, V: SkipRevisioned>(
		_w: MapWalker<'r, Vec<Self>, V, Src>,
		_f: &mut dyn FnMut(&[u8]) -> Ordering,
	) -> Result<Option<LeafWalker<'r, V, Src>>, Error> {
		unreachable!()
	}
}
pub type Bf<'a> = &'a mut dyn FnMut(&[u8]);

/// Expectation for the value under a walker.
#[derive(Clone, Copy)]
pub struct Exp<'e> {
	/// `None`: nothing is known (damaged data)
	pub v: Option<&'e Val>,
	/// build that wrote the bytes
	pub wb: usize,
}
impl<'e> Exp<'e> {
	pub fn of(&self, v: Option<&'e Val>) -> Exp<'e> {
		Exp { v, wb: self.wb }
	}
}

/// A session's context.
pub struct Cx {
	pub ctl: Rc<Ctl>,
	/// one-shot faults the session may still inject
	pub faults: Cell<u32>,
	pub blind: bool,
	/// the record ends early: errors are final
	pub torn: bool,
	/// a callback will fail
	pub callbacks: bool,
	/// the error must be the device's own
	pub honest: bool,
	/// only this field of the outermost struct is intact
	pub only: Cell<Option<usize>>,
	pub ops: Cell<u64>,
	pub depth: Cell<u32>,
}
pub enum Settled<T> {
	Done(T),
	Retry,
}
impl Cx {
	pub fn new(src: &Src, faults: u32, blind: bool) -> Cx {
		Cx {
			ctl: src.ctl.clone(),
			faults: Cell::new(faults),
			blind,
			torn: false,
			callbacks: false,
			honest: false,
			only: Cell::new(None),
			ops: Cell::new(0),
			depth: Cell::new(0),
		}
	}
	pub fn pos(&self) -> usize {
		self.ctl.pos.get()
	}
	/// Start of a walker operation: maybe arm a fault.
	pub fn arm(&self) {
		self.ops.set(self.ops.get() + 1);
		self.ctl.calls.set(0);
		self.ctl.fired.set(false);
		self.ctl.armed.set(None);
		crate::hooks::clear_fired();
		if self.honest {
			crate::io::forget();
		}
		if self.faults.get() > 0 && chance(1, 6) {
			self.faults.set(self.faults.get() - 1);
			self.ctl.armed.set(Some(pick(4)));
		}
	}
	fn disarm(&self) -> bool {
		self.ctl.armed.set(None);
		self.ctl.fired.get() || crate::hooks::fired()
	}
	/// Outcome of an operation that may be repeated in place.
	pub fn settle<T>(&self, name: &str, at: usize, r: Result<T, Error>) -> R<Settled<T>> {
		let fired = self.disarm();
		match r {
			Ok(v) => {
				ensure(!fired || self.blind, "swallowed-fault", || {
					format!("{name} returned Ok although the source failed")
				})?;
				tr!("    {name} @{at} ok");
				world::ev(1, self.pos() as u64);
				Ok(Settled::Done(v))
			}
			Err(e) if fired && self.torn && crate::hooks::fired() => {
				ensure(!self.honest || crate::hooks::is_own(&e), "masked-failure", || {
					format!("{name}: a callback failed, the caller was told {e:?}")
				})?;
				Err(Stop::Faulted)
			}
			Err(e) if fired && self.torn => {
				let eof = std::io::ErrorKind::UnexpectedEof;
				ensure(!self.honest || crate::io::is_last(&e, eof), "masked-failure", || {
					format!("{name}: the device said {}, the caller was told {e:?}", crate::io::last_text(eof))
				})?;
				Err(Stop::Faulted)
			}
			Err(e) if fired && !self.blind => {
				tr!("    {name} @{at} failed as injected ({e}); source rewound");
				world::count("walk.op-retried", 1);
				self.ctl.pos.set(at);
				Ok(Settled::Retry)
			}
			Err(_) if self.blind => Err(Stop::Faulted),
			Err(e) => viol("walk-error", format!("{name} at offset {at}: unexpected error {e}")),
		}
	}
	/// Repeatable operation.
	pub fn op<T>(&self, name: &str, mut f: impl FnMut() -> Result<T, Error>) -> R<T> {
		let at = self.pos();
		loop {
			self.arm();
			if let Settled::Done(v) = self.settle(name, at, f())? {
				return Ok(v);
			}
		}
	}
	/// Operation that consumes the walker: an injected failure ends the session.
	pub fn once<T>(&self, name: &str, f: impl FnOnce() -> Result<T, Error>) -> R<T> {
		let at = self.pos();
		self.arm();
		match self.settle(name, at, f())? {
			Settled::Done(v) => Ok(v),
			Settled::Retry => Err(Stop::Faulted),
		}
	}
	/// Operation the library must refuse, leaving the position alone.
	pub fn refuse<T>(&self, name: &str, r: Result<T, Error>, at: usize) -> R<()> {
		self.ops.set(self.ops.get() + 1);
		if self.blind {
			return Ok(());
		}
		tr!("    {name} @{at} refused: {}", r.is_err());
		ensure(r.is_err(), "not-refused", || format!("{name} at offset {at} should be refused"))?;
		ensure(self.pos() == at, "refusal-moved", || {
			format!("{name} was refused but moved the reader {at} -> {}", self.pos())
		})
	}
	pub fn tired(&self) -> bool {
		self.ops.get() > 3000
	}
	pub fn down(&self) -> bool {
		self.depth.set(self.depth.get() + 1);
		self.depth.get() < 40
	}
	pub fn up(&self) {
		self.depth.set(self.depth.get() - 1)
	}
}

/// Walk into a child through a repeatable call; evaluates to its `Pos`.
#[macro_export]
macro_rules! walk_child {
	($cx:expr, $T:ty, $name:expr, $x:expr, $call:expr) => {{
		let __at = $cx.pos();
		if <$T as $crate::walkers::Sim>::walk_refused() {
			let __r = $call;
			let __e = __r.is_err();
			let __r: Result<(), ()> = if __e { Err(()) } else { Ok(()) };
			$cx.refused($name, __r, __at)?;
			None
		} else {
			loop {
				$cx.arm();
				let __r = $call;
				match $cx.settle($name, __at, __r)? {
					$crate::walkers::Settled::Done(__w) => {
						break Some(<$T as $crate::walkers::Sim>::drive(__w, $x, $cx)?);
					}
					$crate::walkers::Settled::Retry => {}
				}
			}
		}
	}};
}
impl Cx {
	pub fn refused(&self, name: &str, r: Result<(), ()>, at: usize) -> R<()> {
		self.ops.set(self.ops.get() + 1);
		if self.blind {
			return Err(Stop::Faulted);
		}
		ensure(r.is_err(), "not-refused", || format!("{name} at offset {at} should be refused"))?;
		ensure(self.pos() == at, "refusal-moved", || {
			format!("{name} was refused but moved the reader {at} -> {}", self.pos())
		})
	}
}

/// Compare a decoded value with the expectation.
pub fn check<T: Sim>(x: &Exp, got: &T, what: &str) -> R<()> {
	let Some(v) = x.v else { return Ok(()) };
	let g = got.to_val();
	if same(&T::schema(), v, &g) {
		return Ok(());
	}
	viol("walk-value", format!("{what} gave {} instead of {}", g.short(), v.short()))
}

/// The raw bytes a length-prefixed value carries.
fn raw_of(v: &Val) -> Vec<u8> {
	match v {
		Val::S(s) => s.as_bytes().to_vec(),
		Val::B(b) => b.clone(),
		Val::L(l) => l
			.iter()
			.map(|e| match e {
				Val::U(x) => *x as u8,
				Val::I(x) => *x as i8 as u8,
				_ => panic!("harness: raw"),
			})
			.collect(),
		_ => panic!("harness: raw"),
	}
}
fn check_raw(x: &Exp, got: &[u8], what: &str) -> R<()> {
	let Some(v) = x.v else { return Ok(()) };
	let w = raw_of(v);
	ensure(w == got, "walk-bytes", || {
		format!("{what} handed over {} instead of {}", hex(got), hex(&w))
	})
}

// ---------------------------------------------------------------------------

/// One field by hand; the walker's counters are checked around it.
pub fn hand_field<T: Sim>(w: &mut revision::StructWalker<'_, Src>, i: u32, rev: u16, x: &Exp, cx: &Cx) -> R<Pos> {
	ensure(w.position() == i && w.revision() == rev, "walk-position", || {
		format!("field {i}: position {} revision {} of {rev}", w.position(), w.revision())
	})?;
	match pick(4) {
		0 | 1 => {
			let g = cx.op("struct.decode", || w.decode::<T>())?;
			check(x, &g, "struct.decode")?;
		}
		2 => cx.op("struct.skip", || w.skip::<T>())?,
		_ if !cx.down() => cx.op("struct.skip", || w.skip::<T>())?,
		_ => {
			let p = crate::walk_child!(cx, T, "struct.walk", x, w.walk::<T>());
			cx.up();
			match p {
				// refused: nothing read, the position stays
				None => cx.op("struct.skip", || w.skip::<T>())?,
				Some(Pos::Mid) => return Ok(Pos::Mid),
				Some(Pos::End) => {}
			}
		}
	}
	ensure(w.position() == i + 1, "walk-position", || format!("field {i} left position {}", w.position()))?;
	Ok(Pos::End)
}
/// The last field may take the walker along.
pub fn hand_last<T: Sim>(mut w: revision::StructWalker<'_, Src>, i: u32, rev: u16, x: &Exp, cx: &Cx) -> R<Pos> {
	match pick(3) {
		0 => {
			let r = w.into_reader();
			let g = cx.op("struct.into_reader", || T::deserialize_revisioned(r))?;
			check(x, &g, "struct.into_reader")?;
			Ok(Pos::End)
		}
		1 if !T::walk_refused() => {
			let k = cx.once("struct.into_walk", || w.into_walk::<T>())?;
			T::drive(k, x, cx)
		}
		_ => {
			let p = w.reader().ctl.pos.get();
			ensure(p == cx.pos(), "walk-position", || format!("reader() moved to {p}"))?;
			hand_field::<T>(&mut w, i, rev, x, cx)
		}
	}
}
/// `Result`'s encoding has the shape of an enum's.
pub fn hand_enum<T: Sim, E: Sim>(src: &mut Src, x: &Exp, cx: &Cx) -> R<Option<Pos>> {
	let at = cx.pos();
	let rev = 1 + pick(9) as u16;
	if chance(1, 3) {
		let d = cx.op("read_enum_discriminant", || revision::read_enum_discriminant(src))?;
		let want = x.v.map(|v| v.t().0);
		ensure(want.is_none_or(|w| w == d), "walk-value", || format!("read_enum_discriminant gave {d}"))?;
		src.ctl.pos.set(at);
	}
	let mut w = loop {
		cx.arm();
		let r = revision::EnumWalker::new(&mut *src, rev);
		let r = match r {
			Ok(_) => Ok(()),
			Err(e) => Err(e),
		};
		match cx.settle("EnumWalker::new", at, r)? {
			Settled::Done(()) => {
				src.ctl.pos.set(at);
				match revision::EnumWalker::new(&mut *src, rev) {
					Ok(w) => break w,
					Err(e) => return viol("walk-error", format!("EnumWalker::new: {e}")),
				}
			}
			Settled::Retry => {}
		}
	};
	let d = w.discriminant();
	ensure(w.revision() == rev, "walk-value", || format!("EnumWalker reports revision {}", w.revision()))?;
	let Some(v) = x.v else { return Ok(Some(Pos::Mid)) };
	let (n, l) = v.t();
	ensure(n == d, "walk-value", || format!("EnumWalker reports variant {d} of {}", v.short()))?;
	let p = w.reader().ctl.pos.get();
	ensure(p == cx.pos(), "walk-position", || format!("reader() moved to {p}"))?;
	let y = x.of(Some(&l[0]));
	fn side<T: Sim>(w: revision::EnumWalker<'_, Src>, y: &Exp, cx: &Cx) -> R<Pos> {
		match pick(4) {
			0 => {
				let g = cx.once("enum.decode", || w.decode::<T>())?;
				check(y, &g, "enum.decode")?;
			}
			1 => cx.once("enum.skip", || w.skip::<T>())?,
			2 if !T::walk_refused() => {
				let k = cx.once("enum.into_walk", || w.into_walk::<T>())?;
				return T::drive(k, y, cx);
			}
			_ => {
				let r = w.into_reader();
				let g = cx.op("enum.into_reader", || T::deserialize_revisioned(r))?;
				check(y, &g, "enum.into_reader")?;
			}
		}
		Ok(Pos::End)
	}
	Ok(Some(if n == 0 { side::<T>(w, &y, cx)? } else { side::<E>(w, &y, cx)? }))
}

pub fn drive_leaf<'r, T: Sim>(mut w: LeafWalker<'r, T, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
	let at = cx.pos();
	if chance(1, 4) {
		// looking at the reader does not move it
		let p = w.reader().ctl.pos.get();
		ensure(p == at, "walk-position", || format!("reader() moved {at} -> {p}"))?;
	}
	match pick(5) {
		0 | 1 => {
			let g = cx.once("leaf.decode", || w.decode())?;
			check(x, &g, "leaf.decode")?;
		}
		2 => cx.once("leaf.skip", || w.skip())?,
		3 if T::lp() => {
			let mut got = None;
			cx.once("leaf.with_bytes", || T::leaf_bytes(w, &mut |b| got = Some(b.to_vec())))?;
			check_raw(x, &got.unwrap_or_default(), "leaf.with_bytes")?;
		}
		3 => {
			let r = w.into_reader();
			let g = cx.once("leaf.into_reader+decode", || T::deserialize_revisioned(r))?;
			check(x, &g, "leaf.into_reader")?;
		}
		_ => {
			if T::walk_refused() {
				let r = w.walk().map(|_| ()).map_err(|_| ());
				cx.refused("leaf.walk", r, at)?;
				return Ok(Pos::Mid);
			}
			if !cx.down() {
				cx.once("leaf.skip", || w.skip())?;
				cx.up();
				return Ok(Pos::End);
			}
			let c = cx.once("leaf.walk", || w.walk())?;
			let p = T::drive(c, x, cx);
			cx.up();
			return p;
		}
	}
	Ok(Pos::End)
}

pub fn drive_option<'r, T: Sim>(w: OptionWalker<'r, T, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
	let at = cx.pos();
	let some = w.is_some();
	ensure(w.is_none() != some, "walk-option", || "is_some == is_none".into())?;
	let child = match x.v {
		Some(v) => {
			let (n, l) = v.t();
			ensure((n == 1) == some, "walk-option", || {
				format!("walker says is_some={some}, value is {}", v.short())
			})?;
			x.of(l.first())
		}
		None => *x,
	};
	match pick(4) {
		0 => {
			let g = cx.once("option.decode", || w.decode())?;
			match (&g, some) {
				(Some(g), true) => check(&child, g, "option.decode")?,
				(None, false) => {}
				_ => return viol("walk-option", "decode disagrees with is_some".into()),
			}
			Ok(Pos::End)
		}
		1 => {
			cx.once("option.skip", || w.skip())?;
			Ok(Pos::End)
		}
		_ if !some => {
			cx.refuse("option.into_some of None", w.into_some().map(|_| ()), at)?;
			Ok(Pos::End)
		}
		_ => {
			if T::walk_refused() {
				let r = w.into_some().map(|_| ()).map_err(|_| ());
				cx.refused("option.into_some", r, at)?;
				return Ok(Pos::Mid);
			}
			let c = cx.once("option.into_some", || w.into_some())?;
			T::drive(c, &child, cx)
		}
	}
}

pub fn drive_result<'r, T: Sim, E: Sim>(
	w: ResultWalker<'r, T, E, Src>,
	x: &Exp,
	cx: &Cx,
) -> R<Pos> {
	let at = cx.pos();
	let ok = w.is_ok();
	ensure(w.is_err() != ok, "walk-result", || "is_ok == is_err".into())?;
	let child = match x.v {
		Some(v) => {
			let (n, l) = v.t();
			ensure((n == 0) == ok, "walk-result", || {
				format!("walker says is_ok={ok}, value is {}", v.short())
			})?;
			x.of(l.first())
		}
		None => *x,
	};
	match pick(5) {
		0 => {
			let g = cx.once("result.decode", || w.decode())?;
			match (&g, ok) {
				(Ok(g), true) => check(&child, g, "result.decode")?,
				(Err(g), false) => check(&child, g, "result.decode")?,
				_ => return viol("walk-result", "decode disagrees with is_ok".into()),
			}
			Ok(Pos::End)
		}
		1 => {
			cx.once("result.skip", || w.skip())?;
			Ok(Pos::End)
		}
		2 => {
			if ok {
				cx.refuse("result.into_err of Ok", w.into_err().map(|_| ()), at)?;
			} else {
				cx.refuse("result.into_ok of Err", w.into_ok().map(|_| ()), at)?;
			}
			Ok(Pos::Mid)
		}
		_ if ok => {
			if T::walk_refused() {
				let r = w.into_ok().map(|_| ()).map_err(|_| ());
				cx.refused("result.into_ok", r, at)?;
				return Ok(Pos::Mid);
			}
			let c = cx.once("result.into_ok", || w.into_ok())?;
			T::drive(c, &child, cx)
		}
		_ => {
			if E::walk_refused() {
				let r = w.into_err().map(|_| ()).map_err(|_| ());
				cx.refused("result.into_err", r, at)?;
				return Ok(Pos::Mid);
			}
			let c = cx.once("result.into_err", || w.into_err())?;
			E::drive(c, &child, cx)
		}
	}
}

pub fn drive_seq<'r, T: Sim>(mut w: SeqWalker<'r, T, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
	let n = match x.v {
		Some(v) => {
			let n = v.l().len();
			ensure(w.remaining() == n, "walk-length", || {
				format!("sequence walker sees {} elements, value has {n}", w.remaining())
			})?;
			n
		}
		None => w.remaining(),
	};
	let mut i = 0;
	// long sequences: touch a few elements, skip the rest
	let stop_after = if n > 12 { picku(12) } else { n };
	while i < n {
		if cx.tired() || i >= stop_after {
			cx.once("seq.skip_remaining", || w.skip_remaining())?;
			return Ok(Pos::End);
		}
		let e = x.of(x.v.map(|v| &v.l()[i]));
		let left = w.remaining();
		ensure(left == n - i, "walk-length", || {
			format!("sequence walker has {left} elements left instead of {}", n - i)
		})?;
		match pick(16) {
			0..=3 => {
				let g = cx.op("item.decode", || w.next_item().expect("item").decode())?;
				check(&e, &g, "item.decode")?;
			}
			4..=6 => cx.op("item.skip", || w.next_item().expect("item").skip())?,
			7 => {
				// looked at, not taken
				let _ = w.next_item();
				continue;
			}
			8 | 9 if T::lp() => {
				let mut got = None;
				cx.op("item.with_bytes", || T::item_bytes(&mut w, &mut |b| got = Some(b.to_vec())))?;
				check_raw(&e, &got.unwrap_or_default(), "item.with_bytes")?;
			}
			14 if i > 0 => {
				cx.once("seq.skip_remaining", || w.skip_remaining())?;
				return Ok(Pos::End);
			}
			15 if i > 0 && chance(1, 4) => return Ok(Pos::Mid),
			_ => {
				match walk_child!(cx, T, "item.walk", &e, w.next_item().expect("item").walk()) {
					None => continue,
					Some(Pos::Mid) => return Ok(Pos::Mid),
					Some(Pos::End) => {}
				}
			}
		}
		i += 1;
	}
	ensure(w.next_item().is_none() && w.remaining() == 0, "walk-length", || {
		"sequence walker continues past its end".into()
	})?;
	if chance(1, 3) {
		cx.once("seq.skip_remaining", || w.skip_remaining())?;
	}
	Ok(Pos::End)
}

pub fn drive_map<'r, K: Sim, V: Sim>(mut w: MapWalker<'r, K, V, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
	let n = match x.v {
		Some(v) => {
			let n = v.m().len();
			ensure(w.remaining() == n, "walk-length", || {
				format!("map walker sees {} entries, value has {n}", w.remaining())
			})?;
			n
		}
		None => w.remaining(),
	};
	let mut i = 0;
	let stop_after = if n > 12 { picku(12) } else { n + 1 };
	let find_at = if chance(1, 3) { picku(n.clamp(1, 6)) } else { usize::MAX };
	while i < n {
		let left = w.remaining();
		ensure(left == n - i, "walk-length", || {
			format!("map walker has {left} entries left instead of {}", n - i)
		})?;
		if i == find_at {
			return drive_find(w, x, cx, i, n);
		}
		if cx.tired() || i >= stop_after {
			cx.once("map.skip_remaining", || w.skip_remaining())?;
			return Ok(Pos::End);
		}
		let ke = x.of(x.v.map(|v| &v.m()[i].0));
		let ve = x.of(x.v.map(|v| &v.m()[i].1));
		let at = cx.pos();
		// one entry; an injected fault rewinds to the start of the entry
		let mut e = w.next_entry().expect("entry");
		match pick(8) {
			0 => {
				cx.arm();
				match cx.settle("entry.decode_pair", at, e.decode_pair())? {
					Settled::Done((k, v)) => {
						check(&ke, &k, "entry.decode_pair key")?;
						check(&ve, &v, "entry.decode_pair value")?;
					}
					Settled::Retry => continue,
				}
				i += 1;
				continue;
			}
			1 => {
				cx.arm();
				match cx.settle("entry.skip_pair", at, e.skip_pair())? {
					Settled::Done(()) => i += 1,
					Settled::Retry => {}
				}
				continue;
			}
			2 => {
				// value before key
				let r = match pick(4) {
					0 => e.decode_value().map(|_| ()),
					1 => e.skip_value(),
					2 if V::lp() => V::value_bytes(e, &mut |_| {}),
					_ => e.walk_value().map(|_| ()),
				};
				cx.refuse("entry value before key", r, at)?;
				if cx.blind && cx.tired() {
					return Err(Stop::Faulted);
				}
				continue;
			}
			3 => {
				drop(e);
				continue;
			}
			_ => {}
		}
		match pick(4) {
			0 | 1 => {
				let k = cx.op("entry.decode_key", || e.decode_key())?;
				check(&ke, &k, "entry.decode_key")?;
			}
			2 if K::lp() => {
				let mut got = None;
				cx.op("entry.with_key_bytes", || {
					K::key_bytes(&mut e, &mut |b| got = Some(b.to_vec()))
				})?;
				check_raw(&ke, &got.unwrap_or_default(), "entry.with_key_bytes")?;
			}
			_ => cx.op("entry.skip_key", || e.skip_key())?,
		}
		if chance(1, 6) {
			// key twice
			let p = cx.pos();
			let r = match pick(3) {
				0 => e.decode_key().map(|_| ()),
				1 if K::lp() => K::key_bytes(&mut e, &mut |_| {}),
				_ => e.skip_key(),
			};
			cx.refuse("entry key twice", r, p)?;
		}
		let vat = cx.pos();
		match pick(6) {
			0 | 1 => {
				cx.arm();
				match cx.settle("entry.decode_value", vat, e.decode_value())? {
					Settled::Done(v) => check(&ve, &v, "entry.decode_value")?,
					Settled::Retry => {
						cx.ctl.pos.set(at);
						continue;
					}
				}
			}
			2 => {
				cx.arm();
				match cx.settle("entry.skip_value", vat, e.skip_value())? {
					Settled::Done(()) => {}
					Settled::Retry => {
						cx.ctl.pos.set(at);
						continue;
					}
				}
			}
			3 if V::lp() => {
				let mut got = None;
				cx.arm();
				let r = V::value_bytes(e, &mut |b| got = Some(b.to_vec()));
				match cx.settle("entry.with_value_bytes", vat, r)? {
					Settled::Done(()) => {
						check_raw(&ve, &got.unwrap_or_default(), "entry.with_value_bytes")?
					}
					Settled::Retry => {
						cx.ctl.pos.set(at);
						continue;
					}
				}
			}
			_ => {
				if V::walk_refused() {
					let r = e.walk_value().map(|_| ()).map_err(|_| ());
					cx.refused("entry.walk_value", r, vat)?;
					cx.ctl.pos.set(at);
					continue;
				}
				cx.arm();
				let r = e.walk_value();
				match cx.settle("entry.walk_value", vat, r)? {
					Settled::Done(c) => {
						if V::drive(c, &ve, cx)? == Pos::Mid {
							return Ok(Pos::Mid);
						}
					}
					Settled::Retry => {
						cx.ctl.pos.set(at);
						continue;
					}
				}
			}
		}
		i += 1;
	}
	ensure(w.next_entry().is_none() && w.remaining() == 0, "walk-length", || {
		"map walker continues past its end".into()
	})?;
	Ok(Pos::End)
}

/// `find` / `find_bytes` from entry `i` on, with a positional predicate.
fn drive_find<'r, K: Sim, V: Sim>(
	w: MapWalker<'r, K, V, Src>,
	x: &Exp,
	cx: &Cx,
	i: usize,
	n: usize,
) -> R<Pos> {
	let hit = i + picku((n - i).saturating_add(1));
	let verdict = if hit == n || chance(1, 4) { Ordering::Greater } else { Ordering::Equal };
	let mut at = i;
	let mut seen = vec![];
	let found = if K::lp() && chance(1, 2) {
		let mut keys = vec![];
		let r = cx.once("map.find_bytes", || {
			K::find_bytes(w, &mut |b| {
				if keys.len() < 400 {
					keys.push(b.to_vec());
				}
				at += 1;
				if at - 1 < hit { Ordering::Less } else { verdict }
			})
		})?;
		for (j, k) in keys.iter().enumerate() {
			check_raw(&x.of(x.v.map(|v| &v.m()[i + j].0)), k, "map.find_bytes key")?;
		}
		r
	} else {
		let r = cx.once("map.find", || {
			w.find(|k: &K| {
				if seen.len() < 400 {
					seen.push(k.to_val());
				}
				at += 1;
				if at - 1 < hit { Ordering::Less } else { verdict }
			})
		})?;
		if let Some(v) = x.v {
			for (j, k) in seen.iter().enumerate() {
				let want = &v.m()[i + j].0;
				ensure(same(&K::schema(), want, k), "walk-value", || {
					format!("map.find saw key {} instead of {}", k.short(), want.short())
				})?;
			}
		}
		r
	};
	if x.v.is_none() {
		return match found {
			Some(l) => drive_leaf(l, x, cx),
			None => Ok(Pos::End),
		};
	}
	let asked = at - i;
	let want_asked = if hit < n { hit - i + 1 } else { n - i };
	ensure(asked == want_asked, "walk-find", || {
		format!("find asked about {asked} keys instead of {want_asked}")
	})?;
	match found {
		Some(l) => {
			ensure(hit < n && verdict == Ordering::Equal, "walk-find", || {
				"find returned an entry nobody matched".into()
			})?;
			let p = drive_leaf(l, &x.of(x.v.map(|v| &v.m()[hit].1)), cx)?;
			Ok(if p == Pos::End && hit + 1 == n { Pos::End } else { Pos::Mid })
		}
		None => {
			ensure(hit == n || verdict == Ordering::Greater, "walk-find", || {
				format!("find missed matching entry {hit} of {n}")
			})?;
			Ok(Pos::End)
		}
	}
}

// ---------------------------------------------------------------------------
// Indexed views
// ---------------------------------------------------------------------------

/// Decode all of `b` as a `T`.
pub fn whole<T: Sim>(b: &[u8], what: &str) -> R<T> {
	let _quiet = crate::hooks::quiet();
	let mut r = b;
	match T::deserialize_revisioned(&mut r) {
		Ok(v) => {
			ensure(r.is_empty(), "view-bytes", || {
				format!("{what}: {} bytes left over in {}", r.len(), hex(b))
			})?;
			Ok(v)
		}
		Err(e) => viol("view-bytes", format!("{what}: cannot decode {}: {e}", hex(b))),
	}
}

/// Checks over an opened indexed map.  `m` holds the expected entries in any order.
pub fn check_map<K: Sim, V: Sim>(w: &IndexedMapWalker<'_, K, V>, m: &[(Val, Val)]) -> R<()> {
	let _quiet = crate::hooks::quiet();
	let n = m.len();
	let (ks, vs) = (K::schema(), V::schema());
	ensure(w.len() == n && w.is_empty() == (n == 0), "view-length", || {
		format!("indexed map has {} entries instead of {n}", w.len())
	})?;
	ensure(w.is_indexed() == (n >= 8), "view-index", || {
		format!("indexed map of {n} entries: is_indexed = {}", w.is_indexed())
	})?;
	let mut want: Vec<(Val, Val)> = m.iter().map(|(k, v)| (canon(&ks, k), canon(&vs, v))).collect();
	want.sort();
	let mut got: Vec<(Val, Val)> = vec![];
	let mut raw: Vec<(Vec<u8>, Vec<u8>)> = vec![];
	if let Some(es) = w.entries() {
		ensure(n >= 8, "view-index", || "entries() on a map without index".into())?;
		for (kb, vb) in es {
			let k: K = whole(kb, "indexed map key")?;
			let v: V = whole(vb, "indexed map value")?;
			got.push((canon(&ks, &k.to_val()), canon(&vs, &v.to_val())));
			raw.push((kb.to_vec(), vb.to_vec()));
		}
		ensure(w.legacy_body().is_none(), "view-index", || {
			"legacy_body() of a map with an index".into()
		})?;
	} else {
		ensure(n < 8, "view-index", || format!("no entries() for {n} entries"))?;
		let mut b = match w.legacy_body() {
			Some(b) => b,
			None => return viol("view-index", "neither index nor body".into()),
		};
		for _ in 0..n {
			let start = b;
			let k = K::deserialize_revisioned(&mut b);
			let kl = start.len() - b.len();
			let v = V::deserialize_revisioned(&mut b);
			match (k, v) {
				(Ok(k), Ok(v)) => {
					got.push((canon(&ks, &k.to_val()), canon(&vs, &v.to_val())));
					raw.push((start[..kl].to_vec(), start[kl..start.len() - b.len()].to_vec()));
				}
				_ => return viol("view-bytes", "body of small map does not decode".into()),
			}
		}
		ensure(b.is_empty(), "view-bytes", || format!("{} bytes after small map", b.len()))?;
	}
	for p in raw.windows(2) {
		ensure(p[0].0 < p[1].0, "view-order", || {
			format!("keys not ascending: {} before {}", hex(&p[0].0), hex(&p[1].0))
		})?;
	}
	got.sort();
	ensure(got == want, "view-value", || {
		format!("entries {} instead of {}", Val::M(got.clone()).short(), Val::M(want.clone()).short())
	})?;
	// lookups
	if n < 8 {
		let r = w.find_value_bytes(|_| Ordering::Equal);
		return ensure(r.is_err(), "view-index", || "lookup without index accepted".into());
	}
	let mut hint: Option<u32> = match pick(3) {
		0 => None,
		1 => Some(pick(n as u64 + 3) as u32),
		_ => Some(u32::MAX - pick(2) as u32),
	};
	for _ in 0..3 + picku(3) {
		let i = picku(n);
		let (needle, expect) = if chance(2, 3) {
			(raw[i].0.clone(), Some(&raw[i].1))
		} else {
			let mut nk = raw[i].0.clone();
			match pick(4) {
				0 => nk.push(pick(256) as u8),
				1 => {
					nk.pop();
				}
				2 => nk = vec![],
				_ => {
					let j = picku(nk.len().max(1));
					if let Some(b) = nk.get_mut(j) {
						*b = b.wrapping_add(1 + pick(255) as u8)
					}
				}
			}
			let e = raw.iter().find(|r| r.0 == nk).map(|r| &r.1);
			(nk, e)
		};
		world::count("view.lookups", 1);
		let a = w.find_value_bytes(|k| k.cmp(&needle));
		let a = match a {
			Ok(a) => a,
			Err(e) => return viol("view-lookup", format!("find_value_bytes failed: {e}")),
		};
		ensure(a == expect.map(|e| &e[..]), "view-lookup", || {
			format!(
				"find_value_bytes({}) gave {:?} instead of {:?} (n={n}, slot {i})",
				hex(&needle),
				a.map(hex),
				expect.map(|e| hex(e))
			)
		})?;
		let b = match w.find_value_bytes_with_hint(hint, |k| k.cmp(&needle)) {
			Ok(b) => b,
			Err(e) => return viol("view-lookup", format!("hinted lookup failed: {e}")),
		};
		ensure(b.value == expect.map(|e| &e[..]), "view-hint", || {
			format!(
				"with hint {hint:?}, lookup of {} gave {:?} instead of {:?}",
				hex(&needle),
				b.value.map(hex),
				expect.map(|e| hex(e))
			)
		})?;
		if expect.is_none() {
			ensure(b.hint == hint, "view-hint", || {
				format!("a miss changed the hint {hint:?} -> {:?}", b.hint)
			})?;
		} else {
			let slot = raw.iter().position(|r| r.0 == needle).map(|s| s as u32);
			ensure(b.hint == slot, "view-hint", || {
				format!("hit in slot {slot:?} returned hint {:?}", b.hint)
			})?;
		}
		hint = b.hint;
	}
	Ok(())
}

pub fn check_seq<T: Sim>(w: &IndexedSeqWalker<'_, T>, l: &[Val], sorted: bool) -> R<()> {
	let _quiet = crate::hooks::quiet();
	let n = l.len();
	let s = T::schema();
	ensure(w.len() == n && w.is_empty() == (n == 0), "view-length", || {
		format!("indexed sequence has {} elements instead of {n}", w.len())
	})?;
	ensure(w.is_indexed() == (n >= 8), "view-index", || {
		format!("indexed sequence of {n} elements: is_indexed = {}", w.is_indexed())
	})?;
	let mut got = vec![];
	let mut raw: Vec<Vec<u8>> = vec![];
	if w.is_indexed() {
		// any order of access
		let off = picku(n);
		for k in 0..n {
			let i = (k + off) % n;
			let b = match w.element_bytes(i) {
				Ok(b) => b,
				Err(e) => return viol("view-lookup", format!("element_bytes({i}) of {n}: {e}")),
			};
			let v: T = whole(b, "indexed element")?;
			got.push((i, canon(&s, &v.to_val())));
			raw.push(b.to_vec());
		}
		raw.rotate_right(off);
		got.sort_by_key(|g| g.0);
		for i in [n, n + 1, usize::MAX, usize::MAX / 4 + 1] {
			ensure(w.element_bytes(i).is_err(), "view-lookup", || {
				format!("element_bytes({i}) of {n} accepted")
			})?;
		}
	} else {
		let mut b = w.body();
		for i in 0..n {
			let st = b;
			match T::deserialize_revisioned(&mut b) {
				Ok(v) => got.push((i, canon(&s, &v.to_val()))),
				Err(e) => return viol("view-bytes", format!("body of small sequence: {e}")),
			}
			raw.push(st[..st.len() - b.len()].to_vec());
		}
		ensure(b.is_empty(), "view-bytes", || format!("{} bytes after sequence", b.len()))?;
		ensure(w.element_bytes(0).is_err(), "view-index", || {
			"element_bytes without index accepted".into()
		})?;
	}
	let mut got: Vec<Val> = got.into_iter().map(|g| g.1).collect();
	let mut want: Vec<Val> = l.iter().map(|v| canon(&s, v)).collect();
	if sorted {
		for p in raw.windows(2) {
			ensure(p[0] < p[1], "view-order", || {
				format!("elements not ascending: {} before {}", hex(&p[0]), hex(&p[1]))
			})?;
		}
		got.sort();
		want.sort();
	}
	ensure(got == want, "view-value", || {
		format!("elements {} instead of {}", Val::L(got.clone()).short(), Val::L(want.clone()).short())
	})
}

fn blind_map<K: Sim, V: Sim>(w: &IndexedMapWalker<'_, K, V>) {
	let mut keys = vec![];
	if let Some(es) = w.entries() {
		for (k, v) in es.take(300) {
			let _ = revision::from_slice::<K>(k);
			let _ = revision::from_slice::<V>(v);
			keys.push(k.to_vec());
		}
	}
	for _ in 0..3 {
		let nk: Vec<u8> = if keys.is_empty() || chance(1, 3) {
			(0..pick(4)).map(|_| pick(256) as u8).collect()
		} else {
			keys[picku(keys.len())].clone()
		};
		let _ = w.find_value_bytes(|k| k.cmp(&nk));
		let h = if chance(1, 2) { Some(pick(300) as u32) } else { None };
		let _ = w.find_value_bytes_with_hint(h, |k| k.cmp(&nk));
	}
	if let Some(b) = w.legacy_body() {
		let mut b = b;
		for _ in 0..w.len().min(300) {
			if K::deserialize_revisioned(&mut b).is_err() || V::deserialize_revisioned(&mut b).is_err()
			{
				break;
			}
		}
	}
}
fn blind_seq<T: Sim>(w: &IndexedSeqWalker<'_, T>) {
	for i in 0..w.len().min(300) {
		if let Ok(b) = w.element_bytes(i) {
			let _ = revision::from_slice::<T>(b);
		}
	}
	let _ = w.element_bytes(usize::MAX);
	let mut b = w.body();
	for _ in 0..w.len().min(300) {
		if T::deserialize_revisioned(&mut b).is_err() {
			break;
		}
	}
}

/// What the index of an opened map promises, judged by an independent reader.
fn index_ok_map(p: &[u8]) -> bool {
	let Some((n, mut c)) = ref_header(p) else { return false };
	if p[0] & 1 == 0 {
		return true;
	}
	let word = |at: usize| -> Option<u64> {
		p.get(at..at + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()) as u64)
	};
	if n > p.len() as u64 {
		return false;
	}
	let t = c;
	c += n as usize * 8;
	let (Some(kl), Some(vl)) = (word(c), word(c + 4)) else { return false };
	c += 8;
	if (p.len() - c) < (kl + vl) as usize {
		return false;
	}
	let keys = &p[c..c + kl as usize];
	let mut prev: Option<&[u8]> = None;
	for i in 0..n as usize {
		let (k, v) = (word(t + i * 8).unwrap(), word(t + i * 8 + 4).unwrap());
		let (ke, ve) = if i + 1 < n as usize {
			(word(t + i * 8 + 8).unwrap(), word(t + i * 8 + 12).unwrap())
		} else {
			(kl, vl)
		};
		if k > ke || v > ve || ke > kl || ve > vl {
			return false;
		}
		let kb = &keys[k as usize..ke as usize];
		if prev.is_some_and(|p| p >= kb) {
			return false;
		}
		prev = Some(kb);
	}
	true
}
fn index_ok_seq(p: &[u8]) -> bool {
	let Some((n, c)) = ref_header(p) else { return false };
	if p[0] & 1 == 0 {
		return true;
	}
	if n > p.len() as u64 || p.len() - c < n as usize * 4 {
		return false;
	}
	let body = (p.len() - c - n as usize * 4) as u64;
	let word =
		|i: usize| u32::from_le_bytes(p[c + i * 4..c + i * 4 + 4].try_into().unwrap()) as u64;
	for i in 0..n as usize {
		let e = if i + 1 < n as usize { word(i + 1) } else { body };
		if word(i) > e || e > body {
			return false;
		}
	}
	true
}
fn ref_header(p: &[u8]) -> Option<(u64, usize)> {
	let b = *p.get(1)?;
	let le = |n: usize| -> Option<u64> {
		let mut o = [0u8; 8];
		o[..n].copy_from_slice(p.get(2..2 + n)?);
		Some(u64::from_le_bytes(o))
	};
	Some(match b {
		0..=250 => (b as u64, 2),
		251 => (le(2)?, 4),
		252 => (le(4)?, 6),
		253 => (le(8)?, 10),
		_ => return None,
	})
}

/// Open any bytes as an indexed map, blind.
pub fn open_map<K: Sim, V: Sim>(b: &[u8]) -> R<()> {
	match IndexedMapWalker::<K, V>::from_payload(b) {
		Ok(w) => {
			ensure(index_ok_map(b), "index-accepted", || {
				format!("from_payload accepted a map index that is not valid: {}", hex(b))
			})?;
			world::count("view.damaged-accepted", 1);
			blind_map(&w);
		}
		Err(_) => world::count("view.damaged-refused", 1),
	}
	if let Ok(w) = IndexedMapWalker::<K, V>::from_payload_unvalidated(b) {
		// documented never to panic
		blind_map(&w);
	}
	Ok(())
}
pub fn open_seq<T: Sim>(b: &[u8]) -> R<()> {
	match IndexedSeqWalker::<T>::from_payload(b) {
		Ok(w) => {
			ensure(index_ok_seq(b), "index-accepted", || {
				format!("from_payload accepted a sequence index that is not valid: {}", hex(b))
			})?;
			world::count("view.damaged-accepted", 1);
			blind_seq(&w);
		}
		Err(_) => world::count("view.damaged-refused", 1),
	}
	Ok(())
}

/// Indexed field kinds behind one interface.
pub trait IdxMap: Sim + IndexedMapEncoded {
	fn view(v: IndexedMapView<'_, Self::Key, Self::Value>, x: &Exp, what: &str) -> R<()>;
	fn open(b: &[u8]) -> R<()>;
	fn isolate(b: &[u8]) -> R<()>;
}
impl<C> IdxMap for C
where
	C: Sim + IndexedMapEncoded,
	C::Key: Sim,
	C::Value: Sim,
{
	fn view(v: IndexedMapView<'_, C::Key, C::Value>, x: &Exp, what: &str) -> R<()> {
		let Some(e) = x.v else { return open_map::<C::Key, C::Value>(v.as_bytes()) };
		let w = match v.walker() {
			Ok(w) => w,
			Err(e) => return viol("view-open", format!("{what}: {e}: {}", hex(v.as_bytes()))),
		};
		world::count("view.opened", 1);
		check_map(&w, e.m())?;
		indexed_bytes::<C>(v.as_bytes(), x, what, 0)?;
		let b = v.as_bytes().to_vec();
		ensure(v.into_bytes()[..] == b[..], "view-bytes", || "into_bytes differs".into())
	}
	fn open(b: &[u8]) -> R<()> {
		open_map::<C::Key, C::Value>(b)
	}
	fn isolate(b: &[u8]) -> R<()> {
		isolate_map::<C::Key, C::Value>(b, "map")?;
		jump(b, "map", 0, |s| C::skip_indexed_map(s), None::<fn(&mut Src) -> Result<(), Error>>)
	}
}
pub trait IdxSeq: Sim + IndexedSeqEncoded {
	fn view(v: IndexedSeqView<'_, Self::Item>, x: &Exp, what: &str) -> R<()>;
	fn open(b: &[u8]) -> R<()>;
	fn isolate(b: &[u8]) -> R<()>;
}
impl<C> IdxSeq for C
where
	C: Sim + IndexedSeqEncoded,
	C::Item: Sim,
{
	fn view(v: IndexedSeqView<'_, C::Item>, x: &Exp, what: &str) -> R<()> {
		let Some(e) = x.v else { return open_seq::<C::Item>(v.as_bytes()) };
		let w = match v.walker() {
			Ok(w) => w,
			Err(e) => return viol("view-open", format!("{what}: {e}: {}", hex(v.as_bytes()))),
		};
		world::count("view.opened", 1);
		check_seq(&w, e.l(), false)?;
		let b = v.as_bytes().to_vec();
		ensure(v.into_bytes()[..] == b[..], "view-bytes", || "into_bytes differs".into())
	}
	fn open(b: &[u8]) -> R<()> {
		open_seq::<C::Item>(b)
	}
	fn isolate(b: &[u8]) -> R<()> {
		isolate_seq::<C::Item>(b, "seq")?;
		let keep = match IndexedSeqWalker::<C::Item>::from_payload(b) {
			Ok(w) if w.is_indexed() => w.element_bytes(w.len() - 1).map(|e| e.len()).unwrap_or(0),
			_ => return Ok(()),
		};
		jump(b, "seq", keep, |s| C::skip_indexed_seq(s), Some(|s: &mut Src| C::Item::skip_revisioned(s)))
	}
}
pub trait IdxSet: Sim + IndexedSetEncoded {
	fn view(v: IndexedSetView<'_, Self::Item>, x: &Exp, what: &str) -> R<()>;
	fn open(b: &[u8]) -> R<()>;
	fn isolate(b: &[u8]) -> R<()>;
}
impl<C> IdxSet for C
where
	C: Sim + IndexedSetEncoded,
	C::Item: Sim,
{
	fn view(v: IndexedSetView<'_, C::Item>, x: &Exp, what: &str) -> R<()> {
		let Some(e) = x.v else { return open_seq::<C::Item>(v.as_bytes()) };
		let w = match v.walker() {
			Ok(w) => w,
			Err(e) => return viol("view-open", format!("{what}: {e}: {}", hex(v.as_bytes()))),
		};
		world::count("view.opened", 1);
		check_seq(&w, e.l(), true)?;
		let b = v.as_bytes().to_vec();
		ensure(v.into_bytes()[..] == b[..], "view-bytes", || "into_bytes differs".into())
	}
	fn open(b: &[u8]) -> R<()> {
		open_seq::<C::Item>(b)
	}
	fn isolate(b: &[u8]) -> R<()> {
		isolate_seq::<C::Item>(b, "set")?;
		let keep = match IndexedSeqWalker::<C::Item>::from_payload(b) {
			Ok(w) if w.is_indexed() => w.element_bytes(w.len() - 1).map(|e| e.len()).unwrap_or(0),
			_ => return Ok(()),
		};
		jump(b, "set", keep, |s| C::skip_indexed_set(s), Some(|s: &mut Src| C::Item::skip_revisioned(s)))
	}
}
fn indexed_bytes<C: Sim + IndexedMapEncoded>(b: &[u8], x: &Exp, what: &str, _k: u8) -> R<()> {
	let _quiet = crate::hooks::quiet();
	let mut r = b;
	match C::deserialize_indexed_map(&mut r) {
		Ok(v) => {
			ensure(r.is_empty(), "view-bytes", || format!("{what}: {} bytes left", r.len()))?;
			check(x, &v, what)
		}
		Err(e) => viol("view-bytes", format!("{what}: {e}")),
	}
}

/// What the raw bytes of a field must be: one encoded value, nothing else.
pub fn plain_bytes<T: Sim>(b: &[u8], x: &Exp, what: &str) -> R<()> {
	let _quiet = crate::hooks::quiet();
	if x.v.is_none() {
		return Ok(());
	}
	let v: T = whole(b, what)?;
	check(x, &v, what)
}
/// Raw bytes of an indexed field.
pub fn map_bytes<T: IdxMap>(b: &[u8], x: &Exp, what: &str) -> R<()> {
	let _quiet = crate::hooks::quiet();
	if x.v.is_none() {
		return T::open(b);
	}
	indexed_bytes::<T>(b, x, what, 0)
}
pub fn seq_bytes<T: IdxSeq>(b: &[u8], x: &Exp, what: &str) -> R<()> {
	let _quiet = crate::hooks::quiet();
	if x.v.is_none() {
		return T::open(b);
	}
	let mut r = b;
	match T::deserialize_indexed_seq(&mut r) {
		Ok(v) => {
			ensure(r.is_empty(), "view-bytes", || format!("{what}: {} bytes left", r.len()))?;
			check(x, &v, what)
		}
		Err(e) => viol("view-bytes", format!("{what}: {e}")),
	}
}
pub fn set_bytes<T: IdxSet>(b: &[u8], x: &Exp, what: &str) -> R<()> {
	let _quiet = crate::hooks::quiet();
	if x.v.is_none() {
		return T::open(b);
	}
	let mut r = b;
	match T::deserialize_indexed_set(&mut r) {
		Ok(v) => {
			ensure(r.is_empty(), "view-bytes", || format!("{what}: {} bytes left", r.len()))?;
			check(x, &v, what)
		}
		Err(e) => viol("view-bytes", format!("{what}: {e}")),
	}
}

pub fn variant_bytes<T>(v: VariantView<'_, T>) -> R<Vec<u8>> {
	let b = v.as_bytes().to_vec();
	ensure(v.into_bytes()[..] == b[..], "view-bytes", || "into_bytes differs".into())?;
	Ok(b)
}

// ---------------------------------------------------------------------------
// Isolation of indexed access

/// Overwrite the part `p` of `b` (a slice borrowed from `b`).
fn scrap(b: &[u8], p: &[u8], o: &mut [u8]) {
	let at = p.as_ptr() as usize - b.as_ptr() as usize;
	for x in &mut o[at..at + p.len()] {
		*x = pick(256) as u8
	}
	world::count("fault.overwritten", 1);
}

/// A lookup finds its entry whatever the other values hold, in few probes.
pub fn isolate_map<K: Sim, V: Sim>(b: &[u8], what: &str) -> R<()> {
	let Ok(w) = IndexedMapWalker::<K, V>::from_payload(b) else {
		return viol("view-open", format!("{what}: {}", hex(b)));
	};
	let Some(es) = w.entries() else { return Ok(()) };
	let es: Vec<(&[u8], &[u8])> = es.collect();
	let n = es.len();
	let t = picku(n);
	let mut d = b.to_vec();
	for (i, e) in es.iter().enumerate() {
		if i != t {
			scrap(b, e.1, &mut d)
		}
	}
	tr!("{what}: {n} entries, all values but that of entry {t} overwritten: {}", hex(&d));
	let w = match IndexedMapWalker::<K, V>::from_payload(&d) {
		Ok(w) => w,
		Err(e) => return viol("isolation", format!("{what}: damaged values refused on opening: {e}")),
	};
	// floor(log2 n) + 1 halvings, and one more look for a search that
	// compares for equality only at its end
	let log = n.ilog2() as u64 + 2;
	for _ in 0..2 + pick(3) {
		// the intact entry, or any other: a lookup compares keys only
		let i = if chance(1, 2) { t } else { picku(n) };
		let hint = match pick(4) {
			0 => None,
			1 => Some(i as u32),
			2 => Some(picku(n) as u32),
			_ => Some((n + picku(5)) as u32),
		};
		let needle = es[i].0;
		let mut probes = 0u64;
		let r = w.find_value_bytes(|k| {
			probes += 1;
			k.cmp(needle)
		});
		let got = match &r {
			Ok(Some(v)) => Some(v.len()),
			_ => None,
		};
		ensure(got == Some(es[i].1.len()), "isolation", || {
			format!("{what}: lookup of entry {i} beside damaged values gave {r:?}")
		})?;
		if i == t {
			ensure(r.ok().flatten() == Some(es[i].1), "isolation", || {
				format!("{what}: the intact value was not returned")
			})?;
		}
		ensure(probes <= log, "probes", || {
			format!("{what}: looked at {probes} of {n} keys, expected at most {log}")
		})?;
		let mut probes = 0u64;
		let r = w.find_value_bytes_with_hint(hint, |k| {
			probes += 1;
			k.cmp(needle)
		});
		let max = match hint {
			Some(h) if h as usize == i => 1,
			Some(h) if (h as usize) < n => log + 1,
			_ => log,
		};
		ensure(r.is_ok_and(|r| r.value.is_some_and(|v| i != t || v == es[i].1)), "isolation", || {
			format!("{what}: hinted lookup of entry {i} beside damaged values failed")
		})?;
		ensure(probes <= max, "probes", || {
			format!("{what}: with hint {hint:?} looked at {probes} of {n} keys to find entry {i}, expected at most {max}")
		})?;
		// a missing key
		let mut probes = 0u64;
		let mut miss = needle.to_vec();
		miss.push(0);
		if !es.iter().any(|e| e.0 == &miss[..]) {
			let r = w.find_value_bytes(|k| {
				probes += 1;
				k.cmp(&miss)
			});
			ensure(matches!(r, Ok(None)), "isolation", || format!("{what}: found a missing key"))?;
			ensure(probes <= log, "probes", || {
				format!("{what}: looked at {probes} of {n} keys to miss, expected at most {log}")
			})?;
		}
		world::count("view.lookups", 1);
	}
	// opened without the check, nothing but the hinted entry is needed
	let Some(lo) = index_of(b, true) else { return Ok(()) };
	let table = lo - 8 - n * 8;
	let mut d = b.to_vec();
	for (i, e) in es.iter().enumerate() {
		if i != t {
			scrap(b, e.0, &mut d);
			scrap(b, e.1, &mut d);
			if i != t + 1 {
				for x in &mut d[table + i * 8..table + i * 8 + 8] {
					*x = pick(256) as u8
				}
			}
		}
	}
	tr!("{what}: only entry {t} of {n} is intact: {}", hex(&d));
	let w = match IndexedMapWalker::<K, V>::from_payload_unvalidated(&d) {
		Ok(w) => w,
		Err(e) => return viol("isolation", format!("{what}: opening without the check refused it: {e}")),
	};
	ensure(w.len() == n && w.is_indexed(), "isolation", || format!("{what}: {} entries of {n}", w.len()))?;
	let mut probes = 0u64;
	let r = w.find_value_bytes_with_hint(Some(t as u32), |k| {
		probes += 1;
		k.cmp(es[t].0)
	});
	ensure(r.is_ok_and(|r| r.value == Some(es[t].1) && r.hint == Some(t as u32)) && probes == 1, "isolation", || {
		format!("{what}: hinted lookup of the only intact entry {t} of {n} failed ({probes} probes)")
	})?;
	// anything but a crash will do
	let j = picku(n);
	let _ = w.find_value_bytes(|k| k.cmp(es[j].0));
	let _ = w.find_value_bytes_with_hint(Some(j as u32), |k| k.cmp(es[j].0));
	ensure(w.entries().is_some_and(|e| e.count() == n), "isolation", || format!("{what}: entries are not {n}"))
}
/// Positional access reaches its element whatever the others hold.
pub fn isolate_seq<T: Sim>(b: &[u8], what: &str) -> R<()> {
	let Ok(w) = IndexedSeqWalker::<T>::from_payload(b) else {
		return viol("view-open", format!("{what}: {}", hex(b)));
	};
	if !w.is_indexed() {
		return Ok(());
	}
	let n = w.len();
	let t = picku(n);
	let mut d = b.to_vec();
	let mut want: &[u8] = &[];
	for i in 0..n {
		match w.element_bytes(i) {
			Ok(e) if i == t => want = e,
			Ok(e) => scrap(b, e, &mut d),
			Err(e) => return viol("view-lookup", format!("{what}: element {i} of {n}: {e}")),
		}
	}
	tr!("{what}: {n} elements, all but {t} overwritten: {}", hex(&d));
	let w = match IndexedSeqWalker::<T>::from_payload(&d) {
		Ok(w) => w,
		Err(e) => return viol("isolation", format!("{what}: damaged elements refused on opening: {e}")),
	};
	world::count("view.lookups", 1);
	ensure(w.element_bytes(t).ok() == Some(want), "isolation", || {
		format!("{what}: element {t} of {n} beside damaged elements is not {}", hex(want))
	})?;
	// opened without the check, the other offsets do not matter either
	let Some(lo) = index_of(b, false) else { return Ok(()) };
	let table = lo - n * 4;
	for i in 0..n {
		if i != t && i != t + 1 {
			for x in &mut d[table + i * 4..table + i * 4 + 4] {
				*x = pick(256) as u8
			}
		}
	}
	tr!("{what}: and all offsets but its own: {}", hex(&d));
	match IndexedSeqWalker::<T>::from_payload_unvalidated(&d) {
		Ok(w) => ensure(w.len() == n && w.element_bytes(t).ok() == Some(want), "isolation", || {
			format!("{what}: element {t} of {n} beside damaged offsets is not {}", hex(want))
		}),
		Err(e) => viol("isolation", format!("{what}: opening without the check refused it: {e}")),
	}
}
/// Skipping the container jumps: the same few calls for any number of entries,
/// whatever the entries hold.  `last` skips the final element of a sequence.
pub fn jump<F, G>(b: &[u8], what: &str, keep: usize, skip: F, last: Option<G>) -> R<()>
where
	F: Fn(&mut Src) -> Result<(), Error>,
	G: Fn(&mut Src) -> Result<(), Error>,
{
	let p = index_of(b, last.is_none());
	let Some(lo) = p else { return Ok(()) };
	let mut d = b.to_vec();
	let hi = b.len() - keep;
	for x in &mut d[lo..hi] {
		*x = pick(256) as u8
	}
	world::count("fault.overwritten", 1);
	let mut tail = 0;
	if let Some(l) = &last {
		let mut s = Src::new(&b[hi..]);
		if l(&mut s).is_err() || s.pos() != keep {
			return viol("view-bytes", format!("{what}: the last element does not skip"));
		}
		tail = s.ctl.calls.get();
	}
	d.extend_from_slice(&[0xa5; 9]);
	tr!("{what}: contents overwritten: {}", hex(&d));
	let mut s = Src::new(&d);
	let r = skip(&mut s);
	let calls = s.ctl.calls.get();
	ensure(r.is_ok() && s.pos() == b.len(), "isolation", || {
		format!("{what}: skip over damaged contents ended at {} of {} ({:?})", s.pos(), b.len(), r.err())
	})?;
	world::count("act.jumps", 1);
	ensure(calls <= 16 + tail, "calls", || {
		format!("{what}: skip took {calls} source calls for {} bytes ({tail} for the last element)", b.len())
	})
}
/// Where the contents start, if an index precedes them.
fn index_of(b: &[u8], map: bool) -> Option<usize> {
	if b.first()? & 1 == 0 {
		return None;
	}
	let (n, h) = match b[1] {
		x @ 0..=250 => (x as usize, 2),
		251 => (u16::from_le_bytes([b[2], b[3]]) as usize, 4),
		_ => return None,
	};
	Some(if map { h + n * 8 + 8 } else { h + n * 4 })
}

// ---------------------------------------------------------------------------
// Derived types
// ---------------------------------------------------------------------------

/// How a struct walker stands over the record.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
	/// sequential over the reader
	Wire,
	/// random access over a borrowed payload
	Indexed,
	/// sequential over an upgraded copy
	Owned,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
	Decode,
	Skip,
	Walk,
	IntoWalk,
	IntoBytes,
}

pub struct Plan {
	pub mode: Mode,
	pub order: Vec<usize>,
	pub wr: u16,
	/// revision whose layout the walker hands out
	pub lw: u16,
	pub sequential: bool,
	pub only: Option<usize>,
}

pub fn mode_of(d: &Def, wr: u16) -> Mode {
	if wr != d.rev && d.has_conv() {
		Mode::Owned
	} else if d.layout(wr) == Lay::OptIdx && matches!(d.kind, Kind::Struct(_)) {
		Mode::Indexed
	} else {
		Mode::Wire
	}
}

pub fn plan(fam: usize, build: usize, x: &Exp, rev: u16, n: usize, cx: &Cx) -> R<Plan> {
	let d = def(fam, build);
	if cx.blind {
		// the wire revision is whatever the damaged record says
		let order = (0..n).collect();
		let wr = rev.clamp(1, d.rev);
		let mode = mode_of(d, wr);
		let lw = if mode == Mode::Owned { d.rev } else { wr };
		return Ok(Plan { mode, order, wr, lw, sequential: true, only: None });
	}
	let wr = def(fam, x.wb).rev;
	let mode = mode_of(d, wr);
	ensure(rev == wr || (mode == Mode::Owned && rev == d.rev), "walk-revision", || {
		format!("walker of {} says revision {rev}, record has {wr}", d.name)
	})?;
	let sequential = mode != Mode::Indexed;
	let only = cx.only.take();
	let order = if let Some(i) = only {
		assert!(mode == Mode::Indexed, "harness: no random access");
		let mut o: Vec<usize> = (0..picku(4)).map(|_| picku(n)).collect();
		o.push(i);
		o
	} else if sequential {
		(0..n).collect()
	} else {
		(0..if n == 0 { 0 } else { n + picku(3) }).map(|_| picku(n)).collect()
	};
	Ok(Plan { mode, order, wr, lw: if mode == Mode::Owned { d.rev } else { wr }, sequential, only })
}

pub fn act(p: &Plan, cx: &Cx, k: usize) -> Act {
	if cx.tired() || p.only.is_some_and(|o| o != p.order[k]) {
		return Act::Skip;
	}
	let last = k + 1 == p.order.len();
	match pick(16) {
		0..=5 => Act::Decode,
		6..=8 => Act::Skip,
		14 if last || chance(1, 4) => Act::IntoWalk,
		15 if last || chance(1, 4) => Act::IntoBytes,
		_ => Act::Walk,
	}
}

/// Verdict on an operation that may legitimately be unsupported here.
pub fn soft<T>(
	cx: &Cx,
	name: &str,
	at: usize,
	must: bool,
	r: Result<T, Error>,
) -> R<Option<T>> {
	if must || cx.blind {
		return match cx.settle(name, at, r)? {
			Settled::Done(v) => Ok(Some(v)),
			Settled::Retry => Err(Stop::Faulted),
		};
	}
	cx.ctl.armed.set(None);
	match r {
		Ok(v) => Ok(Some(v)),
		Err(e) => {
			tr!("    {name} @{at} unsupported here: {e}");
			if cx.ctl.fired.get() || crate::hooks::fired() {
				if cx.torn {
					return Err(Stop::Faulted);
				}
				cx.ctl.pos.set(at);
				return Ok(None);
			}
			ensure(cx.pos() == at, "refusal-moved", || {
				format!("{name} failed ({e}) and moved the reader {at} -> {}", cx.pos())
			})?;
			Ok(None)
		}
	}
}

#[macro_export]
macro_rules! sim_struct {
	($T:ident, $W:ident, $fam:expr, $build:expr, [$(($i:tt, $f:tt, $F:ty, $kind:ident, $dec:ident, $skp:ident, $wlk:ident, $iwlk:ident, $byt:ident)),* $(,)?]) => {
		impl $crate::walkers::Sim for $T {
			fn schema() -> $crate::val::Sc {
				$crate::val::Sc::Der($fam, $build)
			}
			fn from_val(v: &$crate::val::Val) -> Self {
				let _l = v.l();
				$T { $($f: <$F as $crate::walkers::Sim>::from_val(&_l[$i]),)* }
			}
			fn to_val(&self) -> $crate::val::Val {
				$crate::val::Val::L(vec![$(<$F as $crate::walkers::Sim>::to_val(&self.$f)),*])
			}
			#[allow(unused_mut, unused_variables, unreachable_code)]
			fn drive<'r>(
				mut w: Self::Walker<'r, $crate::io::Src>,
				x: &$crate::walkers::Exp,
				cx: &$crate::walkers::Cx,
			) -> $crate::world::R<$crate::walkers::Pos> {
				use $crate::walkers::{Act, Mode, Pos};
				const IX: &[usize] = &[$($i),*];
				const N: usize = IX.len();
				let p = $crate::walkers::plan($fam, $build, x, w.revision(), N, cx)?;
				let d = $crate::val::def($fam, $build);
				let done = if p.mode == Mode::Wire { Pos::Mid } else { Pos::End };
				let alive: Vec<&$crate::val::Field> = d.fields().iter().filter(|f| f.alive(d.rev)).collect();
				for (k, i) in p.order.iter().enumerate() {
					let fx = x.of(x.v.map(|v| &v.l()[*i]));
					let present = p.mode == Mode::Owned || alive[*i].start <= p.wr;
					let native = p.mode == Mode::Wire
						&& present
						&& !(d.layout(p.wr) == $crate::val::Lay::Legacy && (alive[*i].g.fixed || alive[*i].g.specialised));
					let last = k + 1 == p.order.len();
					let at = cx.pos();
					match *i {
						$($i => {
							match $crate::walkers::act(&p, cx, k) {
								Act::Decode => {
									let g: $F = cx.op(stringify!($dec), || w.$dec())?;
									$crate::walkers::check(&fx, &g, stringify!($dec))?;
								}
								Act::Skip => cx.op(stringify!($skp), || w.$skp())?,
								a => $crate::sim_field!(@$kind, $T, $F, a, w, $dec, $wlk, $iwlk, $byt, fx, cx, at, native, present, last, done, p),
							}
						})*
						_ => unreachable!(),
					}
				}
				Ok(Pos::End)
			}
		}
	};
}

#[macro_export]
macro_rules! sim_field {
	(@plain, $T:ident, $F:ty, $a:expr, $w:ident, $dec:ident, $wlk:ident, $iwlk:ident, $byt:ident, $fx:ident, $cx:ident, $at:ident, $native:ident, $present:ident, $last:ident, $done:ident, $p:ident) => {
		match $a {
			Act::Walk => {
				if $native {
					match $crate::walk_child!($cx, $F, stringify!($wlk), &$fx, $w.$wlk()) {
						Some(Pos::Mid) => return Ok(Pos::Mid),
						Some(Pos::End) => {}
						// refused: the field is still there
						None => {
							let g: $F = $cx.op(stringify!($dec), || $w.$dec())?;
							$crate::walkers::check(&$fx, &g, stringify!($dec))?;
						}
					}
				} else {
					$cx.arm();
					let r = $w.$wlk();
					match $crate::walkers::soft($cx, stringify!($wlk), $at, false, r)? {
						Some(c) => { <$F as $crate::walkers::Sim>::drive(c, &$fx, $cx)?; }
						None => {
							let g: $F = $cx.op(stringify!($dec), || $w.$dec())?;
							$crate::walkers::check(&$fx, &g, stringify!($dec))?;
						}
					}
				}
			}
			Act::IntoWalk => {
				if $native && <$F as $crate::walkers::Sim>::walk_refused() {
					let r = $w.$iwlk().map(|_| ()).map_err(|_| ());
					$cx.refused(stringify!($iwlk), r, $at)?;
					return Ok(Pos::Mid);
				}
				$cx.arm();
				let r = $w.$iwlk();
				return match $crate::walkers::soft($cx, stringify!($iwlk), $at, $native, r)? {
					Some(c) => {
						let q = <$F as $crate::walkers::Sim>::drive(c, &$fx, $cx)?;
						Ok(if $p.mode != Mode::Wire { Pos::End } else if $last { q } else { Pos::Mid })
					}
					None => Ok($done),
				};
			}
			_ => {
				$cx.arm();
				let r = $w.$byt();
				if let Some(b) = $crate::walkers::soft($cx, stringify!($byt), $at, $present, r)? {
					// a field may use a special layout; then its bytes are not a plain value
					if !$crate::walkers::special_layout($p.lw, $crate::val::def(
						match <$T as $crate::walkers::Sim>::schema() { $crate::val::Sc::Der(f, _) => f, _ => 0 },
						match <$T as $crate::walkers::Sim>::schema() { $crate::val::Sc::Der(_, b) => b, _ => 0 }), stringify!($byt))
					{
						$crate::walkers::plain_bytes::<$F>(&b, &$fx, stringify!($byt))?;
					}
					return Ok(if $last && $native { Pos::End } else { $done });
				}
				return Ok($done);
			}
		}
	};
	(@map, $($r:tt)*) => { $crate::sim_field!(@indexed, IdxMap, map_bytes, $($r)*) };
	(@seq, $($r:tt)*) => { $crate::sim_field!(@indexed, IdxSeq, seq_bytes, $($r)*) };
	(@set, $($r:tt)*) => { $crate::sim_field!(@indexed, IdxSet, set_bytes, $($r)*) };
	(@indexed, $Tr:ident, $bytes:ident, $T:ident, $F:ty, $a:expr, $w:ident, $dec:ident, $wlk:ident, $iwlk:ident, $byt:ident, $fx:ident, $cx:ident, $at:ident, $native:ident, $present:ident, $last:ident, $done:ident, $p:ident) => {{
		let legacy = $crate::walkers::d_layout::<$T>($p.lw);
		match $a {
			Act::Walk => {
				$cx.arm();
				let r = $w.$wlk();
				match $crate::walkers::soft($cx, stringify!($wlk), $at, $present && !legacy && $p.mode != Mode::Owned, r) {
					Ok(Some(v)) => <$F as $crate::walkers::$Tr>::view(v, &$fx, stringify!($wlk))?,
					Ok(None) => {
						let g: $F = $cx.op(stringify!($dec), || $w.$dec())?;
						$crate::walkers::check(&$fx, &g, stringify!($dec))?;
					}
					Err($crate::world::Stop::Faulted) if !$cx.blind && !$cx.torn => {
						// the access failed; the field is still there
						let v = $cx.op(stringify!($wlk), || $w.$wlk())?;
						<$F as $crate::walkers::$Tr>::view(v, &$fx, stringify!($wlk))?;
					}
					Err(e) => return Err(e),
				}
			}
			Act::IntoWalk => {
				$cx.arm();
				let r = $w.$iwlk();
				return match $crate::walkers::soft($cx, stringify!($iwlk), $at, $present && !legacy && $p.mode != Mode::Owned, r)? {
					Some(v) => {
						<$F as $crate::walkers::$Tr>::view(v, &$fx, stringify!($iwlk))?;
						Ok(if $last && $native { Pos::End } else { $done })
					}
					None => Ok($done),
				};
			}
			_ => {
				$cx.arm();
				let r = $w.$byt();
				if let Some(b) = $crate::walkers::soft($cx, stringify!($byt), $at, $present, r)? {
					if legacy {
						$crate::walkers::plain_bytes::<$F>(&b, &$fx, stringify!($byt))?;
					} else {
						$crate::walkers::$bytes::<$F>(&b, &$fx, stringify!($byt))?;
					}
					return Ok(if $last && $native { Pos::End } else { $done });
				}
				return Ok($done);
			}
		}
	}};
}

pub fn d_layout<T: Sim>(wr: u16) -> bool {
	match T::schema() {
		Sc::Der(f, b) => def(f, b).layout(wr) == Lay::Legacy,
		_ => true,
	}
}
/// Does the accessor `into_<f>_bytes` hand out `fixed` / `specialised` bytes?
pub fn special_layout(wr: u16, d: &Def, accessor: &str) -> bool {
	let name = accessor.trim_start_matches("into_").trim_end_matches("_bytes");
	d.layout(wr) == Lay::Legacy
		&& d.fields().iter().any(|f| f.g.name == name && (f.g.fixed || f.g.specialised))
}

/// State shared by the arms of an enum session.
pub struct EPlan {
	pub mode: Mode,
	pub wr: u16,
	/// expected variant
	pub gi: Option<usize>,
	pub done: Pos,
	/// the current layout honours `fixed` and `specialised`
	pub special: bool,
}
#[allow(clippy::too_many_arguments)]
pub fn eplan(
	fam: usize,
	build: usize,
	x: &Exp,
	rev: u16,
	disc: u32,
	name: Option<&'static str>,
	table: &[(&'static str, u32)],
	cx: &Cx,
) -> R<EPlan> {
	let d = def(fam, build);
	let wr = if cx.blind { rev.clamp(1, d.rev) } else { def(fam, x.wb).rev };
	let owned = wr != d.rev && d.has_conv();
	let mode = if owned {
		Mode::Owned
	} else if d.layout(wr) != Lay::Legacy {
		Mode::Indexed
	} else {
		Mode::Wire
	};
	let done = if mode == Mode::Wire { Pos::Mid } else { Pos::End };
	let gi = x.v.map(|v| v.t().0 as usize);
	if let Some(gi) = gi {
		ensure(rev == wr || (owned && rev == d.rev), "walk-revision", || {
			format!("walker of {} says revision {rev}, record has {wr}", d.name)
		})?;
		let want = d.variants().iter().find(|v| v.gi == gi).expect("harness: variant").g.name;
		ensure(name == Some(want), "walk-variant", || {
			format!("discriminant {disc} at revision {rev} names {name:?} instead of {want}")
		})?;
		ensure(table.iter().any(|t| t.0 == want && t.1 == disc), "walk-variant", || {
			format!("variant table at revision {rev} lacks ({want}, {disc})")
		})?;
	}
	Ok(EPlan { mode, wr, gi, done, special: d.layout(d.rev) == Lay::Legacy })
}

#[macro_export]
macro_rules! sim_enum {
	($T:ident, $fam:expr, $build:expr, [$(($gi:tt, $V:ident, $is:ident, $kind:ident $rest:tt)),* $(,)?]) => {
		impl $crate::walkers::Sim for $T {
			fn schema() -> $crate::val::Sc {
				$crate::val::Sc::Der($fam, $build)
			}
			fn from_val(v: &$crate::val::Val) -> Self {
				let (n, _l) = v.t();
				match n {
					$($gi => $crate::sim_variant!(@from, $kind, $T, $V, _l, $rest),)*
					_ => panic!("harness: variant"),
				}
			}
			fn to_val(&self) -> $crate::val::Val {
				$(if let Some(l) = $crate::sim_variant!(@to, $kind, $T, $V, self, $rest) {
					return $crate::val::Val::T($gi, l);
				})*
				unreachable!()
			}
			#[allow(unused_mut, unused_variables, unreachable_code)]
			fn drive<'r>(
				w: Self::Walker<'r, $crate::io::Src>,
				x: &$crate::walkers::Exp,
				cx: &$crate::walkers::Cx,
			) -> $crate::world::R<$crate::walkers::Pos> {
				let (rev, disc) = (w.revision(), w.discriminant());
				let p = $crate::walkers::eplan($fam, $build, x, rev, disc,
					<$T>::walk_revisioned_variant_name(rev, disc), <$T>::walk_revisioned_variant_table(rev), cx)?;
				let is: &[(usize, bool)] = &[$(($gi, w.$is())),*];
				let gi = match p.gi {
					Some(g) => {
						for (i, b) in is {
							$crate::world::ensure(*b == (*i == g), "walk-variant", || format!("is_<variant {i}> is {b} for variant {g}"))?;
						}
						g
					}
					None => match is.iter().find(|b| b.1) {
						Some(b) => b.0,
						None => return Ok(p.done),
					},
				};
				// now and then ask for the wrong variant
				let pickv = if $crate::world::chance(1, 10) { is[$crate::world::picku(is.len())].0 } else { gi };
				let right = pickv == gi;
				let at = cx.pos();
				let d = $crate::val::def($fam, $build);
				let vd = d.variants().iter().find(|v| v.gi == pickv).expect("harness: variant");
				let l: &[$crate::val::Val] = match x.v { Some(v) if right => v.t().1, _ => &[] };
				match pickv {
					$($gi => $crate::sim_variant!(@drive, $kind, w, x, cx, p, l, right, at, vd, $rest),)*
					_ => unreachable!(),
				}
			}
		}
	};
}

#[macro_export]
macro_rules! sim_variant {
	// ---- construction
	(@from, unit, $T:ident, $V:ident, $l:ident, ($($r:tt)*)) => { $T::$V };
	(@from, single, $T:ident, $V:ident, $l:ident, ($F:ty, $into:ident, $dec:ident, $view:ident, tuple)) => {
		$T::$V(<$F as $crate::walkers::Sim>::from_val(&$l[0]))
	};
	(@from, single, $T:ident, $V:ident, $l:ident, ($F:ty, $into:ident, $dec:ident, $view:ident, $f:ident)) => {
		$T::$V { $f: <$F as $crate::walkers::Sim>::from_val(&$l[0]) }
	};
	(@from, multi, $T:ident, $V:ident, $l:ident, ($view:ident, tuple, [$(($i:tt, $b:ident, $F:ty)),*])) => {
		$T::$V($(<$F as $crate::walkers::Sim>::from_val(&$l[$i])),*)
	};
	(@from, multi, $T:ident, $V:ident, $l:ident, ($view:ident, named, [$(($i:tt, $b:ident, $F:ty)),*])) => {
		$T::$V { $($b: <$F as $crate::walkers::Sim>::from_val(&$l[$i])),* }
	};
	// ---- observation
	(@to, unit, $T:ident, $V:ident, $s:ident, ($($r:tt)*)) => {
		if let $T::$V = $s { Some(vec![]) } else { None }
	};
	(@to, single, $T:ident, $V:ident, $s:ident, ($F:ty, $into:ident, $dec:ident, $view:ident, tuple)) => {
		if let $T::$V(a) = $s { Some(vec![<$F as $crate::walkers::Sim>::to_val(a)]) } else { None }
	};
	(@to, single, $T:ident, $V:ident, $s:ident, ($F:ty, $into:ident, $dec:ident, $view:ident, $f:ident)) => {
		if let $T::$V { $f } = $s { Some(vec![<$F as $crate::walkers::Sim>::to_val($f)]) } else { None }
	};
	(@to, multi, $T:ident, $V:ident, $s:ident, ($view:ident, tuple, [$(($i:tt, $b:ident, $F:ty)),*])) => {
		if let $T::$V($($b),*) = $s { Some(vec![$(<$F as $crate::walkers::Sim>::to_val($b)),*]) } else { None }
	};
	(@to, multi, $T:ident, $V:ident, $s:ident, ($view:ident, named, [$(($i:tt, $b:ident, $F:ty)),*])) => {
		if let $T::$V { $($b),* } = $s { Some(vec![$(<$F as $crate::walkers::Sim>::to_val($b)),*]) } else { None }
	};
	// ---- walking
	(@drive, unit, $w:ident, $x:ident, $cx:ident, $p:ident, $l:ident, $right:ident, $at:ident, $vd:ident, ($into:ident, $dec:ident)) => {{
		let r = if $crate::world::chance(1, 2) { $w.$into() } else { $w.$dec() };
		if !$right {
			$cx.refuse(stringify!($into), r, $at)?;
			return Ok($p.done);
		}
		// a variant without fields now may have carried fields when written
		$cx.once(stringify!($into), || r)?;
		Ok($crate::walkers::Pos::End)
	}};
	(@drive, single, $w:ident, $x:ident, $cx:ident, $p:ident, $l:ident, $right:ident, $at:ident, $vd:ident, ($F:ty, $into:ident, $dec:ident, $view:ident, $shape:ident)) => {{
		use $crate::walkers::{Mode, Pos};
		let fx = $x.of($l.first());
		let fld = $vd.fields.iter().find(|f| f.end == $crate::val::NEVER);
		let present = $p.mode == Mode::Owned || fld.is_some_and(|f| f.start <= $p.wr);
		let native = $p.mode == Mode::Wire && present;
		if !$right {
			match $crate::world::pick(3) {
				0 => $cx.refuse(stringify!($into), $w.$into().map(|_| ()), $at)?,
				1 => $cx.refuse(stringify!($dec), $w.$dec().map(|_| ()), $at)?,
				_ => $cx.refuse(stringify!($view), $w.$view().map(|_| ()), $at)?,
			}
			return Ok($p.done);
		}
		let special = $p.mode == Mode::Wire && fld.is_some_and(|f| f.g.fixed || f.g.specialised);
		match $crate::world::pick(4) {
			0 | 1 => {
				let g: $F = $cx.once(stringify!($dec), || $w.$dec())?;
				$crate::walkers::check(&fx, &g, stringify!($dec))?;
				Ok(Pos::End)
			}
			2 => {
				if native && <$F as $crate::walkers::Sim>::walk_refused() {
					let r = $w.$into().map(|_| ()).map_err(|_| ());
					$cx.refused(stringify!($into), r, $at)?;
					return Ok(Pos::Mid);
				}
				$cx.arm();
				let r = $w.$into();
				match $crate::walkers::soft($cx, stringify!($into), $at, native && !special, r)? {
					Some(c) => {
						let q = <$F as $crate::walkers::Sim>::drive(c, &fx, $cx)?;
						Ok(if $p.mode == Mode::Wire { q } else { Pos::End })
					}
					None => Ok($p.done),
				}
			}
			_ => {
				$cx.arm();
				let r = $w.$view();
				match $crate::walkers::soft($cx, stringify!($view), $at, present, r)? {
					Some(v) => {
						let b = $crate::walkers::variant_bytes(v)?;
						$crate::walkers::plain_bytes::<$F>(&b, &fx, stringify!($view))?;
						Ok(Pos::End)
					}
					None => Ok($p.done),
				}
			}
		}
	}};
	(@drive, multi, $w:ident, $x:ident, $cx:ident, $p:ident, $l:ident, $right:ident, $at:ident, $vd:ident, ($view:ident, $shape:ident, [$(($i:tt, $b:ident, $F:ty)),*])) => {{
		use $crate::walkers::{Mode, Pos};
		if !$right {
			$cx.refuse(stringify!($view), $w.$view().map(|_| ()), $at)?;
			return Ok($p.done);
		}
		$cx.arm();
		let r = $w.$view();
		match $crate::walkers::soft($cx, stringify!($view), $at, $p.mode == Mode::Indexed, r)? {
			Some(v) => {
				let b = $crate::walkers::variant_bytes(v)?;
				// raw bytes in the current layout, which may use special codecs
				if $p.mode == Mode::Owned && $p.special && $vd.fields.iter().any(|f| f.g.fixed || f.g.specialised) {
					return Ok(Pos::End);
				}
				let mut r = &b[..];
				$(
					if $x.v.is_none() || $vd.fields.iter().filter(|f| f.end == $crate::val::NEVER).nth($i).is_none_or(|f| f.start <= $p.wr || $p.mode == Mode::Owned) {
						match <$F as revision::DeserializeRevisioned>::deserialize_revisioned(&mut r) {
							Ok(g) => $crate::walkers::check::<$F>(&$x.of($l.get($i)), &g, stringify!($view))?,
							Err(e) => {
								if $x.v.is_none() { return Ok(Pos::End) }
								return $crate::world::viol("view-bytes", format!("{}: {e}", stringify!($view)));
							}
						}
					}
				)*
				$crate::world::ensure($x.v.is_none() || r.is_empty(), "view-bytes", || format!("{}: {} bytes left over", stringify!($view), r.len()))?;
				Ok(Pos::End)
			}
			None => Ok($p.done),
		}
	}};
}
