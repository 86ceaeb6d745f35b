//! Type-erased access to the types under simulation.

use revision::optimised::indexed::{IndexedMapView, IndexedSeqView, IndexedSetView};
use revision::{Error, SliceReader};

use crate::io::{Sink, Src};
use crate::val::*;
use crate::walkers::*;
use crate::world::R;

pub struct Entry {
	pub name: String,
	/// derived family and build
	pub fam: Option<(usize, usize)>,
	pub sc: Sc,
	pub ops: Box<dyn DynType>,
}

/// One in-memory value.
pub trait Inst: Send + Sync {
	fn val(&self) -> Val;
	fn encode(&self, s: &mut Sink) -> Result<(), Error>;
	fn to_writer(&self, s: &mut Sink) -> Result<(), Error>;
	fn to_vec(&self) -> Result<Vec<u8>, Error>;
	/// append to a growing buffer
	fn append(&self, v: &mut Vec<u8>) -> Result<(), Error>;
}

pub trait DynType: Send + Sync {
	fn make(&self, v: &Val) -> Box<dyn Inst>;
	fn decode(&self, s: &mut Src) -> Result<Val, Error>;
	fn from_reader(&self, s: &mut Src) -> Result<Val, Error>;
	fn decode_slice(&self, b: &mut &[u8]) -> Result<Val, Error>;
	fn from_slice(&self, b: &[u8]) -> Result<Val, Error>;
	/// decode, drop: used where the value itself does not matter
	fn skip(&self, s: &mut Src) -> Result<(), Error>;
	fn skip_reader(&self, s: &mut Src) -> Result<(), Error>;
	fn skip_check(&self, s: &mut Src) -> Result<(), Error>;
	fn skip_check_reader(&self, s: &mut Src) -> Result<(), Error>;
	fn skip_slice(&self, b: &[u8]) -> Result<usize, Error>;
	fn skip_check_slice(&self, b: &[u8]) -> Result<usize, Error>;
	fn skip_in_slice(&self, b: &mut SliceReader<'_>) -> Result<(), Error>;
	fn walk_refused(&self) -> bool;
	fn walk(&self, s: &mut Src, x: &Exp, cx: &Cx) -> R<Pos>;
	fn walk_open(&self, s: &mut Src) -> Result<(), Error>;
	fn revision(&self) -> u16;
	/// decode and encode again, keeping the real value in between
	fn recode(&self, s: &mut Src) -> Result<Vec<u8>, Error>;
}

struct Ops<T>(std::marker::PhantomData<fn() -> T>);
struct In<T>(T);

impl<T: Sim> Inst for In<T> {
	fn val(&self) -> Val {
		self.0.to_val()
	}
	fn encode(&self, s: &mut Sink) -> Result<(), Error> {
		self.0.serialize_revisioned(s)
	}
	fn to_writer(&self, s: &mut Sink) -> Result<(), Error> {
		revision::to_writer(s, &self.0)
	}
	fn to_vec(&self) -> Result<Vec<u8>, Error> {
		revision::to_vec(&self.0)
	}
	fn append(&self, v: &mut Vec<u8>) -> Result<(), Error> {
		self.0.serialize_revisioned(v)
	}
}

impl<T: Sim> DynType for Ops<T> {
	fn make(&self, v: &Val) -> Box<dyn Inst> {
		Box::new(In(T::from_val(v)))
	}
	fn decode(&self, s: &mut Src) -> Result<Val, Error> {
		T::deserialize_revisioned(s).map(|v| v.to_val())
	}
	fn from_reader(&self, s: &mut Src) -> Result<Val, Error> {
		revision::from_reader::<_, T>(s).map(|v| v.to_val())
	}
	fn decode_slice(&self, b: &mut &[u8]) -> Result<Val, Error> {
		T::deserialize_revisioned(b).map(|v| v.to_val())
	}
	fn from_slice(&self, b: &[u8]) -> Result<Val, Error> {
		revision::from_slice::<T>(b).map(|v| v.to_val())
	}
	fn skip(&self, s: &mut Src) -> Result<(), Error> {
		T::skip_revisioned(s)
	}
	fn skip_reader(&self, s: &mut Src) -> Result<(), Error> {
		revision::skip_reader::<T, _>(s)
	}
	fn skip_check(&self, s: &mut Src) -> Result<(), Error> {
		T::skip_check_revisioned(s)
	}
	fn skip_check_reader(&self, s: &mut Src) -> Result<(), Error> {
		revision::skip_check_reader::<T, _>(s)
	}
	fn skip_slice(&self, b: &[u8]) -> Result<usize, Error> {
		revision::skip_slice::<T>(b)
	}
	fn skip_check_slice(&self, b: &[u8]) -> Result<usize, Error> {
		revision::skip_check_slice::<T>(b)
	}
	fn skip_in_slice(&self, b: &mut SliceReader<'_>) -> Result<(), Error> {
		T::skip_revisioned_slice(b)
	}
	fn walk_refused(&self) -> bool {
		T::walk_refused()
	}
	fn walk(&self, s: &mut Src, x: &Exp, cx: &Cx) -> R<Pos> {
		let at = cx.pos();
		if T::has_hand()
			&& crate::world::chance(1, 3)
			&& let Some(p) = T::hand(s, x, cx)?
		{
			return Ok(p);
		}
		if T::walk_refused() {
			let r = T::walk_revisioned(s).map(|_| ()).map_err(|_| ());
			cx.refused("walk", r, at)?;
			return Ok(Pos::Mid);
		}
		loop {
			cx.arm();
			let r = T::walk_revisioned(s);
			match cx.settle("walk", at, r)? {
				Settled::Done(w) => return T::drive(w, x, cx),
				Settled::Retry => {}
			}
		}
	}
	fn walk_open(&self, s: &mut Src) -> Result<(), Error> {
		T::walk_revisioned(s).map(|_| ())
	}
	fn revision(&self) -> u16 {
		T::revision()
	}
	fn recode(&self, s: &mut Src) -> Result<Vec<u8>, Error> {
		revision::to_vec(&T::deserialize_revisioned(s)?)
	}
}

pub fn plain<T: Sim>(o: &mut Vec<Entry>, name: &str) {
	o.push(Entry {
		name: name.to_string(),
		fam: None,
		sc: T::schema(),
		ops: Box::new(Ops::<T>(std::marker::PhantomData)),
	})
}
pub fn fam<T: Sim>(o: &mut Vec<Entry>, name: &str, fam: usize, build: usize) {
	o.push(Entry {
		name: format!("{name}@{build}"),
		fam: Some((fam, build)),
		sc: T::schema(),
		ops: Box::new(Ops::<T>(std::marker::PhantomData)),
	})
}

// ---------------------------------------------------------------------------

/// A container with an indexed encoding.
pub trait DynIdx: Send + Sync {
	fn encode(&self, v: &Val, s: &mut Sink) -> Result<(), Error>;
	fn decode(&self, s: &mut Src) -> Result<Val, Error>;
	fn skip(&self, s: &mut Src) -> Result<(), Error>;
	/// check a view over the bytes against the expected contents
	fn view(&self, b: &[u8], x: &Exp) -> R<()>;
	/// decode and encode again, keeping the real container in between
	fn recode(&self, s: &mut Src, o: &mut Sink) -> Result<(), Error>;
	/// open damaged bytes
	fn open(&self, b: &[u8]) -> R<()>;
	/// access beside damaged neighbours
	fn isolate(&self, b: &[u8]) -> R<()>;
}
pub struct IdxEntry {
	pub name: String,
	pub idx: Idx,
	pub sc: Sc,
	pub ops: Box<dyn DynIdx>,
}
struct OMap<T>(std::marker::PhantomData<fn() -> T>);
struct OSeq<T>(std::marker::PhantomData<fn() -> T>);
struct OSet<T>(std::marker::PhantomData<fn() -> T>);

impl<T: IdxMap> DynIdx for OMap<T> {
	fn encode(&self, v: &Val, s: &mut Sink) -> Result<(), Error> {
		T::from_val(v).serialize_indexed_map(s)
	}
	fn decode(&self, s: &mut Src) -> Result<Val, Error> {
		T::deserialize_indexed_map(s).map(|v| v.to_val())
	}
	fn skip(&self, s: &mut Src) -> Result<(), Error> {
		T::skip_indexed_map(s)
	}
	fn recode(&self, s: &mut Src, o: &mut Sink) -> Result<(), Error> {
		T::deserialize_indexed_map(s)?.serialize_indexed_map(o)
	}
	fn view(&self, b: &[u8], x: &Exp) -> R<()> {
		T::view(IndexedMapView::new(std::borrow::Cow::Borrowed(b)), x, "map view")
	}
	fn open(&self, b: &[u8]) -> R<()> {
		T::open(b)
	}
	fn isolate(&self, b: &[u8]) -> R<()> {
		T::isolate(b)
	}
}
impl<T: IdxSeq> DynIdx for OSeq<T> {
	fn encode(&self, v: &Val, s: &mut Sink) -> Result<(), Error> {
		T::from_val(v).serialize_indexed_seq(s)
	}
	fn decode(&self, s: &mut Src) -> Result<Val, Error> {
		T::deserialize_indexed_seq(s).map(|v| v.to_val())
	}
	fn skip(&self, s: &mut Src) -> Result<(), Error> {
		T::skip_indexed_seq(s)
	}
	fn recode(&self, s: &mut Src, o: &mut Sink) -> Result<(), Error> {
		T::deserialize_indexed_seq(s)?.serialize_indexed_seq(o)
	}
	fn view(&self, b: &[u8], x: &Exp) -> R<()> {
		T::view(IndexedSeqView::new(std::borrow::Cow::Borrowed(b)), x, "sequence view")
	}
	fn open(&self, b: &[u8]) -> R<()> {
		T::open(b)
	}
	fn isolate(&self, b: &[u8]) -> R<()> {
		T::isolate(b)
	}
}
impl<T: IdxSet> DynIdx for OSet<T> {
	fn encode(&self, v: &Val, s: &mut Sink) -> Result<(), Error> {
		T::from_val(v).serialize_indexed_set(s)
	}
	fn decode(&self, s: &mut Src) -> Result<Val, Error> {
		T::deserialize_indexed_set(s).map(|v| v.to_val())
	}
	fn skip(&self, s: &mut Src) -> Result<(), Error> {
		T::skip_indexed_set(s)
	}
	fn recode(&self, s: &mut Src, o: &mut Sink) -> Result<(), Error> {
		T::deserialize_indexed_set(s)?.serialize_indexed_set(o)
	}
	fn view(&self, b: &[u8], x: &Exp) -> R<()> {
		T::view(IndexedSetView::new(std::borrow::Cow::Borrowed(b)), x, "set view")
	}
	fn open(&self, b: &[u8]) -> R<()> {
		T::open(b)
	}
	fn isolate(&self, b: &[u8]) -> R<()> {
		T::isolate(b)
	}
}
pub fn idx_map<T: IdxMap>(o: &mut Vec<IdxEntry>, name: &str) {
	o.push(IdxEntry {
		name: name.into(),
		idx: Idx::Map,
		sc: T::schema(),
		ops: Box::new(OMap::<T>(std::marker::PhantomData)),
	})
}
pub fn idx_seq<T: IdxSeq>(o: &mut Vec<IdxEntry>, name: &str) {
	o.push(IdxEntry {
		name: name.into(),
		idx: Idx::Seq,
		sc: T::schema(),
		ops: Box::new(OSeq::<T>(std::marker::PhantomData)),
	})
}
pub fn idx_set<T: IdxSet>(o: &mut Vec<IdxEntry>, name: &str) {
	o.push(IdxEntry {
		name: name.into(),
		idx: Idx::Set,
		sc: T::schema(),
		ops: Box::new(OSet::<T>(std::marker::PhantomData)),
	})
}
