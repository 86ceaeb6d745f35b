//! `Sim` for every type the library implements its traits for.

use std::borrow::Cow;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::Hash;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use bytes::Bytes;
use chrono::{DateTime, Datelike, NaiveDate, NaiveTime, Timelike, Utc};
use ordered_float::NotNan;
use revision::{
	BorrowedReader, DeserializeRevisioned, Error, LeafWalker, MapWalker, Revisioned, SeqWalker,
	SerializeRevisioned, SkipCheckRevisioned, SkipRevisioned, WalkRevisioned,
};
use roaring::{RoaringBitmap, RoaringTreemap};
use rust_decimal::Decimal;

use crate::io::Src;
use crate::val::*;
use crate::walkers::*;
use crate::world::R;

macro_rules! leaf_drive {
	() => {
		fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
			drive_leaf(w, x, cx)
		}
	};
}
macro_rules! lp_hooks {
	() => {
		fn lp() -> bool {
			true
		}
		fn leaf_bytes(w: LeafWalker<'_, Self, Src>, f: Bf) -> Result<(), Error> {
			w.with_bytes(|b| f(b))
		}
		fn item_bytes(w: &mut SeqWalker<'_, Self, Src>, f: Bf) -> Result<(), Error> {
			w.next_item().expect("item").with_bytes(|b| f(b))
		}
		fn key_bytes<V>(e: &mut revision::MapEntry<'_, '_, Self, V, Src>, f: Bf) -> Result<(), Error> {
			e.with_key_bytes(|b| f(b))
		}
		fn value_bytes<K>(e: revision::MapEntry<'_, '_, K, Self, Src>, f: Bf) -> Result<(), Error> {
			e.with_value_bytes(|b| f(b))
		}
		fn find_bytes<'r, V: SkipRevisioned>(
			w: MapWalker<'r, Self, V, Src>,
			f: &mut dyn FnMut(&[u8]) -> Ordering,
		) -> Result<Option<LeafWalker<'r, V, Src>>, Error> {
			w.find_bytes(|b| f(b))
		}
	};
}
macro_rules! vec_lp_hooks {
	() => {
		fn vec_lp() -> bool {
			true
		}
		fn vec_leaf_bytes(w: LeafWalker<'_, Vec<Self>, Src>, f: Bf) -> Result<(), Error> {
			w.with_bytes(|b| f(b))
		}
		fn vec_item_bytes(w: &mut SeqWalker<'_, Vec<Self>, Src>, f: Bf) -> Result<(), Error> {
			w.next_item().expect("item").with_bytes(|b| f(b))
		}
		fn vec_key_bytes<V>(
			e: &mut revision::MapEntry<'_, '_, Vec<Self>, V, Src>,
			f: Bf,
		) -> Result<(), Error> {
			e.with_key_bytes(|b| f(b))
		}
		fn vec_value_bytes<K>(
			e: revision::MapEntry<'_, '_, K, Vec<Self>, Src>,
			f: Bf,
		) -> Result<(), Error> {
			e.with_value_bytes(|b| f(b))
		}
		fn vec_find_bytes<'r, V: SkipRevisioned>(
			w: MapWalker<'r, Vec<Self>, V, Src>,
			f: &mut dyn FnMut(&[u8]) -> Ordering,
		) -> Result<Option<LeafWalker<'r, V, Src>>, Error> {
			w.find_bytes(|b| f(b))
		}
	};
}
macro_rules! simple {
	($t:ty, $sc:expr, |$v:ident| $from:expr, |$s:ident| $to:expr $(, $hooks:ident)*) => {
		impl Sim for $t {
			fn schema() -> Sc {
				$sc
			}
			fn from_val($v: &Val) -> Self {
				$from
			}
			fn to_val(&self) -> Val {
				let $s = self;
				$to
			}
			leaf_drive!();
			$($hooks!();)*
		}
	};
}

simple!(bool, Sc::Bool, |v| v.u() != 0, |s| Val::U(*s as u128));
simple!(u8, Sc::U(8), |v| v.u() as u8, |s| Val::U(*s as u128), vec_lp_hooks);
simple!(u16, Sc::U(16), |v| v.u() as u16, |s| Val::U(*s as u128));
simple!(u32, Sc::U(32), |v| v.u() as u32, |s| Val::U(*s as u128));
simple!(u64, Sc::U(64), |v| v.u() as u64, |s| Val::U(*s as u128));
simple!(u128, Sc::U(128), |v| v.u(), |s| Val::U(*s));
simple!(usize, Sc::Usize, |v| v.u() as usize, |s| Val::U(*s as u128));
simple!(i8, Sc::I(8), |v| v.i() as i8, |s| Val::I(*s as i128), vec_lp_hooks);
simple!(i16, Sc::I(16), |v| v.i() as i16, |s| Val::I(*s as i128));
simple!(i32, Sc::I(32), |v| v.i() as i32, |s| Val::I(*s as i128));
simple!(i64, Sc::I(64), |v| v.i() as i64, |s| Val::I(*s as i128));
simple!(i128, Sc::I(128), |v| v.i(), |s| Val::I(*s));
simple!(isize, Sc::Isize, |v| v.i() as isize, |s| Val::I(*s as i128));
simple!(f32, Sc::F32, |v| f32::from_bits(v.u() as u32), |s| Val::U(s.to_bits() as u128));
simple!(f64, Sc::F64, |v| f64::from_bits(v.u() as u64), |s| Val::U(s.to_bits() as u128));
simple!(char, Sc::Char, |v| char::from_u32(v.u() as u32).unwrap(), |s| Val::U(*s as u128));
simple!(String, Sc::Str, |v| v.s().to_string(), |s| Val::S(s.clone()), lp_hooks);
simple!(Arc<str>, Sc::Str, |v| Arc::from(v.s()), |s| Val::S(s.to_string()), lp_hooks);
simple!(Box<str>, Sc::Str, |v| Box::from(v.s()), |s| Val::S(s.to_string()), lp_hooks);
simple!(
	PathBuf,
	Sc::Path,
	|v| PathBuf::from(v.s()),
	|s| Val::S(s.to_str().unwrap().to_string()),
	lp_hooks
);
simple!(Bytes, Sc::Bytes, |v| Bytes::copy_from_slice(v.b()), |s| Val::B(s.to_vec()), lp_hooks);
simple!(
	Duration,
	Sc::Dur,
	|v| Duration::new(v.l()[0].u() as u64, v.l()[1].u() as u32),
	|s| Val::L(vec![Val::U(s.as_secs() as u128), Val::U(s.subsec_nanos() as u128)])
);
simple!(
	SystemTime,
	Sc::SysTime,
	|v| UNIX_EPOCH + Duration::new(v.l()[0].u() as u64, v.l()[1].u() as u32),
	|s| {
		let d = s.duration_since(UNIX_EPOCH).expect("after epoch");
		Val::L(vec![Val::U(d.as_secs() as u128), Val::U(d.subsec_nanos() as u128)])
	}
);
simple!(
	Decimal,
	Sc::Decimal,
	|v| Decimal::deserialize(v.b().try_into().unwrap()),
	|s| Val::B(s.serialize().to_vec())
);
simple!(
	uuid::Uuid,
	Sc::Uuid,
	|v| uuid::Uuid::from_slice(v.b()).unwrap(),
	|s| Val::B(s.as_bytes().to_vec())
);
simple!(
	regex::Regex,
	Sc::Regex,
	|v| regex::Regex::new(v.s()).unwrap(),
	|s| Val::S(s.as_str().to_string())
);
simple!(
	DateTime<Utc>,
	Sc::DateTime,
	|v| DateTime::from_timestamp(v.l()[0].i() as i64, v.l()[1].u() as u32).expect("timestamp"),
	|s| Val::L(vec![Val::I(s.timestamp() as i128), Val::U(s.timestamp_subsec_nanos() as u128)])
);
simple!(
	NaiveDate,
	Sc::Date,
	|v| NaiveDate::from_ymd_opt(v.l()[0].i() as i32, v.l()[1].u() as u32, v.l()[2].u() as u32)
		.expect("date"),
	|s| Val::L(vec![Val::I(s.year() as i128), Val::U(s.month() as u128), Val::U(s.day() as u128)])
);
simple!(
	NaiveTime,
	Sc::Time,
	|v| NaiveTime::from_hms_nano_opt(
		v.l()[0].u() as u32,
		v.l()[1].u() as u32,
		v.l()[2].u() as u32,
		v.l()[3].u() as u32
	)
	.expect("time"),
	|s| Val::L(vec![
		Val::U(s.hour() as u128),
		Val::U(s.minute() as u128),
		Val::U(s.second() as u128),
		Val::U(s.nanosecond() as u128)
	])
);
simple!(
	chrono::Duration,
	Sc::ChronoDur,
	|v| chrono::Duration::new(v.l()[0].i() as i64, v.l()[1].i() as u32).expect("duration"),
	|s| {
		// floor seconds and non-negative nanoseconds
		let (mut a, mut n) = (s.num_seconds(), s.subsec_nanos());
		if n < 0 {
			a -= 1;
			n += 1_000_000_000;
		}
		Val::L(vec![Val::I(a as i128), Val::I(n as i128)])
	}
);
simple!(
	RoaringBitmap,
	Sc::Roaring,
	|v| v.l().iter().map(|x| x.u() as u32).collect(),
	|s| Val::L(s.iter().map(|x| Val::U(x as u128)).collect())
);
simple!(
	RoaringTreemap,
	Sc::Treemap,
	|v| v.l().iter().map(|x| x.u() as u64).collect(),
	|s| Val::L(s.iter().map(|x| Val::U(x as u128)).collect())
);

// ---- geo

fn coord(v: &Val) -> geo::Coord<f64> {
	geo::Coord { x: f64::from_bits(v.l()[0].u() as u64), y: f64::from_bits(v.l()[1].u() as u64) }
}
fn uncoord(c: &geo::Coord<f64>) -> Val {
	Val::L(vec![Val::U(c.x.to_bits() as u128), Val::U(c.y.to_bits() as u128)])
}
fn line(v: &Val) -> geo::LineString<f64> {
	geo::LineString(v.l().iter().map(coord).collect())
}
fn unline(l: &geo::LineString<f64>) -> Val {
	Val::L(l.0.iter().map(uncoord).collect())
}
fn poly(v: &Val) -> geo::Polygon<f64> {
	geo::Polygon::new(line(&v.l()[0]), v.l()[1].l().iter().map(line).collect())
}
fn unpoly(p: &geo::Polygon<f64>) -> Val {
	Val::L(vec![unline(p.exterior()), Val::L(p.interiors().iter().map(unline).collect())])
}
fn seq(s: Sc) -> Sc {
	Sc::Seq(a(s))
}
simple!(geo::Coord<f64>, Sc::Coord, |v| coord(v), |s| uncoord(s));
simple!(geo::Point<f64>, Sc::Coord, |v| geo::Point(coord(v)), |s| uncoord(&s.0));
simple!(geo::LineString<f64>, seq(Sc::Coord), |v| line(v), |s| unline(s));
simple!(geo::Polygon<f64>, Sc::Poly, |v| poly(v), |s| unpoly(s));
simple!(
	geo::MultiPoint<f64>,
	seq(Sc::Coord),
	|v| geo::MultiPoint(v.l().iter().map(|c| geo::Point(coord(c))).collect()),
	|s| Val::L(s.0.iter().map(|p| uncoord(&p.0)).collect())
);
simple!(
	geo::MultiLineString<f64>,
	seq(seq(Sc::Coord)),
	|v| geo::MultiLineString(v.l().iter().map(line).collect()),
	|s| Val::L(s.0.iter().map(unline).collect())
);
simple!(
	geo::MultiPolygon<f64>,
	seq(Sc::Poly),
	|v| geo::MultiPolygon(v.l().iter().map(poly).collect()),
	|s| Val::L(s.0.iter().map(unpoly).collect())
);

// ---- wrappers whose walker is the inner type's

macro_rules! transparent {
	([$($g:tt)*] $t:ty, $inner:ty, |$v:ident| $from:expr, |$s:ident| $to:expr) => {
		impl<$($g)*> Sim for $t {
			fn schema() -> Sc {
				<$inner>::schema()
			}
			fn from_val($v: &Val) -> Self {
				$from
			}
			fn to_val(&self) -> Val {
				let $s = self;
				$to
			}
			fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
				<$inner>::drive(w, x, cx)
			}
			fn walk_refused() -> bool {
				<$inner>::walk_refused()
			}
		}
	};
}
transparent!([T: Sim] Box<T>, T, |v| Box::new(T::from_val(v)), |s| (**s).to_val());
transparent!([T: Sim] Arc<T>, T, |v| Arc::new(T::from_val(v)), |s| (**s).to_val());
transparent!([T: Sim] Wrapping<T>, T, |v| Wrapping(T::from_val(v)), |s| s.0.to_val());
transparent!([T: Sim] Reverse<T>, T, |v| Reverse(T::from_val(v)), |s| s.0.to_val());

impl<T: Sim + Clone> Sim for Cow<'static, T> {
	fn schema() -> Sc {
		T::schema()
	}
	fn from_val(v: &Val) -> Self {
		// borrowed and owned forms must encode alike
		if crate::world::chance(1, 2) {
			Cow::Borrowed(Box::leak(Box::new(T::from_val(v))))
		} else {
			Cow::Owned(T::from_val(v))
		}
	}
	fn to_val(&self) -> Val {
		(**self).to_val()
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		drive_leaf(w, x, cx)
	}
}

/// The string forms that only borrow, behind types that can be read back.
macro_rules! str_like {
	($n:ident, $t:ty, |$v:ident| $from:expr, |$r:ident| $de:expr) => {
		#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
		pub struct $n(pub $t);
		impl Revisioned for $n {
			fn revision() -> u16 {
				1
			}
		}
		impl SerializeRevisioned for $n {
			fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
				self.0.serialize_revisioned(w)
			}
		}
		impl DeserializeRevisioned for $n {
			fn deserialize_revisioned<R: std::io::Read>($r: &mut R) -> Result<Self, Error> {
				Ok($n($de))
			}
		}
		impl SkipRevisioned for $n {
			fn skip_revisioned<R: std::io::Read>(r: &mut R) -> Result<(), Error> {
				Cow::<'static, str>::skip_revisioned(r)
			}
			fn skip_revisioned_slice(r: &mut revision::SliceReader<'_>) -> Result<(), Error> {
				Cow::<'static, str>::skip_revisioned_slice(r)
			}
		}
		impl SkipCheckRevisioned for $n {
			fn skip_check_revisioned<R: std::io::Read>(r: &mut R) -> Result<(), Error> {
				Cow::<'static, str>::skip_check_revisioned(r)
			}
		}
		impl WalkRevisioned for $n {
			type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, $n, R>;
			fn walk_revisioned<'r, R: BorrowedReader>(
				reader: &'r mut R,
			) -> Result<Self::Walker<'r, R>, Error> {
				Ok(LeafWalker::new(reader))
			}
		}
		simple!($n, Sc::Str, |$v| $n($from), |s| Val::S(s.0.to_string()));
	};
}
str_like!(CowStr, Cow<'static, str>, |v| {
	if crate::world::chance(1, 2) {
		Cow::Borrowed(Box::leak(v.s().to_string().into_boxed_str()))
	} else {
		Cow::Owned(v.s().to_string())
	}
}, |r| Cow::<'static, str>::deserialize_revisioned(r)?);
str_like!(BorrowedStr, StrOf, |v| StrOf(v.s().to_string()), |r| StrOf(String::deserialize_revisioned(r)?));
/// Encodes through `str`, the unsized form.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StrOf(pub String);
impl StrOf {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		<str as SerializeRevisioned>::serialize_revisioned(self.0.as_str(), w)
	}
}
impl std::fmt::Display for StrOf {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}

impl Sim for NotNan<f64> {
	fn schema() -> Sc {
		Sc::NotNan(64)
	}
	fn from_val(v: &Val) -> Self {
		NotNan::new(f64::from_bits(v.u() as u64)).unwrap()
	}
	fn to_val(&self) -> Val {
		self.into_inner().to_val()
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		f64::drive(w, x, cx)
	}
}
impl Sim for NotNan<f32> {
	fn schema() -> Sc {
		Sc::NotNan(32)
	}
	fn from_val(v: &Val) -> Self {
		NotNan::new(f32::from_bits(v.u() as u32)).unwrap()
	}
	fn to_val(&self) -> Val {
		self.into_inner().to_val()
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		f32::drive(w, x, cx)
	}
}

// ---- sums

impl<T: Sim> Sim for Option<T> {
	fn schema() -> Sc {
		Sc::Opt(a(T::schema()))
	}
	fn from_val(v: &Val) -> Self {
		v.t().1.first().map(T::from_val)
	}
	fn to_val(&self) -> Val {
		match self {
			None => Val::none(),
			Some(x) => Val::some(x.to_val()),
		}
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		if !cx.down() {
			let r = cx.once("option.skip", || w.skip());
			cx.up();
			r?;
			return Ok(Pos::End);
		}
		let r = drive_option(w, x, cx);
		cx.up();
		r
	}
}
impl<T: Sim, E: Sim> Sim for Result<T, E> {
	fn schema() -> Sc {
		Sc::Res(a(T::schema()), a(E::schema()))
	}
	fn from_val(v: &Val) -> Self {
		let (n, l) = v.t();
		if n == 0 { Ok(T::from_val(&l[0])) } else { Err(E::from_val(&l[0])) }
	}
	fn to_val(&self) -> Val {
		match self {
			Ok(x) => Val::T(0, vec![x.to_val()]),
			Err(x) => Val::T(1, vec![x.to_val()]),
		}
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		drive_result(w, x, cx)
	}
	fn has_hand() -> bool {
		true
	}
	fn hand(src: &mut Src, x: &Exp, cx: &Cx) -> R<Option<Pos>> {
		hand_enum::<T, E>(src, x, cx)
	}
}
impl<T: Sim> Sim for Bound<T> {
	fn schema() -> Sc {
		Sc::Bound(a(T::schema()))
	}
	fn from_val(v: &Val) -> Self {
		let (n, l) = v.t();
		match n {
			0 => Bound::Unbounded,
			1 => Bound::Included(T::from_val(&l[0])),
			_ => Bound::Excluded(T::from_val(&l[0])),
		}
	}
	fn to_val(&self) -> Val {
		match self {
			Bound::Unbounded => Val::T(0, vec![]),
			Bound::Included(x) => Val::T(1, vec![x.to_val()]),
			Bound::Excluded(x) => Val::T(2, vec![x.to_val()]),
		}
	}
	leaf_drive!();
}
impl<T: Sim> Sim for Range<T> {
	fn schema() -> Sc {
		Sc::Range(a(T::schema()))
	}
	fn from_val(v: &Val) -> Self {
		T::from_val(&v.l()[0])..T::from_val(&v.l()[1])
	}
	fn to_val(&self) -> Val {
		Val::L(vec![self.start.to_val(), self.end.to_val()])
	}
	leaf_drive!();
}

// ---- products

macro_rules! tuple {
	($($n:ident $i:tt),*) => {
		impl<$($n: Sim),*> Sim for ($($n,)*) {
			fn schema() -> Sc {
				Sc::Tup(vec![$($n::schema()),*])
			}
			fn from_val(v: &Val) -> Self {
				($($n::from_val(&v.l()[$i]),)*)
			}
			fn to_val(&self) -> Val {
				Val::L(vec![$(self.$i.to_val()),*])
			}
			leaf_drive!();
			fn has_hand() -> bool {
				true
			}
			fn hand(src: &mut Src, x: &Exp, cx: &Cx) -> R<Option<Pos>> {
				let rev = 1 + crate::world::pick(9) as u16;
				let mut w = revision::StructWalker::new(src, rev);
				const N: u32 = [$($i),*].len() as u32;
				$(
					let y = x.of(x.v.map(|v| &v.l()[$i]));
					if $i + 1 == N {
						return Ok(Some(hand_last::<$n>(w, $i, rev, &y, cx)?));
					}
					if hand_field::<$n>(&mut w, $i, rev, &y, cx)? == Pos::Mid {
						return Ok(Some(Pos::Mid));
					}
				)*
				unreachable!()
			}
		}
	};
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);

macro_rules! array {
	($($n:literal)*) => {$(
		impl<T: Sim + Copy + Default> Sim for [T; $n] {
			fn schema() -> Sc {
				Sc::Arr(a(T::schema()), $n)
			}
			fn from_val(v: &Val) -> Self {
				let mut o = [T::default(); $n];
				for (i, e) in v.l().iter().enumerate() {
					o[i] = T::from_val(e)
				}
				o
			}
			fn to_val(&self) -> Val {
				Val::L(self.iter().map(|e| e.to_val()).collect())
			}
			leaf_drive!();
		}
	)*};
}
array!(1 2 3 4 5 7 8 9 16 31 32);

// ---- sequences

impl<T: Sim> Sim for Vec<T> {
	fn schema() -> Sc {
		// bulk layouts are chosen by type: a vector of wrappers is written element by element
		if is_bulk_type::<T>() { Sc::Vec(a(T::schema())) } else { wrapped_vec(T::schema()) }
	}
	fn from_val(v: &Val) -> Self {
		v.l().iter().map(T::from_val).collect()
	}
	fn to_val(&self) -> Val {
		Val::L(self.iter().map(|e| e.to_val()).collect())
	}
	fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
		drive_seq(w, x, cx)
	}
	fn walk_refused() -> bool {
		cfg!(feature = "spec") && is_bulk_type::<T>()
	}
	fn lp() -> bool {
		T::vec_lp()
	}
	fn leaf_bytes(w: LeafWalker<'_, Self, Src>, f: Bf) -> Result<(), Error> {
		T::vec_leaf_bytes(w, f)
	}
	fn item_bytes(w: &mut SeqWalker<'_, Self, Src>, f: Bf) -> Result<(), Error> {
		T::vec_item_bytes(w, f)
	}
	fn key_bytes<V>(e: &mut revision::MapEntry<'_, '_, Self, V, Src>, f: Bf) -> Result<(), Error> {
		T::vec_key_bytes(e, f)
	}
	fn value_bytes<K>(e: revision::MapEntry<'_, '_, K, Self, Src>, f: Bf) -> Result<(), Error> {
		T::vec_value_bytes(e, f)
	}
	fn find_bytes<'r, V: SkipRevisioned>(
		w: MapWalker<'r, Self, V, Src>,
		f: &mut dyn FnMut(&[u8]) -> Ordering,
	) -> Result<Option<LeafWalker<'r, V, Src>>, Error> {
		T::vec_find_bytes(w, f)
	}
}
/// The element types with a bulk layout, by identity: a wrapper around one of
/// them has none.
fn wrapped_vec(s: Sc) -> Sc {
	if crate::val::is_bulk(&s) { Sc::Seq(a(s)) } else { Sc::Vec(a(s)) }
}
fn is_bulk_type<T: 'static>() -> bool {
	use std::any::TypeId;
	let id = TypeId::of::<T>();
	macro_rules! any { ($($t:ty),*) => { [$(TypeId::of::<$t>()),*] } }
	any!(bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, Decimal, uuid::Uuid)
		.contains(&id)
}

macro_rules! seq_like {
	([$($g:tt)*] $t:ty, $sc:expr) => {
		impl<$($g)*> Sim for $t {
			fn schema() -> Sc {
				$sc(a(T::schema()))
			}
			fn from_val(v: &Val) -> Self {
				v.l().iter().map(T::from_val).collect()
			}
			fn to_val(&self) -> Val {
				Val::L(self.iter().map(|e| e.to_val()).collect())
			}
			fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
				drive_seq(w, x, cx)
			}
		}
	};
}
seq_like!([T: Sim + Ord] BTreeSet<T>, |t| Sc::Set(t, false));
seq_like!([T: Sim + Eq + Hash] HashSet<T>, |t| Sc::Set(t, true));
seq_like!([T: Sim + Ord] BinaryHeap<T>, Sc::Heap);
seq_like!([T: Sim + Clone] imbl::Vector<T>, Sc::Seq);
seq_like!([T: Sim + Clone + Ord] imbl::OrdSet<T>, |t| Sc::Set(t, false));
seq_like!([T: Sim + Clone + Eq + Hash] imbl::HashSet<T>, |t| Sc::Set(t, true));

macro_rules! map_like {
	([$($g:tt)*] $t:ty, $un:expr) => {
		impl<$($g)*> Sim for $t {
			fn schema() -> Sc {
				Sc::Map(a(K::schema()), a(V::schema()), $un)
			}
			fn from_val(v: &Val) -> Self {
				v.m().iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect()
			}
			fn to_val(&self) -> Val {
				Val::M(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect())
			}
			fn drive<'r>(w: Self::Walker<'r, Src>, x: &Exp, cx: &Cx) -> R<Pos> {
				drive_map(w, x, cx)
			}
		}
	};
}
map_like!([K: Sim + Ord, V: Sim] BTreeMap<K, V>, false);
map_like!([K: Sim + Eq + Hash, V: Sim] HashMap<K, V>, true);
map_like!([K: Sim + Clone + Ord, V: Sim + Clone] imbl::OrdMap<K, V>, false);
map_like!([K: Sim + Clone + Eq + Hash, V: Sim + Clone] imbl::HashMap<K, V>, true);

// ---- a user type whose codec is a scheduling point

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Hook(pub u32);
impl Revisioned for Hook {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Hook {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		crate::sched::yield_point();
		let r = self.0.serialize_revisioned(w);
		crate::sched::yield_point();
		r
	}
}
impl DeserializeRevisioned for Hook {
	fn deserialize_revisioned<R: std::io::Read>(r: &mut R) -> Result<Self, Error> {
		crate::sched::yield_point();
		let v = u32::deserialize_revisioned(r)?;
		crate::sched::yield_point();
		Ok(Hook(v))
	}
}
impl SkipRevisioned for Hook {
	fn skip_revisioned<R: std::io::Read>(r: &mut R) -> Result<(), Error> {
		crate::sched::yield_point();
		u32::skip_revisioned(r)
	}
}
impl SkipCheckRevisioned for Hook {
	fn skip_check_revisioned<R: std::io::Read>(r: &mut R) -> Result<(), Error> {
		crate::sched::yield_point();
		u32::skip_check_revisioned(r)
	}
}
impl WalkRevisioned for Hook {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Hook, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(
		reader: &'r mut R,
	) -> Result<Self::Walker<'r, R>, Error> {
		crate::sched::yield_point();
		Ok(LeafWalker::new(reader))
	}
}
simple!(Hook, Sc::Hook, |v| Hook(v.u() as u32), |s| Val::U(s.0 as u128));
