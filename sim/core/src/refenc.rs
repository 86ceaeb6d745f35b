//! Independent reference encoder of the published wire format.  Written from
//! the format description; shares no code with the library.

use crate::val::*;
use crate::world::{chance, pick};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
	pub fixed: bool,
	pub spec: bool,
}
pub const CFG: Cfg = Cfg { fixed: cfg!(feature = "fixed"), spec: cfg!(feature = "spec") };

/// What a byte range of a record is; used to aim damage.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
	Rev,
	Len,
	Tag,
	PayloadLen,
	Offset,
	Flags,
	Scalar,
}

pub struct Enc {
	pub cfg: Cfg,
	/// write what no encoder of this library writes but its readers may meet
	pub sloppy: bool,
	pub out: Vec<u8>,
	pub marks: Vec<(usize, usize, Mark)>,
}

fn zz(v: i128) -> u128 {
	((v << 1) ^ (v >> 127)) as u128
}

impl Enc {
	pub fn new(cfg: Cfg) -> Enc {
		Enc { cfg, sloppy: false, out: vec![], marks: vec![] }
	}
	fn sub(&self) -> Enc {
		Enc { sloppy: self.sloppy, ..Enc::new(self.cfg) }
	}
	fn put(&mut self, b: &[u8]) {
		self.out.extend_from_slice(b)
	}
	/// append a finished part together with its marks
	fn join(&mut self, e: Enc) {
		let base = self.out.len();
		self.marks.extend(e.marks.into_iter().map(|(p, l, m)| (p + base, l, m)));
		self.out.extend(e.out);
	}
	/// Sometimes take the unusual way.
	fn odd(&self) -> bool {
		self.sloppy && chance(1, 6)
	}
	/// In another order, entries repeated.
	fn jumbled<'a, T>(&self, l: &'a [T]) -> Vec<&'a T> {
		let mut l: Vec<&T> = l.iter().collect();
		while !l.is_empty() && self.odd() {
			let (i, j) = (pick(l.len() as u64) as usize, pick(l.len() as u64) as usize);
			if chance(1, 2) { l.swap(i, j) } else { l.insert(i, l[j]) }
		}
		l
	}
	fn varint(&mut self, bits: u32, v: u128) {
		if self.odd() {
			// wider than it needs to be, mostly still within its type
			let most = if chance(1, 16) { 4 } else { (bits / 16).ilog2() as u64 + 1 };
			let w = pick(most) as usize;
			if v.checked_shr(16u32 << w).unwrap_or(0) == 0 {
				self.put(&[251 + w as u8]);
				self.put(&v.to_le_bytes()[..2 << w]);
				return;
			}
		}
		if v < 251 {
			self.put(&[v as u8])
		} else if v <= u16::MAX as u128 {
			self.put(&[251]);
			self.put(&(v as u16).to_le_bytes())
		} else if v <= u32::MAX as u128 {
			self.put(&[252]);
			self.put(&(v as u32).to_le_bytes())
		} else if v <= u64::MAX as u128 {
			self.put(&[253]);
			self.put(&(v as u64).to_le_bytes())
		} else {
			self.put(&[254]);
			self.put(&v.to_le_bytes())
		}
	}
	fn uint(&mut self, bits: u32, v: u128) {
		if bits == 8 {
			self.put(&[v as u8])
		} else if self.cfg.fixed {
			self.put(&v.to_le_bytes()[..bits as usize / 8])
		} else {
			self.varint(bits, v)
		}
	}
	fn sint(&mut self, bits: u32, v: i128) {
		if bits == 8 {
			self.put(&[v as i8 as u8])
		} else {
			let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
			self.uint(bits, zz(v) & mask)
		}
	}
	fn mark(&mut self, m: Mark, f: impl FnOnce(&mut Self)) {
		let p = self.out.len();
		f(self);
		let l = self.out.len() - p;
		self.marks.push((p, l, m));
	}
	fn len(&mut self, n: usize) {
		self.mark(Mark::Len, |s| s.uint(64, n as u128))
	}
	fn blob(&mut self, b: &[u8]) {
		self.len(b.len());
		self.put(b)
	}
	/// raw little-endian element of a bulk vector
	fn raw_elem(&mut self, sc: &Sc, v: &Val) {
		match sc {
			Sc::U(b) => self.put(&v.u().to_le_bytes()[..*b as usize / 8]),
			Sc::I(b) => self.put(&v.i().to_le_bytes()[..*b as usize / 8]),
			Sc::F32 => self.put(&(v.u() as u32).to_le_bytes()),
			Sc::F64 => self.put(&(v.u() as u64).to_le_bytes()),
			Sc::Decimal | Sc::Uuid => self.put(v.b()),
			_ => panic!("harness: raw elem {sc:?}"),
		}
	}
	fn bulk(&mut self, x: &Sc, l: &[Val]) {
		self.len(l.len());
		if *x == Sc::Bool {
			let mut bytes = vec![0u8; l.len().div_ceil(8)];
			for (i, v) in l.iter().enumerate() {
				if v.u() != 0 {
					bytes[i / 8] |= 1 << (i % 8)
				}
			}
			self.put(&bytes)
		} else {
			for v in l {
				self.raw_elem(x, v)
			}
		}
	}

	pub fn enc(&mut self, sc: &Sc, v: &Val) {
		match sc {
			Sc::Bool => self.mark(Mark::Tag, |s| s.put(&[v.u() as u8])),
			Sc::U(b) => self.mark(Mark::Scalar, |s| s.uint(*b, v.u())),
			Sc::I(b) => self.mark(Mark::Scalar, |s| s.sint(*b, v.i())),
			Sc::Usize => self.mark(Mark::Scalar, |s| s.uint(64, v.u())),
			Sc::Isize => self.mark(Mark::Scalar, |s| s.sint(64, v.i())),
			Sc::F32 | Sc::NotNan(32) => self.put(&(v.u() as u32).to_le_bytes()),
			Sc::F64 | Sc::NotNan(_) => self.put(&(v.u() as u64).to_le_bytes()),
			Sc::Char => {
				let mut b = [0; 4];
				let c = char::from_u32(v.u() as u32).unwrap();
				let s = c.encode_utf8(&mut b);
				self.mark(Mark::Scalar, |e| e.put(s.as_bytes()))
			}
			Sc::Str | Sc::Path | Sc::Regex => self.blob(v.s().as_bytes()),
			Sc::Bytes => self.blob(v.b()),
			Sc::Opt(x) => {
				let (n, l) = v.t();
				self.mark(Mark::Tag, |s| s.put(&[n as u8]));
				l.iter().for_each(|e| self.enc(x, e))
			}
			Sc::Res(x, y) => {
				let (n, l) = v.t();
				self.mark(Mark::Tag, |s| s.uint(32, n as u128));
				self.enc(if n == 0 { x } else { y }, &l[0])
			}
			Sc::Bound(x) => {
				let (n, l) = v.t();
				self.mark(Mark::Tag, |s| s.uint(32, n as u128));
				l.iter().for_each(|e| self.enc(x, e))
			}
			Sc::Tup(ss) => ss.iter().zip(v.l()).for_each(|(s, e)| self.enc(s, e)),
			Sc::Range(x) | Sc::Arr(x, _) => v.l().iter().for_each(|e| self.enc(x, e)),
			Sc::Vec(x) if self.cfg.spec && is_bulk(x) => self.bulk(x, v.l()),
			Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _) | Sc::Heap(x) => {
				let l = self.jumbled(v.l());
				self.len(l.len());
				l.into_iter().for_each(|e| self.enc(x, e))
			}
			Sc::Map(k, x, _) => {
				let l = self.jumbled(v.m());
				self.len(l.len());
				for (a, b) in l {
					self.enc(k, a);
					self.enc(x, b)
				}
			}
			Sc::Dur | Sc::SysTime => {
				self.uint(64, v.l()[0].u());
				self.mark(Mark::Scalar, |s| s.uint(32, v.l()[1].u()))
			}
			Sc::Decimal | Sc::Uuid => self.mark(Mark::Scalar, |s| s.put(v.b())),
			Sc::DateTime => {
				self.mark(Mark::Scalar, |s| s.sint(64, v.l()[0].i()));
				self.mark(Mark::Scalar, |s| s.uint(32, v.l()[1].u()))
			}
			Sc::Date => {
				self.mark(Mark::Scalar, |s| s.sint(32, v.l()[0].i()));
				self.mark(Mark::Scalar, |s| s.uint(32, v.l()[1].u()));
				self.mark(Mark::Scalar, |s| s.uint(32, v.l()[2].u()))
			}
			Sc::Time => {
				for e in v.l() {
					self.mark(Mark::Scalar, |s| s.uint(32, e.u()))
				}
			}
			Sc::ChronoDur => {
				self.mark(Mark::Scalar, |s| s.sint(64, v.l()[0].i()));
				self.mark(Mark::Scalar, |s| s.sint(32, v.l()[1].i()))
			}
			Sc::Roaring => {
				let b: roaring::RoaringBitmap = v.l().iter().map(|x| x.u() as u32).collect();
				let mut o = vec![];
				b.serialize_into(&mut o).unwrap();
				self.mark(Mark::Scalar, |s| s.put(&o))
			}
			Sc::Treemap => {
				let b: roaring::RoaringTreemap = v.l().iter().map(|x| x.u() as u64).collect();
				let mut o = vec![];
				b.serialize_into(&mut o).unwrap();
				self.mark(Mark::Scalar, |s| s.put(&o))
			}
			Sc::Coord => {
				self.put(&(v.l()[0].u() as u64).to_le_bytes());
				self.put(&(v.l()[1].u() as u64).to_le_bytes())
			}
			Sc::Poly => {
				let ring = Sc::Seq(a(Sc::Coord));
				self.enc(&ring, &v.l()[0]);
				self.enc(&Sc::Seq(a(ring)), &v.l()[1])
			}
			Sc::Hook => self.mark(Mark::Scalar, |s| s.uint(32, v.u())),
			Sc::Der(f, b) => self.derived(def(*f, *b), v),
		}
	}

	fn field(&mut self, f: &Field, v: &Val, lay: Lay) {
		if lay == Lay::Legacy {
			if f.g.fixed {
				self.raw_elem(&f.sc, v);
				return;
			}
			if f.g.specialised
				&& let Sc::Vec(x) = &f.sc
			{
				self.bulk(x, v.l());
				return;
			}
		} else {
			match f.g.idx {
				Idx::Map => return self.indexed_map(&f.sc, v),
				Idx::Seq | Idx::Set => return self.indexed_seq(&f.sc, v, f.g.idx == Idx::Set),
				Idx::No => {}
			}
		}
		self.enc(&f.sc, v)
	}

	fn u32le(&mut self, v: usize) {
		self.put(&(v as u32).to_le_bytes())
	}

	pub fn indexed_map(&mut self, sc: &Sc, v: &Val) {
		let Sc::Map(k, x, _) = sc else { panic!("harness: indexed map {sc:?}") };
		let mut es: Vec<(Enc, Enc)> = self
			.jumbled(v.m())
			.into_iter()
			.map(|(a, b)| {
				let (mut ka, mut va) = (self.sub(), self.sub());
				ka.enc(k, a);
				va.enc(x, b);
				(ka, va)
			})
			.collect();
		if !self.odd() {
			es.sort_by(|a, b| a.0.out.cmp(&b.0.out));
		}
		let indexed = (es.len() >= 8) != self.odd();
		self.mark(Mark::Flags, |s| s.put(&[indexed as u8]));
		self.mark(Mark::Len, |s| s.varint(64, es.len() as u128));
		if indexed {
			let (mut ko, mut vo) = (0, 0);
			for (a, b) in &es {
				self.mark(Mark::Offset, |s| s.u32le(ko));
				self.mark(Mark::Offset, |s| s.u32le(vo));
				ko += a.out.len();
				vo += b.out.len();
			}
			self.mark(Mark::Offset, |s| s.u32le(ko));
			self.mark(Mark::Offset, |s| s.u32le(vo));
			let mut vals = vec![];
			for (a, b) in es {
				self.join(a);
				vals.push(b)
			}
			vals.into_iter().for_each(|b| self.join(b));
		} else {
			for (a, b) in es {
				self.join(a);
				self.join(b);
			}
		}
	}

	pub fn indexed_seq(&mut self, sc: &Sc, v: &Val, sorted: bool) {
		let (Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _)) = sc else {
			panic!("harness: indexed seq {sc:?}")
		};
		let mut es: Vec<Enc> = self
			.jumbled(v.l())
			.into_iter()
			.map(|e| {
				let mut s = self.sub();
				s.enc(x, e);
				s
			})
			.collect();
		if sorted && !self.odd() {
			es.sort_by(|a, b| a.out.cmp(&b.out));
		}
		let indexed = (es.len() >= 8) != self.odd();
		self.mark(Mark::Flags, |s| s.put(&[indexed as u8]));
		self.mark(Mark::Len, |s| s.varint(64, es.len() as u128));
		if indexed {
			let mut o = 0;
			for e in &es {
				self.mark(Mark::Offset, |s| s.u32le(o));
				o += e.out.len();
			}
		}
		es.into_iter().for_each(|e| self.join(e));
	}

	fn payload(&mut self, body: Enc) {
		let n = body.out.len();
		self.mark(Mark::PayloadLen, |s| s.u32le(n));
		self.join(body)
	}

	fn derived(&mut self, d: &Def, v: &Val) {
		let rev = d.rev;
		self.mark(Mark::Rev, |s| s.uint(16, rev as u128));
		let lay = d.layout(rev);
		match &d.kind {
			Kind::Struct(fs) => {
				let parts: Vec<Enc> = fs
					.iter()
					.filter(|f| f.alive(rev))
					.zip(v.l())
					.map(|(f, e)| {
						let mut s = self.sub();
						s.field(f, e, lay);
						s
					})
					.collect();
				if lay == Lay::Legacy {
					parts.into_iter().for_each(|p| self.join(p));
					return;
				}
				let mut body = self.sub();
				if lay == Lay::OptIdx {
					let mut o = parts.len() * 4;
					for p in &parts {
						body.mark(Mark::Offset, |s| s.u32le(o));
						o += p.out.len();
					}
				}
				parts.into_iter().for_each(|p| body.join(p));
				self.payload(body)
			}
			Kind::Enum(vs) => {
				let (n, l) = v.t();
				let i = vs.iter().position(|x| x.gi == n as usize).expect("harness: variant");
				let vd = &vs[i];
				let disc = d.discriminants(rev)[i].expect("harness: discriminant");
				let mut body = self.sub();
				for (f, e) in vd.fields.iter().filter(|f| f.alive(rev)).zip(l) {
					body.field(f, e, lay)
				}
				if lay == Lay::Legacy {
					self.mark(Mark::Tag, |s| s.uint(32, disc as u128));
					self.join(body);
					return;
				}
				let class = match vd.g.size {
					Size::Inline => 0,
					Size::Fixed(_) => 1,
					Size::Varlen => 2,
					Size::No => panic!("harness: size"),
				};
				self.mark(Mark::Tag, |s| s.put(&[disc as u8 | class << 5]));
				match vd.g.size {
					Size::Fixed(n) => {
						assert_eq!(n, body.out.len(), "harness: fixed size");
						self.join(body)
					}
					Size::Varlen => self.payload(body),
					_ => {}
				}
			}
		}
	}
}

pub fn encode(sc: &Sc, v: &Val) -> Vec<u8> {
	let mut e = Enc::new(CFG);
	e.enc(sc, v);
	e.out
}

/// The encoded fields of a struct in an optimised layout, in order.
pub fn struct_parts(d: &Def, v: &Val) -> Vec<Vec<u8>> {
	let lay = d.layout(d.rev);
	d.fields()
		.iter()
		.filter(|f| f.alive(d.rev))
		.zip(v.l())
		.map(|(f, e)| {
			let mut s = Enc::new(CFG);
			s.field(f, e, lay);
			s.out
		})
		.collect()
}
