//! Dynamic values, schemas and the reference model of schema evolution.
//!
//! Everything in this file is written from the documentation and shares no
//! code with the library under simulation.

use std::cmp::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
	U(u128),
	I(i128),
	S(String),
	B(Vec<u8>),
	L(Vec<Val>),
	M(Vec<(Val, Val)>),
	T(u32, Vec<Val>),
}
impl Val {
	pub fn u(&self) -> u128 {
		match self {
			Val::U(x) => *x,
			_ => panic!("harness: not U {self:?}"),
		}
	}
	pub fn i(&self) -> i128 {
		match self {
			Val::I(x) => *x,
			_ => panic!("harness: not I {self:?}"),
		}
	}
	pub fn s(&self) -> &str {
		match self {
			Val::S(x) => x,
			_ => panic!("harness: not S {self:?}"),
		}
	}
	pub fn b(&self) -> &[u8] {
		match self {
			Val::B(x) => x,
			_ => panic!("harness: not B {self:?}"),
		}
	}
	pub fn l(&self) -> &[Val] {
		match self {
			Val::L(x) => x,
			_ => panic!("harness: not L {self:?}"),
		}
	}
	pub fn m(&self) -> &[(Val, Val)] {
		match self {
			Val::M(x) => x,
			_ => panic!("harness: not M {self:?}"),
		}
	}
	pub fn t(&self) -> (u32, &[Val]) {
		match self {
			Val::T(n, x) => (*n, x),
			_ => panic!("harness: not T {self:?}"),
		}
	}
	pub fn none() -> Val {
		Val::T(0, vec![])
	}
	pub fn some(v: Val) -> Val {
		Val::T(1, vec![v])
	}
	pub fn short(&self) -> String {
		let s = format!("{self:?}");
		if s.len() > 300 {
			let mut e = 300;
			while !s.is_char_boundary(e) {
				e -= 1
			}
			format!("{}..", &s[..e])
		} else {
			s
		}
	}
}

pub type A = Arc<Sc>;

/// Schema of a value as one build knows it.
#[derive(Clone, Debug, PartialEq)]
pub enum Sc {
	Bool,
	/// bits
	U(u32),
	I(u32),
	Usize,
	Isize,
	F32,
	F64,
	/// float that must not be NaN (bits)
	NotNan(u32),
	Char,
	Str,
	/// length-prefixed raw bytes
	Bytes,
	Path,
	Regex,
	Opt(A),
	Res(A, A),
	Bound(A),
	Tup(Vec<Sc>),
	Range(A),
	Arr(A, usize),
	/// `Vec<T>`: bulk layout for some T
	Vec(A),
	/// any other sequence with element framing
	Seq(A),
	/// (element, iteration order is unspecified)
	Set(A, bool),
	Heap(A),
	Map(A, A, bool),
	Dur,
	SysTime,
	Decimal,
	Uuid,
	DateTime,
	Date,
	Time,
	ChronoDur,
	Roaring,
	Treemap,
	Coord,
	Poly,
	Hook,
	/// derived family at a build
	Der(usize, usize),
}

pub fn a(s: Sc) -> A {
	Arc::new(s)
}

// ---------------------------------------------------------------------------
// Derived families
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lay {
	Legacy,
	Opt,
	OptIdx,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Idx {
	No,
	Map,
	Seq,
	Set,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
	/// folded into the first field (a u64)
	Absorb,
	/// moved into the sibling with this declaration index
	Move(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Size {
	No,
	Inline,
	Fixed(usize),
	Varlen,
}

/// One member in the whole history of a family.
pub struct GField {
	pub name: &'static str,
	pub sc: fn(usize) -> Sc,
	pub start: u16,
	pub end: u16,
	pub has_default_fn: bool,
	pub site: u32,
	pub conv: Option<Conv>,
	pub idx: Idx,
	pub fixed: bool,
	pub specialised: bool,
}
pub struct GVariant {
	pub name: &'static str,
	pub start: u16,
	pub end: u16,
	pub site: u32,
	pub size: Size,
	/// discriminant overrides (revision, value)
	pub disc: &'static [(u16, u32)],
	pub fields: &'static [GField],
}
pub enum GKind {
	Struct(&'static [GField]),
	Enum(&'static [GVariant]),
}
/// The whole history of a family.
pub struct Fam {
	pub name: &'static str,
	/// current revision at each build
	pub sched: &'static [u16],
	pub layouts: &'static [Lay],
	pub kind: GKind,
}

pub const NEVER: u16 = u16::MAX;

pub struct Field {
	pub g: &'static GField,
	pub sc: Sc,
	/// declaration index in the family's history
	pub gi: usize,
	pub start: u16,
	pub end: u16,
}
impl Field {
	pub fn alive(&self, rev: u16) -> bool {
		self.start <= rev && rev < self.end
	}
}
pub struct Variant {
	pub g: &'static GVariant,
	pub gi: usize,
	pub start: u16,
	pub end: u16,
	pub fields: Vec<Field>,
}
impl Variant {
	pub fn alive(&self, rev: u16) -> bool {
		self.start <= rev && rev < self.end
	}
}
pub enum Kind {
	Struct(Vec<Field>),
	Enum(Vec<Variant>),
}
/// A family truncated to what one build knows.
pub struct Def {
	pub fam: usize,
	pub build: usize,
	pub name: String,
	pub rev: u16,
	pub layouts: &'static [Lay],
	pub kind: Kind,
}
impl Def {
	pub fn layout(&self, rev: u16) -> Lay {
		self.layouts[rev as usize - 1]
	}
	/// Discriminants at `rev`, by position in the variant list.
	pub fn discriminants(&self, rev: u16) -> Vec<Option<u32>> {
		let Kind::Enum(vs) = &self.kind else { return vec![] };
		let mut out = vec![None; vs.len()];
		let mut used = vec![];
		for (i, v) in vs.iter().enumerate() {
			if v.alive(rev)
				&& let Some((_, d)) = v.g.disc.iter().find(|(r, _)| *r == rev)
			{
				out[i] = Some(*d);
				used.push(*d);
			}
		}
		let mut next = 0;
		for (i, v) in vs.iter().enumerate() {
			if v.alive(rev) && out[i].is_none() {
				while used.contains(&next) {
					next += 1;
				}
				out[i] = Some(next);
				used.push(next);
			}
		}
		out
	}
	pub fn fields(&self) -> &[Field] {
		match &self.kind {
			Kind::Struct(f) => f,
			_ => panic!("harness: not a struct"),
		}
	}
	pub fn variants(&self) -> &[Variant] {
		match &self.kind {
			Kind::Enum(v) => v,
			_ => panic!("harness: not an enum"),
		}
	}
	/// Members removed somewhere in this build's history (forces conversion).
	pub fn has_conv(&self) -> bool {
		match &self.kind {
			Kind::Struct(f) => f.iter().any(|f| f.end != NEVER),
			Kind::Enum(v) => v
				.iter()
				.any(|v| v.end != NEVER || v.fields.iter().any(|f| f.end != NEVER)),
		}
	}
}

fn trunc_fields(fs: &'static [GField], build: usize, rev: u16) -> Vec<Field> {
	fs.iter()
		.enumerate()
		.filter(|(_, f)| f.start <= rev)
		.map(|(gi, g)| Field {
			g,
			sc: (g.sc)(build),
			gi,
			start: g.start,
			end: if g.end <= rev { g.end } else { NEVER },
		})
		.collect()
}

pub fn make_def(fams: &'static [Fam], fam: usize, build: usize) -> Def {
	let f = &fams[fam];
	let rev = f.sched[build];
	let kind = match &f.kind {
		GKind::Struct(fs) => Kind::Struct(trunc_fields(fs, build, rev)),
		GKind::Enum(vs) => Kind::Enum(
			vs.iter()
				.enumerate()
				.filter(|(_, v)| v.start <= rev)
				.map(|(gi, g)| Variant {
					g,
					gi,
					start: g.start,
					end: if g.end <= rev { g.end } else { NEVER },
					fields: trunc_fields(g.fields, build, rev),
				})
				.collect(),
		),
	};
	Def { fam, build, name: f.name.to_string(), rev, layouts: f.layouts, kind }
}

pub fn def(fam: usize, build: usize) -> &'static Def {
	use std::sync::OnceLock;
	static DEFS: OnceLock<Vec<Vec<Def>>> = OnceLock::new();
	let d = DEFS.get_or_init(|| {
		let fams: &'static [Fam] = crate::types::FAMS;
		(0..fams.len())
			.map(|f| (0..fams[f].sched.len()).map(|b| make_def(fams, f, b)).collect())
			.collect()
	});
	&d[fam][build]
}

// ---------------------------------------------------------------------------
// Canonical form (order of unordered containers removed)
// ---------------------------------------------------------------------------

pub fn canon(sc: &Sc, v: &Val) -> Val {
	match (sc, v) {
		(Sc::Opt(x), Val::T(n, l)) => Val::T(*n, l.iter().map(|e| canon(x, e)).collect()),
		(Sc::Res(x, y), Val::T(n, l)) => {
			let s = if *n == 0 { x } else { y };
			Val::T(*n, l.iter().map(|e| canon(s, e)).collect())
		}
		(Sc::Bound(x), Val::T(n, l)) => Val::T(*n, l.iter().map(|e| canon(x, e)).collect()),
		(Sc::Tup(s), Val::L(l)) => Val::L(s.iter().zip(l).map(|(s, e)| canon(s, e)).collect()),
		(Sc::Range(x), Val::L(l)) | (Sc::Arr(x, _), Val::L(l)) => {
			Val::L(l.iter().map(|e| canon(x, e)).collect())
		}
		(Sc::Vec(x), Val::L(l)) | (Sc::Seq(x), Val::L(l)) => {
			Val::L(l.iter().map(|e| canon(x, e)).collect())
		}
		(Sc::Set(x, _), Val::L(l)) | (Sc::Heap(x), Val::L(l)) => {
			let mut o: Vec<Val> = l.iter().map(|e| canon(x, e)).collect();
			o.sort();
			Val::L(o)
		}
		(Sc::Map(k, x, _), Val::M(m)) => {
			let mut o: Vec<(Val, Val)> =
				m.iter().map(|(a, b)| (canon(k, a), canon(x, b))).collect();
			o.sort();
			Val::M(o)
		}
		(Sc::Der(f, b), _) => {
			let d = def(*f, *b);
			match (&d.kind, v) {
				(Kind::Struct(fs), Val::L(l)) => Val::L(
					fs.iter()
						.filter(|f| f.alive(d.rev))
						.zip(l)
						.map(|(f, e)| canon(&f.sc, e))
						.collect(),
				),
				(Kind::Enum(vs), Val::T(n, l)) => {
					let vd = vs.iter().find(|x| x.gi == *n as usize).expect("variant");
					Val::T(
						*n,
						vd.fields
							.iter()
							.filter(|f| f.alive(d.rev))
							.zip(l)
							.map(|(f, e)| canon(&f.sc, e))
							.collect(),
					)
				}
				_ => panic!("harness: canon derived {v:?}"),
			}
		}
		_ => v.clone(),
	}
}

pub fn same(sc: &Sc, a: &Val, b: &Val) -> bool {
	a == b || canon(sc, a) == canon(sc, b)
}

fn fold(h: &mut u64, b: u64) {
	*h = (*h ^ b).wrapping_mul(0x1000_0000_01b3).rotate_left(17);
}
fn digest_into(v: &Val, h: &mut u64) {
	match v {
		Val::U(x) => {
			fold(h, 1);
			fold(h, *x as u64);
			fold(h, (*x >> 64) as u64)
		}
		Val::I(x) => {
			fold(h, 2);
			fold(h, *x as u64);
			fold(h, (*x >> 64) as u64)
		}
		Val::S(s) => {
			fold(h, 3);
			fold(h, s.len() as u64);
			s.bytes().for_each(|b| fold(h, b as u64))
		}
		Val::B(s) => {
			fold(h, 4);
			fold(h, s.len() as u64);
			s.iter().for_each(|b| fold(h, *b as u64))
		}
		Val::L(l) => {
			fold(h, 5);
			fold(h, l.len() as u64);
			l.iter().for_each(|e| digest_into(e, h))
		}
		Val::M(m) => {
			fold(h, 6);
			fold(h, m.len() as u64);
			m.iter().for_each(|(k, v)| {
				digest_into(k, h);
				digest_into(v, h)
			})
		}
		Val::T(n, l) => {
			fold(h, 7);
			fold(h, *n as u64);
			fold(h, l.len() as u64);
			l.iter().for_each(|e| digest_into(e, h))
		}
	}
}
/// Order-independent digest used by the conversion callbacks.
pub fn digest(sc: &Sc, v: &Val) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325;
	digest_into(&canon(sc, v), &mut h);
	h
}
pub fn absorb(acc: u64, d: u64, rev: u16, site: u32) -> u64 {
	acc.wrapping_mul(31).wrapping_add(d ^ ((rev as u64) << 48) ^ site as u64)
}

// ---------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------

pub trait Draw {
	fn pick(&mut self, n: u64) -> u64;
	fn pick64(&mut self) -> u64;
	fn chance(&mut self, num: u64, den: u64) -> bool {
		self.pick(den) >= den - num
	}
}
pub struct WorldDraw;
impl Draw for WorldDraw {
	fn pick(&mut self, n: u64) -> u64 {
		crate::world::pick(n)
	}
	fn pick64(&mut self) -> u64 {
		crate::world::pick64()
	}
}
/// Deterministic draws used where the program under simulation and the model
/// must agree on a value (default functions).
pub struct Pure(pub u64);
impl Draw for Pure {
	fn pick(&mut self, n: u64) -> u64 {
		if n <= 1 { 0 } else { self.pick64() % n }
	}
	fn pick64(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		crate::world::mix(self.0, 77)
	}
}

pub struct G<'d> {
	pub d: &'d mut dyn Draw,
	pub budget: i64,
	/// collections prefer sizes around the index threshold
	pub around_threshold: bool,
	/// allow payloads of tens of kilobytes
	pub big: bool,
	pub depth: u32,
}

impl G<'_> {
	pub fn new(d: &mut dyn Draw, budget: i64) -> G<'_> {
		G { d, budget, around_threshold: false, big: false, depth: 0 }
	}
	fn bits(&mut self, bits: u32) -> u128 {
		let mask: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
		let v = match self.d.pick(8) {
			0 => self.d.pick(4) as u128,
			1 => 248 + self.d.pick(10) as u128,
			2 => 0xfffd + self.d.pick(6) as u128,
			3 => 0xffff_fffd + self.d.pick(6) as u128,
			4 => 0xffff_ffff_ffff_fffd + self.d.pick(6) as u128,
			5 => mask - self.d.pick(3) as u128,
			6 => 1u128 << self.d.pick(bits as u64),
			_ => ((self.d.pick64() as u128) << 64 | self.d.pick64() as u128) >> self.d.pick(127),
		};
		v & mask
	}
	fn signed(&mut self, bits: u32) -> i128 {
		let u = self.bits(bits);
		// spread boundaries over both signs
		let z = if self.d.chance(1, 2) { ((u >> 1) as i128) ^ -((u & 1) as i128) } else { u as i128 };
		if bits == 128 {
			z
		} else {
			let s = 128 - bits;
			(z << s) >> s
		}
	}
	pub fn len(&mut self, elem_cost: i64) -> usize {
		if self.budget <= 0 || self.depth > 6 {
			return 0;
		}
		let cap = (self.budget / elem_cost.max(1)).max(0) as u64;
		let n = if self.around_threshold {
			match self.d.pick(6) {
				0 => self.d.pick(4),
				1 => 7,
				2 => 8,
				3 => 9,
				4 => 8 + self.d.pick(24),
				_ => 250 + self.d.pick(8),
			}
		} else {
			match self.d.pick(12) {
				0..=4 => self.d.pick(4),
				5..=7 => self.d.pick(8),
				8 => 7 + self.d.pick(3),
				9 => 8 + self.d.pick(24),
				10 => 63 + self.d.pick(3),
				_ => 249 + self.d.pick(10),
			}
		};
		n.min(cap) as usize
	}
	/// At or next to a power of two, where buffers and chunks end.
	fn round(&mut self, lo: u64, hi: u64) -> usize {
		let e = lo + self.d.pick(hi - lo + 1);
		(1 << e) - 2 + self.d.pick(5) as usize
	}
	pub fn string(&mut self) -> String {
		let n = match self.d.pick(10) {
			0 => 0,
			1..=4 => self.d.pick(4) as usize,
			5..=7 => self.d.pick(16) as usize,
			8 => 248 + self.d.pick(10) as usize,
			_ if self.big => self.round(10, 18),
			_ => 60 + self.d.pick(10) as usize,
		};
		let n = if self.big && self.budget > 0 { n } else { n.min((self.budget.max(4) as usize) * 64) };
		self.budget -= (n / 64) as i64;
		let mode = self.d.pick(3);
		if n > 64 {
			// long strings: one decision for the content
			let b = b'a' + self.d.pick(26) as u8;
			let mut s: String = (0..n).map(|i| (b'a' + ((b as usize + i * 7) % 26) as u8) as char).collect();
			if mode == 2 {
				// end on a multi-byte character
				s.truncate(n - 3);
				s.push('\u{20ac}');
			}
			return s;
		}
		let mut s = String::new();
		while s.len() < n {
			match mode {
				0 | 1 => s.push((b'a' + self.d.pick(if mode == 0 { 3 } else { 26 }) as u8) as char),
				_ => s.push(self.ch()),
			}
		}
		s
	}
	fn ch(&mut self) -> char {
		const B: [u32; 14] = [
			0x61, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x20ac, 0x1f600, 0x41,
		];
		let i = self.d.pick(16) as usize;
		if i < B.len() {
			char::from_u32(B[i]).unwrap()
		} else {
			char::from_u32((self.d.pick(0x110000)) as u32).unwrap_or('x')
		}
	}
	fn f64b(&mut self) -> u64 {
		match self.d.pick(9) {
			0 => 0,
			1 => 1.5f64.to_bits(),
			2 => (-0.0f64).to_bits(),
			3 => f64::INFINITY.to_bits(),
			4 => f64::NEG_INFINITY.to_bits(),
			5 => f64::NAN.to_bits() | self.d.pick(16),
			6 => 0xfff0_0000_0000_0001 + self.d.pick(16),
			7 => f64::MIN_POSITIVE.to_bits() - self.d.pick(3),
			_ => self.d.pick64(),
		}
	}
	fn f64_nonan(&mut self) -> u64 {
		let b = self.f64b();
		if f64::from_bits(b).is_nan() { 2.25f64.to_bits() } else { b }
	}
	fn f32b(&mut self) -> u32 {
		match self.d.pick(7) {
			0 => 0,
			1 => 1.5f32.to_bits(),
			2 => (-0.0f32).to_bits(),
			3 => f32::INFINITY.to_bits(),
			4 => f32::NAN.to_bits() | self.d.pick(16) as u32,
			5 => f32::MAX.to_bits(),
			_ => self.d.pick64() as u32,
		}
	}
}

fn cost(sc: &Sc) -> i64 {
	match sc {
		Sc::Opt(x) | Sc::Bound(x) => 1 + cost(x),
		Sc::Res(x, y) => 1 + cost(x).max(cost(y)),
		Sc::Tup(l) => l.iter().map(cost).sum::<i64>() + 1,
		Sc::Range(x) => 2 * cost(x),
		Sc::Arr(x, n) => cost(x) * *n as i64,
		Sc::Vec(_) | Sc::Seq(_) | Sc::Set(..) | Sc::Heap(_) | Sc::Map(..) => 8,
		Sc::Roaring | Sc::Treemap | Sc::Poly => 8,
		Sc::Der(..) => 12,
		_ => 1,
	}
}

pub fn is_bulk(x: &Sc) -> bool {
	match x {
		Sc::Bool | Sc::F32 | Sc::F64 | Sc::Decimal | Sc::Uuid => true,
		Sc::U(_) | Sc::I(_) => true,
		_ => false,
	}
}

pub const REGEXES: &[&str] = &["", "a+", "^x.*y$", "[a-c]{2,5}|z", "(foo|bar)?baz"];

/// Whether a value of `sc` can directly hold one of family `f`.
fn holds(sc: &Sc, f: usize, depth: u32) -> bool {
	depth < 4
		&& match sc {
			Sc::Opt(x) | Sc::Vec(x) | Sc::Seq(x) | Sc::Map(_, x, _) => holds(x, f, depth + 1),
			Sc::Res(x, y) => holds(x, f, depth + 1) || holds(y, f, depth + 1),
			Sc::Tup(l) => l.iter().any(|x| holds(x, f, depth + 1)),
			Sc::Der(h, _) => *h == f,
			_ => false,
		}
}

/// Whether the family at this build can hold itself.
pub fn recursive(fam: usize, build: usize) -> bool {
	let d = def(fam, build);
	match &d.kind {
		Kind::Struct(fs) => fs.iter().any(|f| f.alive(d.rev) && holds(&f.sc, fam, 0)),
		Kind::Enum(vs) => vs
			.iter()
			.any(|v| v.alive(d.rev) && v.fields.iter().any(|f| f.alive(d.rev) && holds(&f.sc, fam, 0))),
	}
}

/// A value of `sc` with family `fam` nested `left` levels deep, everything
/// beside the chain small.
pub fn chain(sc: &Sc, fam: usize, left: u32, g: &mut G) -> Val {
	let small = |s: &Sc, g: &mut G| {
		let (b, d) = (g.budget, g.depth);
		g.budget = g.d.pick(3) as i64;
		g.depth = 7;
		let v = generate(s, g);
		(g.budget, g.depth) = (b, d);
		v
	};
	fn fields(fs: &[Field], rev: u16, fam: usize, left: u32, g: &mut G, small: &dyn Fn(&Sc, &mut G) -> Val) -> Vec<Val> {
		let alive: Vec<&Field> = fs.iter().filter(|f| f.alive(rev)).collect();
		let ways: Vec<usize> = (0..alive.len()).filter(|i| holds(&alive[*i].sc, fam, 0)).collect();
		let w = if ways.is_empty() { usize::MAX } else { ways[g.d.pick(ways.len() as u64) as usize] };
		alive
			.iter()
			.enumerate()
			.map(|(i, f)| if i == w { chain(&f.sc, fam, left, g) } else { small(&f.sc, g) })
			.collect()
	}
	match sc {
		_ if left == 0 => small(sc, g),
		Sc::Opt(x) => Val::some(chain(x, fam, left, g)),
		Sc::Vec(x) | Sc::Seq(x) => Val::L(vec![chain(x, fam, left, g)]),
		Sc::Map(k, x, _) => Val::M(vec![(small(k, g), chain(x, fam, left, g))]),
		Sc::Res(x, y) => {
			let n = !holds(x, fam, 0) as u32;
			Val::T(n, vec![chain(if n == 0 { x } else { y }, fam, left, g)])
		}
		Sc::Tup(l) => {
			let w = l.iter().position(|x| holds(x, fam, 0));
			Val::L(
				l.iter()
					.enumerate()
					.map(|(i, x)| if Some(i) == w { chain(x, fam, left, g) } else { small(x, g) })
					.collect(),
			)
		}
		Sc::Der(f, b) if *f == fam => {
			let d = def(*f, *b);
			match &d.kind {
				Kind::Struct(fs) => Val::L(fields(fs, d.rev, fam, left - 1, g, &small)),
				Kind::Enum(vs) => {
					let ways: Vec<&Variant> = vs
						.iter()
						.filter(|v| {
							v.alive(d.rev) && v.fields.iter().any(|f| f.alive(d.rev) && holds(&f.sc, fam, 0))
						})
						.collect();
					let v = ways[g.d.pick(ways.len() as u64) as usize];
					Val::T(v.gi as u32, fields(&v.fields, d.rev, fam, left - 1, g, &small))
				}
			}
		}
		_ => small(sc, g),
	}
}

pub fn generate(sc: &Sc, g: &mut G) -> Val {
	g.budget -= 1;
	match sc {
		Sc::Bool => Val::U(g.d.pick(2) as u128),
		Sc::U(b) => Val::U(g.bits(*b)),
		Sc::I(b) => Val::I(g.signed(*b)),
		Sc::Usize => Val::U(g.bits(64)),
		Sc::Isize => Val::I(g.signed(64)),
		Sc::F32 => Val::U(g.f32b() as u128),
		Sc::F64 => Val::U(g.f64b() as u128),
		Sc::NotNan(32) => {
			let b = g.f32b();
			Val::U(if f32::from_bits(b).is_nan() { 0 } else { b as u128 })
		}
		Sc::NotNan(_) => Val::U(g.f64_nonan() as u128),
		Sc::Char => Val::U(g.ch() as u32 as u128),
		Sc::Str | Sc::Path => Val::S(g.string()),
		Sc::Bytes => {
			let s = g.string().into_bytes();
			let x = g.d.pick(256) as u8;
			Val::B(s.into_iter().map(|b| b ^ x).collect())
		}
		Sc::Regex => Val::S(REGEXES[g.d.pick(REGEXES.len() as u64) as usize].to_string()),
		Sc::Opt(x) => {
			if g.budget <= 0 || g.depth > 6 || g.d.pick(3) == 0 {
				Val::none()
			} else {
				g.depth += 1;
				let v = generate(x, g);
				g.depth -= 1;
				Val::some(v)
			}
		}
		Sc::Res(x, y) => {
			let n = g.d.pick(2) as u32;
			Val::T(n, vec![generate(if n == 0 { x } else { y }, g)])
		}
		Sc::Bound(x) => {
			let n = g.d.pick(3) as u32;
			Val::T(n, if n == 0 { vec![] } else { vec![generate(x, g)] })
		}
		Sc::Tup(l) => Val::L(l.iter().map(|s| generate(s, g)).collect()),
		Sc::Range(x) => Val::L((0..2).map(|_| generate(x, g)).collect()),
		Sc::Arr(x, n) => Val::L((0..*n).map(|_| generate(x, g)).collect()),
		Sc::Vec(x) if is_bulk(x) && g.big && g.budget > 0 && g.d.chance(1, 4) => {
			// large bulk vectors: contents derived from one decision
			let n = g.round(9, 16);
			g.budget -= n as i64 / 64;
			let mut p = Pure(g.d.pick64());
			let mut gg = G::new(&mut p, n as i64 * 4);
			Val::L((0..n).map(|_| generate(x, &mut gg)).collect())
		}
		Sc::Vec(_) | Sc::Seq(_) | Sc::Set(..) | Sc::Heap(_) | Sc::Map(..)
			if g.big && g.budget > 0 && g.d.chance(1, 6) =>
		{
			// large collections: contents derived from one decision
			let c = match sc {
				Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _) | Sc::Heap(x) => cost(x),
				Sc::Map(k, x, _) => cost(k) + cost(x),
				_ => unreachable!(),
			};
			let n = match g.d.pick(if c <= 2 { 12 } else { 9 }) {
				0..=3 => 254 + g.d.pick(4),
				4..=6 => 600 + g.d.pick(4),
				7..=8 => 1023 + g.d.pick(3),
				9..=10 => 4095 + g.d.pick(4),
				_ => 65534 + g.d.pick(4),
			};
			g.budget -= n as i64 / 64;
			let mut p = Pure(g.d.pick64());
			let mut one = |s: &Sc| {
				let mut gg = G::new(&mut p, 8);
				gg.depth = 5;
				generate(s, &mut gg)
			};
			match sc {
				Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _) | Sc::Heap(x) => Val::L((0..n).map(|_| one(x)).collect()),
				Sc::Map(k, x, _) => Val::M((0..n).map(|_| (one(k), one(x))).collect()),
				_ => unreachable!(),
			}
		}
		Sc::Vec(x) | Sc::Seq(x) | Sc::Set(x, _) | Sc::Heap(x) => {
			let n = g.len(cost(x));
			g.depth += 1;
			let l = (0..n).map(|_| generate(x, g)).collect();
			g.depth -= 1;
			Val::L(l)
		}
		Sc::Map(k, x, _) => {
			let n = g.len(cost(k) + cost(x));
			g.depth += 1;
			let l = (0..n).map(|_| (generate(k, g), generate(x, g))).collect();
			g.depth -= 1;
			Val::M(l)
		}
		Sc::Dur => {
			let s = g.bits(64);
			Val::L(vec![Val::U(s), Val::U(nanos(g))])
		}
		Sc::SysTime => {
			let s = g.bits(64) & (i64::MAX as u128);
			Val::L(vec![Val::U(s), Val::U(nanos(g))])
		}
		Sc::Decimal => {
			let mut b = vec![0u8; 16];
			// flags: scale in bits 16..24, sign in bit 31
			b[2] = g.d.pick(29) as u8;
			b[3] = if g.d.chance(1, 2) { 0x80 } else { 0 };
			let m = g.bits(96);
			b[4..16].copy_from_slice(&m.to_le_bytes()[..12]);
			Val::B(b)
		}
		Sc::Uuid => {
			let m = g.bits(128);
			Val::B(m.to_be_bytes().to_vec())
		}
		Sc::DateTime => {
			let lim = 8_000_000_000_000u128;
			let mut s = (g.bits(64) % (2 * lim)) as i128 - lim as i128;
			let mut n = nanos(g);
			if g.d.chance(1, 8) {
				// leap second
				s = s - s.rem_euclid(60) + 59;
				n += 1_000_000_000;
			}
			Val::L(vec![Val::I(s), Val::U(n)])
		}
		Sc::Date => {
			let y = match g.d.pick(4) {
				0 => 2000 + g.d.pick(4) as i128,
				1 => -262142 + g.d.pick(3) as i128,
				2 => 262142 - g.d.pick(3) as i128,
				_ => g.d.pick(20000) as i128 - 10000,
			};
			let m = 1 + g.d.pick(12) as u128;
			let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
			let dm = match m {
				2 => {
					if leap {
						29
					} else {
						28
					}
				}
				4 | 6 | 9 | 11 => 30,
				_ => 31,
			};
			let d = if g.d.chance(1, 3) { dm } else { 1 + g.d.pick(dm) };
			Val::L(vec![Val::I(y), Val::U(m), Val::U(d as u128)])
		}
		Sc::Time => {
			let h = g.d.pick(24) as u128;
			let m = g.d.pick(60) as u128;
			let s = if g.d.chance(1, 4) { 59 } else { g.d.pick(60) as u128 };
			let mut n = nanos(g);
			if s == 59 && g.d.chance(1, 3) {
				n += 1_000_000_000;
			}
			Val::L(vec![Val::U(h), Val::U(m), Val::U(s), Val::U(n)])
		}
		Sc::ChronoDur => {
			let lim: i128 = (i64::MAX / 1000 - 2) as i128;
			let s = match g.d.pick(5) {
				0 => g.d.pick(4) as i128,
				1 => -(g.d.pick(4) as i128),
				2 => lim,
				3 => -lim,
				_ => g.signed(64) % lim,
			};
			Val::L(vec![Val::I(s), Val::I(nanos(g) as i128)])
		}
		Sc::Roaring | Sc::Treemap => {
			let mut v: Vec<u64> = vec![];
			let max = if *sc == Sc::Roaring { 1u64 << 32 } else { u64::MAX };
			let groups = g.d.pick(3);
			for _ in 0..groups {
				let base = g.bits(64) as u64 % max;
				match g.d.pick(3) {
					0 => v.push(base),
					1 => (0..g.d.pick(40)).for_each(|i| v.push(base.wrapping_add(i * 3) % max)),
					_ => {
						let n = if g.big { 5000 } else { 40 };
						(0..n).for_each(|i| v.push(base.wrapping_add(i) % max))
					}
				}
			}
			v.sort();
			v.dedup();
			g.budget -= v.len() as i64 / 16;
			Val::L(v.into_iter().map(|x| Val::U(x as u128)).collect())
		}
		Sc::Coord => Val::L(vec![Val::U(g.f64b() as u128), Val::U(g.f64b() as u128)]),
		Sc::Poly => {
			let ring = |g: &mut G| {
				let n = g.len(2);
				let mut l: Vec<Val> = (0..n)
					.map(|_| Val::L(vec![Val::U(g.f64_nonan() as u128), Val::U(g.f64_nonan() as u128)]))
					.collect();
				// rings are closed
				if let Some(f) = l.first().cloned()
					&& l.last() != Some(&f)
				{
					l.push(f);
				}
				Val::L(l)
			};
			let ext = ring(g);
			let n = g.d.pick(3);
			let ints = (0..n).map(|_| ring(g)).collect();
			Val::L(vec![ext, Val::L(ints)])
		}
		Sc::Hook => Val::U(g.bits(32)),
		Sc::Der(f, b) => {
			let d = def(*f, *b);
			g.depth += 1;
			let v = match &d.kind {
				Kind::Struct(fs) => Val::L(
					fs.iter().filter(|f| f.alive(d.rev)).map(|f| generate(&f.sc, g)).collect(),
				),
				Kind::Enum(vs) => {
					let alive: Vec<&Variant> = vs.iter().filter(|v| v.alive(d.rev)).collect();
					let i = if g.budget <= 0 || g.depth > 6 {
						0
					} else {
						g.d.pick(alive.len() as u64) as usize
					};
					let v = alive[i];
					Val::T(
						v.gi as u32,
						v.fields
							.iter()
							.filter(|f| f.alive(d.rev))
							.map(|f| generate(&f.sc, g))
							.collect(),
					)
				}
			};
			g.depth -= 1;
			v
		}
	}
}

fn nanos(g: &mut G) -> u128 {
	match g.d.pick(4) {
		0 => 0,
		1 => 999_999_999,
		2 => 249 + g.d.pick(4) as u128,
		_ => g.d.pick(1_000_000_000) as u128,
	}
}

/// What `Default::default()` gives for the types that use it.
pub fn std_default(sc: &Sc) -> Val {
	match sc {
		Sc::Bool | Sc::U(_) | Sc::Usize | Sc::F32 | Sc::F64 | Sc::Char => Val::U(0),
		Sc::I(_) | Sc::Isize => Val::I(0),
		Sc::Str | Sc::Path => Val::S(String::new()),
		Sc::Bytes => Val::B(vec![]),
		Sc::Opt(_) => Val::none(),
		Sc::Vec(_) | Sc::Seq(_) | Sc::Set(..) | Sc::Heap(_) => Val::L(vec![]),
		Sc::Map(..) => Val::M(vec![]),
		Sc::Tup(l) => Val::L(l.iter().map(std_default).collect()),
		Sc::Arr(x, n) => Val::L((0..*n).map(|_| std_default(x)).collect()),
		Sc::Dur => Val::L(vec![Val::U(0), Val::U(0)]),
		_ => panic!("harness: no std default for {sc:?}"),
	}
}

/// What the default function of member `site` returns when told `rev`.
pub fn fn_default(sc: &Sc, site: u32, rev: u16) -> Val {
	let mut p = Pure(crate::world::mix(site as u64, rev as u64 + 1000));
	let mut g = G::new(&mut p, 12);
	normalise(sc, &generate(sc, &mut g))
}

/// Remove duplicate set members / map keys (last one wins) as containers do.
pub fn normalise(sc: &Sc, v: &Val) -> Val {
	match (sc, v) {
		(Sc::Set(x, _), Val::L(l)) => {
			let mut o: Vec<Val> = vec![];
			for e in l {
				let e = normalise(x, e);
				if !o.contains(&e) {
					o.push(e)
				}
			}
			Val::L(o)
		}
		(Sc::Map(k, x, _), Val::M(m)) => {
			let mut o: Vec<(Val, Val)> = vec![];
			for (a, b) in m {
				let (a, b) = (normalise(k, a), normalise(x, b));
				if let Some(e) = o.iter_mut().find(|e| e.0 == a) {
					e.1 = b
				} else {
					o.push((a, b))
				}
			}
			Val::M(o)
		}
		(Sc::Opt(x), Val::T(n, l)) | (Sc::Bound(x), Val::T(n, l)) => {
			Val::T(*n, l.iter().map(|e| normalise(x, e)).collect())
		}
		(Sc::Res(x, y), Val::T(n, l)) => {
			let s = if *n == 0 { x } else { y };
			Val::T(*n, l.iter().map(|e| normalise(s, e)).collect())
		}
		(Sc::Tup(s), Val::L(l)) => Val::L(s.iter().zip(l).map(|(s, e)| normalise(s, e)).collect()),
		(Sc::Range(x), Val::L(l))
		| (Sc::Arr(x, _), Val::L(l))
		| (Sc::Vec(x), Val::L(l))
		| (Sc::Seq(x), Val::L(l))
		| (Sc::Heap(x), Val::L(l)) => Val::L(l.iter().map(|e| normalise(x, e)).collect()),
		(Sc::Der(f, b), _) => {
			let d = def(*f, *b);
			match (&d.kind, v) {
				(Kind::Struct(fs), Val::L(l)) => Val::L(
					fs.iter()
						.filter(|f| f.alive(d.rev))
						.zip(l)
						.map(|(f, e)| normalise(&f.sc, e))
						.collect(),
				),
				(Kind::Enum(vs), Val::T(n, l)) => {
					let vd = vs.iter().find(|x| x.gi == *n as usize).expect("variant");
					Val::T(
						*n,
						vd.fields
							.iter()
							.filter(|f| f.alive(d.rev))
							.zip(l)
							.map(|(f, e)| normalise(&f.sc, e))
							.collect(),
					)
				}
				_ => panic!("harness: normalise"),
			}
		}
		_ => v.clone(),
	}
}

// ---------------------------------------------------------------------------
// Reference model of schema evolution
// ---------------------------------------------------------------------------

/// The value a build with schema `to` must obtain from a record holding `v`
/// written by a build with schema `from`.
pub fn upgrade(from: &Sc, to: &Sc, v: &Val) -> Val {
	match (from, to, v) {
		(Sc::Opt(f), Sc::Opt(t), Val::T(n, l)) | (Sc::Bound(f), Sc::Bound(t), Val::T(n, l)) => {
			Val::T(*n, l.iter().map(|e| upgrade(f, t, e)).collect())
		}
		(Sc::Res(f1, f2), Sc::Res(t1, t2), Val::T(n, l)) => {
			let (f, t) = if *n == 0 { (f1, t1) } else { (f2, t2) };
			Val::T(*n, l.iter().map(|e| upgrade(f, t, e)).collect())
		}
		(Sc::Tup(f), Sc::Tup(t), Val::L(l)) => {
			Val::L(f.iter().zip(t).zip(l).map(|((f, t), e)| upgrade(f, t, e)).collect())
		}
		(Sc::Range(f), Sc::Range(t), Val::L(l))
		| (Sc::Arr(f, _), Sc::Arr(t, _), Val::L(l))
		| (Sc::Vec(f), Sc::Vec(t), Val::L(l))
		| (Sc::Seq(f), Sc::Seq(t), Val::L(l))
		| (Sc::Set(f, _), Sc::Set(t, _), Val::L(l))
		| (Sc::Heap(f), Sc::Heap(t), Val::L(l)) => {
			Val::L(l.iter().map(|e| upgrade(f, t, e)).collect())
		}
		(Sc::Map(fk, fv, _), Sc::Map(tk, tv, _), Val::M(m)) => {
			Val::M(m.iter().map(|(k, v)| (upgrade(fk, tk, k), upgrade(fv, tv, v))).collect())
		}
		(Sc::Der(ff, fb), Sc::Der(tf, tb), _) => {
			assert_eq!(ff, tf, "harness: family");
			upgrade_der(def(*ff, *fb), def(*tf, *tb), v)
		}
		_ => {
			debug_assert_eq!(from, to);
			v.clone()
		}
	}
}

/// Fields present at `rev` with their upgraded values, then the values of the
/// target's fields and the list of removed ones, in declaration order.
fn upgrade_fields(
	ff: &[Field],
	tf: &[Field],
	rev: u16,
	trev: u16,
	l: &[Val],
) -> (Vec<(usize, Val)>, Vec<(usize, Val)>) {
	let mut it = ff.iter().filter(|f| f.alive(rev)).zip(l);
	let mut cur = vec![];
	let mut removed = vec![];
	for t in tf {
		if t.alive(rev) {
			let (f, v) = it.next().expect("harness: field on wire");
			assert_eq!(f.gi, t.gi);
			let v = upgrade(&f.sc, &t.sc, v);
			if t.alive(trev) {
				cur.push((t.gi, v))
			} else {
				removed.push((t.gi, v))
			}
		} else if t.alive(trev) {
			let v = if t.g.has_default_fn {
				fn_default(&t.sc, t.g.site, rev)
			} else {
				std_default(&t.sc)
			};
			cur.push((t.gi, v))
		}
	}
	(cur, removed)
}

fn apply_conv(tf: &[Field], cur: &mut [(usize, Val)], removed: Vec<(usize, Val)>, rev: u16) {
	for (gi, v) in removed {
		let f = tf.iter().find(|f| f.gi == gi).unwrap();
		match f.g.conv {
			Some(Conv::Move(to)) => {
				cur.iter_mut().find(|c| c.0 == to).expect("harness: move target").1 = v
			}
			_ => {
				let acc = cur[0].1.u() as u64;
				cur[0].1 = Val::U(absorb(acc, digest(&f.sc, &v), rev, f.g.site) as u128);
			}
		}
	}
}

pub fn upgrade_der(from: &Def, to: &Def, v: &Val) -> Val {
	let rev = from.rev;
	match (&from.kind, &to.kind) {
		(Kind::Struct(ff), Kind::Struct(tf)) => {
			let (mut cur, removed) = upgrade_fields(ff, tf, rev, to.rev, v.l());
			apply_conv(tf, &mut cur, removed, rev);
			Val::L(cur.into_iter().map(|c| c.1).collect())
		}
		(Kind::Enum(fv), Kind::Enum(tv)) => {
			let (n, l) = v.t();
			let f = fv.iter().find(|x| x.gi == n as usize).expect("harness: variant");
			let t = tv.iter().find(|x| x.gi == n as usize).expect("harness: variant in target");
			let (mut cur, removed) = upgrade_fields(&f.fields, &t.fields, rev, to.rev, l);
			apply_conv(&t.fields, &mut cur, removed, rev);
			if t.alive(to.rev) {
				Val::T(n, cur.into_iter().map(|c| c.1).collect())
			} else {
				// removed variant: conversion into the first variant
				let mut acc = t.g.site as u64;
				for (gi, v) in &cur {
					let f = t.fields.iter().find(|f| f.gi == *gi).unwrap();
					acc = absorb(acc, digest(&f.sc, v), rev, f.g.site);
				}
				Val::T(0, vec![Val::U(absorb(acc, 0, rev, t.g.site) as u128)])
			}
		}
		_ => panic!("harness: kind"),
	}
}

pub fn cmp_val(a: &Val, b: &Val) -> Ordering {
	a.cmp(b)
}
