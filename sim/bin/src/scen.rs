//! Scenarios: one function per property.  A scenario draws a workload and a
//! fault schedule, runs the real code and judges the history.

use std::sync::OnceLock;

use core_sim::dynt::{Entry, IdxEntry, Inst};
use core_sim::hooks;
use core_sim::io::{Frag, Sched, Sink, Src, WFault};
use core_sim::refenc::{self, CFG, Enc, Mark};
use core_sim::tr;
use core_sim::val::*;
use core_sim::walkers::{Cx, Exp, Pos};
use core_sim::world::{self, R, chance, count, ensure, ev, hex, pick, picku, set_label, viol, weighted};
use revision::{Error, SliceReader};

pub const PROPS: &[&str] = &[
	"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P18", "P19", "P20", "P21", "P22",
];

/// Length prefixes are trusted as documented: damage to one may make a decoder
/// ask for that much memory.
pub fn length_trusting(p: &str) -> bool {
	p == "P12" || p == "P13" || p == "P21"
}

pub fn scenario(p: &str) -> R<()> {
	match p {
		"P01" => p01(),
		"P02" => p02(),
		"P03" => p03(),
		"P04" => p04(),
		"P05" => p05(),
		"P06" => p06(),
		"P07" => p07(),
		"P08" => p08(),
		"P09" => p09(),
		"P10" => p10(),
		"P11" => crate::scen2::p11(),
		"P12" => crate::scen2::p12(),
		"P13" => crate::scen2::p13(),
		"P14" => crate::scen2::p14(),
		"P15" => crate::scen2::p15(),
		"P16" => crate::scen2::p16(),
		"P18" => crate::scen2::p18(),
		"P19" => crate::scen3::p19(),
		"P20" => crate::scen3::p20(),
		"P21" => crate::scen3::p21(),
		"P22" => crate::scen4::p22(),
		_ => panic!("harness: no scenario {p}"),
	}
}

pub struct Reg {
	pub all: Vec<Entry>,
	pub plain: Vec<usize>,
	/// family -> build -> index
	pub fams: Vec<Vec<usize>>,
	pub idx: Vec<IdxEntry>,
}
pub const BUILDS: usize = 4;

pub fn reg() -> &'static Reg {
	static REG: OnceLock<Reg> = OnceLock::new();
	REG.get_or_init(|| {
		let mut all = vec![];
		sim_std1::types(&mut all);
		sim_std2::types(&mut all);
		sim_b0::types(&mut all);
		sim_b1::types(&mut all);
		sim_b2::types(&mut all);
		sim_b3::types(&mut all);
		let mut idx = vec![];
		sim_std2::indexed(&mut idx);
		let nf = core_sim::types::FAMS.len();
		let mut fams = vec![vec![usize::MAX; BUILDS]; nf];
		let mut plain = vec![];
		for (i, e) in all.iter().enumerate() {
			match e.fam {
				Some((f, b)) => fams[f][b] = i,
				None => plain.push(i),
			}
		}
		Reg { all, plain, fams, idx }
	})
}

pub fn any_plain() -> &'static Entry {
	let r = reg();
	&r.all[r.plain[picku(r.plain.len())]]
}
pub fn fam_at(f: usize, b: usize) -> &'static Entry {
	let r = reg();
	&r.all[r.fams[f][b]]
}
pub fn any_fam() -> usize {
	picku(reg().fams.len())
}
/// Any type under simulation.
pub fn any_entry() -> &'static Entry {
	if chance(1, 2) { fam_at(any_fam(), picku(BUILDS)) } else { any_plain() }
}

pub fn gen_sized(sc: &Sc, budget: i64, thr: bool, big: bool) -> Val {
	let mut d = WorldDraw;
	let mut g = G::new(&mut d, budget);
	g.around_threshold = thr;
	g.big = big;
	generate(sc, &mut g)
}
pub fn gen_val(sc: &Sc) -> Val {
	if let Sc::Der(f, b) = sc
		&& recursive(*f, *b)
		&& chance(1, 8)
	{
		// a record nested in itself many times over
		let mut d = WorldDraw;
		let mut g = G::new(&mut d, 0);
		let n = [12, 33, 65, 102, 129, 140][weighted(&[6, 3, 2, 1, 1, 1])];
		world::count("values.deep", 1);
		return chain(sc, *f, n, &mut g);
	}
	let budget = [12, 30, 80, 240][weighted(&[4, 4, 3, 1])];
	let thr = chance(1, 4);
	let big = chance(1, 16);
	gen_sized(sc, if thr { budget.max(80) } else { budget }, thr, big)
}
pub fn gen_small(sc: &Sc) -> Val {
	gen_sized(sc, 14, false, false)
}

pub struct Rec {
	pub e: &'static Entry,
	pub i: Box<dyn Inst>,
	/// value in the order the instance iterates
	pub v: Val,
	/// fault-free in-memory encoding
	pub b: Vec<u8>,
}
pub fn record(e: &'static Entry, v: &Val) -> R<Rec> {
	let i = e.ops.make(v);
	let v = i.val();
	let b = match i.to_vec() {
		Ok(b) => b,
		Err(x) => return viol("encode-error", format!("{} of {}: {x}", e.name, v.short())),
	};
	tr!("record {} = {} : {}", e.name, v.short(), hex(&b));
	Ok(Rec { e, i, v, b })
}
pub fn any_record() -> R<Rec> {
	let e = any_entry();
	set_label(e.name.clone());
	let v = gen_val(&e.sc);
	record(e, &v)
}

pub fn expect_val(sc: &Sc, want: &Val, got: &Val, what: &str) -> R<()> {
	ensure(same(sc, want, got), "wrong-value", || {
		format!("{what} gave {} instead of {}", got.short(), want.short())
	})
}
pub fn evr<T>(tag: u64, r: &Result<T, Error>, pos: usize) {
	ev(tag << 1 | r.is_ok() as u64, pos as u64)
}
pub fn noise() -> Vec<u8> {
	let n = pick(9);
	(0..n).map(|_| pick(256) as u8).collect()
}

// ---------------------------------------------------------------------------

/// The ways a record can be encoded to a sink.
fn encode_to(i: &dyn Inst, s: &mut Sink) -> Result<(), Error> {
	if chance(1, 3) { i.to_writer(s) } else { i.encode(s) }
}

fn p01() -> R<()> {
	let r = any_record()?;
	// write
	let s = Sched::draw();
	let mut sink = Sink::new(s);
	let w = encode_to(&*r.i, &mut sink);
	tr!("write schedule {s:?}: {:?}, {} calls", w.is_ok(), sink.calls);
	evr(10, &w, sink.data.len());
	if let Err(e) = w {
		return viol("write-error", format!("healthy sink ({s:?}) but encoding failed: {e}"));
	}
	ensure(sink.data == r.b, "schedule-bytes", || {
		format!("schedule {s:?} wrote {} instead of {}", hex(&sink.data), hex(&r.b))
	})?;
	if chance(1, 4) {
		let mut v = noise();
		let n = v.len();
		if let Err(e) = r.i.append(&mut v) {
			return viol("write-error", format!("append to a vector failed: {e}"));
		}
		ensure(v[n..] == r.b[..], "schedule-bytes", || "appending gave other bytes".into())?;
	}
	// read, several times under different schedules
	let tail = noise();
	let all: Vec<u8> = r.b.iter().chain(&tail).copied().collect();
	for _ in 0..1 + pick(3) {
		let s = Sched::draw();
		let mut src = Src::with(&all, s);
		let m = pick(3);
		let g = match m {
			0 | 1 => r.e.ops.decode(&mut src),
			_ => r.e.ops.from_reader(&mut src),
		};
		tr!("read schedule {s:?} m={m}: ok={} at {} of {}", g.is_ok(), src.pos(), r.b.len());
		evr(11, &g, src.pos());
		match g {
			Ok(g) => expect_val(&r.e.sc, &r.v, &g, "reading back")?,
			Err(e) => return viol("read-error", format!("healthy source ({s:?}) but decoding failed: {e}")),
		}
		ensure(src.pos() == r.b.len(), "consumed", || {
			format!("decoding consumed {} of {} bytes", src.pos(), r.b.len())
		})?;
		ensure(src.ctl.high.get() <= r.b.len(), "consumed", || {
			format!("decoding looked at {} of {} bytes", src.ctl.high.get(), r.b.len())
		})?;
	}
	// from memory
	let mut sl = &all[..];
	match r.e.ops.decode_slice(&mut sl) {
		Ok(g) => expect_val(&r.e.sc, &r.v, &g, "reading from memory")?,
		Err(e) => return viol("read-error", format!("decoding from memory failed: {e}")),
	}
	ensure(sl.len() == tail.len(), "consumed", || {
		format!("decoding from memory left {} instead of {} bytes", sl.len(), tail.len())
	})?;
	match r.e.ops.from_slice(&r.b) {
		Ok(g) => expect_val(&r.e.sc, &r.v, &g, "from_slice"),
		Err(e) => viol("read-error", format!("from_slice failed: {e}")),
	}
}

fn p02() -> R<()> {
	if chance(1, 60) {
		return crate::misfit::run();
	}
	// a batch of records goes to one sink, which fails somewhere
	let n = 1 + weighted(&[5, 2, 1]);
	let mut rs = vec![];
	for k in 0..n {
		let e = any_entry();
		if k == 0 {
			set_label(e.name.clone());
		}
		let v = if n == 1 { gen_val(&e.sc) } else { gen_small(&e.sc) };
		rs.push(record(e, &v)?);
	}
	let total: usize = rs.iter().map(|r| r.b.len()).sum();
	if total == 0 {
		return Ok(());
	}
	let want: Vec<u8> = rs.iter().flat_map(|r| r.b.iter().copied()).collect();
	let s = Sched::draw();
	let mut sink = Sink::new(s);
	sink.fault = match pick(4) {
		0 => WFault::Error(picku(total)),
		1 => WFault::Full(picku(total)),
		2 => WFault::Once(pick(total.min(40) as u64 + 2)),
		_ => WFault::Full(total - 1 - picku(total.min(4))),
	};
	tr!("sink schedule {s:?} fault {:?} over {total} bytes", sink.fault);
	let mut acked = 0;
	let mut failed = None;
	for (k, r) in rs.iter().enumerate() {
		set_label(r.e.name.clone());
		let before = sink.fired;
		let w = encode_to(&*r.i, &mut sink);
		evr(20, &w, sink.data.len());
		tr!("  record {k}: ok={} sink holds {} bytes", w.is_ok(), sink.data.len());
		match w {
			Ok(()) => {
				ensure(sink.fired == before, "write-lost", || {
					"the sink reported a failure, encoding reported success".to_string()
				})?;
				acked += r.b.len();
				ensure(sink.data.len() == acked, "write-lost", || {
					format!("success reported with {} of {acked} bytes accepted", sink.data.len())
				})?;
			}
			Err(e) => {
				ensure(sink.fired, "write-error", || format!("no fault, but encoding failed: {e}"))?;
				failed = Some(k);
				break;
			}
		}
	}
	ensure(want.starts_with(&sink.data), "write-altered", || {
		format!("the sink holds {}, no prefix of {}", hex(&sink.data), hex(&want))
	})?;
	// the application repairs its device, drops the torn record and writes again
	if let Some(k) = failed {
		count("act.retried-writes", 1);
		let mut again = Sink::new(Sched::draw());
		let r = &rs[k];
		if let Err(e) = encode_to(&*r.i, &mut again) {
			return viol("write-error", format!("retry on a healthy sink failed: {e}"));
		}
		ensure(again.data == r.b, "retry-bytes", || {
			format!("retry wrote {} instead of {}", hex(&again.data), hex(&r.b))
		})?;
		// in place, if the failure was momentary
		if sink.fault == WFault::None {
			sink.data.truncate(acked);
			if let Err(e) = encode_to(&*r.i, &mut sink) {
				return viol("write-error", format!("retry in place failed: {e}"));
			}
			ensure(sink.data == want[..acked + r.b.len()], "retry-bytes", || "retry in place differs".into())?;
		}
	}
	Ok(())
}

/// The ways a record can be consumed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
	Decode,
	FromReader,
	Skip,
	SkipReader,
	SkipCheck,
	SkipCheckReader,
	DecodeSlice,
	FromSlice,
	SkipSlice,
	SkipCheckSlice,
	SkipInSlice,
	Walk,
}
pub const OPS: [Op; 12] = [
	Op::Decode, Op::FromReader, Op::Skip, Op::SkipReader, Op::SkipCheck, Op::SkipCheckReader, Op::DecodeSlice,
	Op::FromSlice, Op::SkipSlice, Op::SkipCheckSlice, Op::SkipInSlice, Op::Walk,
];
/// What a consumer reports.
pub enum Got {
	Value(Val),
	Skipped,
}
/// Run a stream consumer over `s`.
pub fn consume(e: &Entry, op: Op, s: &mut Src) -> Result<Got, Error> {
	Ok(match op {
		Op::Decode => Got::Value(e.ops.decode(s)?),
		Op::FromReader => Got::Value(e.ops.from_reader(s)?),
		Op::Skip => {
			e.ops.skip(s)?;
			Got::Skipped
		}
		Op::SkipReader => {
			e.ops.skip_reader(s)?;
			Got::Skipped
		}
		Op::SkipCheck => {
			e.ops.skip_check(s)?;
			Got::Skipped
		}
		Op::SkipCheckReader => {
			e.ops.skip_check_reader(s)?;
			Got::Skipped
		}
		_ => panic!("harness: not a stream consumer"),
	})
}
/// Run a memory consumer; also gives the number of bytes consumed, if known.
pub fn consume_slice(e: &Entry, op: Op, b: &[u8]) -> Result<(Got, Option<usize>), Error> {
	Ok(match op {
		Op::DecodeSlice => {
			let mut s = b;
			let v = e.ops.decode_slice(&mut s)?;
			(Got::Value(v), Some(b.len() - s.len()))
		}
		Op::FromSlice => (Got::Value(e.ops.from_slice(b)?), None),
		Op::SkipSlice => {
			let n = e.ops.skip_slice(b)?;
			(Got::Skipped, Some(n))
		}
		Op::SkipCheckSlice => {
			let n = e.ops.skip_check_slice(b)?;
			(Got::Skipped, Some(n))
		}
		Op::SkipInSlice => {
			let mut r = SliceReader::new(b);
			e.ops.skip_in_slice(&mut r)?;
			use revision::BorrowedReader;
			let n = r.position();
			(Got::Skipped, Some(n))
		}
		_ => panic!("harness: not a memory consumer"),
	})
}
pub fn stream_op(op: Op) -> bool {
	matches!(
		op,
		Op::Decode | Op::FromReader | Op::Skip | Op::SkipReader | Op::SkipCheck | Op::SkipCheckReader
	)
}

fn p03() -> R<()> {
	let r = any_record()?;
	let n = r.b.len();
	if n == 0 {
		return Ok(());
	}
	for _ in 0..1 + pick(4) {
		let cut = match pick(4) {
			0 => n - 1,
			1 => n - 1 - picku(n.min(9)),
			_ => picku(n),
		};
		let op = OPS[picku(OPS.len())];
		let torn = chance(2, 3);
		tr!("{} at byte {cut} of {n}, then {op:?}", if torn { "torn" } else { "source error" });
		if op == Op::Walk {
			let mut src = Src::with(&r.b, Sched::draw());
			if torn { src.ctl.limit.set(cut) } else { src.ctl.fail_at.set(Some(cut)) }
			let wb = r.e.fam.map(|f| f.1).unwrap_or(0);
			let mut cx = Cx::new(&src, 0, false);
			cx.torn = true;
			let x = Exp { v: Some(&r.v), wb };
			match r.e.ops.walk(&mut src, &x, &cx) {
				Ok(Pos::End) => {
					return viol("torn-accepted", format!("walked to the end of {cut} of {n} bytes"));
				}
				Ok(Pos::Mid) => {}
				Err(world::Stop::Faulted) => count("act.torn-refused", 1),
				Err(e) => return Err(e),
			}
			continue;
		}
		if stream_op(op) {
			let mut src = Src::with(&r.b, Sched::draw());
			if torn { src.ctl.limit.set(cut) } else { src.ctl.fail_at.set(Some(cut)) }
			let g = consume(r.e, op, &mut src);
			evr(30, &g, src.pos());
			ensure(g.is_err(), "torn-accepted", || format!("{op:?} accepted {cut} of {n} bytes"))?;
			count("act.torn-refused", 1);
			// the rest arrives: reading again from the start succeeds
			src.ctl.limit.set(n);
			src.ctl.fail_at.set(None);
			src.ctl.pos.set(0);
			src.ctl.calls.set(0);
			match consume(r.e, op, &mut src) {
				Ok(Got::Value(v)) => expect_val(&r.e.sc, &r.v, &v, "retry")?,
				Ok(Got::Skipped) => {}
				Err(e) => return viol("retry-error", format!("{op:?} of the complete record: {e}")),
			}
			ensure(src.pos() == n, "consumed", || format!("{op:?} consumed {} of {n}", src.pos()))?;
		} else {
			let g = consume_slice(r.e, op, &r.b[..cut]);
			evr(31, &g, cut);
			ensure(g.is_err(), "torn-accepted", || format!("{op:?} accepted {cut} of {n} bytes"))?;
			count("act.torn-refused", 1);
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------

/// One record of a log together with what its reader must see.
pub struct Logged {
	pub wr: Rec,
	/// the reader's type
	pub rd: &'static Entry,
	pub want: Val,
	pub start: usize,
}
/// Append a record to a log; its reader knows at least as much as its writer.
pub fn log_record(log: &mut Vec<u8>, small: bool) -> R<Logged> {
	let (we, rd) = if chance(1, 2) {
		let f = any_fam();
		let wb = picku(BUILDS);
		let rb = wb + picku(BUILDS - wb);
		(fam_at(f, wb), fam_at(f, rb))
	} else {
		let e = any_plain();
		(e, e)
	};
	let v = if small { gen_small(&we.sc) } else { gen_val(&we.sc) };
	let wr = record(we, &v)?;
	let want = upgrade(&we.sc, &rd.sc, &wr.v);
	let start = log.len();
	log.extend_from_slice(&wr.b);
	Ok(Logged { wr, rd, want, start })
}

/// Consume the record at `at` with a drawn consumer; gives the bytes consumed
/// or `None` if the consumer refused.
pub fn eat(l: &Logged, log: &[u8], at: usize, sched: Sched) -> R<Option<usize>> {
	let op = OPS[picku(OPS.len())];
	let e = l.rd;
	set_label(format!("{}<-{} {op:?}", e.name, l.wr.e.name));
	let rest = &log[at..];
	let n = l.wr.b.len();
	if op == Op::Walk {
		let mut src = Src::with(rest, sched);
		let mut cx = Cx::new(&src, 0, false);
		cx.torn = true;
		let wb = l.wr.e.fam.map(|f| f.1).unwrap_or(0);
		let x = Exp { v: Some(&l.want), wb };
		return match e.ops.walk(&mut src, &x, &cx) {
			Ok(Pos::End) => Ok(Some(src.pos())),
			Ok(Pos::Mid) => {
				// left in the middle: seek back and skip
				if src.pos() > n {
					return viol("overrun", format!("walk went {} into a record of {n}", src.pos()));
				}
				src.ctl.pos.set(0);
				src.ctl.calls.set(0);
				match e.ops.skip(&mut src) {
					Ok(()) => Ok(Some(src.pos())),
					Err(_) => Ok(None),
				}
			}
			Err(world::Stop::Faulted) => Ok(None),
			Err(e) => Err(e),
		};
	}
	if stream_op(op) {
		let mut src = Src::with(rest, sched);
		let g = consume(e, op, &mut src);
		evr(40, &g, at + src.pos());
		tr!("  @{at} {op:?} {} <- {}: ok={} consumed {}", e.name, l.wr.e.name, g.is_ok(), src.pos());
		match g {
			Ok(Got::Value(v)) => expect_val(&e.sc, &l.want, &v, "log read")?,
			Ok(Got::Skipped) => {}
			Err(_) => return Ok(None),
		}
		return Ok(Some(src.pos()));
	}
	let op = if op == Op::FromSlice { Op::DecodeSlice } else { op };
	let g = consume_slice(e, op, rest);
	evr(41, &g, at);
	tr!("  @{at} {op:?} {} <- {}: ok={}", e.name, l.wr.e.name, g.is_ok());
	match g {
		Ok((Got::Value(v), n)) => {
			expect_val(&e.sc, &l.want, &v, "log read")?;
			Ok(n)
		}
		Ok((Got::Skipped, n)) => Ok(n),
		Err(_) => Ok(None),
	}
}

/// Records as a hand-written implementation makes them from the library's
/// building blocks, read back through those.
fn by_hand() -> R<()> {
	use revision::optimised::{SizeClass, envelope};
	use revision::slice_reader::{take_bytes_reader, take_bytes_slice};
	use revision::{BorrowedReader, advance_read, read_borrowed_bytes};
	use std::io::Read;
	set_label("by-hand".into());
	const CLASSES: [SizeClass; 3] = [SizeClass::Inline, SizeClass::Fixed, SizeClass::Varlen];
	let mut want: Vec<u8> = vec![];
	let mut items = vec![];
	let mut sink = Sink::new(Sched::draw());
	for _ in 0..1 + pick(8) {
		let (id, class) = (pick(32) as u8, picku(3));
		let len = match class {
			0 => 0,
			1 => picku(17),
			_ => [picku(4), picku(300), picku(9000)][weighted(&[3, 3, 1])],
		};
		let body: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(31) ^ id).collect();
		let start = want.len();
		want.push(id | (class as u8) << 5);
		if class == 2 {
			want.extend((len as u32).to_le_bytes());
		}
		want.extend(&body);
		let r = match CLASSES[class] {
			SizeClass::Inline => envelope::encode_inline(&mut sink, id),
			SizeClass::Fixed => envelope::encode_fixed(&mut sink, id, |w| std::io::Write::write_all(w, &body).map_err(Error::Io)),
			SizeClass::Varlen => envelope::encode_varlen(&mut sink, id, |w| std::io::Write::write_all(w, &body).map_err(Error::Io)),
		};
		ensure(r.is_ok(), "record-lost", || format!("encoding by hand: {:?}", r.as_ref().err()))?;
		items.push((id, class, len, start));
	}
	let all = sink.data;
	ensure(all == want, "format", || format!("by hand wrote {}, expected {}", hex(&all), hex(&want)))?;
	let cut = if chance(1, 2) { picku(all.len()) } else { all.len() };
	tr!("{} values by hand, {} bytes, cut at {cut}", items.len(), all.len());
	let mut src = Src::with(&all, Sched::draw());
	src.ctl.limit.set(cut);
	for (id, class, len, start) in &items {
		let body = start + 1 + if *class == 2 { 4 } else { 0 };
		let end = body + len;
		let how = pick(4);
		let r = (|| -> Result<Option<Vec<u8>>, Error> {
			let (tag, sc) = envelope::read_optimised_tag(&mut src)?;
			if tag.variant_id() != *id || sc != CLASSES[*class] || tag.is_extended() {
				return Err(Error::Deserialize(format!("SIM: tag {:?}", tag)));
			}
			Ok(match sc {
				SizeClass::Inline => None,
				SizeClass::Fixed => match how {
					0 => {
						let mut b = vec![0; *len];
						src.read_exact(&mut b).map_err(Error::Io)?;
						Some(b)
					}
					1 => Some(read_borrowed_bytes(&mut src, *len)?.to_vec()),
					_ => {
						advance_read(&mut src, *len)?;
						None
					}
				},
				SizeClass::Varlen => match how {
					0 => Some(envelope::read_varlen_slice(&mut src)?.to_vec()),
					1 => {
						envelope::skip_varlen(&mut src)?;
						None
					}
					2 => {
						envelope::skip_varlen_borrowed(&mut src)?;
						None
					}
					_ => {
						let n = envelope::read_varlen_len(&mut src)? as usize;
						Some(read_borrowed_bytes(&mut src, n)?.to_vec())
					}
				},
			})
		})();
		if end > cut {
			ensure(r.is_err(), "torn-accepted", || format!("a value by hand, cut {} bytes short, was accepted", end - cut))?;
			break;
		}
		match r {
			Err(e) => return viol("record-lost", format!("a value by hand was refused: {e}")),
			Ok(b) => {
				if let Some(b) = b {
					ensure(b == all[body..end], "wrong-value", || format!("a value by hand read as {}", hex(&b)))?;
				}
				ensure(src.pos() == end, "misaligned", || format!("a value by hand ends at {end}, reader at {}", src.pos()))?;
			}
		}
	}
	// the slice reader against a cursor and a buffer
	let mut r = SliceReader::new(&all);
	let mut p = 0;
	let total = all.len();
	for _ in 0..2 + pick(12) {
		let n = match pick(6) {
			0 => total - p,
			1 => total - p + 1,
			2 => usize::MAX - picku(2),
			_ => picku(total - p + 1),
		};
		let fits = n <= total - p;
		let op = pick(6);
		let seen: Option<Vec<u8>> = match op {
			0 => r.peek_bytes(n).ok().map(|b| b.to_vec()),
			1 => r.consume(n).ok().map(|_| all[p..p + n].to_vec()),
			2 => take_bytes_reader(&mut r, n).ok().map(|b| b.to_vec()),
			3 => {
				let mut s = &all[p..];
				let b = take_bytes_slice(&mut s, n).ok().map(|b| b.to_vec());
				ensure(s.len() == total - p - if fits { n } else { 0 }, "misaligned", || "take_bytes_slice".into())?;
				b
			}
			4 => {
				let mut b = vec![0; n.min(2 * total + 2)];
				let k = r.read(&mut b).unwrap_or(usize::MAX);
				ensure(k == n.min(total - p), "misaligned", || format!("read {k} of {n} from {}", total - p))?;
				ensure(b[..k] == all[p..p + k], "wrong-value", || "slice reader read".into())?;
				p += k;
				continue;
			}
			_ => {
				let off = [p, picku(total + 2), usize::MAX][weighted(&[3, 3, 1])];
				let len = [n, picku(total + 2)][picku(2)];
				let ok = off >= p && off.checked_add(len).is_some_and(|e| e <= total);
				let s = r.sub(off, len);
				ensure(s.is_ok() == ok, "misaligned", || format!("sub({off}, {len}) at {p} of {total}: {}", s.is_ok()))?;
				if let Ok(s) = s {
					ensure(s.remaining() == &all[off..off + len] && s.consumed_len() == 0, "wrong-value", || {
						format!("sub({off}, {len}) at {p} of {total}")
					})?;
				}
				continue;
			}
		};
		ensure(seen.is_some() == fits, "misaligned", || format!("slice reader op {op} of {n} with {} left: {}", total - p, seen.is_some()))?;
		if let Some(b) = seen {
			ensure(b == all[p..p + n], "wrong-value", || format!("slice reader op {op} of {n} at {p}"))?;
			if op == 1 || op == 2 {
				p += n
			}
		}
		ensure(r.remaining() == &all[p..] && r.consumed_len() == p, "misaligned", || {
			format!("slice reader at {} of {total}, expected {p}", r.consumed_len())
		})?;
	}
	count("act.by-hand", 1);
	Ok(())
}

fn p04() -> R<()> {
	if chance(1, 32) {
		return by_hand();
	}
	let n = 2 + picku(7);
	let mut log = vec![];
	let mut ls = vec![];
	for k in 0..n {
		ls.push(log_record(&mut log, k % 3 != 0)?);
	}
	let replay = |ls: &[Logged], log: &[u8], whole: usize, sched: Sched| -> R<usize> {
		let mut at = 0;
		for (k, l) in ls.iter().enumerate() {
			ensure(at == l.start, "misaligned", || format!("record {k} expected at {}, reader at {at}", l.start))?;
			if k >= whole && l.wr.b.is_empty() {
				continue;
			}
			match eat(l, log, at, sched)? {
				Some(c) => {
					ensure(k < whole, "torn-accepted", || {
						format!("record {k} cut after {} of {} bytes was accepted", log.len() - at, l.wr.b.len())
					})?;
					ensure(c == l.wr.b.len(), "misaligned", || {
						format!("record {k} has {} bytes, {c} consumed", l.wr.b.len())
					})?;
					at += c;
				}
				None => {
					ensure(k >= whole, "record-lost", || format!("complete record {k} was refused"))?;
					return Ok(at);
				}
			}
		}
		Ok(at)
	};
	for _ in 0..1 + pick(3) {
		let at = replay(&ls, &log, n, Sched::draw())?;
		ensure(at == log.len(), "misaligned", || format!("scan ended at {at} of {}", log.len()))?;
	}
	// crash: only a prefix of the log is durable
	for _ in 0..1 + pick(2) {
		if log.is_empty() {
			break;
		}
		let cut = if chance(1, 2) {
			// inside the last record
			let l = ls.last().unwrap();
			l.start + picku(l.wr.b.len().max(1)).min(log.len() - l.start)
		} else {
			picku(log.len())
		};
		count("fault.crash", 1);
		tr!("crash: {cut} of {} bytes survive", log.len());
		log.truncate(cut);
		let whole = ls.iter().filter(|l| l.start + l.wr.b.len() <= cut).count();
		let at = replay(&ls, &log, whole, Sched::draw())?;
		// recovery: cut the torn tail, go on writing
		log.truncate(at);
		ls.truncate(whole);
		for _ in 0..pick(3) {
			ls.push(log_record(&mut log, true)?);
		}
		let n = ls.len();
		let at = replay(&ls, &log, n, Sched::draw())?;
		ensure(at == log.len(), "misaligned", || format!("scan ended at {at} of {}", log.len()))?;
	}
	Ok(())
}

// ---------------------------------------------------------------------------

fn p05() -> R<()> {
	// a rolling upgrade: the record passes through a chain of builds
	let f = any_fam();
	let mut b = picku(BUILDS);
	let mut e = fam_at(f, b);
	set_label(e.name.clone());
	let v = gen_val(&e.sc);
	let mut rec = record(e, &v)?;
	let mut tail = noise();
	for _ in 0..12 {
		let rb = b + picku(BUILDS - b);
		let rd = fam_at(f, rb);
		set_label(format!("{}<-{}", rd.name, e.name));
		let want = upgrade(&e.sc, &rd.sc, &rec.v);
		let all: Vec<u8> = rec.b.iter().chain(&tail).copied().collect();
		let mut src = Src::with(&all, Sched::draw());
		// a node may fail while reading and start over
		if chance(1, 4) && !rec.b.is_empty() {
			src.ctl.fail_at.set(Some(picku(rec.b.len())));
			let g = rd.ops.decode(&mut src);
			evr(50, &g, src.pos());
			ensure(g.is_err(), "torn-accepted", || "read error not reported".into())?;
			src.ctl.fail_at.set(None);
			src.ctl.pos.set(0);
			src.ctl.calls.set(0);
		}
		let g = if chance(1, 4) {
			let mut s = &all[..];
			let g = rd.ops.decode_slice(&mut s);
			src.ctl.pos.set(all.len() - s.len());
			g
		} else {
			rd.ops.decode(&mut src)
		};
		evr(51, &g, src.pos());
		count("act.upgrades", (rb > b) as u64);
		match g {
			Ok(g) => {
				tr!("{} reads {}: {}", rd.name, e.name, g.short());
				expect_val(&rd.sc, &want, &g, &format!("{} reading {} ({})", rd.name, e.name, rec.v.short()))?;
			}
			Err(x) => return viol("upgrade-error", format!("{} cannot read {}: {x}", rd.name, e.name)),
		}
		ensure(src.pos() == rec.b.len(), "consumed", || {
			format!("{} reading {} consumed {} of {}", rd.name, e.name, src.pos(), rec.b.len())
		})?;
		// checked skipping agrees
		let op = [Op::Skip, Op::SkipCheck, Op::SkipSlice, Op::SkipInSlice][picku(4)];
		let n = if stream_op(op) {
			let mut s = Src::with(&all, Sched::draw());
			consume(rd, op, &mut s).map(|_| Some(s.pos()))
		} else {
			consume_slice(rd, op, &all).map(|r| r.1)
		};
		match n {
			Ok(n) => ensure(n == Some(rec.b.len()), "consumed", || {
				format!("{op:?} of {} by {} consumed {n:?} of {}", e.name, rd.name, rec.b.len())
			})?,
			Err(x) => return viol("upgrade-error", format!("{op:?}: {} cannot skip {}: {x}", rd.name, e.name)),
		}
		// rewrite by the newer build
		rec = record(rd, &want)?;
		expect_val(&rd.sc, &want, &rec.v, "harness: rebuilt value")?;
		b = rb;
		e = rd;
		tail = noise();
		if b == BUILDS - 1 || chance(1, 3) {
			break;
		}
	}
	Ok(())
}

// ---------------------------------------------------------------------------

/// Does reading `v` (written under `w`) meet a revision unknown to `r`?
/// `framed`: length-framed bodies are entered too.
pub fn meets_newer(w: &Sc, r: &Sc, v: &Val, framed: bool) -> bool {
	let go = |w: &Sc, r: &Sc, v: &Val| meets_newer(w, r, v, framed);
	match (w, r, v) {
		(Sc::Opt(a), Sc::Opt(b), Val::T(_, l)) | (Sc::Bound(a), Sc::Bound(b), Val::T(_, l)) => {
			l.iter().any(|e| go(a, b, e))
		}
		(Sc::Res(a, b), Sc::Res(c, d), Val::T(n, l)) => {
			let (x, y) = if *n == 0 { (a, c) } else { (b, d) };
			l.iter().any(|e| go(x, y, e))
		}
		(Sc::Tup(a), Sc::Tup(b), Val::L(l)) => a.iter().zip(b).zip(l).any(|((a, b), e)| go(a, b, e)),
		(Sc::Range(a), Sc::Range(b), Val::L(l))
		| (Sc::Arr(a, _), Sc::Arr(b, _), Val::L(l))
		| (Sc::Vec(a), Sc::Vec(b), Val::L(l))
		| (Sc::Seq(a), Sc::Seq(b), Val::L(l))
		| (Sc::Set(a, _), Sc::Set(b, _), Val::L(l))
		| (Sc::Heap(a), Sc::Heap(b), Val::L(l)) => l.iter().any(|e| go(a, b, e)),
		(Sc::Map(a, b, _), Sc::Map(c, d, _), Val::M(m)) => m.iter().any(|(k, v)| go(a, c, k) || go(b, d, v)),
		(Sc::Der(f, wb), Sc::Der(_, rb), _) => {
			let (dw, dr) = (def(*f, *wb), def(*f, *rb));
			if dw.rev > dr.rev {
				return true;
			}
			if dw.layout(dw.rev) != Lay::Legacy && !framed {
				return false;
			}
			match (&dw.kind, &dr.kind, v) {
				(Kind::Struct(a), Kind::Struct(b), Val::L(l)) => {
					a.iter().filter(|f| f.alive(dw.rev)).zip(l).any(|(f, e)| {
						b.iter().find(|g| g.gi == f.gi).is_some_and(|g| go(&f.sc, &g.sc, e))
					})
				}
				(Kind::Enum(a), Kind::Enum(b), Val::T(n, l)) => {
					let x = a.iter().find(|x| x.gi == *n as usize).expect("harness: variant");
					let Some(y) = b.iter().find(|y| y.gi == *n as usize) else { return true };
					x.fields.iter().filter(|f| f.alive(dw.rev)).zip(l).any(|(f, e)| {
						y.fields.iter().find(|g| g.gi == f.gi).is_some_and(|g| go(&f.sc, &g.sc, e))
					})
				}
				_ => false,
			}
		}
		_ => false,
	}
}

/// All consumers of a record that must be refused.
fn must_refuse(rd: &Entry, b: &[u8], what: &str, deep: bool, skip_too: bool) -> R<()> {
	for _ in 0..3 {
		let op = OPS[picku(OPS.len())];
		let decoding = matches!(op, Op::Decode | Op::FromReader | Op::DecodeSlice | Op::FromSlice);
		if !decoding && !skip_too {
			continue;
		}
		if op == Op::Walk {
			if deep {
				continue;
			}
			let mut src = Src::with(b, Sched::draw());
			let r = rd.ops.walk_open(&mut src);
			ensure(r.is_err(), "newer-accepted", || format!("{what}: a walker was opened"))?;
		} else if stream_op(op) {
			let mut src = Src::with(b, Sched::draw());
			let r = consume(rd, op, &mut src);
			evr(60, &r, src.pos());
			match r {
				Ok(Got::Value(v)) => return viol("newer-accepted", format!("{what}: {op:?} gave {}", v.short())),
				Ok(_) => return viol("newer-accepted", format!("{what}: {op:?} succeeded")),
				Err(e) => tr!("{what}: {op:?} refused: {e}"),
			}
		} else {
			let r = consume_slice(rd, op, b);
			evr(61, &r, b.len());
			match r {
				Ok((Got::Value(v), _)) => {
					return viol("newer-accepted", format!("{what}: {op:?} gave {}", v.short()));
				}
				Ok(_) => return viol("newer-accepted", format!("{what}: {op:?} succeeded")),
				Err(e) => tr!("{what}: {op:?} refused: {e}"),
			}
		}
		count("act.refusals", 1);
	}
	Ok(())
}

pub fn enc_rev(v: u16) -> Vec<u8> {
	let mut e = Enc::new(CFG);
	e.enc(&Sc::U(16), &Val::U(v as u128));
	e.out
}
pub fn marks_of(sc: &Sc, v: &Val) -> Enc {
	let mut e = Enc::new(CFG);
	e.enc(sc, v);
	e
}

fn p06() -> R<()> {
	let f = any_fam();
	let wb = picku(BUILDS);
	let we = fam_at(f, wb);
	let d = def(f, wb);
	set_label(we.name.clone());
	ensure(we.ops.revision() == d.rev, "revision", || {
		format!("{} reports revision {} instead of {}", we.name, we.ops.revision(), d.rev)
	})?;
	let v = gen_val(&we.sc);
	let rec = record(we, &v)?;
	ensure(rec.b.starts_with(&enc_rev(d.rev)), "revision", || {
		format!("{} of revision {} starts with {}", we.name, d.rev, hex(&rec.b))
	})?;
	if chance(1, 2) {
		// rollback: an older build meets records of a newer one
		let rb = picku(BUILDS);
		let rd = fam_at(f, rb);
		if rb >= wb {
			return Ok(());
		}
		set_label(format!("{}<-{}", rd.name, we.name));
		let deep = def(f, rb).rev == d.rev;
		if meets_newer(&we.sc, &rd.sc, &rec.v, true) {
			let skip_too = meets_newer(&we.sc, &rd.sc, &rec.v, false);
			must_refuse(rd, &rec.b, "record of a newer build", deep, skip_too)?;
		} else {
			// nothing newer inside: it must read exactly that value
			let want = upgrade(&we.sc, &rd.sc, &rec.v);
			let mut src = Src::with(&rec.b, Sched::draw());
			match rd.ops.decode(&mut src) {
				Ok(g) => expect_val(&rd.sc, &want, &g, "rollback read")?,
				Err(e) => return viol("rollback-error", format!("nothing new inside, but: {e}")),
			}
		}
		return Ok(());
	}
	// the stored number is damaged into one nobody knows
	let m = marks_of(&we.sc, &rec.v);
	if m.out != rec.b {
		return Ok(());
	}
	let revs: Vec<_> = m.marks.iter().filter(|m| m.2 == Mark::Rev).collect();
	let k = if chance(1, 2) { 0 } else { picku(revs.len()) };
	let (p, l, _) = *revs[k];
	let top = k == 0 && p == 0;
	let unknown: Vec<u16> = {
		// no family inside another has ever had more revisions than this
		let young = |m: &u16| *m < 100;
		let lim = core_sim::types::FAMS.iter().flat_map(|f| f.sched.iter().copied()).filter(young).max().unwrap() + 1;
		let own = if top { d.rev + 1 } else { lim };
		let mut l = vec![0, own, own + 1, 250, own.max(249 - pick(100) as u16), 251, 255, 256];
		l.extend([256 + d.rev, d.rev.rotate_left(8), 0x100u16.checked_shl(d.rev as u32).unwrap_or(0), 65535, 32768 + d.rev]);
		l.retain(|u| *u == 0 || *u >= own);
		l
	};
	let u = unknown[picku(unknown.len())];
	let nb = enc_rev(u);
	if !top && nb.len() != l {
		return Ok(());
	}
	let mut b = rec.b[..p].to_vec();
	b.extend_from_slice(&nb);
	b.extend_from_slice(&rec.b[p + l..]);
	b.extend_from_slice(&[0; 16]);
	count("fault.revision-damaged", 1);
	tr!("revision at byte {p} damaged into {u}: {}", hex(&b));
	let rb = wb + picku(BUILDS - wb);
	let rd = fam_at(f, rb);
	set_label(format!("{}<-{}", rd.name, we.name));
	if top && u <= def(f, rb).rev && u != 0 {
		return Ok(());
	}
	must_refuse(rd, &b, "unknown revision", !top, top)
}

fn p07() -> R<()> {
	let e = any_entry();
	set_label(e.name.clone());
	let v = gen_val(&e.sc);
	let i = e.ops.make(&v);
	let v = i.val();
	let want = refenc::encode(&e.sc, &v);
	let s = Sched::draw();
	let mut sink = Sink::new(s);
	// a first attempt may fail; what was accepted is still the format's prefix
	if chance(1, 4) && !want.is_empty() {
		sink.fault = WFault::Error(picku(want.len()));
		let w = encode_to(&*i, &mut sink);
		evr(70, &w, sink.data.len());
		ensure(w.is_err(), "write-lost", || "sink failed, encoding succeeded".into())?;
		ensure(want.starts_with(&sink.data), "format", || {
			format!("{}: torn write {} is no prefix of {}", v.short(), hex(&sink.data), hex(&want))
		})?;
		sink = Sink::new(s);
	}
	let w = encode_to(&*i, &mut sink);
	evr(71, &w, sink.data.len());
	if let Err(x) = w {
		return viol("encode-error", format!("{x}"));
	}
	tr!("{} wrote {}, format says {}", v.short(), hex(&sink.data), hex(&want));
	if sink.data != want {
		let at = sink.data.iter().zip(&want).take_while(|(a, b)| a == b).count();
		return viol(
			"format",
			format!(
				"{} written as {} instead of {} (first difference at byte {at}; {} vs {} bytes)",
				v.short(),
				hex(&sink.data[at.saturating_sub(8)..]),
				hex(&want[at.saturating_sub(8)..]),
				sink.data.len(),
				want.len()
			),
		);
	}
	// a record deployed earlier, as the format describes it
	let mut src = Src::with(&want, Sched::draw());
	match e.ops.decode(&mut src) {
		Ok(g) => expect_val(&e.sc, &v, &g, "decoding published bytes"),
		Err(x) => viol("format", format!("published bytes refused: {x}")),
	}
}

// ---------------------------------------------------------------------------

fn walk_checked(rd: &Entry, rec: &Rec, want: &Val, wb: usize, faults: u32) -> R<()> {
	let tail = noise();
	let all: Vec<u8> = rec.b.iter().chain(&tail).copied().collect();
	let n = rec.b.len();
	let s = Sched::draw();
	tr!("walk of {} under {s:?}, up to {faults} faults", rd.name);
	let mut src = Src::with(&all, s);
	let cx = Cx::new(&src, faults, false);
	let x = Exp { v: Some(want), wb };
	let r = rd.ops.walk(&mut src, &x, &cx);
	count("act.walk-ops", cx.ops.get());
	hooks::arm(None);
	src.ctl.armed.set(None);
	match r {
		Ok(p) => {
			tr!("walk ended {p:?} at {} of {n}", src.pos());
			ev(80, src.pos() as u64);
			ensure(p != Pos::End || src.pos() == n, "walk-position", || {
				format!("walk complete, reader at {} of {n}", src.pos())
			})?;
		}
		Err(world::Stop::Faulted) => {}
		Err(e) => return Err(e),
	}
	ensure(src.ctl.high.get() <= n, "overrun", || {
		format!("walk looked at {} of {n} bytes", src.ctl.high.get())
	})
}

fn p08() -> R<()> {
	let r = any_record()?;
	let wb = r.e.fam.map(|f| f.1).unwrap_or(0);
	for _ in 0..1 + pick(3) {
		let faults = [0, 0, 1, 3][picku(4)];
		walk_checked(r.e, &r, &r.v, wb, faults)?;
	}
	Ok(())
}

fn p09() -> R<()> {
	let f = any_fam();
	let wb = picku(BUILDS - 1);
	let rb = wb + 1 + picku(BUILDS - 1 - wb);
	let (we, rd) = (fam_at(f, wb), fam_at(f, rb));
	set_label(format!("{}<-{}", rd.name, we.name));
	let v = gen_val(&we.sc);
	let r = record(we, &v)?;
	let want = upgrade(&we.sc, &rd.sc, &r.v);
	tr!("{} sees {}", rd.name, want.short());
	for _ in 0..1 + pick(3) {
		let faults = [0, 0, 1, 3][picku(4)];
		walk_checked(rd, &r, &want, wb, faults)?;
	}
	Ok(())
}

// ---------------------------------------------------------------------------

pub fn idx_record(e: &IdxEntry, v: &Val, s: Sched) -> R<Vec<u8>> {
	let mut sink = Sink::new(s);
	match e.ops.encode(v, &mut sink) {
		Ok(()) => Ok(sink.data),
		Err(x) => viol("encode-error", format!("{}: {x}", e.name)),
	}
}

fn p10() -> R<()> {
	let reg = reg();
	if chance(1, 3) {
		// indexed fields reached through a walker
		let d: Vec<usize> = (0..reg.fams.len()).filter(|f| has_index(*f)).collect();
		let f = d[picku(d.len())];
		let b = picku(BUILDS);
		let e = fam_at(f, b);
		set_label(e.name.clone());
		let v = gen_sized(&e.sc, 200, true, false);
		let r = record(e, &v)?;
		crate::scen2::struct_fields(e, &r.v, &r.b)?;
		return walk_checked(e, &r, &r.v, b, [0, 0, 2][picku(3)]);
	}
	let e = &reg.idx[picku(reg.idx.len())];
	set_label(e.name.clone());
	let thr = chance(2, 3);
	let v = normalise(&e.sc, &gen_sized(&e.sc, [40, 120, 400][weighted(&[2, 3, 1])], thr, chance(1, 12)));
	let b = idx_record(e, &v, Sched::draw())?;
	tr!("indexed {} = {} : {}", e.name, v.short(), hex(&b));
	let tail = noise();
	let all: Vec<u8> = b.iter().chain(&tail).copied().collect();
	let n = b.len();
	// streams
	let mut src = Src::with(&all, Sched::draw());
	let torn = chance(1, 5);
	if torn {
		src.ctl.limit.set(picku(n));
		let g = e.ops.decode(&mut src);
		evr(100, &g, src.pos());
		ensure(g.is_err(), "torn-accepted", || "decoding a torn indexed container".into())?;
		src.ctl.limit.set(all.len());
		src.ctl.pos.set(0);
		src.ctl.calls.set(0);
	}
	match e.ops.decode(&mut src) {
		Ok(g) => expect_val(&e.sc, &v, &g, "decoding an indexed container")?,
		Err(x) => return viol("read-error", format!("{x}")),
	}
	ensure(src.pos() == n, "consumed", || format!("decode consumed {} of {n}", src.pos()))?;
	let mut src = Src::with(&all, Sched::draw());
	if let Err(x) = e.ops.skip(&mut src) {
		return viol("read-error", format!("skip: {x}"));
	}
	ensure(src.pos() == n, "consumed", || format!("skip consumed {} of {n}", src.pos()))?;
	// lookups
	for _ in 0..1 + pick(3) {
		e.ops.view(&b, &Exp { v: Some(&v), wb: 0 })?;
		count("act.views", 1);
	}
	Ok(())
}

/// Does the family hold indexed fields?
pub fn has_index(f: usize) -> bool {
	fn any(fs: &[GField]) -> bool {
		fs.iter().any(|f| f.idx != Idx::No)
	}
	match &core_sim::types::FAMS[f].kind {
		GKind::Struct(fs) => any(fs),
		GKind::Enum(vs) => vs.iter().any(|v| any(v.fields)),
	}
}
#[allow(unused)]
pub fn plain_sched(f: Frag) -> Sched {
	Sched { frag: f, intr: 0, yields: false }
}
