//! P22: cursors over memory, and the envelope helpers, against a model which
//! is no more than a range of the byte string.

use std::io::{ErrorKind, IoSliceMut, Read, Write};

use core_sim::io::{Sched, Sink, Src, WFault};
use core_sim::tr;
use core_sim::world::{self, R, chance, count, ensure, ev, pick, picku, set_label, viol};
use revision::optimised::envelope::*;
use revision::optimised::{SizeClass, Tag};
use revision::slice_reader::{take_bytes_reader, take_bytes_slice};
use revision::{BorrowedReader, Error, SliceReader, advance_read, read_borrowed_bytes};

pub fn p22() -> R<()> {
	set_label("cursors".into());
	let (b, marks) = match pick(3) {
		0 => written()?,
		_ => (bytes(), vec![]),
	};
	tr!("the bytes ({}): {}", b.len(), world::hex(&b));
	history(&b, &marks)
}

fn bytes() -> Vec<u8> {
	let n = match pick(12) {
		0 => 0,
		1..=7 => 1 + picku(40),
		8..=10 => 60 + picku(240),
		_ => [4090, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12288, 13000][picku(10)] + picku(6),
	};
	let mut g = world::pick64() | 1;
	(0..n)
		.map(|_| {
			g = world::mix(g, 77);
			match g % 8 {
				0 => (g >> 8) as u8,
				1 | 2 => (g >> 8) as u8 % 24,
				_ => 0,
			}
		})
		.collect()
}

// ---------------------------------------------------------------------------
// the writing half

const CLASSES: [SizeClass; 3] = [SizeClass::Inline, SizeClass::Fixed, SizeClass::Varlen];

/// A log of envelopes written by the helpers onto a device that misbehaves.
fn written() -> R<(Vec<u8>, Vec<usize>)> {
	let mut want: Vec<u8> = vec![];
	let mut plan = vec![];
	for _ in 0..1 + pick(5) {
		let id = [0, 1, 2, 7, 15, 16, 30, 31, picku(32) as u8][picku(9)];
		let class = picku(3);
		let mut body = if class == 0 { vec![] } else { bytes() };
		if class == 2 && chance(1, 40) {
			body.resize(65_530 + picku(12), 3);
		}
		// the body fails after so many bytes
		let fails = (class > 0 && chance(1, 12)).then(|| picku(body.len() + 1));
		plan.push((id, class, body, fails));
	}
	for (id, class, body, _) in &plan {
		want.push(id | (*class as u8) << 5);
		if *class == 2 {
			want.extend((body.len() as u32).to_le_bytes());
		}
		want.extend(body);
	}
	let mut w = Sink::new(Sched::draw());
	if chance(1, 3) {
		let at = picku(want.len() + 1);
		w.fault = match pick(3) {
			0 => WFault::Error(at),
			1 => WFault::Full(at),
			_ => WFault::Once(pick(12)),
		};
	}
	let mut marks = vec![];
	for (id, class, body, fails) in &plan {
		marks.push(w.data.len());
		let mut stopped = false;
		let mut write = |w: &mut dyn Write| -> Result<(), Error> {
			let n = fails.unwrap_or(body.len());
			for c in body[..n].chunks(7 + body.len() / 3) {
				w.write_all(c).map_err(Error::Io)?;
			}
			if fails.is_some() {
				stopped = true;
				count("fault.body-refused", 1);
				return Err(Error::Serialize("sim: no body".into()));
			}
			Ok(())
		};
		let r = match class {
			0 => encode_inline(&mut w, *id),
			1 => encode_fixed(&mut w, *id, |w| write(w)),
			_ => encode_varlen(&mut w, *id, |w| write(w)),
		};
		ev(220, r.is_ok() as u64);
		tr!("write {:?} {id} ({} bytes): {:?}", CLASSES[*class], body.len(), r.as_ref().err().map(|e| e.to_string()));
		ensure(want.starts_with(&w.data), "envelope-bytes", || {
			format!("the device holds {} where {} was to be written", world::hex(&w.data), world::hex(&want))
		})?;
		match r {
			Ok(()) => ensure(!stopped && !w.fired, "envelope-error-lost", || {
				format!("{:?} {id} was reported written although {}", CLASSES[*class], if stopped { "its body failed" } else { "the device failed" })
			})?,
			Err(e) if stopped => {
				ensure(matches!(&e, Error::Serialize(s) if s == "sim: no body"), "envelope-error", || format!("the body's error came back as {e:?}"))?;
				break;
			}
			Err(e) => {
				ensure(w.fired && matches!(e, Error::Io(_)), "envelope-error", || format!("{:?} {id} failed with {e:?}", CLASSES[*class]))?;
				break;
			}
		}
		let whole = marks.last().unwrap() + 1 + if *class == 2 { 4 } else { 0 } + body.len();
		ensure(w.data.len() == whole, "envelope-bytes", || {
			format!("{:?} {id} was reported written and took {} of {whole} bytes", CLASSES[*class], w.data.len())
		})?;
	}
	let data = std::mem::take(&mut w.data);
	Ok((data, marks))
}

// ---------------------------------------------------------------------------
// the reading half

enum On<'a> {
	/// where the reader was made
	Reader(SliceReader<'a>, usize),
	Slice(&'a [u8]),
	Dev(Src),
}
struct Cur<'a> {
	on: On<'a>,
	pos: usize,
	end: usize,
}
impl<'a> Cur<'a> {
	fn dy(&mut self) -> &mut dyn BorrowedReader {
		match &mut self.on {
			On::Reader(r, _) => r,
			On::Slice(s) => s,
			On::Dev(s) => s,
		}
	}
	fn left(&self) -> usize {
		self.end - self.pos
	}
	fn name(&self) -> String {
		let k = match &self.on {
			On::Reader(_, at) => format!("reader made at {at}"),
			On::Slice(_) => "slice".into(),
			On::Dev(_) => "device".into(),
		};
		format!("{k} at {} of {}", self.pos, self.end)
	}
}

/// How much to ask for where `left` bytes are left.
fn ask(left: usize) -> usize {
	match pick(16) {
		0 => 0,
		1 => 1,
		2..=8 => picku(left.min(24) + 1),
		9 => picku(left + 1),
		10 => left,
		11 => left.saturating_sub(1),
		12 => left + 1,
		13 => left + 1 + picku(5000),
		14 => [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX - 4096][picku(4)],
		_ => [left + 4096, (u32::MAX as usize).saturating_sub(picku(3)), 1 << 32][picku(3)],
	}
}

fn same_place(got: &[u8], b: &[u8], at: usize, n: usize, what: &str) -> R<()> {
	ensure(got == &b[at..at + n], "wrong-bytes", || {
		format!("{what}: {} bytes {} instead of the {n} bytes at {at}: {}", got.len(), world::hex(got), world::hex(&b[at..at + n]))
	})
}
fn eof(e: &Error) -> bool {
	matches!(e, Error::Io(e) if e.kind() == ErrorKind::UnexpectedEof)
}

/// Every cursor stands where the model has it and sees what is left there.
fn stands(c: &mut Cur, b: &[u8]) -> R<()> {
	let (pos, end) = (c.pos, c.end);
	let name = c.name();
	let r = c.dy();
	let rest = r.remaining();
	let off = rest.as_ptr() as usize;
	ensure(rest.len() == end - pos && rest == &b[pos..end], "cursor-moved", || {
		format!("{name}: {} bytes remain: {}", rest.len(), world::hex(rest))
	})?;
	let p = r.position();
	match &c.on {
		On::Reader(r, at) => {
			ensure(p == pos - at && r.consumed_len() == p && r.remaining().as_ptr() as usize == off, "position", || {
				format!("{name}: position {p}, consumed {}", r.consumed_len())
			})?;
			ensure(off == b.as_ptr() as usize + pos, "not-borrowed", || format!("{name}: the remaining bytes are not the caller's"))
		}
		On::Slice(_) => ensure(off == b.as_ptr() as usize + pos, "not-borrowed", || format!("{name}: the remaining bytes are not the caller's")),
		On::Dev(_) => Ok(()),
	}
}

fn history(b: &[u8], marks: &[usize]) -> R<()> {
	let mut cs: Vec<Cur> = vec![];
	// what was borrowed stays what it was for as long as the bytes live
	let mut held: Vec<(&[u8], usize)> = vec![];
	let steps = 6 + pick(40);
	for _ in 0..steps {
		if cs.is_empty() || (cs.len() < 6 && chance(1, 12)) {
			let at = if !marks.is_empty() && chance(2, 3) { marks[picku(marks.len())].min(b.len()) } else if chance(1, 2) { 0 } else { picku(b.len() + 1) };
			let on = match pick(5) {
				0..=2 => On::Reader(SliceReader::new(&b[at..]), at),
				3 => On::Slice(&b[at..]),
				_ => {
					let s = Src::with(b, Sched::draw());
					s.ctl.pos.set(at);
					On::Dev(s)
				}
			};
			cs.push(Cur { on, pos: at, end: b.len() });
		}
		let i = picku(cs.len());
		let name = cs[i].name();
		let (pos, left, end) = (cs[i].pos, cs[i].left(), cs[i].end);
		let n = ask(left);
		let op = pick(20);
		ev(221, op << 3 | matches!(cs[i].on, On::Dev(_)) as u64);
		count("act.cursor-ops", 1);
		if n > left {
			count("fault.overreach", 1);
		}
		let dev = matches!(cs[i].on, On::Dev(_));
		// how far the cursor goes: Some(to), or refused and unmoved (None); a
		// refused streaming read may stop anywhere (`lost`)
		let mut lost = false;
		let c = &mut cs[i];
		let fits = n <= left;
		// an outcome judged against what the model allows
		macro_rules! judged {
			($what:expr, $ok:expr, $r:expr) => {{
				let what = $what;
				let r = $r;
				tr!("{name}: {what}: {}", if r.is_ok() { "done" } else { "refused" });
				match r {
					Ok(x) => {
						ensure($ok, "overreach-allowed", || format!("{name}: {what} succeeded with {left} bytes left"))?;
						Some(x)
					}
					Err(e) => {
						ensure(!$ok, "refused", || format!("{name}: {what} failed with {e:?} with {left} bytes left"))?;
						let e: Error = e;
						ensure(eof(&e), "error-kind", || format!("{name}: {what} failed with {e:?}"))?;
						None
					}
				}
			}};
		}
		match op {
			0 | 1 => {
				let r = c.dy();
				let r = if chance(1, 3) { BorrowedReader::peek_bytes(&r, n) } else { r.peek_bytes(n) };
				if let Some(x) = judged!(format!("peek {n}"), fits, r) {
					same_place(x, b, pos, n, "peeked")?;
					if !dev {
						held.push((&b[pos..pos + n], pos));
					}
				}
			}
			2 | 3 => {
				let mut r = c.dy();
				let r = if chance(1, 3) { BorrowedReader::advance(&mut r, n) } else { r.advance(n) };
				if judged!(format!("advance {n}"), fits, r).is_some() {
					c.pos += n;
				}
			}
			4 | 5 => {
				let r = read_borrowed_bytes(c.dy(), n);
				if let Some(x) = judged!(format!("borrow {n}"), fits, r) {
					same_place(x, b, pos, n, "borrowed")?;
					c.pos += n;
				}
			}
			6 | 7 => match &mut c.on {
				On::Reader(r, _) => {
					let r = if chance(1, 2) { take_bytes_reader(r, n).map(Some) } else { r.consume(n).map(|()| None) };
					if let Some(x) = judged!(format!("take {n}"), fits, r) {
						if let Some(x) = x {
							same_place(x, b, pos, n, "taken")?;
							held.push((x, pos));
						}
						c.pos += n;
					}
				}
				On::Slice(s) => {
					let r = take_bytes_slice(s, n);
					if let Some(x) = judged!(format!("take {n}"), fits, r) {
						same_place(x, b, pos, n, "taken")?;
						held.push((x, pos));
						c.pos += n;
					}
				}
				On::Dev(_) => {}
			},
			8..=10 => {
				let On::Reader(r, at) = &c.on else { continue };
				// offsets count from where the reader was made
				let off = match pick(8) {
					0 => (pos - at).saturating_sub(1 + picku(3)),
					1 => [usize::MAX, usize::MAX - 1, usize::MAX - 16, 1 << 32][picku(4)],
					2 => end - at,
					3 => end - at + 1,
					_ => pos - at + picku(left + 1),
				};
				let room = (end - at).saturating_sub(off);
				let len = ask(room);
				let ok = off >= pos - at && off <= end - at && len <= room;
				let r = r.sub(off, len);
				tr!("{name}: sub {off}+{len}: {}", if r.is_ok() { "done" } else { "refused" });
				ensure(r.is_ok() == ok, if ok { "refused" } else { "overreach-allowed" }, || {
					format!("{name}: sub({off}, {len}) gave {:?}", r.as_ref().map(|r| r.remaining().len()).map_err(|e| e.to_string()))
				})?;
				if let Ok(r) = r {
					let from = at + off;
					same_place(r.remaining(), b, from, len, "sub-reader")?;
					let sub = Cur { on: On::Reader(r, from), pos: from, end: from + len };
					if cs.len() < 8 {
						cs.push(sub);
					} else {
						cs[i] = sub;
					}
				}
			}
			11 => {
				// a copy goes its own way
				if let On::Reader(r, at) = &c.on {
					let copy = Cur { on: On::Reader(*r, *at), pos, end };
					if cs.len() < 8 {
						cs.push(copy);
					}
				}
			}
			12 => {
				let r = advance_read(&mut c.dy(), n);
				if judged!(format!("discard {n}"), fits, r).is_some() {
					c.pos += n;
				} else {
					lost = true;
				}
			}
			13 => {
				let r = read_optimised_tag(&mut c.dy());
				let good = left > 0 && b[pos] & 0x60 != 0x60;
				tr!("{name}: tag: {:?}", r.as_ref().ok());
				match r {
					Ok((t, class)) => {
						ensure(good && t.0 == b[pos] && t.variant_id() == b[pos] & 31 && class == CLASSES[(b[pos] >> 5 & 3) as usize], "tag", || {
							format!("{name}: {t:?} {class:?} was read from {:?}", b.get(pos))
						})?;
						c.pos += 1;
					}
					Err(e) => {
						ensure(!good && (left > 0 || eof(&e)), "tag", || format!("{name}: reading the tag failed with {e:?}"))?;
						lost = true;
					}
				}
			}
			14..=16 => {
				let len = (left >= 4).then(|| u32::from_le_bytes(b[pos..pos + 4].try_into().unwrap()) as usize);
				let ok = len.is_some_and(|l| l <= left - 4);
				match (op, chance(1, 2)) {
					(14, true) => {
						let r = read_varlen_len(&mut c.dy());
						if let Some(x) = judged!("length", len.is_some(), r) {
							ensure(Some(x as usize) == len, "envelope-length", || format!("{name}: length {x} instead of {len:?}"))?;
							c.pos += 4;
						} else {
							lost = true;
						}
					}
					(14, false) | (15, true) => {
						let mut r = c.dy();
						let r = read_varlen_slice(&mut r);
						if let Some(x) = judged!(format!("payload of {len:?}"), ok, r) {
							let l = len.unwrap();
							same_place(x, b, pos + 4, l, "payload")?;
							c.pos += 4 + l;
						} else {
							lost = true;
						}
					}
					(_, borrowed) => {
						let mut r = c.dy();
						let r = if borrowed { skip_varlen_borrowed(&mut r) } else { skip_varlen(&mut r) };
						if judged!(format!("pass over {len:?}"), ok, r).is_some() {
							c.pos += 4 + len.unwrap();
						} else {
							lost = true;
						}
					}
				}
			}
			17 if !dev => {
				let k = n.min(20_000);
				let mut buf = vec![0xEEu8; k];
				let r = c.dy().read(&mut buf);
				let m = match r {
					Ok(m) => m,
					Err(e) => return viol("refused", format!("{name}: read failed with {e:?}")),
				};
				tr!("{name}: read into {k}: {m}");
				ensure(m == k.min(left), "read-count", || format!("{name}: read into {k} bytes gave {m} with {left} left"))?;
				same_place(&buf[..m], b, pos, m, "read")?;
				ensure(buf[m..].iter().all(|x| *x == 0xEE), "wrong-bytes", || format!("{name}: read wrote past the {m} bytes it gave"))?;
				c.pos += m;
			}
			18 => {
				let k = n.min(20_000);
				let mut buf = vec![0u8; k];
				let r = c.dy().read_exact(&mut buf).map_err(Error::Io);
				if judged!(format!("read exactly {k}"), k <= left, r).is_some() {
					same_place(&buf, b, pos, k, "read")?;
					c.pos += k;
				} else {
					lost = true;
				}
			}
			19 if !dev => {
				let k = n.min(20_000);
				let (mut x, mut y) = (vec![0u8; k / 2], vec![0u8; k - k / 2]);
				let mut got = vec![];
				let r = match pick(3) {
					0 => c.dy().take(k as u64).read_to_end(&mut got),
					1 => {
						let r = c.dy().read_vectored(&mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)]);
						got.extend(x.iter().chain(&y).take(*r.as_ref().unwrap_or(&0)));
						r
					}
					_ => c.dy().read_to_end(&mut got),
				};
				tr!("{name}: read on: {:?}", r.as_ref().ok());
				let m = got.len();
				ensure(r.is_ok() && m <= left, "read-count", || format!("{name}: reading on gave {r:?}"))?;
				same_place(&got, b, pos, m, "read")?;
				c.pos += m;
			}
			_ => {}
		}
		if lost {
			cs.swap_remove(i);
		}
		for c in &mut cs {
			stands(c, b)?;
		}
		for (h, at) in &held {
			ensure(h.as_ptr() as usize == b.as_ptr() as usize + at, "not-borrowed", || format!("bytes taken at {at} are not the caller's"))?;
		}
	}
	let t = picku(256) as u8;
	let tag = Tag(t);
	let (id, k) = (picku(32) as u8, picku(3));
	ensure(
		tag.variant_id() == t & 31
			&& tag.is_extended() == (t & 0x80 != 0)
			&& tag.size_class().ok() == CLASSES.get((t >> 5 & 3) as usize).copied()
			&& Tag::new(id, CLASSES[k]).0 == id | (k as u8) << 5,
		"tag",
		|| format!("tag {t:#04x}: variant {}, {:?}; new({id}, {:?}) = {:#04x}", tag.variant_id(), tag.size_class().ok(), CLASSES[k], Tag::new(id, CLASSES[k]).0),
	)
}
