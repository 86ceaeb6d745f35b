//! The simulated devices: a byte source and a byte sink that misbehave exactly
//! as the run's decisions say.

use std::cell::Cell;
use std::io::{Error as IoError, ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

use revision::{BorrowedReader, Error, SliceReader};

use crate::world;

/// How a device hands over bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Frag {
	/// everything that is asked for
	Whole,
	/// one byte per call
	Byte,
	/// a drawn number of bytes
	Short,
	/// at most so many bytes, without drawing
	Chunk(usize),
	/// everything, through the library's own implementations for `&[u8]`
	Slice,
	/// the same through its `SliceReader`
	Reader,
	/// the same through its forwarding implementation for `&mut R`
	Fwd,
}

/// Schedule of a device.
#[derive(Clone, Copy, Debug)]
pub struct Sched {
	pub frag: Frag,
	/// probability (of 8) that a call is interrupted
	pub intr: u64,
	/// scheduler may switch tasks / re-enter at a call
	pub yields: bool,
}
impl Sched {
	pub const PLAIN: Sched = Sched { frag: Frag::Whole, intr: 0, yields: false };
	pub fn draw() -> Sched {
		let frag = match world::pick(9) {
			0..=2 => Frag::Whole,
			3 | 4 => Frag::Byte,
			5 | 6 => Frag::Short,
			7 => Frag::Slice,
			_ => [Frag::Reader, Frag::Fwd][world::picku(2)],
		};
		let intr = match world::pick(3) {
			2 => 1 + world::pick(3),
			_ => 0,
		};
		Sched { frag, intr, yields: false }
	}
	pub fn misbehaves(&self) -> bool {
		!matches!(self.frag, Frag::Whole | Frag::Slice | Frag::Reader | Frag::Fwd) || self.intr > 0
	}
}

/// Control block of a source; kept by the simulator while the code under
/// simulation owns the source.
pub struct Ctl {
	pub pos: Cell<usize>,
	pub limit: Cell<usize>,
	pub calls: Cell<u64>,
	pub budget: Cell<u64>,
	pub sched: Cell<Sched>,
	/// reads past this offset fail hard
	pub fail_at: Cell<Option<usize>>,
	/// fail the n-th call from now, once
	pub armed: Cell<Option<u64>>,
	pub fired: Cell<bool>,
	/// unwind once reads reach this offset
	pub abandon_at: Cell<Option<usize>>,
	/// highest offset ever handed over
	pub high: Cell<usize>,
}

pub struct Src {
	buf: Arc<[u8]>,
	pub ctl: Rc<Ctl>,
}

pub fn hard() -> IoError {
	const K: [ErrorKind; 6] = [
		ErrorKind::Other,
		ErrorKind::TimedOut,
		ErrorKind::WouldBlock,
		ErrorKind::ConnectionReset,
		ErrorKind::InvalidData,
		ErrorKind::BrokenPipe,
	];
	let k = K[world::picku(K.len())];
	let m = format!("sim: device error {}", world::steps());
	LAST.set(Some((k, m.clone())));
	IoError::new(k, m)
}

thread_local! {
	static LAST: std::cell::RefCell<Option<(ErrorKind, String)>> = const { std::cell::RefCell::new(None) };
}
/// Forget the last device failure.
pub fn forget() {
	LAST.set(None);
}
/// Whether `e` is the last failure a device of this thread reported; a device
/// that ended or was full reports no error of its own, only `plain`.
pub fn is_last(e: &Error, plain: ErrorKind) -> bool {
	let Error::Io(e) = e else {
		return false;
	};
	LAST.with_borrow(|l| match l {
		Some((k, m)) => e.kind() == *k && e.to_string() == *m,
		None => e.kind() == plain,
	})
}
pub fn last_text(plain: ErrorKind) -> String {
	LAST.with_borrow(|l| match l {
		Some((k, m)) => format!("{k:?} \"{m}\""),
		None => format!("{plain:?}"),
	})
}

impl Src {
	pub fn new(buf: &[u8]) -> Src {
		Src::shared(Arc::from(buf), Sched::PLAIN)
	}
	pub fn with(buf: &[u8], s: Sched) -> Src {
		Src::shared(Arc::from(buf), s)
	}
	pub fn shared(buf: Arc<[u8]>, s: Sched) -> Src {
		let n = buf.len();
		Src {
			buf,
			ctl: Rc::new(Ctl {
				pos: Cell::new(0),
				limit: Cell::new(n),
				calls: Cell::new(0),
				budget: Cell::new(4_000 + 24 * n as u64),
				sched: Cell::new(s),
				fail_at: Cell::new(None),
				armed: Cell::new(None),
				fired: Cell::new(false),
				abandon_at: Cell::new(None),
				high: Cell::new(0),
			}),
		}
	}
	pub fn pos(&self) -> usize {
		self.ctl.pos.get()
	}
	fn call(&self) -> Result<(), IoError> {
		let c = &self.ctl;
		c.calls.set(c.calls.get() + 1);
		world::step();
		if c.calls.get() > c.budget.get() {
			panic!("SIM-LIVELOCK: {} source calls without finishing", c.calls.get());
		}
		if c.sched.get().yields {
			crate::sched::yield_point();
		}
		if c.abandon_at.get().is_some_and(|a| c.pos.get() >= a) {
			c.abandon_at.set(None);
			c.fired.set(true);
			world::count("fault.abandoned", 1);
			std::panic::panic_any("SIM-ABANDON");
		}
		match c.armed.get() {
			Some(0) => {
				c.armed.set(None);
				c.fired.set(true);
				world::count("fault.source-error", 1);
				tr!("    ! source error injected at offset {}", c.pos.get());
				return Err(hard());
			}
			Some(n) => c.armed.set(Some(n - 1)),
			None => {}
		}
		Ok(())
	}
	fn end(&self) -> usize {
		let l = self.ctl.limit.get();
		match self.ctl.fail_at.get() {
			Some(f) => f.min(l),
			None => l,
		}
	}
	fn past(&self) -> IoError {
		if self.ctl.fail_at.get().is_some_and(|f| f < self.ctl.limit.get()) {
			self.ctl.fired.set(true);
			world::count("fault.source-error", 1);
			hard()
		} else {
			self.ctl.fired.set(true);
			world::count("fault.torn-record", 1);
			IoError::new(ErrorKind::UnexpectedEof, "sim: end of device")
		}
	}
	/// Runs one operation on the library's own reader, standing where this
	/// source stands, and moves this source as far as that reader moved.
	fn lib<T>(&self, f: impl FnOnce(&mut dyn BorrowedReader) -> T) -> Option<T> {
		let end = self.end();
		let p = self.pos().min(end);
		let (r, left) = match self.ctl.sched.get().frag {
			Frag::Slice => {
				let mut s: &[u8] = &self.buf[p..end];
				let r = f(&mut s);
				(r, s.len())
			}
			Frag::Reader => {
				let mut s = SliceReader::new(&self.buf[..end]);
				s.consume(p).expect("harness: within the buffer");
				let r = f(&mut s);
				(r, s.remaining().len())
			}
			Frag::Fwd => {
				let mut s = SliceReader::new(&self.buf[..end]);
				s.consume(p).expect("harness: within the buffer");
				let r = f(&mut &mut s);
				(r, s.remaining().len())
			}
			_ => return None,
		};
		self.ctl.pos.set(end - left);
		if end - left > self.ctl.high.get() {
			self.ctl.high.set(end - left);
		}
		Some(r)
	}
	/// What an error of the library's own reader means here.
	fn lib_err(&self, e: Error) -> Error {
		if self.ctl.fail_at.get().is_some_and(|f| f < self.ctl.limit.get()) {
			return Error::Io(self.past());
		}
		self.ctl.fired.set(true);
		world::count("fault.torn-record", 1);
		e
	}
	fn moved(&self, n: usize) {
		let p = self.ctl.pos.get() + n;
		self.ctl.pos.set(p);
		if p > self.ctl.high.get() {
			self.ctl.high.set(p);
		}
	}
}

impl Read for Src {
	fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
		self.call()?;
		if out.is_empty() {
			return Ok(0);
		}
		let s = self.ctl.sched.get();
		if s.intr > 0 && world::chance(s.intr, 8) {
			world::count("fault.interrupted-read", 1);
			return Err(IoError::from(ErrorKind::Interrupted));
		}
		let p = self.pos();
		let avail = self.end().saturating_sub(p);
		if avail == 0 {
			let e = self.past();
			return if e.kind() == ErrorKind::UnexpectedEof { Ok(0) } else { Err(e) };
		}
		if let Some(r) = self.lib(|r| r.read(out)) {
			return r;
		}
		let mut n = out.len().min(avail);
		match s.frag {
			Frag::Whole | Frag::Slice | Frag::Reader | Frag::Fwd => {}
			Frag::Byte => {
				if n > 1 {
					world::count("fault.short-read", 1)
				}
				n = 1
			}
			Frag::Chunk(c) => n = n.min(c),
			Frag::Short => {
				if n > 1 {
					let m = 1 + world::picku(n.min(16));
					if m < n {
						world::count("fault.short-read", 1);
						// large transfers still make progress quickly
						n = if n > 4096 { n / (1 + m) + m } else { m };
					}
				}
			}
		}
		out[..n].copy_from_slice(&self.buf[p..p + n]);
		self.moved(n);
		Ok(n)
	}
}

// SAFETY: the buffer is immutable, shared and never moves; `advance` only
// moves the position forward.
unsafe impl BorrowedReader for Src {
	fn peek_bytes(&self, n: usize) -> Result<&[u8], Error> {
		self.call().map_err(Error::Io)?;
		let p = self.pos();
		// the library's slice must be this buffer's: keep where it starts
		if let Some(r) = self.lib(|r| r.peek_bytes(n).map(|b| (b.as_ptr() as usize, b.len()))) {
			let (at, len) = r.map_err(|e| self.lib_err(e))?;
			let at = at.wrapping_sub(self.buf.as_ptr() as usize);
			let b = self.buf.get(at..at.wrapping_add(len)).filter(|_| len == 0 || at >= p);
			self.ctl.high.set(self.ctl.high.get().max(p + len));
			return Ok(if len == 0 { &[] } else { b.expect("peeked bytes lie in the source") });
		}
		if n > self.end().saturating_sub(p) {
			return Err(Error::Io(self.past()));
		}
		if p + n > self.ctl.high.get() {
			self.ctl.high.set(p + n);
		}
		Ok(&self.buf[p..p + n])
	}
	fn advance(&mut self, n: usize) -> Result<(), Error> {
		self.call().map_err(Error::Io)?;
		let p = self.pos();
		if let Some(r) = self.lib(|r| r.advance(n)) {
			return r.map_err(|e| self.lib_err(e));
		}
		if n > self.end().saturating_sub(p) {
			return Err(Error::Io(self.past()));
		}
		self.ctl.pos.set(p + n);
		Ok(())
	}
	fn position(&self) -> usize {
		self.lib(|r| r.position()).unwrap_or(self.pos())
	}
	fn remaining(&self) -> &[u8] {
		let p = self.pos();
		if let Some((at, len)) = self.lib(|r| (r.remaining().as_ptr() as usize, r.remaining().len())) {
			let at = at.wrapping_sub(self.buf.as_ptr() as usize);
			return if len == 0 { &[] } else { self.buf.get(at..at.wrapping_add(len)).expect("remaining bytes lie in the source") };
		}
		&self.buf[p..self.end().max(p)]
	}
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WFault {
	None,
	/// hard error once this many bytes are accepted, for ever
	Error(usize),
	/// device full: `Ok(0)` once this many bytes are accepted
	Full(usize),
	/// hard error at one call only, then the device works again
	Once(u64),
	/// the task is abandoned (unwinds) once this many bytes are accepted
	Abandon(usize),
}

pub struct Sink {
	pub data: Vec<u8>,
	pub sched: Sched,
	pub fault: WFault,
	pub calls: u64,
	pub budget: u64,
	pub fired: bool,
	pub flushes: u64,
}
impl Sink {
	pub fn new(s: Sched) -> Sink {
		Sink {
			data: vec![],
			sched: s,
			fault: WFault::None,
			calls: 0,
			budget: 4_000_000,
			fired: false,
			flushes: 0,
		}
	}
}
impl Write for Sink {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		self.calls += 1;
		world::step();
		// every call may take as little as one byte, every other one be interrupted
		if self.calls > self.budget + 16 * self.data.len() as u64 {
			panic!("SIM-LIVELOCK: {} sink calls without finishing", self.calls);
		}
		if self.sched.yields {
			crate::sched::yield_point();
		}
		if b.is_empty() {
			return Ok(0);
		}
		if let WFault::Once(k) = self.fault {
			if k == 0 {
				self.fault = WFault::None;
				self.fired = true;
				world::count("fault.sink-error", 1);
				return Err(hard());
			}
			self.fault = WFault::Once(k - 1);
		}
		if self.sched.intr > 0 && world::chance(self.sched.intr, 8) {
			world::count("fault.interrupted-write", 1);
			return Err(IoError::from(ErrorKind::Interrupted));
		}
		let mut n = b.len();
		match self.fault {
			WFault::Error(at) => {
				let room = at.saturating_sub(self.data.len());
				if room == 0 {
					self.fired = true;
					world::count("fault.sink-error", 1);
					return Err(hard());
				}
				n = n.min(room)
			}
			WFault::Abandon(at) => {
				if at < self.data.len() + n {
					self.fired = true;
					world::count("fault.abandoned", 1);
					std::panic::panic_any("SIM-ABANDON");
				}
			}
			WFault::Full(at) => {
				let room = at.saturating_sub(self.data.len());
				if room == 0 {
					self.fired = true;
					world::count("fault.sink-full", 1);
					return Ok(0);
				}
				n = n.min(room)
			}
			_ => {}
		}
		match self.sched.frag {
			Frag::Whole | Frag::Slice | Frag::Reader | Frag::Fwd => {}
			Frag::Byte => {
				if n > 1 {
					world::count("fault.short-write", 1)
				}
				n = 1
			}
			Frag::Chunk(c) => n = n.min(c),
			Frag::Short => {
				if n > 1 {
					let m = 1 + world::picku(n.min(16));
					if m < n {
						world::count("fault.short-write", 1);
						n = if n > 4096 { n / (1 + m) + m } else { m };
					}
				}
			}
		}
		self.data.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		self.flushes += 1;
		Ok(())
	}
}
