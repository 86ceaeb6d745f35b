//! What the user-supplied callbacks of the generated types do.

use std::cell::Cell;

use revision::Error;

use crate::val::fn_default;
use crate::walkers::Sim;

thread_local! {
	/// fail the n-th callback from now
	static ARMED: Cell<Option<u64>> = const { Cell::new(None) };
	static CALLS: Cell<u64> = const { Cell::new(0) };
	static FIRED: Cell<bool> = const { Cell::new(false) };
	/// what kind of error a failing callback returns
	static FLAVOUR: Cell<u64> = const { Cell::new(0) };
	static LIVE: Cell<bool> = const { Cell::new(true) };
}
pub const MSG: &str = "sim: callback failed";

/// Every default and conversion function calls this first.
pub fn cb(site: u32) -> Result<(), Error> {
	if !LIVE.get() {
		return Ok(());
	}
	CALLS.set(CALLS.get() + 1);
	crate::sched::yield_point();
	match ARMED.get() {
		Some(0) => {
			ARMED.set(None);
			FIRED.set(true);
			crate::world::count("fault.callback-error", 1);
			tr!("    ! callback of member {site} fails");
			let m = format!("{MSG} ({site})");
			Err(match FLAVOUR.get() {
				1 => Error::Deserialize(m),
				2 => Error::Serialize(m),
				3 => Error::Io(std::io::Error::new(std::io::ErrorKind::NotFound, m)),
				4 => Error::IntegerOverflow,
				_ => Error::Conversion(m),
			})
		}
		Some(n) => {
			ARMED.set(Some(n - 1));
			Ok(())
		}
		None => Ok(()),
	}
}
pub const FLAVOURS: u64 = 5;
pub fn set_flavour(f: u64) {
	FLAVOUR.set(f)
}
/// Whether `e` is what a failing callback returned.
pub fn is_own(e: &Error) -> bool {
	match (FLAVOUR.get(), e) {
		(0, Error::Conversion(m)) | (1, Error::Deserialize(m)) | (2, Error::Serialize(m)) => m.starts_with(MSG) && m.ends_with(')'),
		(3, Error::Io(e)) => e.kind() == std::io::ErrorKind::NotFound && e.to_string().starts_with(MSG),
		(4, Error::IntegerOverflow) => true,
		_ => false,
	}
}
pub fn arm(n: Option<u64>) {
	ARMED.set(n);
	FIRED.set(false);
	CALLS.set(0);
}
pub fn calls() -> u64 {
	CALLS.get()
}
/// Forget an earlier failure; the failure still to come stays armed.
pub fn clear_fired() {
	FIRED.set(false)
}
pub fn fired() -> bool {
	FIRED.get()
}

/// Set the thread's state aside while another operation runs inside a call.
pub fn save() -> (Option<u64>, u64, bool) {
	let s = (ARMED.get(), CALLS.get(), FIRED.get());
	ARMED.set(None);
	s
}
pub fn restore(s: (Option<u64>, u64, bool)) {
	ARMED.set(s.0);
	CALLS.set(s.1);
	FIRED.set(s.2);
}

/// While alive, callbacks of this thread work (the simulator itself reads).
pub struct Quiet((Option<u64>, u64, bool));
pub fn quiet() -> Quiet {
	Quiet(save())
}
impl Drop for Quiet {
	fn drop(&mut self) {
		restore(self.0)
	}
}

/// The value the default function of member `site` supplies.
pub fn def_value<T: Sim>(site: u32, rev: u16) -> T {
	T::from_val(&fn_default(&T::schema(), site, rev))
}
