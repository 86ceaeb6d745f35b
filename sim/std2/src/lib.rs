//! The library's own types: collections, and the indexed containers.
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::num::Wrapping;
use std::sync::Arc;

use bytes::Bytes;
use core_sim::dynt::{Entry, IdxEntry, idx_map, idx_seq, idx_set, plain};
use core_sim::imp::Hook;
use rust_decimal::Decimal;
use uuid::Uuid;

macro_rules! reg {
	($o:expr; $($t:ty),* $(,)?) => { $(plain::<$t>($o, stringify!($t));)* };
}
macro_rules! idx {
	($f:ident $o:expr; $($t:ty),* $(,)?) => { $($f::<$t>($o, stringify!($t));)* };
}

pub fn types(o: &mut Vec<Entry>) {
	reg!(o;
		Vec<u8>, Vec<i8>, Vec<u16>, Vec<i16>, Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<u128>, Vec<i128>,
		Vec<f32>, Vec<f64>, Vec<bool>, Vec<Decimal>, Vec<Uuid>,
		Vec<usize>, Vec<isize>, Vec<char>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<u32>>, Vec<Vec<String>>, Vec<Option<u64>>,
		Vec<(u32, String)>, Vec<[u8; 4]>, Vec<Wrapping<u32>>, Vec<Box<u16>>, Vec<Bytes>, Vec<Hook>, Vec<Reverse<u64>>,
		Vec<Result<u8, String>>, Vec<HashMap<String, u8>>, Vec<Arc<str>>,
		BTreeMap<String, u64>, BTreeMap<u32, String>, BTreeMap<Vec<u8>, Vec<u8>>, BTreeMap<String, Option<Vec<u32>>>,
		BTreeMap<(u8, String), BTreeMap<u16, String>>, BTreeMap<Bytes, Bytes>, BTreeMap<Hook, String>,
		HashMap<String, u64>, HashMap<u64, Vec<String>>, HashMap<Uuid, Option<String>>,
		BTreeSet<u32>, BTreeSet<String>, BTreeSet<Vec<u8>>, HashSet<String>, HashSet<u64>, HashSet<(u8, char)>,
		BinaryHeap<u32>, BinaryHeap<String>, BinaryHeap<Reverse<u64>>,
		imbl::Vector<u32>, imbl::Vector<String>, imbl::Vector<Option<u8>>, imbl::OrdSet<String>, imbl::OrdSet<u64>,
		imbl::HashSet<String>, imbl::HashSet<u32>, imbl::OrdMap<String, u32>, imbl::OrdMap<u64, Vec<u8>>,
		imbl::HashMap<String, u64>, imbl::HashMap<u16, imbl::Vector<String>>,
		Option<BTreeMap<String, Vec<u64>>>, Option<HashMap<u8, u8>>, (Vec<u8>, BTreeMap<u8, String>, HashSet<u8>),
	);
}

pub fn indexed(o: &mut Vec<IdxEntry>) {
	idx!(idx_map o;
		BTreeMap<String, u64>, BTreeMap<u32, String>, BTreeMap<u64, Vec<u8>>, BTreeMap<Vec<u8>, Option<u32>>, BTreeMap<Bytes, String>,
		BTreeMap<(u8, String), Vec<String>>, BTreeMap<i64, BTreeMap<String, u8>>,
		HashMap<String, u64>, HashMap<u64, String>, HashMap<Uuid, Vec<u32>>, HashMap<char, i128>,
		BTreeMap<String, String>, HashMap<String, String>, imbl::HashMap<String, String>, imbl::OrdMap<String, u64>,
		imbl::HashMap<String, u64>, BTreeMap<u64, String>, imbl::OrdMap<u64, String>, imbl::HashMap<u64, String>,
		BTreeMap<u16, u64>, HashMap<u16, u64>, HashMap<(u8, String), Vec<String>>, imbl::OrdMap<(u8, String), Vec<String>>,
		HashMap<Vec<u8>, Option<u32>>, imbl::HashMap<Vec<u8>, Option<u32>>,
		imbl::OrdMap<String, String>, imbl::OrdMap<u16, u64>, imbl::HashMap<String, u32>, imbl::HashMap<i32, Bytes>,
	);
	idx!(idx_seq o;
		Vec<String>, Vec<u32>, Vec<u8>, Vec<Option<String>>, Vec<(u64, Vec<u8>)>, Vec<Vec<u64>>, Vec<bool>,
		imbl::Vector<String>, imbl::Vector<u64>, imbl::Vector<Vec<String>>,
	);
	idx!(idx_set o;
		BTreeSet<u32>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<(u8, String)>, HashSet<u64>, HashSet<String>, HashSet<i16>,
		imbl::OrdSet<String>, imbl::OrdSet<i64>, imbl::HashSet<String>, imbl::HashSet<u32>,
		HashSet<u32>, imbl::OrdSet<u32>, HashSet<i64>, BTreeSet<i64>, imbl::HashSet<i64>, HashSet<Vec<u8>>, imbl::OrdSet<Vec<u8>>,
		HashSet<(u8, String)>, imbl::HashSet<(u8, String)>,
	);
}
