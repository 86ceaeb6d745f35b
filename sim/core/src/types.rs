// Generated by tools/gen_types.py.
use crate::val::*;

pub const F_PLAIN: usize = 0;
pub const F_GROW: usize = 1;
pub const F_SHRINK: usize = 2;
pub const F_LADDER: usize = 3;
pub const F_INDEXED: usize = 4;
pub const F_ZIGZAG: usize = 5;
pub const F_CUT: usize = 6;
pub const F_CUTOPT: usize = 7;
pub const F_CUTMIX: usize = 8;
pub const F_FORCED: usize = 9;
pub const F_FORCEDCUT: usize = 10;
pub const F_PAIR: usize = 11;
pub const F_UNIT: usize = 12;
pub const F_WIDE: usize = 13;
pub const F_TREE: usize = 14;
pub const F_COLOR: usize = 15;
pub const F_EVENT: usize = 16;
pub const F_PARTS: usize = 17;
pub const F_ADDS: usize = 18;
pub const F_DISC: usize = 19;
pub const F_PACKED: usize = 20;
pub const F_MIXED: usize = 21;
pub const F_OPTDISC: usize = 22;
pub const F_LEGOPT: usize = 23;
pub const F_ADDSO: usize = 24;
pub const F_CUTSO: usize = 25;
pub const F_FORCEDE: usize = 26;
pub const F_FORCEDA: usize = 27;
pub const F_FORCEDMIX: usize = 28;
pub const F_PAIRX: usize = 29;
pub const F_AGED: usize = 30;
pub const F_AGEDX: usize = 31;
pub const F_CROWD: usize = 32;
pub const F_FULL: usize = 33;
pub const F_HOLLOW: usize = 34;
pub const F_LONE: usize = 35;
pub const F_LATE1: usize = 36;
pub const F_SOLO: usize = 37;
pub const F_HUSH: usize = 38;
pub const F_DOC: usize = 39;
pub const F_STORE: usize = 40;
pub const F_VALUE: usize = 41;
pub const F_FRAME: usize = 42;
pub const F_STILL: usize = 43;
pub const F_STILLX: usize = 44;
pub const F_GROWT: usize = 45;
pub const F_LADDERT: usize = 46;
pub const F_ADDST: usize = 47;
pub const F_PACKEDT: usize = 48;
pub const F_HALVES: usize = 49;

pub static FAMS: &[Fam] = &[
	Fam { name: "Plain", sched: &[1, 1, 1, 1], layouts: &[Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "flag", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 1, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tiny", sc: |b| { let _ = b; Sc::I(8) }, start: 1, end: NEVER, has_default_fn: false, site: 2, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "num", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 3, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "big", sc: |b| { let _ = b; Sc::I(128) }, start: 1, end: NEVER, has_default_fn: false, site: 4, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "text", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 5, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "maybe", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 6, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "list", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(64))) }, start: 1, end: NEVER, has_default_fn: false, site: 7, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "pair", sc: |b| { let _ = b; Sc::Tup(vec![Sc::U(8), Sc::Str]) }, start: 1, end: NEVER, has_default_fn: false, site: 8, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "both", sc: |b| { let _ = b; Sc::Res(a(Sc::U(32)), a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 9, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Grow", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "id", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 10, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "name", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 11, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "extra", sc: |b| { let _ = b; Sc::Opt(a(Sc::Str)) }, start: 2, end: NEVER, has_default_fn: false, site: 12, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "list", sc: |b| { let _ = b; Sc::Vec(a(Sc::I(32))) }, start: 3, end: NEVER, has_default_fn: false, site: 13, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "score", sc: |b| { let _ = b; Sc::I(16) }, start: 3, end: NEVER, has_default_fn: true, site: 14, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tail", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(32)), false) }, start: 4, end: NEVER, has_default_fn: true, site: 15, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "last", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 16, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Shrink", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 17, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "gone", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 2, has_default_fn: false, site: 18, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "kept", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 19, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "moved", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: 3, has_default_fn: false, site: 20, conv: Some(Conv::Move(4)), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "home", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 3, end: NEVER, has_default_fn: false, site: 21, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "late", sc: |b| { let _ = b; Sc::Opt(a(Sc::I(64))) }, start: 2, end: 3, has_default_fn: false, site: 22, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tail", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 23, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Ladder", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "id", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 24, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "name", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 25, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "map", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(64)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 26, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "tags", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 27, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "ids", sc: |b| { let _ = b; Sc::Set(a(Sc::U(32)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 28, conv: None, idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "note", sc: |b| { let _ = b; Sc::Opt(a(Sc::Str)) }, start: 2, end: NEVER, has_default_fn: true, site: 29, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "more", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 3, end: NEVER, has_default_fn: false, site: 30, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "end", sc: |b| { let _ = b; Sc::I(64) }, start: 4, end: NEVER, has_default_fn: true, site: 31, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Indexed", sched: &[1, 1, 2, 3], layouts: &[Lay::OptIdx, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "head", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 32, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "attrs", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::I(64)), true) }, start: 1, end: NEVER, has_default_fn: false, site: 33, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "body", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 34, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "seq", sc: |b| { let _ = b; Sc::Vec(a(Sc::Tup(vec![Sc::U(8), Sc::Str]))) }, start: 1, end: NEVER, has_default_fn: false, site: 35, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "set", sc: |b| { let _ = b; Sc::Set(a(Sc::Str), true) }, start: 1, end: NEVER, has_default_fn: false, site: 36, conv: None, idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "later", sc: |b| { let _ = b; Sc::Map(a(Sc::U(32)), a(Sc::Str), false) }, start: 2, end: NEVER, has_default_fn: false, site: 37, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "opt", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(32))) }, start: 3, end: NEVER, has_default_fn: false, site: 38, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "lateset", sc: |b| { let _ = b; Sc::Set(a(Sc::I(32)), false) }, start: 3, end: NEVER, has_default_fn: false, site: 39, conv: None, idx: Idx::Set, fixed: false, specialised: false },
		]) },
	Fam { name: "Zigzag", sched: &[1, 2, 3, 4], layouts: &[Lay::Opt, Lay::Legacy, Lay::OptIdx, Lay::Opt],
		kind: GKind::Struct(&[
			GField { name: "a", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: NEVER, has_default_fn: false, site: 40, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::U(64)), a(Sc::Str), false) }, start: 1, end: NEVER, has_default_fn: false, site: 41, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 42, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "s", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 2, end: NEVER, has_default_fn: false, site: 43, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(8))) }, start: 3, end: NEVER, has_default_fn: false, site: 44, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "d", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 4) }, start: 4, end: NEVER, has_default_fn: false, site: 45, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Cut", sched: &[1, 2, 3, 3], layouts: &[Lay::OptIdx, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 46, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(32)), false) }, start: 1, end: 3, has_default_fn: false, site: 47, conv: Some(Conv::Absorb), idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "plain", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 2, has_default_fn: false, site: 48, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "keep", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(8)), true) }, start: 1, end: NEVER, has_default_fn: false, site: 49, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "seq", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: 3, has_default_fn: false, site: 50, conv: Some(Conv::Absorb), idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "set", sc: |b| { let _ = b; Sc::Set(a(Sc::Str), false) }, start: 1, end: 2, has_default_fn: false, site: 51, conv: Some(Conv::Absorb), idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "name", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 52, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "n", sc: |b| { let _ = b; Sc::U(32) }, start: 2, end: NEVER, has_default_fn: false, site: 53, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "CutOpt", sched: &[1, 2, 2, 3], layouts: &[Lay::Opt, Lay::Opt, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 54, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "old", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 2, has_default_fn: false, site: 55, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::U(8)), a(Sc::Str), true) }, start: 1, end: 3, has_default_fn: false, site: 56, conv: Some(Conv::Absorb), idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "n", sc: |b| { let _ = b; Sc::I(32) }, start: 1, end: NEVER, has_default_fn: false, site: 57, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "list", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 2, end: NEVER, has_default_fn: false, site: 58, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "CutMix", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 59, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "a", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 3, has_default_fn: false, site: 60, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::U(16)), a(Sc::U(16)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 61, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(32))) }, start: 1, end: 2, has_default_fn: false, site: 62, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 63, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "d", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(64))) }, start: 3, end: 4, has_default_fn: false, site: 64, conv: Some(Conv::Move(6)), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "e", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(64))) }, start: 4, end: NEVER, has_default_fn: false, site: 65, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Forced", sched: &[1, 1, 2, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "a", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 66, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 67, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "c", sc: |b| { let _ = b; Sc::I(64) }, start: 1, end: NEVER, has_default_fn: false, site: 68, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "d", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 69, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "e", sc: |b| { let _ = b; Sc::U(128) }, start: 2, end: NEVER, has_default_fn: false, site: 70, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "f", sc: |b| { let _ = b; Sc::Vec(a(Sc::F64)) }, start: 3, end: NEVER, has_default_fn: false, site: 71, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "g", sc: |b| { let _ = b; Sc::Vec(a(Sc::Bool)) }, start: 1, end: NEVER, has_default_fn: false, site: 72, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "h", sc: |b| { let _ = b; Sc::I(128) }, start: 3, end: NEVER, has_default_fn: false, site: 73, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "i", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 74, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "j", sc: |b| { let _ = b; Sc::I(32) }, start: 1, end: NEVER, has_default_fn: false, site: 75, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "k", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 76, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "ForcedCut", sched: &[1, 2, 2, 2], layouts: &[Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 77, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "a", sc: |b| { let _ = b; Sc::Vec(a(Sc::I(8))) }, start: 1, end: 2, has_default_fn: false, site: 78, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: true },
			GField { name: "b", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: 2, has_default_fn: false, site: 79, conv: Some(Conv::Absorb), idx: Idx::No, fixed: true, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::Vec(a(Sc::I(32))) }, start: 1, end: NEVER, has_default_fn: false, site: 80, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "d", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 81, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Pair", sched: &[1, 1, 2, 2], layouts: &[Lay::Legacy, Lay::Opt],
		kind: GKind::Struct(&[
			GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 82, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 83, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Unit", sched: &[1, 1, 1, 2], layouts: &[Lay::Legacy, Lay::Opt],
		kind: GKind::Struct(&[
		]) },
	Fam { name: "Wide", sched: &[1, 1, 2, 2], layouts: &[Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "w0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 84, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 85, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w2", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 86, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w3", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(64))) }, start: 1, end: NEVER, has_default_fn: false, site: 87, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w4", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 1, end: NEVER, has_default_fn: false, site: 88, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w5", sc: |b| { let _ = b; Sc::I(16) }, start: 1, end: NEVER, has_default_fn: false, site: 89, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w6", sc: |b| { let _ = b; Sc::Char }, start: 1, end: NEVER, has_default_fn: false, site: 90, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w7", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 91, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w8", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 92, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w9", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 93, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w10", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(64))) }, start: 1, end: NEVER, has_default_fn: false, site: 94, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w11", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 1, end: NEVER, has_default_fn: false, site: 95, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w12", sc: |b| { let _ = b; Sc::I(16) }, start: 1, end: NEVER, has_default_fn: false, site: 96, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w13", sc: |b| { let _ = b; Sc::Char }, start: 1, end: NEVER, has_default_fn: false, site: 97, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w14", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 98, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w15", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 99, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w16", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 100, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w17", sc: |b| { let _ = b; Sc::Str }, start: 2, end: NEVER, has_default_fn: false, site: 101, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "w18", sc: |b| { let _ = b; Sc::U(8) }, start: 2, end: NEVER, has_default_fn: false, site: 102, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Tree", sched: &[1, 2, 2, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "v", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 103, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "kids", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_TREE, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 104, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "left", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_TREE, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 105, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "label", sc: |b| { let _ = b; Sc::Str }, start: 2, end: NEVER, has_default_fn: false, site: 106, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Color", sched: &[1, 1, 1, 1], layouts: &[Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Red", start: 1, end: NEVER, site: 107, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Green", start: 1, end: NEVER, site: 108, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Named", start: 1, end: NEVER, site: 109, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 110, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rgb", start: 1, end: NEVER, site: 111, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 112, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 113, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "2", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 114, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Hsl", start: 1, end: NEVER, site: 115, size: Size::No, disc: &[], fields: &[
				GField { name: "h", sc: |b| { let _ = b; Sc::F32 }, start: 1, end: NEVER, has_default_fn: false, site: 116, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "s", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: NEVER, has_default_fn: false, site: 117, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Nested", start: 1, end: NEVER, site: 118, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Opt(a(Sc::Vec(a(Sc::U(32))))) }, start: 1, end: NEVER, has_default_fn: false, site: 119, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "One", start: 1, end: NEVER, site: 120, size: Size::No, disc: &[], fields: &[
				GField { name: "x", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 121, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Event", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 122, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 123, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Old", start: 1, end: 2, site: 124, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 125, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 126, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Stay", start: 1, end: NEVER, site: 127, size: Size::No, disc: &[], fields: &[
				GField { name: "x", sc: |b| { let _ = b; Sc::I(32) }, start: 1, end: NEVER, has_default_fn: false, site: 128, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Fresh", start: 2, end: NEVER, site: 129, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 130, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Brief", start: 2, end: 4, site: 131, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Goes", start: 1, end: 3, site: 132, size: Size::No, disc: &[], fields: &[
				GField { name: "k", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 133, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "n", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: NEVER, has_default_fn: false, site: 134, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "New", start: 3, end: NEVER, site: 135, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Pay", start: 4, end: NEVER, site: 136, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Der(F_PAIR, b) }, start: 1, end: NEVER, has_default_fn: false, site: 137, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Parts", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 138, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 139, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Var", start: 1, end: NEVER, site: 140, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 141, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 2, has_default_fn: false, site: 142, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
				GField { name: "2", sc: |b| { let _ = b; Sc::U(32) }, start: 2, end: NEVER, has_default_fn: false, site: 143, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 144, size: Size::No, disc: &[], fields: &[
				GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 145, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "gone", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 1, end: 3, has_default_fn: false, site: 146, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
				GField { name: "neu", sc: |b| { let _ = b; Sc::Opt(a(Sc::Str)) }, start: 3, end: NEVER, has_default_fn: true, site: 147, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "z", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 148, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Lone", start: 1, end: NEVER, site: 149, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 150, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 2, end: 3, has_default_fn: false, site: 151, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Adds", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "First", start: 1, end: NEVER, site: 152, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Single", start: 1, end: NEVER, site: 153, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 2, end: NEVER, has_default_fn: false, site: 154, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Twice", start: 1, end: NEVER, site: 155, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 156, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::U(32) }, start: 3, end: NEVER, has_default_fn: true, site: 157, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 158, size: Size::No, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 159, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 2, end: NEVER, has_default_fn: false, site: 160, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Later", start: 3, end: NEVER, site: 161, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 162, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Disc", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 163, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 164, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Wide", start: 1, end: NEVER, site: 165, size: Size::No, disc: &[(1, 300)], fields: &[
			] },
			GVariant { name: "Huge", start: 1, end: NEVER, site: 166, size: Size::No, disc: &[(1, 70000), (2, 251)], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 167, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Zero", start: 1, end: NEVER, site: 168, size: Size::No, disc: &[(1, 0), (3, 9)], fields: &[
			] },
			GVariant { name: "Gone", start: 1, end: 3, site: 169, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: NEVER, has_default_fn: false, site: 170, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Tail", start: 2, end: NEVER, site: 171, size: Size::No, disc: &[(2, 4000000000)], fields: &[
			] },
		]) },
	Fam { name: "Packed", sched: &[1, 2, 2, 3], layouts: &[Lay::Opt, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "None", start: 1, end: NEVER, site: 172, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Byte", start: 1, end: NEVER, site: 173, size: Size::Fixed(1), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 174, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Quad", start: 1, end: NEVER, site: 175, size: Size::Fixed(4), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 4) }, start: 1, end: NEVER, has_default_fn: false, site: 176, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Text", start: 1, end: NEVER, site: 177, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 178, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 179, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 180, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 181, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Floaty", start: 1, end: NEVER, site: 182, size: Size::Fixed(8), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::F64 }, start: 1, end: NEVER, has_default_fn: false, site: 183, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Late", start: 2, end: NEVER, site: 184, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 1, end: NEVER, has_default_fn: false, site: 185, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Mark", start: 3, end: NEVER, site: 186, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Many", start: 3, end: NEVER, site: 187, size: Size::Fixed(2), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 188, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 189, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Mixed", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 190, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 191, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Old", start: 1, end: 3, site: 192, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 193, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Unit", start: 1, end: NEVER, site: 194, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Gone", start: 1, end: 2, site: 195, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Keep", start: 1, end: NEVER, site: 196, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "k", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 197, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "v", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(32))) }, start: 1, end: NEVER, has_default_fn: false, site: 198, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Neu", start: 2, end: NEVER, site: 199, size: Size::Fixed(2), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 2) }, start: 1, end: NEVER, has_default_fn: false, site: 200, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Sub", start: 4, end: NEVER, site: 201, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Der(F_INDEXED, b) }, start: 1, end: NEVER, has_default_fn: false, site: 202, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "OptDisc", sched: &[1, 2, 3, 3], layouts: &[Lay::Opt, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "A", start: 1, end: NEVER, site: 203, size: Size::Inline, disc: &[(1, 31), (2, 5)], fields: &[
			] },
			GVariant { name: "B", start: 1, end: NEVER, site: 204, size: Size::Varlen, disc: &[(1, 7)], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 205, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C", start: 1, end: NEVER, site: 206, size: Size::Fixed(1), disc: &[(2, 30)], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 207, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "D", start: 2, end: NEVER, site: 208, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "E", start: 3, end: NEVER, site: 209, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 210, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "LegOpt", sched: &[1, 2, 2, 2], layouts: &[Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "A", start: 1, end: NEVER, site: 211, size: Size::Inline, disc: &[(1, 29)], fields: &[
			] },
			GVariant { name: "B", start: 1, end: NEVER, site: 212, size: Size::Varlen, disc: &[(2, 0)], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 213, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C", start: 1, end: NEVER, site: 214, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "s", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 215, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "t", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 216, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "AddsO", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 217, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 218, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "First", start: 1, end: NEVER, site: 219, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Single", start: 1, end: NEVER, site: 220, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 2, end: NEVER, has_default_fn: false, site: 221, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Twice", start: 1, end: NEVER, site: 222, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 223, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::U(32) }, start: 2, end: NEVER, has_default_fn: true, site: 224, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 225, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 226, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 2, end: NEVER, has_default_fn: false, site: 227, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Later", start: 3, end: NEVER, site: 228, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 229, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Pad", start: 1, end: 4, site: 230, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: NEVER, has_default_fn: false, site: 231, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Fin", start: 1, end: NEVER, site: 232, size: Size::Inline, disc: &[], fields: &[
			] },
		]) },
	Fam { name: "CutsO", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 233, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 234, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Gone", start: 1, end: 3, site: 235, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 236, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 237, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Lone", start: 1, end: NEVER, site: 238, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 239, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 2, has_default_fn: false, site: 240, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Bit", start: 1, end: NEVER, site: 241, size: Size::Fixed(1), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 242, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Off", start: 1, end: 4, site: 243, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 244, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 245, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "x", sc: |b| { let _ = b; Sc::Map(a(Sc::U(8)), a(Sc::Str), false) }, start: 1, end: 2, has_default_fn: false, site: 246, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
				GField { name: "y", sc: |b| { let _ = b; Sc::Str }, start: 2, end: NEVER, has_default_fn: false, site: 247, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "ForcedE", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 248, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 249, conv: None, idx: Idx::No, fixed: true, specialised: false },
			] },
			GVariant { name: "Vals", start: 1, end: NEVER, site: 250, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 251, conv: None, idx: Idx::No, fixed: false, specialised: true },
			] },
			GVariant { name: "Neg", start: 1, end: NEVER, site: 252, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::I(128) }, start: 1, end: NEVER, has_default_fn: false, site: 253, conv: None, idx: Idx::No, fixed: true, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 254, size: Size::No, disc: &[], fields: &[
				GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 255, conv: None, idx: Idx::No, fixed: true, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::Bool)) }, start: 1, end: NEVER, has_default_fn: false, site: 256, conv: None, idx: Idx::No, fixed: false, specialised: true },
				GField { name: "c", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 257, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "d", sc: |b| { let _ = b; Sc::Vec(a(Sc::F32)) }, start: 1, end: 3, has_default_fn: false, site: 258, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: true },
			] },
			GVariant { name: "Gone", start: 1, end: 2, site: 259, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::I(32) }, start: 1, end: NEVER, has_default_fn: false, site: 260, conv: None, idx: Idx::No, fixed: true, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(64))) }, start: 1, end: NEVER, has_default_fn: false, site: 261, conv: None, idx: Idx::No, fixed: false, specialised: true },
			] },
			GVariant { name: "Late", start: 2, end: NEVER, site: 262, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 3, end: NEVER, has_default_fn: false, site: 263, conv: None, idx: Idx::No, fixed: true, specialised: false },
			] },
		]) },
	Fam { name: "ForcedA", sched: &[1, 1, 2, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Num", start: 1, end: NEVER, site: 264, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 265, conv: None, idx: Idx::No, fixed: true, specialised: false },
			] },
			GVariant { name: "Vals", start: 1, end: NEVER, site: 266, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::I(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 267, conv: None, idx: Idx::No, fixed: false, specialised: true },
			] },
			GVariant { name: "Two", start: 1, end: NEVER, site: 268, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 269, conv: None, idx: Idx::No, fixed: true, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 270, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Late", start: 1, end: NEVER, site: 271, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::I(64) }, start: 2, end: NEVER, has_default_fn: false, site: 272, conv: None, idx: Idx::No, fixed: true, specialised: false },
			] },
		]) },
	Fam { name: "ForcedMix", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "a", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 273, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 1, end: NEVER, has_default_fn: false, site: 274, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(16)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 275, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::I(64) }, start: 2, end: NEVER, has_default_fn: false, site: 276, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "s", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 2, end: NEVER, has_default_fn: false, site: 277, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "d", sc: |b| { let _ = b; Sc::Vec(a(Sc::Bool)) }, start: 3, end: NEVER, has_default_fn: false, site: 278, conv: None, idx: Idx::No, fixed: false, specialised: true },
			GField { name: "t", sc: |b| { let _ = b; Sc::Set(a(Sc::U(8)), false) }, start: 3, end: NEVER, has_default_fn: false, site: 279, conv: None, idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "z", sc: |b| { let _ = b; Sc::Str }, start: 4, end: NEVER, has_default_fn: true, site: 280, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "PairX", sched: &[1, 2, 3, 3], layouts: &[Lay::OptIdx, Lay::OptIdx, Lay::Opt],
		kind: GKind::Struct(&[
			GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 281, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 3, has_default_fn: false, site: 282, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "2", sc: |b| { let _ = b; Sc::Map(a(Sc::U(32)), a(Sc::Str), false) }, start: 2, end: NEVER, has_default_fn: false, site: 283, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "3", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 1, end: NEVER, has_default_fn: false, site: 284, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Aged", sched: &[249, 250, 251, 300], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 285, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "a", sc: |b| { let _ = b; Sc::Str }, start: 1, end: 251, has_default_fn: false, site: 286, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(32))) }, start: 250, end: NEVER, has_default_fn: false, site: 287, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(8))) }, start: 251, end: NEVER, has_default_fn: true, site: 288, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "d", sc: |b| { let _ = b; Sc::U(16) }, start: 1, end: 300, has_default_fn: false, site: 289, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "z", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 290, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "AgedX", sched: &[250, 250, 251, 252], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Opt, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 291, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::U(8)), a(Sc::Str), false) }, start: 1, end: NEVER, has_default_fn: false, site: 292, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "a", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 1, end: 251, has_default_fn: false, site: 293, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "b", sc: |b| { let _ = b; Sc::Str }, start: 251, end: NEVER, has_default_fn: false, site: 294, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "c", sc: |b| { let _ = b; Sc::Opt(a(Sc::I(64))) }, start: 252, end: NEVER, has_default_fn: false, site: 295, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Crowd", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 296, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 297, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C0", start: 1, end: NEVER, site: 298, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C1", start: 1, end: NEVER, site: 299, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C2", start: 1, end: NEVER, site: 300, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 301, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C3", start: 1, end: NEVER, site: 302, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C4", start: 1, end: NEVER, site: 303, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 304, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 305, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C5", start: 1, end: NEVER, site: 306, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C6", start: 1, end: NEVER, site: 307, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 308, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 309, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C7", start: 1, end: NEVER, site: 310, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C8", start: 1, end: NEVER, site: 311, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C9", start: 1, end: NEVER, site: 312, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 313, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C10", start: 1, end: NEVER, site: 314, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C11", start: 1, end: NEVER, site: 315, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 316, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 317, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C12", start: 1, end: NEVER, site: 318, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C13", start: 1, end: NEVER, site: 319, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 320, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 321, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C14", start: 1, end: NEVER, site: 322, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C15", start: 1, end: NEVER, site: 323, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C16", start: 1, end: NEVER, site: 324, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 325, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C17", start: 1, end: NEVER, site: 326, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C18", start: 1, end: NEVER, site: 327, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 328, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 329, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C19", start: 1, end: NEVER, site: 330, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C20", start: 1, end: NEVER, site: 331, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 332, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 333, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C21", start: 1, end: NEVER, site: 334, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C22", start: 1, end: NEVER, site: 335, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C23", start: 1, end: NEVER, site: 336, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 337, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C24", start: 1, end: NEVER, site: 338, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C25", start: 1, end: NEVER, site: 339, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 340, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 341, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C26", start: 1, end: NEVER, site: 342, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C27", start: 1, end: NEVER, site: 343, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 344, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 345, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C28", start: 1, end: NEVER, site: 346, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C29", start: 1, end: NEVER, site: 347, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C30", start: 1, end: NEVER, site: 348, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 349, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C31", start: 1, end: NEVER, site: 350, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C32", start: 1, end: NEVER, site: 351, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 352, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 353, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C33", start: 1, end: NEVER, site: 354, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C34", start: 1, end: NEVER, site: 355, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 356, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 357, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C35", start: 1, end: NEVER, site: 358, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C36", start: 1, end: NEVER, site: 359, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C37", start: 1, end: NEVER, site: 360, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 361, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C38", start: 1, end: NEVER, site: 362, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C39", start: 1, end: NEVER, site: 363, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 364, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 365, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C40", start: 1, end: NEVER, site: 366, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C41", start: 1, end: NEVER, site: 367, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 368, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 369, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C42", start: 1, end: NEVER, site: 370, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C43", start: 1, end: NEVER, site: 371, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C44", start: 1, end: NEVER, site: 372, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 373, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C45", start: 1, end: NEVER, site: 374, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C46", start: 1, end: NEVER, site: 375, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 376, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 377, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C47", start: 1, end: NEVER, site: 378, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C48", start: 1, end: NEVER, site: 379, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 380, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 381, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C49", start: 1, end: NEVER, site: 382, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C50", start: 1, end: NEVER, site: 383, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C51", start: 1, end: NEVER, site: 384, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 385, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C52", start: 1, end: NEVER, site: 386, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C53", start: 1, end: NEVER, site: 387, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 388, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 389, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C54", start: 1, end: NEVER, site: 390, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C55", start: 1, end: NEVER, site: 391, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 392, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 393, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C56", start: 1, end: NEVER, site: 394, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C57", start: 1, end: NEVER, site: 395, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C58", start: 1, end: NEVER, site: 396, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 397, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C59", start: 1, end: NEVER, site: 398, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C60", start: 1, end: NEVER, site: 399, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 400, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 401, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C61", start: 1, end: NEVER, site: 402, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C62", start: 1, end: NEVER, site: 403, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 404, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 405, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C63", start: 1, end: NEVER, site: 406, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C64", start: 1, end: NEVER, site: 407, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C65", start: 1, end: NEVER, site: 408, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 409, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C66", start: 1, end: NEVER, site: 410, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C67", start: 1, end: NEVER, site: 411, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 412, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 413, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C68", start: 1, end: NEVER, site: 414, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C69", start: 1, end: NEVER, site: 415, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 416, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 417, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C70", start: 1, end: NEVER, site: 418, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C71", start: 1, end: NEVER, site: 419, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C72", start: 1, end: NEVER, site: 420, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 421, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C73", start: 1, end: NEVER, site: 422, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C74", start: 1, end: NEVER, site: 423, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 424, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 425, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C75", start: 1, end: NEVER, site: 426, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C76", start: 1, end: NEVER, site: 427, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 428, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 429, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C77", start: 2, end: NEVER, site: 430, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C78", start: 1, end: NEVER, site: 431, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C79", start: 1, end: NEVER, site: 432, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 433, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C80", start: 1, end: NEVER, site: 434, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C81", start: 1, end: NEVER, site: 435, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 436, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 437, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C82", start: 1, end: NEVER, site: 438, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C83", start: 1, end: NEVER, site: 439, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 440, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 441, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C84", start: 1, end: NEVER, site: 442, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C85", start: 1, end: NEVER, site: 443, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C86", start: 1, end: NEVER, site: 444, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 445, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C87", start: 1, end: NEVER, site: 446, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C88", start: 1, end: NEVER, site: 447, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 448, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 449, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C89", start: 1, end: NEVER, site: 450, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C90", start: 1, end: NEVER, site: 451, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 452, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 453, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C91", start: 1, end: NEVER, site: 454, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C92", start: 1, end: NEVER, site: 455, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C93", start: 1, end: NEVER, site: 456, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 457, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C94", start: 1, end: NEVER, site: 458, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C95", start: 1, end: NEVER, site: 459, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 460, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 461, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C96", start: 1, end: NEVER, site: 462, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C97", start: 1, end: NEVER, site: 463, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 464, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 465, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C98", start: 1, end: NEVER, site: 466, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C99", start: 1, end: NEVER, site: 467, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C100", start: 1, end: NEVER, site: 468, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 469, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C101", start: 1, end: NEVER, site: 470, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C102", start: 1, end: NEVER, site: 471, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 472, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 473, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C103", start: 1, end: NEVER, site: 474, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C104", start: 1, end: NEVER, site: 475, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 476, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 477, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C105", start: 1, end: NEVER, site: 478, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C106", start: 1, end: NEVER, site: 479, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C107", start: 1, end: NEVER, site: 480, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 481, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C108", start: 1, end: NEVER, site: 482, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C109", start: 1, end: NEVER, site: 483, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 484, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 485, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C110", start: 1, end: NEVER, site: 486, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C111", start: 1, end: NEVER, site: 487, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 488, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 489, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C112", start: 1, end: NEVER, site: 490, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C113", start: 1, end: NEVER, site: 491, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C114", start: 1, end: NEVER, site: 492, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 493, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C115", start: 1, end: NEVER, site: 494, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C116", start: 1, end: NEVER, site: 495, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 496, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 497, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C117", start: 1, end: NEVER, site: 498, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C118", start: 1, end: NEVER, site: 499, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 500, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 501, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C119", start: 1, end: NEVER, site: 502, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C120", start: 1, end: NEVER, site: 503, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C121", start: 1, end: NEVER, site: 504, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 505, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C122", start: 1, end: NEVER, site: 506, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C123", start: 1, end: NEVER, site: 507, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 508, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 509, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C124", start: 1, end: NEVER, site: 510, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C125", start: 1, end: NEVER, site: 511, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 512, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 513, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C126", start: 1, end: NEVER, site: 514, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C127", start: 1, end: NEVER, site: 515, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C128", start: 1, end: NEVER, site: 516, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 517, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C129", start: 1, end: NEVER, site: 518, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C130", start: 1, end: NEVER, site: 519, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 520, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 521, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C131", start: 1, end: NEVER, site: 522, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C132", start: 1, end: NEVER, site: 523, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 524, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 525, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C133", start: 1, end: NEVER, site: 526, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C134", start: 1, end: NEVER, site: 527, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C135", start: 1, end: NEVER, site: 528, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 529, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C136", start: 1, end: NEVER, site: 530, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C137", start: 1, end: NEVER, site: 531, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 532, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 533, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C138", start: 1, end: NEVER, site: 534, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C139", start: 1, end: NEVER, site: 535, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 536, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 537, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C140", start: 1, end: NEVER, site: 538, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C141", start: 1, end: NEVER, site: 539, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C142", start: 1, end: NEVER, site: 540, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 541, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C143", start: 1, end: NEVER, site: 542, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C144", start: 1, end: NEVER, site: 543, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 544, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 545, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C145", start: 1, end: NEVER, site: 546, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C146", start: 1, end: NEVER, site: 547, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 548, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 549, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C147", start: 1, end: NEVER, site: 550, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C148", start: 1, end: NEVER, site: 551, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C149", start: 1, end: NEVER, site: 552, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 553, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C150", start: 1, end: NEVER, site: 554, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C151", start: 1, end: NEVER, site: 555, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 556, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 557, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C152", start: 1, end: NEVER, site: 558, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C153", start: 1, end: NEVER, site: 559, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 560, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 561, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C154", start: 1, end: NEVER, site: 562, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C155", start: 1, end: NEVER, site: 563, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C156", start: 1, end: NEVER, site: 564, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 565, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C157", start: 1, end: NEVER, site: 566, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C158", start: 1, end: NEVER, site: 567, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 568, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 569, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C159", start: 1, end: NEVER, site: 570, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C160", start: 1, end: 3, site: 571, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 572, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 573, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C161", start: 1, end: NEVER, site: 574, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C162", start: 1, end: NEVER, site: 575, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C163", start: 1, end: NEVER, site: 576, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 577, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C164", start: 1, end: NEVER, site: 578, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C165", start: 1, end: NEVER, site: 579, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 580, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 581, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C166", start: 1, end: NEVER, site: 582, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C167", start: 1, end: NEVER, site: 583, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 584, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 585, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C168", start: 1, end: NEVER, site: 586, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C169", start: 1, end: NEVER, site: 587, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C170", start: 1, end: NEVER, site: 588, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 589, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C171", start: 1, end: NEVER, site: 590, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C172", start: 1, end: NEVER, site: 591, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 592, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 593, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C173", start: 1, end: NEVER, site: 594, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C174", start: 1, end: NEVER, site: 595, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 596, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 597, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C175", start: 1, end: NEVER, site: 598, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C176", start: 1, end: NEVER, site: 599, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C177", start: 1, end: NEVER, site: 600, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 601, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C178", start: 1, end: NEVER, site: 602, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C179", start: 1, end: NEVER, site: 603, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 604, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 605, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C180", start: 1, end: NEVER, site: 606, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C181", start: 1, end: NEVER, site: 607, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 608, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 609, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C182", start: 1, end: NEVER, site: 610, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C183", start: 1, end: NEVER, site: 611, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C184", start: 1, end: NEVER, site: 612, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 613, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C185", start: 1, end: NEVER, site: 614, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C186", start: 1, end: NEVER, site: 615, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 616, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 617, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C187", start: 1, end: NEVER, site: 618, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C188", start: 1, end: NEVER, site: 619, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 620, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 621, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C189", start: 1, end: NEVER, site: 622, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C190", start: 1, end: NEVER, site: 623, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C191", start: 1, end: NEVER, site: 624, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 625, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C192", start: 1, end: NEVER, site: 626, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C193", start: 1, end: NEVER, site: 627, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 628, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 629, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C194", start: 1, end: NEVER, site: 630, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C195", start: 1, end: NEVER, site: 631, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 632, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 633, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C196", start: 1, end: NEVER, site: 634, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C197", start: 1, end: NEVER, site: 635, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C198", start: 1, end: NEVER, site: 636, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 637, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C199", start: 1, end: NEVER, site: 638, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C200", start: 1, end: NEVER, site: 639, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 640, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 641, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C201", start: 1, end: NEVER, site: 642, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C202", start: 1, end: NEVER, site: 643, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 644, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 645, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C203", start: 1, end: NEVER, site: 646, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C204", start: 1, end: NEVER, site: 647, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C205", start: 1, end: NEVER, site: 648, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 649, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C206", start: 1, end: NEVER, site: 650, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C207", start: 1, end: NEVER, site: 651, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 652, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 653, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C208", start: 1, end: NEVER, site: 654, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C209", start: 1, end: NEVER, site: 655, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 656, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 657, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C210", start: 1, end: NEVER, site: 658, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C211", start: 1, end: NEVER, site: 659, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C212", start: 1, end: NEVER, site: 660, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 661, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C213", start: 1, end: NEVER, site: 662, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C214", start: 1, end: NEVER, site: 663, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 664, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 665, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C215", start: 1, end: NEVER, site: 666, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C216", start: 1, end: NEVER, site: 667, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 668, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 669, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C217", start: 1, end: NEVER, site: 670, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C218", start: 1, end: NEVER, site: 671, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C219", start: 1, end: NEVER, site: 672, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 673, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C220", start: 1, end: NEVER, site: 674, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C221", start: 1, end: NEVER, site: 675, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 676, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 677, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C222", start: 1, end: NEVER, site: 678, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C223", start: 1, end: NEVER, site: 679, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 680, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 681, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C224", start: 1, end: NEVER, site: 682, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C225", start: 1, end: NEVER, site: 683, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C226", start: 1, end: NEVER, site: 684, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 685, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C227", start: 1, end: NEVER, site: 686, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C228", start: 1, end: NEVER, site: 687, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 688, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 689, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C229", start: 1, end: NEVER, site: 690, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C230", start: 1, end: NEVER, site: 691, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 692, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 693, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C231", start: 1, end: NEVER, site: 694, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C232", start: 1, end: NEVER, site: 695, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C233", start: 1, end: NEVER, site: 696, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 697, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C234", start: 1, end: NEVER, site: 698, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C235", start: 1, end: NEVER, site: 699, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 700, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 701, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C236", start: 1, end: NEVER, site: 702, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C237", start: 1, end: NEVER, site: 703, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 704, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 705, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C238", start: 1, end: NEVER, site: 706, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C239", start: 1, end: NEVER, site: 707, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C240", start: 1, end: NEVER, site: 708, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 709, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C241", start: 1, end: NEVER, site: 710, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C242", start: 1, end: NEVER, site: 711, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 712, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 713, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C243", start: 1, end: NEVER, site: 714, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C244", start: 1, end: NEVER, site: 715, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 716, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 717, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C245", start: 1, end: NEVER, site: 718, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C246", start: 1, end: NEVER, site: 719, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C247", start: 1, end: NEVER, site: 720, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 721, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C248", start: 1, end: NEVER, site: 722, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C249", start: 1, end: NEVER, site: 723, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 724, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 725, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C250", start: 1, end: NEVER, site: 726, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C251", start: 1, end: NEVER, site: 727, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 728, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Bool }, start: 1, end: NEVER, has_default_fn: false, site: 729, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C252", start: 1, end: NEVER, site: 730, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C253", start: 1, end: NEVER, site: 731, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C254", start: 1, end: NEVER, site: 732, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 733, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C255", start: 1, end: NEVER, site: 734, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "C256", start: 1, end: NEVER, site: 735, size: Size::No, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 736, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 737, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "C257", start: 1, end: NEVER, site: 738, size: Size::No, disc: &[], fields: &[
			] },
		]) },
	Fam { name: "Full", sched: &[1, 2, 3, 3], layouts: &[Lay::Opt, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 739, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 740, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q0", start: 1, end: NEVER, site: 741, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q1", start: 1, end: NEVER, site: 742, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 743, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q2", start: 1, end: NEVER, site: 744, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 745, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q3", start: 1, end: 2, site: 746, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 747, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 748, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q4", start: 1, end: NEVER, site: 749, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q5", start: 1, end: NEVER, site: 750, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 751, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q6", start: 1, end: NEVER, site: 752, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 753, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q7", start: 1, end: NEVER, site: 754, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 755, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 756, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q8", start: 1, end: NEVER, site: 757, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q9", start: 1, end: 2, site: 758, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 759, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q10", start: 1, end: NEVER, site: 760, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 761, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q11", start: 1, end: NEVER, site: 762, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 763, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 764, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q12", start: 1, end: NEVER, site: 765, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q13", start: 1, end: NEVER, site: 766, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 767, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q14", start: 1, end: 3, site: 768, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 769, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q15", start: 1, end: NEVER, site: 770, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 771, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 772, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q16", start: 1, end: NEVER, site: 773, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q17", start: 1, end: NEVER, site: 774, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 775, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q18", start: 1, end: NEVER, site: 776, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 777, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q19", start: 1, end: NEVER, site: 778, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 779, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 780, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q20", start: 1, end: NEVER, site: 781, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q21", start: 1, end: NEVER, site: 782, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 783, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q22", start: 1, end: NEVER, site: 784, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 785, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q23", start: 1, end: NEVER, site: 786, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 787, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 788, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q24", start: 1, end: NEVER, site: 789, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q25", start: 1, end: NEVER, site: 790, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 791, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q26", start: 1, end: NEVER, site: 792, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 793, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q27", start: 1, end: NEVER, site: 794, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 795, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 796, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q28", start: 1, end: NEVER, site: 797, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q29", start: 1, end: NEVER, site: 798, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 799, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q30", start: 1, end: NEVER, site: 800, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 801, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q31", start: 2, end: NEVER, site: 802, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "f0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 803, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "f1", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 804, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Q32", start: 2, end: NEVER, site: 805, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Q33", start: 3, end: NEVER, site: 806, size: Size::Fixed(3), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Arr(a(Sc::U(8)), 3) }, start: 1, end: NEVER, has_default_fn: false, site: 807, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Hollow", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx],
		kind: GKind::Struct(&[
		]) },
	Fam { name: "Lone", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::OptIdx, Lay::Opt],
		kind: GKind::Struct(&[
			GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 808, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Late1", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(8)), false) }, start: 3, end: NEVER, has_default_fn: false, site: 809, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "n", sc: |b| { let _ = b; Sc::Opt(a(Sc::U(16))) }, start: 4, end: NEVER, has_default_fn: false, site: 810, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Solo", sched: &[1, 2, 2, 2], layouts: &[Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "It", start: 1, end: NEVER, site: 811, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Der(F_LONE, b) }, start: 1, end: NEVER, has_default_fn: false, site: 812, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Hush", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "A", start: 1, end: NEVER, site: 813, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "B", start: 1, end: NEVER, site: 814, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "C", start: 2, end: NEVER, site: 815, size: Size::Inline, disc: &[], fields: &[
			] },
		]) },
	Fam { name: "Doc", sched: &[1, 2, 2, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "id", sc: |b| { let _ = b; Sc::Uuid }, start: 1, end: NEVER, has_default_fn: false, site: 816, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "grow", sc: |b| { let _ = b; Sc::Der(F_GROW, b) }, start: 1, end: NEVER, has_default_fn: false, site: 817, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "event", sc: |b| { let _ = b; Sc::Der(F_EVENT, b) }, start: 1, end: NEVER, has_default_fn: false, site: 818, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "packed", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_PACKED, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 819, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "ladder", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_LADDER, b))) }, start: 2, end: NEVER, has_default_fn: false, site: 820, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "price", sc: |b| { let _ = b; Sc::Decimal }, start: 1, end: NEVER, has_default_fn: false, site: 821, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "by", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::Der(F_SHRINK, b)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 822, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "child", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_DOC, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 823, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "when", sc: |b| { let _ = b; Sc::Date }, start: 3, end: NEVER, has_default_fn: true, site: 824, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Store", sched: &[1, 1, 2, 3], layouts: &[Lay::OptIdx, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "rows", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::Der(F_INDEXED, b)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 825, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "log", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_MIXED, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 826, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "keys", sc: |b| { let _ = b; Sc::Set(a(Sc::U(64)), true) }, start: 1, end: NEVER, has_default_fn: false, site: 827, conv: None, idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "zig", sc: |b| { let _ = b; Sc::Der(F_ZIGZAG, b) }, start: 1, end: NEVER, has_default_fn: false, site: 828, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "cuts", sc: |b| { let _ = b; Sc::Seq(a(Sc::Der(F_CUT, b))) }, start: 2, end: NEVER, has_default_fn: false, site: 829, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "hooks", sc: |b| { let _ = b; Sc::Map(a(Sc::U(16)), a(Sc::Der(F_PARTS, b)), false) }, start: 3, end: NEVER, has_default_fn: false, site: 830, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "hook", sc: |b| { let _ = b; Sc::Hook }, start: 1, end: NEVER, has_default_fn: false, site: 831, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Value", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "Acc", start: 1, end: NEVER, site: 832, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 833, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Null", start: 1, end: NEVER, site: 834, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Num", start: 1, end: NEVER, site: 835, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::I(64) }, start: 1, end: NEVER, has_default_fn: false, site: 836, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "List", start: 1, end: NEVER, site: 837, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_VALUE, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 838, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Obj", start: 1, end: NEVER, site: 839, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::Der(F_VALUE, b)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 840, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Tree", start: 2, end: NEVER, site: 841, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Der(F_TREE, b) }, start: 1, end: NEVER, has_default_fn: false, site: 842, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Dead", start: 1, end: 3, site: 843, size: Size::No, disc: &[], fields: &[
				GField { name: "x", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_VALUE, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 844, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "y", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 845, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Blob", start: 2, end: NEVER, site: 846, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Bytes }, start: 1, end: NEVER, has_default_fn: false, site: 847, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Disc", start: 3, end: NEVER, site: 848, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Der(F_DISC, b) }, start: 1, end: NEVER, has_default_fn: false, site: 849, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "Frame", sched: &[1, 2, 3, 3], layouts: &[Lay::Opt, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 850, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "inner", sc: |b| { let _ = b; Sc::Der(F_CUTMIX, b) }, start: 1, end: NEVER, has_default_fn: false, site: 851, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "vals", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_VALUE, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 852, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "old", sc: |b| { let _ = b; Sc::Der(F_ADDS, b) }, start: 1, end: 3, has_default_fn: false, site: 853, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
			GField { name: "m", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::Der(F_OPTDISC, b)), true) }, start: 1, end: NEVER, has_default_fn: false, site: 854, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "hook", sc: |b| { let _ = b; Sc::Hook }, start: 1, end: NEVER, has_default_fn: false, site: 855, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "res", sc: |b| { let _ = b; Sc::Res(a(Sc::Der(F_COLOR, b)), a(Sc::Der(F_LEGOPT, b))) }, start: 2, end: NEVER, has_default_fn: true, site: 856, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "Still", sched: &[1, 1, 1, 1], layouts: &[Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "grow", sc: |b| { let _ = b; Sc::Der(F_GROW, b) }, start: 1, end: NEVER, has_default_fn: false, site: 857, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "cut", sc: |b| { let _ = b; Sc::Der(F_CUT, b) }, start: 1, end: NEVER, has_default_fn: false, site: 858, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "mixed", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_MIXED, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 859, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "event", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_EVENT, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 860, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "frame", sc: |b| { let _ = b; Sc::Der(F_FRAME, b) }, start: 1, end: NEVER, has_default_fn: false, site: 861, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "forced", sc: |b| { let _ = b; Sc::Der(F_FORCEDCUT, b) }, start: 1, end: NEVER, has_default_fn: false, site: 862, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tail", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 863, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "StillX", sched: &[1, 1, 1, 1], layouts: &[Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "grow", sc: |b| { let _ = b; Sc::Der(F_GROW, b) }, start: 1, end: NEVER, has_default_fn: false, site: 864, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "rows", sc: |b| { let _ = b; Sc::Map(a(Sc::U(8)), a(Sc::Der(F_CUTOPT, b)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 865, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "mixed", sc: |b| { let _ = b; Sc::Seq(a(Sc::Der(F_MIXED, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 866, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "doc", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_FORCED, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 867, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tail", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 868, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "GrowT", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Struct(&[
			GField { name: "id", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 869, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "name", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 870, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "extra", sc: |b| { let _ = b; Sc::Opt(a(Sc::Str)) }, start: 2, end: NEVER, has_default_fn: false, site: 871, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "score", sc: |b| { let _ = b; Sc::I(16) }, start: 3, end: NEVER, has_default_fn: true, site: 872, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "tail", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(32)), false) }, start: 4, end: NEVER, has_default_fn: true, site: 873, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "raw", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 874, conv: None, idx: Idx::No, fixed: true, specialised: false },
			GField { name: "last", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(16))) }, start: 1, end: NEVER, has_default_fn: false, site: 875, conv: None, idx: Idx::No, fixed: false, specialised: true },
		]) },
	Fam { name: "LadderT", sched: &[1, 2, 3, 4], layouts: &[Lay::Legacy, Lay::Opt, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "id", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 876, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "map", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::U(64)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 877, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "tags", sc: |b| { let _ = b; Sc::Vec(a(Sc::Str)) }, start: 1, end: NEVER, has_default_fn: false, site: 878, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "ids", sc: |b| { let _ = b; Sc::Set(a(Sc::U(32)), false) }, start: 2, end: NEVER, has_default_fn: false, site: 879, conv: None, idx: Idx::Set, fixed: false, specialised: false },
			GField { name: "note", sc: |b| { let _ = b; Sc::Opt(a(Sc::Str)) }, start: 3, end: NEVER, has_default_fn: true, site: 880, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "end", sc: |b| { let _ = b; Sc::I(64) }, start: 4, end: NEVER, has_default_fn: false, site: 881, conv: None, idx: Idx::No, fixed: false, specialised: false },
		]) },
	Fam { name: "AddsT", sched: &[1, 2, 3, 3], layouts: &[Lay::Legacy, Lay::Legacy, Lay::Legacy],
		kind: GKind::Enum(&[
			GVariant { name: "First", start: 1, end: NEVER, site: 882, size: Size::No, disc: &[], fields: &[
			] },
			GVariant { name: "Single", start: 1, end: NEVER, site: 883, size: Size::No, disc: &[(2, 300)], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 884, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 885, size: Size::No, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 886, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 2, end: NEVER, has_default_fn: true, site: 887, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Later", start: 3, end: NEVER, site: 888, size: Size::No, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 889, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "1", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 890, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
		]) },
	Fam { name: "PackedT", sched: &[1, 2, 2, 3], layouts: &[Lay::Legacy, Lay::Opt, Lay::Opt],
		kind: GKind::Enum(&[
			GVariant { name: "None", start: 1, end: NEVER, site: 891, size: Size::Inline, disc: &[], fields: &[
			] },
			GVariant { name: "Byte", start: 1, end: NEVER, site: 892, size: Size::Fixed(1), disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::U(8) }, start: 1, end: NEVER, has_default_fn: false, site: 893, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Text", start: 1, end: NEVER, site: 894, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 895, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Rec", start: 1, end: NEVER, site: 896, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "a", sc: |b| { let _ = b; Sc::U(32) }, start: 1, end: NEVER, has_default_fn: false, site: 897, conv: None, idx: Idx::No, fixed: false, specialised: false },
				GField { name: "b", sc: |b| { let _ = b; Sc::Str }, start: 1, end: NEVER, has_default_fn: false, site: 898, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Late", start: 2, end: NEVER, site: 899, size: Size::Varlen, disc: &[], fields: &[
				GField { name: "0", sc: |b| { let _ = b; Sc::Vec(a(Sc::U(32))) }, start: 1, end: NEVER, has_default_fn: false, site: 900, conv: None, idx: Idx::No, fixed: false, specialised: false },
			] },
			GVariant { name: "Mark", start: 3, end: NEVER, site: 901, size: Size::Inline, disc: &[], fields: &[
			] },
		]) },
	Fam { name: "Halves", sched: &[1, 2, 2, 3], layouts: &[Lay::Legacy, Lay::OptIdx, Lay::OptIdx],
		kind: GKind::Struct(&[
			GField { name: "acc", sc: |b| { let _ = b; Sc::U(64) }, start: 1, end: NEVER, has_default_fn: false, site: 902, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "grow", sc: |b| { let _ = b; Sc::Der(F_GROWT, b) }, start: 1, end: NEVER, has_default_fn: false, site: 903, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "rows", sc: |b| { let _ = b; Sc::Map(a(Sc::Str), a(Sc::Der(F_LADDERT, b)), false) }, start: 1, end: NEVER, has_default_fn: false, site: 904, conv: None, idx: Idx::Map, fixed: false, specialised: false },
			GField { name: "log", sc: |b| { let _ = b; Sc::Vec(a(Sc::Der(F_PACKEDT, b))) }, start: 1, end: NEVER, has_default_fn: false, site: 905, conv: None, idx: Idx::Seq, fixed: false, specialised: false },
			GField { name: "adds", sc: |b| { let _ = b; Sc::Opt(a(Sc::Der(F_ADDST, b))) }, start: 2, end: NEVER, has_default_fn: false, site: 906, conv: None, idx: Idx::No, fixed: false, specialised: false },
			GField { name: "gone", sc: |b| { let _ = b; Sc::Der(F_PACKEDT, b) }, start: 1, end: 3, has_default_fn: false, site: 907, conv: Some(Conv::Absorb), idx: Idx::No, fixed: false, specialised: false },
		]) },
];
