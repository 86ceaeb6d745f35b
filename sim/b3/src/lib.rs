// Generated by tools/gen_types.py.
#![allow(unused_imports, dead_code, private_interfaces, clippy::all)]
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use bytes::Bytes;
use chrono::NaiveDate;
use rust_decimal::Decimal;
use uuid::Uuid;
use revision::{Error, revisioned};
use core_sim::imp::Hook;
use core_sim::val::{absorb, digest};
use core_sim::walkers::Sim;
use core_sim::hooks::{cb, def_value};

#[revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq)]
pub struct Plain {
	pub flag: bool,
	pub tiny: i8,
	pub num: u32,
	pub big: i128,
	pub text: String,
	pub maybe: Option<u16>,
	pub list: Vec<u64>,
	pub pair: (u8, String,),
	pub both: Result<u32, String>,
}
core_sim::sim_struct!(Plain, PlainWalker, 0, 3, [
	(0, flag, bool, plain, decode_flag, skip_flag, walk_flag, into_walk_flag, into_flag_bytes),
	(1, tiny, i8, plain, decode_tiny, skip_tiny, walk_tiny, into_walk_tiny, into_tiny_bytes),
	(2, num, u32, plain, decode_num, skip_num, walk_num, into_walk_num, into_num_bytes),
	(3, big, i128, plain, decode_big, skip_big, walk_big, into_walk_big, into_big_bytes),
	(4, text, String, plain, decode_text, skip_text, walk_text, into_walk_text, into_text_bytes),
	(5, maybe, Option<u16>, plain, decode_maybe, skip_maybe, walk_maybe, into_walk_maybe, into_maybe_bytes),
	(6, list, Vec<u64>, plain, decode_list, skip_list, walk_list, into_walk_list, into_list_bytes),
	(7, pair, (u8, String,), plain, decode_pair, skip_pair, walk_pair, into_walk_pair, into_pair_bytes),
	(8, both, Result<u32, String>, plain, decode_both, skip_both, walk_both, into_walk_both, into_both_bytes),
]);

#[revisioned(revision = 4)]
#[derive(Debug, Clone, PartialEq)]
pub struct Grow {
	pub id: u64,
	#[revision(start = 1)] pub name: String,
	#[revision(start = 2)] pub extra: Option<String>,
	#[revision(start = 3)] pub list: Vec<i32>,
	#[revision(start = 3, default_fn = "df_14")] pub score: i16,
	#[revision(start = 4, default_fn = "df_15")] pub tail: BTreeMap<String, u32>,
	pub last: u8,
}
impl Grow {
	fn df_14(rev: u16) -> Result<i16, Error> { cb(14)?; Ok(def_value(14, rev)) }
	fn df_15(rev: u16) -> Result<BTreeMap<String, u32>, Error> { cb(15)?; Ok(def_value(15, rev)) }
}
core_sim::sim_struct!(Grow, GrowWalker, 1, 3, [
	(0, id, u64, plain, decode_id, skip_id, walk_id, into_walk_id, into_id_bytes),
	(1, name, String, plain, decode_name, skip_name, walk_name, into_walk_name, into_name_bytes),
	(2, extra, Option<String>, plain, decode_extra, skip_extra, walk_extra, into_walk_extra, into_extra_bytes),
	(3, list, Vec<i32>, plain, decode_list, skip_list, walk_list, into_walk_list, into_list_bytes),
	(4, score, i16, plain, decode_score, skip_score, walk_score, into_walk_score, into_score_bytes),
	(5, tail, BTreeMap<String, u32>, plain, decode_tail, skip_tail, walk_tail, into_walk_tail, into_tail_bytes),
	(6, last, u8, plain, decode_last, skip_last, walk_last, into_walk_last, into_last_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision = 3)]
pub struct Shrink {
	pub acc: u64,
	#[revision(end = 2, convert_fn = "cv_18")] pub gone: String,
	pub kept: u32,
	#[revision(end = 3, convert_fn = "cv_20")] pub moved: Vec<String>,
	#[revision(start = 3)] pub home: Vec<String>,
	#[revision(start = 2, end = 3, convert_fn = "cv_22")] pub late: Option<i64>,
	pub tail: String,
}
impl Shrink {
	fn cv_18(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(18)?; self.acc = absorb(self.acc, digest(&<String as Sim>::schema(), &v.to_val()), rev, 18); Ok(()) }
	fn cv_20(&mut self, rev: u16, v: Vec<String>) -> Result<(), Error> { cb(20)?; let _ = rev; self.home = v; Ok(()) }
	fn cv_22(&mut self, rev: u16, v: Option<i64>) -> Result<(), Error> { cb(22)?; self.acc = absorb(self.acc, digest(&<Option<i64> as Sim>::schema(), &v.to_val()), rev, 22); Ok(()) }
}
core_sim::sim_struct!(Shrink, ShrinkWalker, 2, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, kept, u32, plain, decode_kept, skip_kept, walk_kept, into_walk_kept, into_kept_bytes),
	(2, home, Vec<String>, plain, decode_home, skip_home, walk_home, into_walk_home, into_home_bytes),
	(3, tail, String, plain, decode_tail, skip_tail, walk_tail, into_walk_tail, into_tail_bytes),
]);

#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4, optimised, indexed_struct))]
#[derive(Debug, Clone, PartialEq)]
pub struct Ladder {
	pub id: u32,
	pub name: String,
	#[revision(indexed_map)] pub map: BTreeMap<String, u64>,
	#[revision(indexed_seq)] pub tags: Vec<String>,
	#[revision(indexed_set)] pub ids: BTreeSet<u32>,
	#[revision(start = 2, default_fn = "df_29")] pub note: Option<String>,
	#[revision(start = 3)] pub more: Vec<u8>,
	#[revision(start = 4, default_fn = "df_31")] pub end: i64,
}
impl Ladder {
	fn df_29(rev: u16) -> Result<Option<String>, Error> { cb(29)?; Ok(def_value(29, rev)) }
	fn df_31(rev: u16) -> Result<i64, Error> { cb(31)?; Ok(def_value(31, rev)) }
}
core_sim::sim_struct!(Ladder, LadderWalker, 3, 3, [
	(0, id, u32, plain, decode_id, skip_id, walk_id, into_walk_id, into_id_bytes),
	(1, name, String, plain, decode_name, skip_name, walk_name, into_walk_name, into_name_bytes),
	(2, map, BTreeMap<String, u64>, map, decode_map, skip_map, walk_map, into_walk_map, into_map_bytes),
	(3, tags, Vec<String>, seq, decode_tags, skip_tags, walk_tags, into_walk_tags, into_tags_bytes),
	(4, ids, BTreeSet<u32>, set, decode_ids, skip_ids, walk_ids, into_walk_ids, into_ids_bytes),
	(5, note, Option<String>, plain, decode_note, skip_note, walk_note, into_walk_note, into_note_bytes),
	(6, more, Vec<u8>, plain, decode_more, skip_more, walk_more, into_walk_more, into_more_bytes),
	(7, end, i64, plain, decode_end, skip_end, walk_end, into_walk_end, into_end_bytes),
]);

#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone, PartialEq)]
pub struct Indexed {
	pub head: u64,
	#[revision(indexed_map)] pub attrs: HashMap<String, i64>,
	pub body: String,
	#[revision(indexed_seq)] pub seq: Vec<(u8, String,)>,
	#[revision(indexed_set)] pub set: HashSet<String>,
	#[revision(start = 2, indexed_map)] pub later: imbl::OrdMap<u32, String>,
	#[revision(start = 3)] pub opt: Option<Box<u32>>,
	#[revision(start = 3, indexed_set)] pub lateset: imbl::OrdSet<i32>,
}
core_sim::sim_struct!(Indexed, IndexedWalker, 4, 3, [
	(0, head, u64, plain, decode_head, skip_head, walk_head, into_walk_head, into_head_bytes),
	(1, attrs, HashMap<String, i64>, map, decode_attrs, skip_attrs, walk_attrs, into_walk_attrs, into_attrs_bytes),
	(2, body, String, plain, decode_body, skip_body, walk_body, into_walk_body, into_body_bytes),
	(3, seq, Vec<(u8, String,)>, seq, decode_seq, skip_seq, walk_seq, into_walk_seq, into_seq_bytes),
	(4, set, HashSet<String>, set, decode_set, skip_set, walk_set, into_walk_set, into_set_bytes),
	(5, later, imbl::OrdMap<u32, String>, map, decode_later, skip_later, walk_later, into_walk_later, into_later_bytes),
	(6, opt, Option<Box<u32>>, plain, decode_opt, skip_opt, walk_opt, into_walk_opt, into_opt_bytes),
	(7, lateset, imbl::OrdSet<i32>, set, decode_lateset, skip_lateset, walk_lateset, into_walk_lateset, into_lateset_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1, optimised), revision(2), revision(3, optimised, indexed_struct), revision(4, optimised))]
pub struct Zigzag {
	pub a: u16,
	#[revision(indexed_map)] pub m: BTreeMap<u64, String>,
	pub b: String,
	#[revision(start = 2, indexed_seq)] pub s: Vec<u32>,
	#[revision(start = 3)] pub c: Option<u8>,
	#[revision(start = 4)] pub d: [u8; 4],
}
core_sim::sim_struct!(Zigzag, ZigzagWalker, 5, 3, [
	(0, a, u16, plain, decode_a, skip_a, walk_a, into_walk_a, into_a_bytes),
	(1, m, BTreeMap<u64, String>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(2, b, String, plain, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes),
	(3, s, Vec<u32>, seq, decode_s, skip_s, walk_s, into_walk_s, into_s_bytes),
	(4, c, Option<u8>, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(5, d, [u8; 4], plain, decode_d, skip_d, walk_d, into_walk_d, into_d_bytes),
]);

#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(3, optimised, indexed_struct))]
#[derive(Debug, Clone, PartialEq)]
pub struct Cut {
	pub acc: u64,
	#[revision(end = 3, convert_fn = "cv_47", indexed_map)] pub m: BTreeMap<String, u32>,
	#[revision(end = 2, convert_fn = "cv_48")] pub plain: String,
	#[revision(indexed_map)] pub keep: imbl::HashMap<String, u8>,
	#[revision(end = 3, convert_fn = "cv_50", indexed_seq)] pub seq: Vec<String>,
	#[revision(end = 2, convert_fn = "cv_51", indexed_set)] pub set: BTreeSet<String>,
	pub name: String,
	#[revision(start = 2)] pub n: u32,
}
impl Cut {
	fn cv_47(&mut self, rev: u16, v: BTreeMap<String, u32>) -> Result<(), Error> { cb(47)?; self.acc = absorb(self.acc, digest(&<BTreeMap<String, u32> as Sim>::schema(), &v.to_val()), rev, 47); Ok(()) }
	fn cv_48(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(48)?; self.acc = absorb(self.acc, digest(&<String as Sim>::schema(), &v.to_val()), rev, 48); Ok(()) }
	fn cv_50(&mut self, rev: u16, v: Vec<String>) -> Result<(), Error> { cb(50)?; self.acc = absorb(self.acc, digest(&<Vec<String> as Sim>::schema(), &v.to_val()), rev, 50); Ok(()) }
	fn cv_51(&mut self, rev: u16, v: BTreeSet<String>) -> Result<(), Error> { cb(51)?; self.acc = absorb(self.acc, digest(&<BTreeSet<String> as Sim>::schema(), &v.to_val()), rev, 51); Ok(()) }
}
core_sim::sim_struct!(Cut, CutWalker, 6, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, keep, imbl::HashMap<String, u8>, map, decode_keep, skip_keep, walk_keep, into_walk_keep, into_keep_bytes),
	(2, name, String, plain, decode_name, skip_name, walk_name, into_walk_name, into_name_bytes),
	(3, n, u32, plain, decode_n, skip_n, walk_n, into_walk_n, into_n_bytes),
]);

#[revisioned(revision(3), revision(2, optimised), revision(1, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub struct CutOpt {
	pub acc: u64,
	#[revision(end = 2, convert_fn = "cv_55")] pub old: String,
	#[revision(end = 3, convert_fn = "cv_56", indexed_map)] pub m: HashMap<u8, String>,
	pub n: i32,
	#[revision(start = 2)] pub list: Vec<u16>,
}
impl CutOpt {
	fn cv_55(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(55)?; self.acc = absorb(self.acc, digest(&<String as Sim>::schema(), &v.to_val()), rev, 55); Ok(()) }
	fn cv_56(&mut self, rev: u16, v: HashMap<u8, String>) -> Result<(), Error> { cb(56)?; self.acc = absorb(self.acc, digest(&<HashMap<u8, String> as Sim>::schema(), &v.to_val()), rev, 56); Ok(()) }
}
core_sim::sim_struct!(CutOpt, CutOptWalker, 7, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, n, i32, plain, decode_n, skip_n, walk_n, into_walk_n, into_n_bytes),
	(2, list, Vec<u16>, plain, decode_list, skip_list, walk_list, into_walk_list, into_list_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4))]
pub struct CutMix {
	pub acc: u64,
	#[revision(end = 3, convert_fn = "cv_60")] pub a: String,
	#[revision(indexed_map)] pub m: BTreeMap<u16, u16>,
	#[revision(end = 2, convert_fn = "cv_62")] pub b: Option<u32>,
	pub c: String,
	#[revision(start = 3, end = 4, convert_fn = "cv_64")] pub d: Vec<u64>,
	#[revision(start = 4)] pub e: Vec<u64>,
}
impl CutMix {
	fn cv_60(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(60)?; self.acc = absorb(self.acc, digest(&<String as Sim>::schema(), &v.to_val()), rev, 60); Ok(()) }
	fn cv_62(&mut self, rev: u16, v: Option<u32>) -> Result<(), Error> { cb(62)?; self.acc = absorb(self.acc, digest(&<Option<u32> as Sim>::schema(), &v.to_val()), rev, 62); Ok(()) }
	fn cv_64(&mut self, rev: u16, v: Vec<u64>) -> Result<(), Error> { cb(64)?; let _ = rev; self.e = v; Ok(()) }
}
core_sim::sim_struct!(CutMix, CutMixWalker, 8, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, m, BTreeMap<u16, u16>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(2, c, String, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(3, e, Vec<u64>, plain, decode_e, skip_e, walk_e, into_walk_e, into_e_bytes),
]);

#[revisioned(revision = 3)]
#[derive(Debug, Clone, PartialEq)]
pub struct Forced {
	#[revision(fixed)] pub a: u32,
	#[revision(specialised)] pub b: Vec<u16>,
	#[revision(fixed)] pub c: i64,
	pub d: Vec<u16>,
	#[revision(start = 2, fixed)] pub e: u128,
	#[revision(start = 3, specialised)] pub f: Vec<f64>,
	#[revision(specialised)] pub g: Vec<bool>,
	#[revision(start = 3, fixed)] pub h: i128,
	#[revision(fixed)] pub i: u64,
	#[revision(fixed)] pub j: i32,
	pub k: String,
}
core_sim::sim_struct!(Forced, ForcedWalker, 9, 3, [
	(0, a, u32, plain, decode_a, skip_a, walk_a, into_walk_a, into_a_bytes),
	(1, b, Vec<u16>, plain, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes),
	(2, c, i64, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(3, d, Vec<u16>, plain, decode_d, skip_d, walk_d, into_walk_d, into_d_bytes),
	(4, e, u128, plain, decode_e, skip_e, walk_e, into_walk_e, into_e_bytes),
	(5, f, Vec<f64>, plain, decode_f, skip_f, walk_f, into_walk_f, into_f_bytes),
	(6, g, Vec<bool>, plain, decode_g, skip_g, walk_g, into_walk_g, into_g_bytes),
	(7, h, i128, plain, decode_h, skip_h, walk_h, into_walk_h, into_h_bytes),
	(8, i, u64, plain, decode_i, skip_i, walk_i, into_walk_i, into_i_bytes),
	(9, j, i32, plain, decode_j, skip_j, walk_j, into_walk_j, into_j_bytes),
	(10, k, String, plain, decode_k, skip_k, walk_k, into_walk_k, into_k_bytes),
]);

#[revisioned(revision = 2)]
#[derive(Debug, Clone, PartialEq)]
pub struct ForcedCut {
	#[revision(fixed)] pub acc: u64,
	#[revision(end = 2, convert_fn = "cv_78", specialised)] pub a: Vec<i8>,
	#[revision(end = 2, convert_fn = "cv_79", fixed)] pub b: u32,
	#[revision(specialised)] pub c: Vec<i32>,
	pub d: String,
}
impl ForcedCut {
	fn cv_78(&mut self, rev: u16, v: Vec<i8>) -> Result<(), Error> { cb(78)?; self.acc = absorb(self.acc, digest(&<Vec<i8> as Sim>::schema(), &v.to_val()), rev, 78); Ok(()) }
	fn cv_79(&mut self, rev: u16, v: u32) -> Result<(), Error> { cb(79)?; self.acc = absorb(self.acc, digest(&<u32 as Sim>::schema(), &v.to_val()), rev, 79); Ok(()) }
}
core_sim::sim_struct!(ForcedCut, ForcedCutWalker, 10, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, c, Vec<i32>, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(2, d, String, plain, decode_d, skip_d, walk_d, into_walk_d, into_d_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1), revision(2, optimised))]
pub struct Pair(pub u32, pub String);
core_sim::sim_struct!(Pair, PairWalker, 11, 3, [
	(0, 0, u32, plain, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
	(1, 1, String, plain, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
]);

#[revisioned(revision(1), revision(2, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub struct Unit;
core_sim::sim_struct!(Unit, UnitWalker, 12, 3, [

]);

#[revisioned(revision(2, optimised, indexed_struct), revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone, PartialEq)]
pub struct Wide {
	pub w0: u8,
	pub w1: String,
	pub w2: u32,
	pub w3: Option<u64>,
	pub w4: Vec<u8>,
	pub w5: i16,
	pub w6: char,
	pub w7: u8,
	pub w8: String,
	pub w9: u32,
	pub w10: Option<u64>,
	pub w11: Vec<u8>,
	pub w12: i16,
	pub w13: char,
	pub w14: u8,
	pub w15: String,
	pub w16: u32,
	#[revision(start = 2)] pub w17: String,
	#[revision(start = 2)] pub w18: u8,
}
core_sim::sim_struct!(Wide, WideWalker, 13, 3, [
	(0, w0, u8, plain, decode_w0, skip_w0, walk_w0, into_walk_w0, into_w0_bytes),
	(1, w1, String, plain, decode_w1, skip_w1, walk_w1, into_walk_w1, into_w1_bytes),
	(2, w2, u32, plain, decode_w2, skip_w2, walk_w2, into_walk_w2, into_w2_bytes),
	(3, w3, Option<u64>, plain, decode_w3, skip_w3, walk_w3, into_walk_w3, into_w3_bytes),
	(4, w4, Vec<u8>, plain, decode_w4, skip_w4, walk_w4, into_walk_w4, into_w4_bytes),
	(5, w5, i16, plain, decode_w5, skip_w5, walk_w5, into_walk_w5, into_w5_bytes),
	(6, w6, char, plain, decode_w6, skip_w6, walk_w6, into_walk_w6, into_w6_bytes),
	(7, w7, u8, plain, decode_w7, skip_w7, walk_w7, into_walk_w7, into_w7_bytes),
	(8, w8, String, plain, decode_w8, skip_w8, walk_w8, into_walk_w8, into_w8_bytes),
	(9, w9, u32, plain, decode_w9, skip_w9, walk_w9, into_walk_w9, into_w9_bytes),
	(10, w10, Option<u64>, plain, decode_w10, skip_w10, walk_w10, into_walk_w10, into_w10_bytes),
	(11, w11, Vec<u8>, plain, decode_w11, skip_w11, walk_w11, into_walk_w11, into_w11_bytes),
	(12, w12, i16, plain, decode_w12, skip_w12, walk_w12, into_walk_w12, into_w12_bytes),
	(13, w13, char, plain, decode_w13, skip_w13, walk_w13, into_walk_w13, into_w13_bytes),
	(14, w14, u8, plain, decode_w14, skip_w14, walk_w14, into_walk_w14, into_w14_bytes),
	(15, w15, String, plain, decode_w15, skip_w15, walk_w15, into_walk_w15, into_w15_bytes),
	(16, w16, u32, plain, decode_w16, skip_w16, walk_w16, into_walk_w16, into_w16_bytes),
	(17, w17, String, plain, decode_w17, skip_w17, walk_w17, into_walk_w17, into_w17_bytes),
	(18, w18, u8, plain, decode_w18, skip_w18, walk_w18, into_walk_w18, into_w18_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone)]
#[revision(revision(1), revision(2), revision(3, optimised, indexed_struct))]
pub struct Tree {
	pub v: u32,
	pub kids: Vec<Tree>,
	pub left: Option<Box<Tree>>,
	#[revision(start = 2)] pub label: String,
}
core_sim::sim_struct!(Tree, TreeWalker, 14, 3, [
	(0, v, u32, plain, decode_v, skip_v, walk_v, into_walk_v, into_v_bytes),
	(1, kids, Vec<Tree>, plain, decode_kids, skip_kids, walk_kids, into_walk_kids, into_kids_bytes),
	(2, left, Option<Box<Tree>>, plain, decode_left, skip_left, walk_left, into_walk_left, into_left_bytes),
	(3, label, String, plain, decode_label, skip_label, walk_label, into_walk_label, into_label_bytes),
]);

#[revisioned(revision = 1)]
#[derive(Debug, Clone, PartialEq)]
pub enum Color {
	Red,
	Green,
	Named(String),
	Rgb(u8, u8, u8),
	Hsl { h: f32, s: u16 },
	Nested(Option<Vec<u32>>),
	One { x: u64 },
}
core_sim::sim_enum!(Color, 15, 3, [
	(0, Red, is_red, unit (into_red, decode_red)),
	(1, Green, is_green, unit (into_green, decode_green)),
	(2, Named, is_named, single (String, into_named, decode_named, named_view, tuple)),
	(3, Rgb, is_rgb, multi (rgb_view, tuple, [(0, a0, u8), (1, a1, u8), (2, a2, u8)])),
	(4, Hsl, is_hsl, multi (hsl_view, named, [(0, h, f32), (1, s, u16)])),
	(5, Nested, is_nested, single (Option<Vec<u32>>, into_nested, decode_nested, nested_view, tuple)),
	(6, One, is_one, multi (one_view, named, [(0, x, u64)])),
]);

#[revisioned(revision = 4)]
#[derive(Debug, Clone, PartialEq)]
pub enum Event {
	Acc(u64),
	#[revision(end = 2, convert_fn = "cv_124")]
	Old(String, u32),
	Stay { x: i32 },
	#[revision(start = 2)]
	Fresh(Vec<String>),
	#[revision(start = 2, end = 4, convert_fn = "cv_131")]
	Brief,
	#[revision(end = 3, convert_fn = "cv_132", fields_name = "OldEventGoes")]
	Goes { k: String, n: u16 },
	#[revision(start = 3)]
	New,
	#[revision(start = 4)]
	Pay(Pair),
}
impl Event {
	fn cv_124(f: EventOldFields, rev: u16) -> Result<Self, Error> { cb(124)?; let mut acc = 124u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.0.to_val()), rev, 125); acc = absorb(acc, digest(&<u32 as Sim>::schema(), &f.1.to_val()), rev, 126); Ok(Event::Acc(absorb(acc, 0, rev, 124))) }
	fn cv_131(f: EventBriefFields, rev: u16) -> Result<Self, Error> { cb(131)?; let mut acc = 131u64; let _ = &f; let _ = &mut acc; Ok(Event::Acc(absorb(acc, 0, rev, 131))) }
	fn cv_132(f: OldEventGoes, rev: u16) -> Result<Self, Error> { cb(132)?; let mut acc = 132u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.k.to_val()), rev, 133); acc = absorb(acc, digest(&<u16 as Sim>::schema(), &f.n.to_val()), rev, 134); Ok(Event::Acc(absorb(acc, 0, rev, 132))) }
}
core_sim::sim_enum!(Event, 16, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(2, Stay, is_stay, multi (stay_view, named, [(0, x, i32)])),
	(3, Fresh, is_fresh, single (Vec<String>, into_fresh, decode_fresh, fresh_view, tuple)),
	(6, New, is_new, unit (into_new, decode_new)),
	(7, Pay, is_pay, single (Pair, into_pay, decode_pay, pay_view, tuple)),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision = 3)]
pub enum Parts {
	Acc(u64),
	Var(u64, #[revision(end = 2, convert_fn = "cv_142")] String, #[revision(start = 2)] u32),
	Rec { acc: u64, #[revision(end = 3, convert_fn = "cv_146")] gone: Vec<u8>, #[revision(start = 3, default_fn = "df_147")] neu: Option<String>, z: String },
	Lone(u64, #[revision(start = 2, end = 3, convert_fn = "cv_151")] String),
}
impl Parts {
	fn cv_142(s: &mut PartsVarFields, rev: u16, v: String) -> Result<(), Error> { cb(142)?; s.0 = absorb(s.0, digest(&<String as Sim>::schema(), &v.to_val()), rev, 142); Ok(()) }
	fn cv_146(s: &mut PartsRecFields, rev: u16, v: Vec<u8>) -> Result<(), Error> { cb(146)?; s.acc = absorb(s.acc, digest(&<Vec<u8> as Sim>::schema(), &v.to_val()), rev, 146); Ok(()) }
	fn df_147(rev: u16) -> Result<Option<String>, Error> { cb(147)?; Ok(def_value(147, rev)) }
	fn cv_151(s: &mut PartsLoneFields, rev: u16, v: String) -> Result<(), Error> { cb(151)?; s.0 = absorb(s.0, digest(&<String as Sim>::schema(), &v.to_val()), rev, 151); Ok(()) }
}
core_sim::sim_enum!(Parts, 17, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, Var, is_var, multi (var_view, tuple, [(0, a0, u64), (1, a1, u32)])),
	(2, Rec, is_rec, multi (rec_view, named, [(0, acc, u64), (1, neu, Option<String>), (2, z, String)])),
	(3, Lone, is_lone, single (u64, into_lone, decode_lone, lone_view, tuple)),
]);

#[revisioned(revision = 3)]
#[derive(Debug, Clone, PartialEq)]
pub enum Adds {
	First,
	Single(#[revision(start = 2)] String),
	Twice(u32, #[revision(start = 3, default_fn = "df_157")] u32),
	Rec { a: u8, #[revision(start = 2)] b: Vec<u32> },
	#[revision(start = 3)]
	Later(u64),
}
impl Adds {
	fn df_157(rev: u16) -> Result<u32, Error> { cb(157)?; Ok(def_value(157, rev)) }
}
core_sim::sim_enum!(Adds, 18, 3, [
	(0, First, is_first, unit (into_first, decode_first)),
	(1, Single, is_single, single (String, into_single, decode_single, single_view, tuple)),
	(2, Twice, is_twice, multi (twice_view, tuple, [(0, a0, u32), (1, a1, u32)])),
	(3, Rec, is_rec, multi (rec_view, named, [(0, a, u8), (1, b, Vec<u32>)])),
	(4, Later, is_later, single (u64, into_later, decode_later, later_view, tuple)),
]);

#[revisioned(revision = 3)]
#[derive(Debug, Clone, PartialEq)]
pub enum Disc {
	Acc(u64),
	#[revision(override(revision = 1, discriminant = 300))]
	Wide,
	#[revision(override(revision = 1, discriminant = 70000), override(revision = 2, discriminant = 251))]
	Huge(u8),
	#[revision(override(revision = 1, discriminant = 0), override(revision = 3, discriminant = 9))]
	Zero,
	#[revision(end = 3, convert_fn = "cv_169")]
	Gone(u16),
	#[revision(start = 2, override(revision = 2, discriminant = 4000000000))]
	Tail,
}
impl Disc {
	fn cv_169(f: DiscGoneFields, rev: u16) -> Result<Self, Error> { cb(169)?; let mut acc = 169u64; acc = absorb(acc, digest(&<u16 as Sim>::schema(), &f.0.to_val()), rev, 170); Ok(Disc::Acc(absorb(acc, 0, rev, 169))) }
}
core_sim::sim_enum!(Disc, 19, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, Wide, is_wide, unit (into_wide, decode_wide)),
	(2, Huge, is_huge, single (u8, into_huge, decode_huge, huge_view, tuple)),
	(3, Zero, is_zero, unit (into_zero, decode_zero)),
	(5, Tail, is_tail, unit (into_tail, decode_tail)),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
pub enum Packed {
	#[revision(size = "inline")]
	None,
	#[revision(size = "fixed(1)")]
	Byte(u8),
	#[revision(size = "fixed(4)")]
	Quad([u8; 4]),
	#[revision(size = "varlen")]
	Text(String),
	#[revision(size = "varlen")]
	Rec { a: u32, b: String },
	#[revision(size = "fixed(8)")]
	Floaty(f64),
	#[revision(start = 2, size = "varlen")]
	Late(Vec<u32>),
	#[revision(start = 3, size = "inline")]
	Mark,
	#[revision(start = 3, size = "fixed(2)")]
	Many(bool, u8),
}
core_sim::sim_enum!(Packed, 20, 3, [
	(0, None, is_none, unit (into_none, decode_none)),
	(1, Byte, is_byte, single (u8, into_byte, decode_byte, byte_view, tuple)),
	(2, Quad, is_quad, single ([u8; 4], into_quad, decode_quad, quad_view, tuple)),
	(3, Text, is_text, single (String, into_text, decode_text, text_view, tuple)),
	(4, Rec, is_rec, multi (rec_view, named, [(0, a, u32), (1, b, String)])),
	(5, Floaty, is_floaty, single (f64, into_floaty, decode_floaty, floaty_view, tuple)),
	(6, Late, is_late, single (Vec<u32>, into_late, decode_late, late_view, tuple)),
	(7, Mark, is_mark, unit (into_mark, decode_mark)),
	(8, Many, is_many, multi (many_view, tuple, [(0, a0, bool), (1, a1, u8)])),
]);

#[revisioned(revision(1), revision(2, optimised), revision(3), revision(4, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub enum Mixed {
	#[revision(size = "varlen")]
	Acc(u64),
	#[revision(end = 3, convert_fn = "cv_192", size = "varlen")]
	Old(String),
	#[revision(size = "inline")]
	Unit,
	#[revision(end = 2, convert_fn = "cv_195", size = "inline")]
	Gone,
	#[revision(size = "varlen")]
	Keep { k: String, v: Option<u32> },
	#[revision(start = 2, size = "fixed(2)")]
	Neu([u8; 2]),
	#[revision(start = 4, size = "varlen")]
	Sub(Indexed),
}
impl Mixed {
	fn cv_192(f: MixedOldFields, rev: u16) -> Result<Self, Error> { cb(192)?; let mut acc = 192u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.0.to_val()), rev, 193); Ok(Mixed::Acc(absorb(acc, 0, rev, 192))) }
	fn cv_195(f: MixedGoneFields, rev: u16) -> Result<Self, Error> { cb(195)?; let mut acc = 195u64; let _ = &f; let _ = &mut acc; Ok(Mixed::Acc(absorb(acc, 0, rev, 195))) }
}
core_sim::sim_enum!(Mixed, 21, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(2, Unit, is_unit, unit (into_unit, decode_unit)),
	(4, Keep, is_keep, multi (keep_view, named, [(0, k, String), (1, v, Option<u32>)])),
	(5, Neu, is_neu, single ([u8; 2], into_neu, decode_neu, neu_view, tuple)),
	(6, Sub, is_sub, single (Indexed, into_sub, decode_sub, sub_view, tuple)),
]);

#[revisioned(revision(3, optimised), revision(2, optimised), revision(1, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub enum OptDisc {
	#[revision(size = "inline", override(revision = 1, discriminant = 31), override(revision = 2, discriminant = 5))]
	A,
	#[revision(size = "varlen", override(revision = 1, discriminant = 7))]
	B(String),
	#[revision(size = "fixed(1)", override(revision = 2, discriminant = 30))]
	C(u8),
	#[revision(start = 2, size = "inline")]
	D,
	#[revision(start = 3, size = "varlen")]
	E(Vec<String>),
}
core_sim::sim_enum!(OptDisc, 22, 3, [
	(0, A, is_a, unit (into_a, decode_a)),
	(1, B, is_b, single (String, into_b, decode_b, b_view, tuple)),
	(2, C, is_c, single (u8, into_c, decode_c, c_view, tuple)),
	(3, D, is_d, unit (into_d, decode_d)),
	(4, E, is_e, single (Vec<String>, into_e, decode_e, e_view, tuple)),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1), revision(2, optimised))]
pub enum LegOpt {
	#[revision(size = "inline", override(revision = 1, discriminant = 29))]
	A,
	#[revision(size = "varlen", override(revision = 2, discriminant = 0))]
	B(u32),
	#[revision(size = "varlen")]
	C { s: String, t: String },
}
core_sim::sim_enum!(LegOpt, 23, 3, [
	(0, A, is_a, unit (into_a, decode_a)),
	(1, B, is_b, single (u32, into_b, decode_b, b_view, tuple)),
	(2, C, is_c, multi (c_view, named, [(0, s, String), (1, t, String)])),
]);

#[revisioned(revision(1), revision(2), revision(3, optimised), revision(4, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub enum AddsO {
	#[revision(size = "varlen")]
	Acc(u64),
	#[revision(size = "inline")]
	First,
	#[revision(size = "varlen")]
	Single(#[revision(start = 2)] String),
	#[revision(size = "varlen")]
	Twice(u32, #[revision(start = 2, default_fn = "df_224")] u32),
	#[revision(size = "varlen")]
	Rec { a: u8, #[revision(start = 2)] b: Vec<u32> },
	#[revision(start = 3, size = "varlen")]
	Later(u64),
	#[revision(end = 4, convert_fn = "cv_230", size = "varlen")]
	Pad(u16),
	#[revision(size = "inline")]
	Fin,
}
impl AddsO {
	fn df_224(rev: u16) -> Result<u32, Error> { cb(224)?; Ok(def_value(224, rev)) }
	fn cv_230(f: AddsOPadFields, rev: u16) -> Result<Self, Error> { cb(230)?; let mut acc = 230u64; acc = absorb(acc, digest(&<u16 as Sim>::schema(), &f.0.to_val()), rev, 231); Ok(AddsO::Acc(absorb(acc, 0, rev, 230))) }
}
core_sim::sim_enum!(AddsO, 24, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, First, is_first, unit (into_first, decode_first)),
	(2, Single, is_single, single (String, into_single, decode_single, single_view, tuple)),
	(3, Twice, is_twice, multi (twice_view, tuple, [(0, a0, u32), (1, a1, u32)])),
	(4, Rec, is_rec, multi (rec_view, named, [(0, a, u8), (1, b, Vec<u32>)])),
	(5, Later, is_later, single (u64, into_later, decode_later, later_view, tuple)),
	(7, Fin, is_fin, unit (into_fin, decode_fin)),
]);

#[revisioned(revision(4, optimised), revision(3, optimised), revision(2), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub enum CutsO {
	#[revision(size = "varlen")]
	Acc(u64),
	#[revision(end = 3, convert_fn = "cv_235", fields_name = "OldCutsOGone", size = "varlen")]
	Gone { a: String, b: u8 },
	#[revision(size = "varlen")]
	Lone(u64, #[revision(end = 2, convert_fn = "cv_240")] String),
	#[revision(size = "fixed(1)")]
	Bit(u8),
	#[revision(end = 4, convert_fn = "cv_243", size = "inline")]
	Off,
	#[revision(size = "varlen")]
	Rec { acc: u64, #[revision(end = 2, convert_fn = "cv_246")] x: BTreeMap<u8, String>, #[revision(start = 2)] y: String },
}
impl CutsO {
	fn cv_235(f: OldCutsOGone, rev: u16) -> Result<Self, Error> { cb(235)?; let mut acc = 235u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.a.to_val()), rev, 236); acc = absorb(acc, digest(&<u8 as Sim>::schema(), &f.b.to_val()), rev, 237); Ok(CutsO::Acc(absorb(acc, 0, rev, 235))) }
	fn cv_240(s: &mut CutsOLoneFields, rev: u16, v: String) -> Result<(), Error> { cb(240)?; s.0 = absorb(s.0, digest(&<String as Sim>::schema(), &v.to_val()), rev, 240); Ok(()) }
	fn cv_243(f: CutsOOffFields, rev: u16) -> Result<Self, Error> { cb(243)?; let mut acc = 243u64; let _ = &f; let _ = &mut acc; Ok(CutsO::Acc(absorb(acc, 0, rev, 243))) }
	fn cv_246(s: &mut CutsORecFields, rev: u16, v: BTreeMap<u8, String>) -> Result<(), Error> { cb(246)?; s.acc = absorb(s.acc, digest(&<BTreeMap<u8, String> as Sim>::schema(), &v.to_val()), rev, 246); Ok(()) }
}
core_sim::sim_enum!(CutsO, 25, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(2, Lone, is_lone, single (u64, into_lone, decode_lone, lone_view, tuple)),
	(3, Bit, is_bit, single (u8, into_bit, decode_bit, bit_view, tuple)),
	(5, Rec, is_rec, multi (rec_view, named, [(0, acc, u64), (1, y, String)])),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision = 3)]
pub enum ForcedE {
	Acc(#[revision(fixed)] u64),
	Vals(#[revision(specialised)] Vec<u16>),
	Neg(#[revision(fixed)] i128),
	Rec { #[revision(fixed)] acc: u64, #[revision(specialised)] b: Vec<bool>, c: String, #[revision(end = 3, convert_fn = "cv_258", specialised)] d: Vec<f32> },
	#[revision(end = 2, convert_fn = "cv_259")]
	Gone(#[revision(fixed)] i32, #[revision(specialised)] Vec<u64>),
	#[revision(start = 2)]
	Late(#[revision(start = 3, fixed)] u32),
}
impl ForcedE {
	fn cv_258(s: &mut ForcedERecFields, rev: u16, v: Vec<f32>) -> Result<(), Error> { cb(258)?; s.acc = absorb(s.acc, digest(&<Vec<f32> as Sim>::schema(), &v.to_val()), rev, 258); Ok(()) }
	fn cv_259(f: ForcedEGoneFields, rev: u16) -> Result<Self, Error> { cb(259)?; let mut acc = 259u64; acc = absorb(acc, digest(&<i32 as Sim>::schema(), &f.0.to_val()), rev, 260); acc = absorb(acc, digest(&<Vec<u64> as Sim>::schema(), &f.1.to_val()), rev, 261); Ok(ForcedE::Acc(absorb(acc, 0, rev, 259))) }
}
core_sim::sim_enum!(ForcedE, 26, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, Vals, is_vals, single (Vec<u16>, into_vals, decode_vals, vals_view, tuple)),
	(2, Neg, is_neg, single (i128, into_neg, decode_neg, neg_view, tuple)),
	(3, Rec, is_rec, multi (rec_view, named, [(0, acc, u64), (1, b, Vec<bool>), (2, c, String)])),
	(5, Late, is_late, single (u32, into_late, decode_late, late_view, tuple)),
]);

#[revisioned(revision(1), revision(2), revision(3, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub enum ForcedA {
	#[revision(size = "varlen")]
	Num(#[revision(fixed)] u32),
	#[revision(size = "varlen")]
	Vals(#[revision(specialised)] Vec<i16>),
	#[revision(size = "varlen")]
	Two(#[revision(fixed)] u64, String),
	#[revision(size = "varlen")]
	Late(#[revision(start = 2, fixed)] i64),
}
core_sim::sim_enum!(ForcedA, 27, 3, [
	(0, Num, is_num, single (u32, into_num, decode_num, num_view, tuple)),
	(1, Vals, is_vals, single (Vec<i16>, into_vals, decode_vals, vals_view, tuple)),
	(2, Two, is_two, multi (two_view, tuple, [(0, a0, u64), (1, a1, String)])),
	(3, Late, is_late, single (i64, into_late, decode_late, late_view, tuple)),
]);

#[revisioned(revision(4), revision(3, optimised, indexed_struct), revision(2, optimised), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub struct ForcedMix {
	#[revision(fixed)] pub a: u32,
	#[revision(specialised)] pub b: Vec<u32>,
	#[revision(indexed_map)] pub m: BTreeMap<String, u16>,
	#[revision(start = 2, fixed)] pub c: i64,
	#[revision(start = 2, indexed_seq)] pub s: Vec<String>,
	#[revision(start = 3, specialised)] pub d: Vec<bool>,
	#[revision(start = 3, indexed_set)] pub t: BTreeSet<u8>,
	#[revision(start = 4, default_fn = "df_280")] pub z: String,
}
impl ForcedMix {
	fn df_280(rev: u16) -> Result<String, Error> { cb(280)?; Ok(def_value(280, rev)) }
}
core_sim::sim_struct!(ForcedMix, ForcedMixWalker, 28, 3, [
	(0, a, u32, plain, decode_a, skip_a, walk_a, into_walk_a, into_a_bytes),
	(1, b, Vec<u32>, plain, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes),
	(2, m, BTreeMap<String, u16>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(3, c, i64, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(4, s, Vec<String>, seq, decode_s, skip_s, walk_s, into_walk_s, into_s_bytes),
	(5, d, Vec<bool>, plain, decode_d, skip_d, walk_d, into_walk_d, into_d_bytes),
	(6, t, BTreeSet<u8>, set, decode_t, skip_t, walk_t, into_walk_t, into_t_bytes),
	(7, z, String, plain, decode_z, skip_z, walk_z, into_walk_z, into_z_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct PairX(pub u64, #[revision(end = 3, convert_fn = "cv_282")] pub String, #[revision(start = 2, indexed_map)] pub BTreeMap<u32, String>, pub Vec<u8>);
impl PairX {
	fn cv_282(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(282)?; self.0 = absorb(self.0, digest(&<String as Sim>::schema(), &v.to_val()), rev, 282); Ok(()) }
}
core_sim::sim_struct!(PairX, PairXWalker, 29, 3, [
	(0, 0, u64, plain, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
	(1, 1, BTreeMap<u32, String>, map, decode_field_1, skip_field_1, walk_field_1, into_walk_field_1, into_field_1_bytes),
	(2, 2, Vec<u8>, plain, decode_field_2, skip_field_2, walk_field_2, into_walk_field_2, into_field_2_bytes),
]);

#[revisioned(revision = 300)]
#[derive(Debug, Clone, PartialEq)]
pub struct Aged {
	pub acc: u64,
	#[revision(end = 251, convert_fn = "cv_286")] pub a: String,
	#[revision(start = 250)] pub b: Option<u32>,
	#[revision(start = 251, default_fn = "df_288")] pub c: Vec<u8>,
	#[revision(end = 300, convert_fn = "cv_289")] pub d: u16,
	pub z: String,
}
impl Aged {
	fn cv_286(&mut self, rev: u16, v: String) -> Result<(), Error> { cb(286)?; self.acc = absorb(self.acc, digest(&<String as Sim>::schema(), &v.to_val()), rev, 286); Ok(()) }
	fn df_288(rev: u16) -> Result<Vec<u8>, Error> { cb(288)?; Ok(def_value(288, rev)) }
	fn cv_289(&mut self, rev: u16, v: u16) -> Result<(), Error> { cb(289)?; self.acc = absorb(self.acc, digest(&<u16 as Sim>::schema(), &v.to_val()), rev, 289); Ok(()) }
}
core_sim::sim_struct!(Aged, AgedWalker, 30, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, b, Option<u32>, plain, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes),
	(2, c, Vec<u8>, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
	(3, z, String, plain, decode_z, skip_z, walk_z, into_walk_z, into_z_bytes),
]);

#[revisioned(revision(252, optimised, indexed_struct), revision(251, optimised), revision(250), revision(249), revision(248), revision(247), revision(246), revision(245), revision(244), revision(243), revision(242), revision(241), revision(240), revision(239), revision(238), revision(237), revision(236), revision(235), revision(234), revision(233), revision(232), revision(231), revision(230), revision(229), revision(228), revision(227), revision(226), revision(225), revision(224), revision(223), revision(222), revision(221), revision(220), revision(219), revision(218), revision(217), revision(216), revision(215), revision(214), revision(213), revision(212), revision(211), revision(210), revision(209), revision(208), revision(207), revision(206), revision(205), revision(204), revision(203), revision(202), revision(201), revision(200), revision(199), revision(198), revision(197), revision(196), revision(195), revision(194), revision(193), revision(192), revision(191), revision(190), revision(189), revision(188), revision(187), revision(186), revision(185), revision(184), revision(183), revision(182), revision(181), revision(180), revision(179), revision(178), revision(177), revision(176), revision(175), revision(174), revision(173), revision(172), revision(171), revision(170), revision(169), revision(168), revision(167), revision(166), revision(165), revision(164), revision(163), revision(162), revision(161), revision(160), revision(159), revision(158), revision(157), revision(156), revision(155), revision(154), revision(153), revision(152), revision(151), revision(150), revision(149), revision(148), revision(147), revision(146), revision(145), revision(144), revision(143), revision(142), revision(141), revision(140), revision(139), revision(138), revision(137), revision(136), revision(135), revision(134), revision(133), revision(132), revision(131), revision(130), revision(129), revision(128), revision(127), revision(126), revision(125), revision(124), revision(123), revision(122), revision(121), revision(120), revision(119), revision(118), revision(117), revision(116), revision(115), revision(114), revision(113), revision(112), revision(111), revision(110), revision(109), revision(108), revision(107), revision(106), revision(105), revision(104), revision(103), revision(102), revision(101), revision(100), revision(99), revision(98), revision(97), revision(96), revision(95), revision(94), revision(93), revision(92), revision(91), revision(90), revision(89), revision(88), revision(87), revision(86), revision(85), revision(84), revision(83), revision(82), revision(81), revision(80), revision(79), revision(78), revision(77), revision(76), revision(75), revision(74), revision(73), revision(72), revision(71), revision(70), revision(69), revision(68), revision(67), revision(66), revision(65), revision(64), revision(63), revision(62), revision(61), revision(60), revision(59), revision(58), revision(57), revision(56), revision(55), revision(54), revision(53), revision(52), revision(51), revision(50), revision(49), revision(48), revision(47), revision(46), revision(45), revision(44), revision(43), revision(42), revision(41), revision(40), revision(39), revision(38), revision(37), revision(36), revision(35), revision(34), revision(33), revision(32), revision(31), revision(30), revision(29), revision(28), revision(27), revision(26), revision(25), revision(24), revision(23), revision(22), revision(21), revision(20), revision(19), revision(18), revision(17), revision(16), revision(15), revision(14), revision(13), revision(12), revision(11), revision(10), revision(9), revision(8), revision(7), revision(6), revision(5), revision(4), revision(3), revision(2), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub struct AgedX {
	pub acc: u64,
	#[revision(indexed_map)] pub m: BTreeMap<u8, String>,
	#[revision(end = 251, convert_fn = "cv_293")] pub a: Vec<u32>,
	#[revision(start = 251)] pub b: String,
	#[revision(start = 252)] pub c: Option<i64>,
}
impl AgedX {
	fn cv_293(&mut self, rev: u16, v: Vec<u32>) -> Result<(), Error> { cb(293)?; self.acc = absorb(self.acc, digest(&<Vec<u32> as Sim>::schema(), &v.to_val()), rev, 293); Ok(()) }
}
core_sim::sim_struct!(AgedX, AgedXWalker, 31, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, m, BTreeMap<u8, String>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(2, b, String, plain, decode_b, skip_b, walk_b, into_walk_b, into_b_bytes),
	(3, c, Option<i64>, plain, decode_c, skip_c, walk_c, into_walk_c, into_c_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision = 3)]
pub enum Crowd {
	Acc(u64),
	C0,
	C1,
	C2(u8),
	C3,
	C4 { f0: String, f1: u32 },
	C5,
	C6(Vec<u16>, bool),
	C7,
	C8,
	C9(u8),
	C10,
	C11 { f0: String, f1: u32 },
	C12,
	C13(Vec<u16>, bool),
	C14,
	C15,
	C16(u8),
	C17,
	C18 { f0: String, f1: u32 },
	C19,
	C20(Vec<u16>, bool),
	C21,
	C22,
	C23(u8),
	C24,
	C25 { f0: String, f1: u32 },
	C26,
	C27(Vec<u16>, bool),
	C28,
	C29,
	C30(u8),
	C31,
	C32 { f0: String, f1: u32 },
	C33,
	C34(Vec<u16>, bool),
	C35,
	C36,
	C37(u8),
	C38,
	C39 { f0: String, f1: u32 },
	C40,
	C41(Vec<u16>, bool),
	C42,
	C43,
	C44(u8),
	C45,
	C46 { f0: String, f1: u32 },
	C47,
	C48(Vec<u16>, bool),
	C49,
	C50,
	C51(u8),
	C52,
	C53 { f0: String, f1: u32 },
	C54,
	C55(Vec<u16>, bool),
	C56,
	C57,
	C58(u8),
	C59,
	C60 { f0: String, f1: u32 },
	C61,
	C62(Vec<u16>, bool),
	C63,
	C64,
	C65(u8),
	C66,
	C67 { f0: String, f1: u32 },
	C68,
	C69(Vec<u16>, bool),
	C70,
	C71,
	C72(u8),
	C73,
	C74 { f0: String, f1: u32 },
	C75,
	C76(Vec<u16>, bool),
	#[revision(start = 2)]
	C77,
	C78,
	C79(u8),
	C80,
	C81 { f0: String, f1: u32 },
	C82,
	C83(Vec<u16>, bool),
	C84,
	C85,
	C86(u8),
	C87,
	C88 { f0: String, f1: u32 },
	C89,
	C90(Vec<u16>, bool),
	C91,
	C92,
	C93(u8),
	C94,
	C95 { f0: String, f1: u32 },
	C96,
	C97(Vec<u16>, bool),
	C98,
	C99,
	C100(u8),
	C101,
	C102 { f0: String, f1: u32 },
	C103,
	C104(Vec<u16>, bool),
	C105,
	C106,
	C107(u8),
	C108,
	C109 { f0: String, f1: u32 },
	C110,
	C111(Vec<u16>, bool),
	C112,
	C113,
	C114(u8),
	C115,
	C116 { f0: String, f1: u32 },
	C117,
	C118(Vec<u16>, bool),
	C119,
	C120,
	C121(u8),
	C122,
	C123 { f0: String, f1: u32 },
	C124,
	C125(Vec<u16>, bool),
	C126,
	C127,
	C128(u8),
	C129,
	C130 { f0: String, f1: u32 },
	C131,
	C132(Vec<u16>, bool),
	C133,
	C134,
	C135(u8),
	C136,
	C137 { f0: String, f1: u32 },
	C138,
	C139(Vec<u16>, bool),
	C140,
	C141,
	C142(u8),
	C143,
	C144 { f0: String, f1: u32 },
	C145,
	C146(Vec<u16>, bool),
	C147,
	C148,
	C149(u8),
	C150,
	C151 { f0: String, f1: u32 },
	C152,
	C153(Vec<u16>, bool),
	C154,
	C155,
	C156(u8),
	C157,
	C158 { f0: String, f1: u32 },
	C159,
	#[revision(end = 3, convert_fn = "cv_571")]
	C160(Vec<u16>, bool),
	C161,
	C162,
	C163(u8),
	C164,
	C165 { f0: String, f1: u32 },
	C166,
	C167(Vec<u16>, bool),
	C168,
	C169,
	C170(u8),
	C171,
	C172 { f0: String, f1: u32 },
	C173,
	C174(Vec<u16>, bool),
	C175,
	C176,
	C177(u8),
	C178,
	C179 { f0: String, f1: u32 },
	C180,
	C181(Vec<u16>, bool),
	C182,
	C183,
	C184(u8),
	C185,
	C186 { f0: String, f1: u32 },
	C187,
	C188(Vec<u16>, bool),
	C189,
	C190,
	C191(u8),
	C192,
	C193 { f0: String, f1: u32 },
	C194,
	C195(Vec<u16>, bool),
	C196,
	C197,
	C198(u8),
	C199,
	C200 { f0: String, f1: u32 },
	C201,
	C202(Vec<u16>, bool),
	C203,
	C204,
	C205(u8),
	C206,
	C207 { f0: String, f1: u32 },
	C208,
	C209(Vec<u16>, bool),
	C210,
	C211,
	C212(u8),
	C213,
	C214 { f0: String, f1: u32 },
	C215,
	C216(Vec<u16>, bool),
	C217,
	C218,
	C219(u8),
	C220,
	C221 { f0: String, f1: u32 },
	C222,
	C223(Vec<u16>, bool),
	C224,
	C225,
	C226(u8),
	C227,
	C228 { f0: String, f1: u32 },
	C229,
	C230(Vec<u16>, bool),
	C231,
	C232,
	C233(u8),
	C234,
	C235 { f0: String, f1: u32 },
	C236,
	C237(Vec<u16>, bool),
	C238,
	C239,
	C240(u8),
	C241,
	C242 { f0: String, f1: u32 },
	C243,
	C244(Vec<u16>, bool),
	C245,
	C246,
	C247(u8),
	C248,
	C249 { f0: String, f1: u32 },
	C250,
	C251(Vec<u16>, bool),
	C252,
	C253,
	C254(u8),
	C255,
	C256 { f0: String, f1: u32 },
	C257,
}
impl Crowd {
	fn cv_571(f: CrowdC160Fields, rev: u16) -> Result<Self, Error> { cb(571)?; let mut acc = 571u64; acc = absorb(acc, digest(&<Vec<u16> as Sim>::schema(), &f.0.to_val()), rev, 572); acc = absorb(acc, digest(&<bool as Sim>::schema(), &f.1.to_val()), rev, 573); Ok(Crowd::Acc(absorb(acc, 0, rev, 571))) }
}
core_sim::sim_enum!(Crowd, 32, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, C0, is_c0, unit (into_c0, decode_c0)),
	(2, C1, is_c1, unit (into_c1, decode_c1)),
	(3, C2, is_c2, single (u8, into_c2, decode_c2, c2_view, tuple)),
	(4, C3, is_c3, unit (into_c3, decode_c3)),
	(5, C4, is_c4, multi (c4_view, named, [(0, f0, String), (1, f1, u32)])),
	(6, C5, is_c5, unit (into_c5, decode_c5)),
	(7, C6, is_c6, multi (c6_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(8, C7, is_c7, unit (into_c7, decode_c7)),
	(9, C8, is_c8, unit (into_c8, decode_c8)),
	(10, C9, is_c9, single (u8, into_c9, decode_c9, c9_view, tuple)),
	(11, C10, is_c10, unit (into_c10, decode_c10)),
	(12, C11, is_c11, multi (c11_view, named, [(0, f0, String), (1, f1, u32)])),
	(13, C12, is_c12, unit (into_c12, decode_c12)),
	(14, C13, is_c13, multi (c13_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(15, C14, is_c14, unit (into_c14, decode_c14)),
	(16, C15, is_c15, unit (into_c15, decode_c15)),
	(17, C16, is_c16, single (u8, into_c16, decode_c16, c16_view, tuple)),
	(18, C17, is_c17, unit (into_c17, decode_c17)),
	(19, C18, is_c18, multi (c18_view, named, [(0, f0, String), (1, f1, u32)])),
	(20, C19, is_c19, unit (into_c19, decode_c19)),
	(21, C20, is_c20, multi (c20_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(22, C21, is_c21, unit (into_c21, decode_c21)),
	(23, C22, is_c22, unit (into_c22, decode_c22)),
	(24, C23, is_c23, single (u8, into_c23, decode_c23, c23_view, tuple)),
	(25, C24, is_c24, unit (into_c24, decode_c24)),
	(26, C25, is_c25, multi (c25_view, named, [(0, f0, String), (1, f1, u32)])),
	(27, C26, is_c26, unit (into_c26, decode_c26)),
	(28, C27, is_c27, multi (c27_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(29, C28, is_c28, unit (into_c28, decode_c28)),
	(30, C29, is_c29, unit (into_c29, decode_c29)),
	(31, C30, is_c30, single (u8, into_c30, decode_c30, c30_view, tuple)),
	(32, C31, is_c31, unit (into_c31, decode_c31)),
	(33, C32, is_c32, multi (c32_view, named, [(0, f0, String), (1, f1, u32)])),
	(34, C33, is_c33, unit (into_c33, decode_c33)),
	(35, C34, is_c34, multi (c34_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(36, C35, is_c35, unit (into_c35, decode_c35)),
	(37, C36, is_c36, unit (into_c36, decode_c36)),
	(38, C37, is_c37, single (u8, into_c37, decode_c37, c37_view, tuple)),
	(39, C38, is_c38, unit (into_c38, decode_c38)),
	(40, C39, is_c39, multi (c39_view, named, [(0, f0, String), (1, f1, u32)])),
	(41, C40, is_c40, unit (into_c40, decode_c40)),
	(42, C41, is_c41, multi (c41_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(43, C42, is_c42, unit (into_c42, decode_c42)),
	(44, C43, is_c43, unit (into_c43, decode_c43)),
	(45, C44, is_c44, single (u8, into_c44, decode_c44, c44_view, tuple)),
	(46, C45, is_c45, unit (into_c45, decode_c45)),
	(47, C46, is_c46, multi (c46_view, named, [(0, f0, String), (1, f1, u32)])),
	(48, C47, is_c47, unit (into_c47, decode_c47)),
	(49, C48, is_c48, multi (c48_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(50, C49, is_c49, unit (into_c49, decode_c49)),
	(51, C50, is_c50, unit (into_c50, decode_c50)),
	(52, C51, is_c51, single (u8, into_c51, decode_c51, c51_view, tuple)),
	(53, C52, is_c52, unit (into_c52, decode_c52)),
	(54, C53, is_c53, multi (c53_view, named, [(0, f0, String), (1, f1, u32)])),
	(55, C54, is_c54, unit (into_c54, decode_c54)),
	(56, C55, is_c55, multi (c55_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(57, C56, is_c56, unit (into_c56, decode_c56)),
	(58, C57, is_c57, unit (into_c57, decode_c57)),
	(59, C58, is_c58, single (u8, into_c58, decode_c58, c58_view, tuple)),
	(60, C59, is_c59, unit (into_c59, decode_c59)),
	(61, C60, is_c60, multi (c60_view, named, [(0, f0, String), (1, f1, u32)])),
	(62, C61, is_c61, unit (into_c61, decode_c61)),
	(63, C62, is_c62, multi (c62_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(64, C63, is_c63, unit (into_c63, decode_c63)),
	(65, C64, is_c64, unit (into_c64, decode_c64)),
	(66, C65, is_c65, single (u8, into_c65, decode_c65, c65_view, tuple)),
	(67, C66, is_c66, unit (into_c66, decode_c66)),
	(68, C67, is_c67, multi (c67_view, named, [(0, f0, String), (1, f1, u32)])),
	(69, C68, is_c68, unit (into_c68, decode_c68)),
	(70, C69, is_c69, multi (c69_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(71, C70, is_c70, unit (into_c70, decode_c70)),
	(72, C71, is_c71, unit (into_c71, decode_c71)),
	(73, C72, is_c72, single (u8, into_c72, decode_c72, c72_view, tuple)),
	(74, C73, is_c73, unit (into_c73, decode_c73)),
	(75, C74, is_c74, multi (c74_view, named, [(0, f0, String), (1, f1, u32)])),
	(76, C75, is_c75, unit (into_c75, decode_c75)),
	(77, C76, is_c76, multi (c76_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(78, C77, is_c77, unit (into_c77, decode_c77)),
	(79, C78, is_c78, unit (into_c78, decode_c78)),
	(80, C79, is_c79, single (u8, into_c79, decode_c79, c79_view, tuple)),
	(81, C80, is_c80, unit (into_c80, decode_c80)),
	(82, C81, is_c81, multi (c81_view, named, [(0, f0, String), (1, f1, u32)])),
	(83, C82, is_c82, unit (into_c82, decode_c82)),
	(84, C83, is_c83, multi (c83_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(85, C84, is_c84, unit (into_c84, decode_c84)),
	(86, C85, is_c85, unit (into_c85, decode_c85)),
	(87, C86, is_c86, single (u8, into_c86, decode_c86, c86_view, tuple)),
	(88, C87, is_c87, unit (into_c87, decode_c87)),
	(89, C88, is_c88, multi (c88_view, named, [(0, f0, String), (1, f1, u32)])),
	(90, C89, is_c89, unit (into_c89, decode_c89)),
	(91, C90, is_c90, multi (c90_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(92, C91, is_c91, unit (into_c91, decode_c91)),
	(93, C92, is_c92, unit (into_c92, decode_c92)),
	(94, C93, is_c93, single (u8, into_c93, decode_c93, c93_view, tuple)),
	(95, C94, is_c94, unit (into_c94, decode_c94)),
	(96, C95, is_c95, multi (c95_view, named, [(0, f0, String), (1, f1, u32)])),
	(97, C96, is_c96, unit (into_c96, decode_c96)),
	(98, C97, is_c97, multi (c97_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(99, C98, is_c98, unit (into_c98, decode_c98)),
	(100, C99, is_c99, unit (into_c99, decode_c99)),
	(101, C100, is_c100, single (u8, into_c100, decode_c100, c100_view, tuple)),
	(102, C101, is_c101, unit (into_c101, decode_c101)),
	(103, C102, is_c102, multi (c102_view, named, [(0, f0, String), (1, f1, u32)])),
	(104, C103, is_c103, unit (into_c103, decode_c103)),
	(105, C104, is_c104, multi (c104_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(106, C105, is_c105, unit (into_c105, decode_c105)),
	(107, C106, is_c106, unit (into_c106, decode_c106)),
	(108, C107, is_c107, single (u8, into_c107, decode_c107, c107_view, tuple)),
	(109, C108, is_c108, unit (into_c108, decode_c108)),
	(110, C109, is_c109, multi (c109_view, named, [(0, f0, String), (1, f1, u32)])),
	(111, C110, is_c110, unit (into_c110, decode_c110)),
	(112, C111, is_c111, multi (c111_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(113, C112, is_c112, unit (into_c112, decode_c112)),
	(114, C113, is_c113, unit (into_c113, decode_c113)),
	(115, C114, is_c114, single (u8, into_c114, decode_c114, c114_view, tuple)),
	(116, C115, is_c115, unit (into_c115, decode_c115)),
	(117, C116, is_c116, multi (c116_view, named, [(0, f0, String), (1, f1, u32)])),
	(118, C117, is_c117, unit (into_c117, decode_c117)),
	(119, C118, is_c118, multi (c118_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(120, C119, is_c119, unit (into_c119, decode_c119)),
	(121, C120, is_c120, unit (into_c120, decode_c120)),
	(122, C121, is_c121, single (u8, into_c121, decode_c121, c121_view, tuple)),
	(123, C122, is_c122, unit (into_c122, decode_c122)),
	(124, C123, is_c123, multi (c123_view, named, [(0, f0, String), (1, f1, u32)])),
	(125, C124, is_c124, unit (into_c124, decode_c124)),
	(126, C125, is_c125, multi (c125_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(127, C126, is_c126, unit (into_c126, decode_c126)),
	(128, C127, is_c127, unit (into_c127, decode_c127)),
	(129, C128, is_c128, single (u8, into_c128, decode_c128, c128_view, tuple)),
	(130, C129, is_c129, unit (into_c129, decode_c129)),
	(131, C130, is_c130, multi (c130_view, named, [(0, f0, String), (1, f1, u32)])),
	(132, C131, is_c131, unit (into_c131, decode_c131)),
	(133, C132, is_c132, multi (c132_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(134, C133, is_c133, unit (into_c133, decode_c133)),
	(135, C134, is_c134, unit (into_c134, decode_c134)),
	(136, C135, is_c135, single (u8, into_c135, decode_c135, c135_view, tuple)),
	(137, C136, is_c136, unit (into_c136, decode_c136)),
	(138, C137, is_c137, multi (c137_view, named, [(0, f0, String), (1, f1, u32)])),
	(139, C138, is_c138, unit (into_c138, decode_c138)),
	(140, C139, is_c139, multi (c139_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(141, C140, is_c140, unit (into_c140, decode_c140)),
	(142, C141, is_c141, unit (into_c141, decode_c141)),
	(143, C142, is_c142, single (u8, into_c142, decode_c142, c142_view, tuple)),
	(144, C143, is_c143, unit (into_c143, decode_c143)),
	(145, C144, is_c144, multi (c144_view, named, [(0, f0, String), (1, f1, u32)])),
	(146, C145, is_c145, unit (into_c145, decode_c145)),
	(147, C146, is_c146, multi (c146_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(148, C147, is_c147, unit (into_c147, decode_c147)),
	(149, C148, is_c148, unit (into_c148, decode_c148)),
	(150, C149, is_c149, single (u8, into_c149, decode_c149, c149_view, tuple)),
	(151, C150, is_c150, unit (into_c150, decode_c150)),
	(152, C151, is_c151, multi (c151_view, named, [(0, f0, String), (1, f1, u32)])),
	(153, C152, is_c152, unit (into_c152, decode_c152)),
	(154, C153, is_c153, multi (c153_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(155, C154, is_c154, unit (into_c154, decode_c154)),
	(156, C155, is_c155, unit (into_c155, decode_c155)),
	(157, C156, is_c156, single (u8, into_c156, decode_c156, c156_view, tuple)),
	(158, C157, is_c157, unit (into_c157, decode_c157)),
	(159, C158, is_c158, multi (c158_view, named, [(0, f0, String), (1, f1, u32)])),
	(160, C159, is_c159, unit (into_c159, decode_c159)),
	(162, C161, is_c161, unit (into_c161, decode_c161)),
	(163, C162, is_c162, unit (into_c162, decode_c162)),
	(164, C163, is_c163, single (u8, into_c163, decode_c163, c163_view, tuple)),
	(165, C164, is_c164, unit (into_c164, decode_c164)),
	(166, C165, is_c165, multi (c165_view, named, [(0, f0, String), (1, f1, u32)])),
	(167, C166, is_c166, unit (into_c166, decode_c166)),
	(168, C167, is_c167, multi (c167_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(169, C168, is_c168, unit (into_c168, decode_c168)),
	(170, C169, is_c169, unit (into_c169, decode_c169)),
	(171, C170, is_c170, single (u8, into_c170, decode_c170, c170_view, tuple)),
	(172, C171, is_c171, unit (into_c171, decode_c171)),
	(173, C172, is_c172, multi (c172_view, named, [(0, f0, String), (1, f1, u32)])),
	(174, C173, is_c173, unit (into_c173, decode_c173)),
	(175, C174, is_c174, multi (c174_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(176, C175, is_c175, unit (into_c175, decode_c175)),
	(177, C176, is_c176, unit (into_c176, decode_c176)),
	(178, C177, is_c177, single (u8, into_c177, decode_c177, c177_view, tuple)),
	(179, C178, is_c178, unit (into_c178, decode_c178)),
	(180, C179, is_c179, multi (c179_view, named, [(0, f0, String), (1, f1, u32)])),
	(181, C180, is_c180, unit (into_c180, decode_c180)),
	(182, C181, is_c181, multi (c181_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(183, C182, is_c182, unit (into_c182, decode_c182)),
	(184, C183, is_c183, unit (into_c183, decode_c183)),
	(185, C184, is_c184, single (u8, into_c184, decode_c184, c184_view, tuple)),
	(186, C185, is_c185, unit (into_c185, decode_c185)),
	(187, C186, is_c186, multi (c186_view, named, [(0, f0, String), (1, f1, u32)])),
	(188, C187, is_c187, unit (into_c187, decode_c187)),
	(189, C188, is_c188, multi (c188_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(190, C189, is_c189, unit (into_c189, decode_c189)),
	(191, C190, is_c190, unit (into_c190, decode_c190)),
	(192, C191, is_c191, single (u8, into_c191, decode_c191, c191_view, tuple)),
	(193, C192, is_c192, unit (into_c192, decode_c192)),
	(194, C193, is_c193, multi (c193_view, named, [(0, f0, String), (1, f1, u32)])),
	(195, C194, is_c194, unit (into_c194, decode_c194)),
	(196, C195, is_c195, multi (c195_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(197, C196, is_c196, unit (into_c196, decode_c196)),
	(198, C197, is_c197, unit (into_c197, decode_c197)),
	(199, C198, is_c198, single (u8, into_c198, decode_c198, c198_view, tuple)),
	(200, C199, is_c199, unit (into_c199, decode_c199)),
	(201, C200, is_c200, multi (c200_view, named, [(0, f0, String), (1, f1, u32)])),
	(202, C201, is_c201, unit (into_c201, decode_c201)),
	(203, C202, is_c202, multi (c202_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(204, C203, is_c203, unit (into_c203, decode_c203)),
	(205, C204, is_c204, unit (into_c204, decode_c204)),
	(206, C205, is_c205, single (u8, into_c205, decode_c205, c205_view, tuple)),
	(207, C206, is_c206, unit (into_c206, decode_c206)),
	(208, C207, is_c207, multi (c207_view, named, [(0, f0, String), (1, f1, u32)])),
	(209, C208, is_c208, unit (into_c208, decode_c208)),
	(210, C209, is_c209, multi (c209_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(211, C210, is_c210, unit (into_c210, decode_c210)),
	(212, C211, is_c211, unit (into_c211, decode_c211)),
	(213, C212, is_c212, single (u8, into_c212, decode_c212, c212_view, tuple)),
	(214, C213, is_c213, unit (into_c213, decode_c213)),
	(215, C214, is_c214, multi (c214_view, named, [(0, f0, String), (1, f1, u32)])),
	(216, C215, is_c215, unit (into_c215, decode_c215)),
	(217, C216, is_c216, multi (c216_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(218, C217, is_c217, unit (into_c217, decode_c217)),
	(219, C218, is_c218, unit (into_c218, decode_c218)),
	(220, C219, is_c219, single (u8, into_c219, decode_c219, c219_view, tuple)),
	(221, C220, is_c220, unit (into_c220, decode_c220)),
	(222, C221, is_c221, multi (c221_view, named, [(0, f0, String), (1, f1, u32)])),
	(223, C222, is_c222, unit (into_c222, decode_c222)),
	(224, C223, is_c223, multi (c223_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(225, C224, is_c224, unit (into_c224, decode_c224)),
	(226, C225, is_c225, unit (into_c225, decode_c225)),
	(227, C226, is_c226, single (u8, into_c226, decode_c226, c226_view, tuple)),
	(228, C227, is_c227, unit (into_c227, decode_c227)),
	(229, C228, is_c228, multi (c228_view, named, [(0, f0, String), (1, f1, u32)])),
	(230, C229, is_c229, unit (into_c229, decode_c229)),
	(231, C230, is_c230, multi (c230_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(232, C231, is_c231, unit (into_c231, decode_c231)),
	(233, C232, is_c232, unit (into_c232, decode_c232)),
	(234, C233, is_c233, single (u8, into_c233, decode_c233, c233_view, tuple)),
	(235, C234, is_c234, unit (into_c234, decode_c234)),
	(236, C235, is_c235, multi (c235_view, named, [(0, f0, String), (1, f1, u32)])),
	(237, C236, is_c236, unit (into_c236, decode_c236)),
	(238, C237, is_c237, multi (c237_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(239, C238, is_c238, unit (into_c238, decode_c238)),
	(240, C239, is_c239, unit (into_c239, decode_c239)),
	(241, C240, is_c240, single (u8, into_c240, decode_c240, c240_view, tuple)),
	(242, C241, is_c241, unit (into_c241, decode_c241)),
	(243, C242, is_c242, multi (c242_view, named, [(0, f0, String), (1, f1, u32)])),
	(244, C243, is_c243, unit (into_c243, decode_c243)),
	(245, C244, is_c244, multi (c244_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(246, C245, is_c245, unit (into_c245, decode_c245)),
	(247, C246, is_c246, unit (into_c246, decode_c246)),
	(248, C247, is_c247, single (u8, into_c247, decode_c247, c247_view, tuple)),
	(249, C248, is_c248, unit (into_c248, decode_c248)),
	(250, C249, is_c249, multi (c249_view, named, [(0, f0, String), (1, f1, u32)])),
	(251, C250, is_c250, unit (into_c250, decode_c250)),
	(252, C251, is_c251, multi (c251_view, tuple, [(0, a0, Vec<u16>), (1, a1, bool)])),
	(253, C252, is_c252, unit (into_c252, decode_c252)),
	(254, C253, is_c253, unit (into_c253, decode_c253)),
	(255, C254, is_c254, single (u8, into_c254, decode_c254, c254_view, tuple)),
	(256, C255, is_c255, unit (into_c255, decode_c255)),
	(257, C256, is_c256, multi (c256_view, named, [(0, f0, String), (1, f1, u32)])),
	(258, C257, is_c257, unit (into_c257, decode_c257)),
]);

#[revisioned(revision(1, optimised), revision(2, optimised), revision(3, optimised))]
#[derive(Debug, Clone, PartialEq)]
pub enum Full {
	#[revision(size = "varlen")]
	Acc(u64),
	#[revision(size = "inline")]
	Q0,
	#[revision(size = "fixed(3)")]
	Q1([u8; 3]),
	#[revision(size = "varlen")]
	Q2(String),
	#[revision(end = 2, convert_fn = "cv_746", size = "varlen")]
	Q3 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q4,
	#[revision(size = "fixed(3)")]
	Q5([u8; 3]),
	#[revision(size = "varlen")]
	Q6(String),
	#[revision(size = "varlen")]
	Q7 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q8,
	#[revision(end = 2, convert_fn = "cv_758", size = "fixed(3)")]
	Q9([u8; 3]),
	#[revision(size = "varlen")]
	Q10(String),
	#[revision(size = "varlen")]
	Q11 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q12,
	#[revision(size = "fixed(3)")]
	Q13([u8; 3]),
	#[revision(end = 3, convert_fn = "cv_768", size = "varlen")]
	Q14(String),
	#[revision(size = "varlen")]
	Q15 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q16,
	#[revision(size = "fixed(3)")]
	Q17([u8; 3]),
	#[revision(size = "varlen")]
	Q18(String),
	#[revision(size = "varlen")]
	Q19 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q20,
	#[revision(size = "fixed(3)")]
	Q21([u8; 3]),
	#[revision(size = "varlen")]
	Q22(String),
	#[revision(size = "varlen")]
	Q23 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q24,
	#[revision(size = "fixed(3)")]
	Q25([u8; 3]),
	#[revision(size = "varlen")]
	Q26(String),
	#[revision(size = "varlen")]
	Q27 { f0: String, f1: u32 },
	#[revision(size = "inline")]
	Q28,
	#[revision(size = "fixed(3)")]
	Q29([u8; 3]),
	#[revision(size = "varlen")]
	Q30(String),
	#[revision(start = 2, size = "varlen")]
	Q31 { f0: String, f1: u32 },
	#[revision(start = 2, size = "inline")]
	Q32,
	#[revision(start = 3, size = "fixed(3)")]
	Q33([u8; 3]),
}
impl Full {
	fn cv_746(f: FullQ3Fields, rev: u16) -> Result<Self, Error> { cb(746)?; let mut acc = 746u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.f0.to_val()), rev, 747); acc = absorb(acc, digest(&<u32 as Sim>::schema(), &f.f1.to_val()), rev, 748); Ok(Full::Acc(absorb(acc, 0, rev, 746))) }
	fn cv_758(f: FullQ9Fields, rev: u16) -> Result<Self, Error> { cb(758)?; let mut acc = 758u64; acc = absorb(acc, digest(&<[u8; 3] as Sim>::schema(), &f.0.to_val()), rev, 759); Ok(Full::Acc(absorb(acc, 0, rev, 758))) }
	fn cv_768(f: FullQ14Fields, rev: u16) -> Result<Self, Error> { cb(768)?; let mut acc = 768u64; acc = absorb(acc, digest(&<String as Sim>::schema(), &f.0.to_val()), rev, 769); Ok(Full::Acc(absorb(acc, 0, rev, 768))) }
}
core_sim::sim_enum!(Full, 33, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, Q0, is_q0, unit (into_q0, decode_q0)),
	(2, Q1, is_q1, single ([u8; 3], into_q1, decode_q1, q1_view, tuple)),
	(3, Q2, is_q2, single (String, into_q2, decode_q2, q2_view, tuple)),
	(5, Q4, is_q4, unit (into_q4, decode_q4)),
	(6, Q5, is_q5, single ([u8; 3], into_q5, decode_q5, q5_view, tuple)),
	(7, Q6, is_q6, single (String, into_q6, decode_q6, q6_view, tuple)),
	(8, Q7, is_q7, multi (q7_view, named, [(0, f0, String), (1, f1, u32)])),
	(9, Q8, is_q8, unit (into_q8, decode_q8)),
	(11, Q10, is_q10, single (String, into_q10, decode_q10, q10_view, tuple)),
	(12, Q11, is_q11, multi (q11_view, named, [(0, f0, String), (1, f1, u32)])),
	(13, Q12, is_q12, unit (into_q12, decode_q12)),
	(14, Q13, is_q13, single ([u8; 3], into_q13, decode_q13, q13_view, tuple)),
	(16, Q15, is_q15, multi (q15_view, named, [(0, f0, String), (1, f1, u32)])),
	(17, Q16, is_q16, unit (into_q16, decode_q16)),
	(18, Q17, is_q17, single ([u8; 3], into_q17, decode_q17, q17_view, tuple)),
	(19, Q18, is_q18, single (String, into_q18, decode_q18, q18_view, tuple)),
	(20, Q19, is_q19, multi (q19_view, named, [(0, f0, String), (1, f1, u32)])),
	(21, Q20, is_q20, unit (into_q20, decode_q20)),
	(22, Q21, is_q21, single ([u8; 3], into_q21, decode_q21, q21_view, tuple)),
	(23, Q22, is_q22, single (String, into_q22, decode_q22, q22_view, tuple)),
	(24, Q23, is_q23, multi (q23_view, named, [(0, f0, String), (1, f1, u32)])),
	(25, Q24, is_q24, unit (into_q24, decode_q24)),
	(26, Q25, is_q25, single ([u8; 3], into_q25, decode_q25, q25_view, tuple)),
	(27, Q26, is_q26, single (String, into_q26, decode_q26, q26_view, tuple)),
	(28, Q27, is_q27, multi (q27_view, named, [(0, f0, String), (1, f1, u32)])),
	(29, Q28, is_q28, unit (into_q28, decode_q28)),
	(30, Q29, is_q29, single ([u8; 3], into_q29, decode_q29, q29_view, tuple)),
	(31, Q30, is_q30, single (String, into_q30, decode_q30, q30_view, tuple)),
	(32, Q31, is_q31, multi (q31_view, named, [(0, f0, String), (1, f1, u32)])),
	(33, Q32, is_q32, unit (into_q32, decode_q32)),
	(34, Q33, is_q33, single ([u8; 3], into_q33, decode_q33, q33_view, tuple)),
]);

#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub struct Hollow {
}
core_sim::sim_struct!(Hollow, HollowWalker, 34, 3, [

]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1), revision(2, optimised, indexed_struct), revision(3, optimised))]
pub struct Lone(pub Vec<String>);
core_sim::sim_struct!(Lone, LoneWalker, 35, 3, [
	(0, 0, Vec<String>, plain, decode_field_0, skip_field_0, walk_field_0, into_walk_field_0, into_field_0_bytes),
]);

#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct), revision(4, optimised, indexed_struct))]
#[derive(Debug, Clone, PartialEq)]
pub struct Late1 {
	#[revision(start = 3, indexed_map)] pub m: BTreeMap<String, u8>,
	#[revision(start = 4)] pub n: Option<u16>,
}
core_sim::sim_struct!(Late1, Late1Walker, 36, 3, [
	(0, m, BTreeMap<String, u8>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(1, n, Option<u16>, plain, decode_n, skip_n, walk_n, into_walk_n, into_n_bytes),
]);

#[revisioned(revision(2, optimised), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub enum Solo {
	#[revision(size = "varlen")]
	It(Box<Lone>),
}
core_sim::sim_enum!(Solo, 37, 3, [
	(0, It, is_it, single (Box<Lone>, into_it, decode_it, it_view, tuple)),
]);

#[revisioned()]
#[derive(Debug, Clone, PartialEq)]
#[revision(revision(1), revision(2), revision(3, optimised))]
pub enum Hush {
	#[revision(size = "inline")]
	A {  },
	#[revision(size = "inline")]
	B(),
	#[revision(start = 2, size = "inline")]
	C,
}
core_sim::sim_enum!(Hush, 38, 3, [
	(0, A, is_a, multi (a_view, named, [])),
	(1, B, is_b, multi (b_view, tuple, [])),
	(2, C, is_c, unit (into_c, decode_c)),
]);

#[revisioned(revision(1), revision(2), revision(3, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct Doc {
	pub id: Uuid,
	pub grow: Grow,
	pub event: Event,
	pub packed: Vec<Packed>,
	#[revision(start = 2)] pub ladder: Option<Ladder>,
	pub price: Decimal,
	pub by: BTreeMap<String, Shrink>,
	pub child: Option<Box<Doc>>,
	#[revision(start = 3, default_fn = "df_824")] pub when: NaiveDate,
}
impl Doc {
	fn df_824(rev: u16) -> Result<NaiveDate, Error> { cb(824)?; Ok(def_value(824, rev)) }
}
core_sim::sim_struct!(Doc, DocWalker, 39, 3, [
	(0, id, Uuid, plain, decode_id, skip_id, walk_id, into_walk_id, into_id_bytes),
	(1, grow, Grow, plain, decode_grow, skip_grow, walk_grow, into_walk_grow, into_grow_bytes),
	(2, event, Event, plain, decode_event, skip_event, walk_event, into_walk_event, into_event_bytes),
	(3, packed, Vec<Packed>, plain, decode_packed, skip_packed, walk_packed, into_walk_packed, into_packed_bytes),
	(4, ladder, Option<Ladder>, plain, decode_ladder, skip_ladder, walk_ladder, into_walk_ladder, into_ladder_bytes),
	(5, price, Decimal, plain, decode_price, skip_price, walk_price, into_walk_price, into_price_bytes),
	(6, by, BTreeMap<String, Shrink>, plain, decode_by, skip_by, walk_by, into_walk_by, into_by_bytes),
	(7, child, Option<Box<Doc>>, plain, decode_child, skip_child, walk_child, into_walk_child, into_child_bytes),
	(8, when, NaiveDate, plain, decode_when, skip_when, walk_when, into_walk_when, into_when_bytes),
]);

#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(1, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct Store {
	#[revision(indexed_map)] pub rows: BTreeMap<String, Indexed>,
	#[revision(indexed_seq)] pub log: Vec<Mixed>,
	#[revision(indexed_set)] pub keys: HashSet<u64>,
	pub zig: Zigzag,
	#[revision(start = 2, indexed_seq)] pub cuts: imbl::Vector<Cut>,
	#[revision(start = 3, indexed_map)] pub hooks: imbl::OrdMap<u16, Parts>,
	pub hook: Hook,
}
core_sim::sim_struct!(Store, StoreWalker, 40, 3, [
	(0, rows, BTreeMap<String, Indexed>, map, decode_rows, skip_rows, walk_rows, into_walk_rows, into_rows_bytes),
	(1, log, Vec<Mixed>, seq, decode_log, skip_log, walk_log, into_walk_log, into_log_bytes),
	(2, keys, HashSet<u64>, set, decode_keys, skip_keys, walk_keys, into_walk_keys, into_keys_bytes),
	(3, zig, Zigzag, plain, decode_zig, skip_zig, walk_zig, into_walk_zig, into_zig_bytes),
	(4, cuts, imbl::Vector<Cut>, seq, decode_cuts, skip_cuts, walk_cuts, into_walk_cuts, into_cuts_bytes),
	(5, hooks, imbl::OrdMap<u16, Parts>, map, decode_hooks, skip_hooks, walk_hooks, into_walk_hooks, into_hooks_bytes),
	(6, hook, Hook, plain, decode_hook, skip_hook, walk_hook, into_walk_hook, into_hook_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone)]
#[revision(revision(1), revision(2), revision(3, optimised))]
pub enum Value {
	#[revision(size = "varlen")]
	Acc(u64),
	#[revision(size = "inline")]
	Null,
	#[revision(size = "varlen")]
	Num(i64),
	#[revision(size = "varlen")]
	List(Vec<Value>),
	#[revision(size = "varlen")]
	Obj(BTreeMap<String, Value>),
	#[revision(start = 2, size = "varlen")]
	Tree(Box<Tree>),
	#[revision(end = 3, convert_fn = "cv_843", fields_name = "OldValueDead")]
	Dead { x: Option<Box<Value>>, y: String },
	#[revision(start = 2, size = "varlen")]
	Blob(Bytes),
	#[revision(start = 3, size = "varlen")]
	Disc(Disc),
}
impl Value {
	fn cv_843(f: OldValueDead, rev: u16) -> Result<Self, Error> { cb(843)?; let mut acc = 843u64; acc = absorb(acc, digest(&<Option<Box<Value>> as Sim>::schema(), &f.x.to_val()), rev, 844); acc = absorb(acc, digest(&<String as Sim>::schema(), &f.y.to_val()), rev, 845); Ok(Value::Acc(absorb(acc, 0, rev, 843))) }
}
core_sim::sim_enum!(Value, 41, 3, [
	(0, Acc, is_acc, single (u64, into_acc, decode_acc, acc_view, tuple)),
	(1, Null, is_null, unit (into_null, decode_null)),
	(2, Num, is_num, single (i64, into_num, decode_num, num_view, tuple)),
	(3, List, is_list, single (Vec<Value>, into_list, decode_list, list_view, tuple)),
	(4, Obj, is_obj, single (BTreeMap<String, Value>, into_obj, decode_obj, obj_view, tuple)),
	(5, Tree, is_tree, single (Box<Tree>, into_tree, decode_tree, tree_view, tuple)),
	(7, Blob, is_blob, single (Bytes, into_blob, decode_blob, blob_view, tuple)),
	(8, Disc, is_disc, single (Disc, into_disc, decode_disc, disc_view, tuple)),
]);

#[revisioned(revision(1, optimised), revision(2, optimised, indexed_struct), revision(3, optimised, indexed_struct))]
#[derive(Debug, Clone)]
pub struct Frame {
	pub acc: u64,
	pub inner: CutMix,
	pub vals: Vec<Value>,
	#[revision(end = 3, convert_fn = "cv_853")] pub old: Adds,
	#[revision(indexed_map)] pub m: HashMap<String, OptDisc>,
	pub hook: Hook,
	#[revision(start = 2, default_fn = "df_856")] pub res: Result<Color, LegOpt>,
}
impl Frame {
	fn cv_853(&mut self, rev: u16, v: Adds) -> Result<(), Error> { cb(853)?; self.acc = absorb(self.acc, digest(&<Adds as Sim>::schema(), &v.to_val()), rev, 853); Ok(()) }
	fn df_856(rev: u16) -> Result<Result<Color, LegOpt>, Error> { cb(856)?; Ok(def_value(856, rev)) }
}
core_sim::sim_struct!(Frame, FrameWalker, 42, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, inner, CutMix, plain, decode_inner, skip_inner, walk_inner, into_walk_inner, into_inner_bytes),
	(2, vals, Vec<Value>, plain, decode_vals, skip_vals, walk_vals, into_walk_vals, into_vals_bytes),
	(3, m, HashMap<String, OptDisc>, map, decode_m, skip_m, walk_m, into_walk_m, into_m_bytes),
	(4, hook, Hook, plain, decode_hook, skip_hook, walk_hook, into_walk_hook, into_hook_bytes),
	(5, res, Result<Color, LegOpt>, plain, decode_res, skip_res, walk_res, into_walk_res, into_res_bytes),
]);

#[revisioned(revision = 1)]
#[derive(Debug, Clone)]
pub struct Still {
	pub grow: Grow,
	pub cut: Cut,
	pub mixed: Vec<Mixed>,
	pub event: Option<Event>,
	pub frame: Box<Frame>,
	pub forced: ForcedCut,
	pub tail: u32,
}
core_sim::sim_struct!(Still, StillWalker, 43, 3, [
	(0, grow, Grow, plain, decode_grow, skip_grow, walk_grow, into_walk_grow, into_grow_bytes),
	(1, cut, Cut, plain, decode_cut, skip_cut, walk_cut, into_walk_cut, into_cut_bytes),
	(2, mixed, Vec<Mixed>, plain, decode_mixed, skip_mixed, walk_mixed, into_walk_mixed, into_mixed_bytes),
	(3, event, Option<Event>, plain, decode_event, skip_event, walk_event, into_walk_event, into_event_bytes),
	(4, frame, Box<Frame>, plain, decode_frame, skip_frame, walk_frame, into_walk_frame, into_frame_bytes),
	(5, forced, ForcedCut, plain, decode_forced, skip_forced, walk_forced, into_walk_forced, into_forced_bytes),
	(6, tail, u32, plain, decode_tail, skip_tail, walk_tail, into_walk_tail, into_tail_bytes),
]);

#[revisioned()]
#[derive(Debug, Clone)]
#[revision(revision(1, optimised, indexed_struct))]
pub struct StillX {
	pub grow: Grow,
	#[revision(indexed_map)] pub rows: BTreeMap<u8, CutOpt>,
	#[revision(indexed_seq)] pub mixed: imbl::Vector<Mixed>,
	pub doc: Option<Forced>,
	pub tail: String,
}
core_sim::sim_struct!(StillX, StillXWalker, 44, 3, [
	(0, grow, Grow, plain, decode_grow, skip_grow, walk_grow, into_walk_grow, into_grow_bytes),
	(1, rows, BTreeMap<u8, CutOpt>, map, decode_rows, skip_rows, walk_rows, into_walk_rows, into_rows_bytes),
	(2, mixed, imbl::Vector<Mixed>, seq, decode_mixed, skip_mixed, walk_mixed, into_walk_mixed, into_mixed_bytes),
	(3, doc, Option<Forced>, plain, decode_doc, skip_doc, walk_doc, into_walk_doc, into_doc_bytes),
	(4, tail, String, plain, decode_tail, skip_tail, walk_tail, into_walk_tail, into_tail_bytes),
]);

#[revisioned(revision = 4, serialize = false)]
#[derive(Debug, Clone, PartialEq)]
pub struct GrowT {
	pub id: u64,
	#[revision(start = 1)] pub name: String,
	#[revision(start = 2)] pub extra: Option<String>,
	#[revision(start = 3, default_fn = "df_872")] pub score: i16,
	#[revision(start = 4, default_fn = "df_873")] pub tail: BTreeMap<String, u32>,
	#[revision(fixed)] pub raw: u32,
	#[revision(specialised)] pub last: Vec<u16>,
}
#[revisioned(revision = 4, deserialize = false)]
pub struct GrowTW {
	pub id: u64,
	#[revision(start = 1)] pub name: String,
	#[revision(start = 2)] pub extra: Option<String>,
	#[revision(start = 3, default_fn = "df_872")] pub score: i16,
	#[revision(start = 4, default_fn = "df_873")] pub tail: BTreeMap<String, u32>,
	#[revision(fixed)] pub raw: u32,
	#[revision(specialised)] pub last: Vec<u16>,
}
impl GrowTW {
	fn df_872(rev: u16) -> Result<i16, Error> { cb(872)?; Ok(def_value(872, rev)) }
	fn df_873(rev: u16) -> Result<BTreeMap<String, u32>, Error> { cb(873)?; Ok(def_value(873, rev)) }
}
impl revision::SerializeRevisioned for GrowT {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		let h = GrowTW { id: self.id.clone(), name: self.name.clone(), extra: self.extra.clone(), score: self.score.clone(), tail: self.tail.clone(), raw: self.raw.clone(), last: self.last.clone() };
		revision::SerializeRevisioned::serialize_revisioned(&h, w)
	}
}
impl GrowT {
	fn df_872(rev: u16) -> Result<i16, Error> { cb(872)?; Ok(def_value(872, rev)) }
	fn df_873(rev: u16) -> Result<BTreeMap<String, u32>, Error> { cb(873)?; Ok(def_value(873, rev)) }
}
core_sim::sim_struct!(GrowT, GrowTWalker, 45, 3, [
	(0, id, u64, plain, decode_id, skip_id, walk_id, into_walk_id, into_id_bytes),
	(1, name, String, plain, decode_name, skip_name, walk_name, into_walk_name, into_name_bytes),
	(2, extra, Option<String>, plain, decode_extra, skip_extra, walk_extra, into_walk_extra, into_extra_bytes),
	(3, score, i16, plain, decode_score, skip_score, walk_score, into_walk_score, into_score_bytes),
	(4, tail, BTreeMap<String, u32>, plain, decode_tail, skip_tail, walk_tail, into_walk_tail, into_tail_bytes),
	(5, raw, u32, plain, decode_raw, skip_raw, walk_raw, into_walk_raw, into_raw_bytes),
	(6, last, Vec<u16>, plain, decode_last, skip_last, walk_last, into_walk_last, into_last_bytes),
]);

#[revisioned(revision(4, optimised, indexed_struct), revision(3, optimised, indexed_struct), revision(2, optimised), revision(1), serialize = false)]
#[derive(Debug, Clone, PartialEq)]
pub struct LadderT {
	pub id: u32,
	#[revision(indexed_map)] pub map: BTreeMap<String, u64>,
	#[revision(indexed_seq)] pub tags: Vec<String>,
	#[revision(start = 2, indexed_set)] pub ids: BTreeSet<u32>,
	#[revision(start = 3, default_fn = "df_880")] pub note: Option<String>,
	#[revision(start = 4)] pub end: i64,
}
#[revisioned(revision(4, optimised, indexed_struct), revision(3, optimised, indexed_struct), revision(2, optimised), revision(1), deserialize = false)]
pub struct LadderTW {
	pub id: u32,
	#[revision(indexed_map)] pub map: BTreeMap<String, u64>,
	#[revision(indexed_seq)] pub tags: Vec<String>,
	#[revision(start = 2, indexed_set)] pub ids: BTreeSet<u32>,
	#[revision(start = 3, default_fn = "df_880")] pub note: Option<String>,
	#[revision(start = 4)] pub end: i64,
}
impl LadderTW {
	fn df_880(rev: u16) -> Result<Option<String>, Error> { cb(880)?; Ok(def_value(880, rev)) }
}
impl revision::SerializeRevisioned for LadderT {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		let h = LadderTW { id: self.id.clone(), map: self.map.clone(), tags: self.tags.clone(), ids: self.ids.clone(), note: self.note.clone(), end: self.end.clone() };
		revision::SerializeRevisioned::serialize_revisioned(&h, w)
	}
}
impl LadderT {
	fn df_880(rev: u16) -> Result<Option<String>, Error> { cb(880)?; Ok(def_value(880, rev)) }
}
core_sim::sim_struct!(LadderT, LadderTWalker, 46, 3, [
	(0, id, u32, plain, decode_id, skip_id, walk_id, into_walk_id, into_id_bytes),
	(1, map, BTreeMap<String, u64>, map, decode_map, skip_map, walk_map, into_walk_map, into_map_bytes),
	(2, tags, Vec<String>, seq, decode_tags, skip_tags, walk_tags, into_walk_tags, into_tags_bytes),
	(3, ids, BTreeSet<u32>, set, decode_ids, skip_ids, walk_ids, into_walk_ids, into_ids_bytes),
	(4, note, Option<String>, plain, decode_note, skip_note, walk_note, into_walk_note, into_note_bytes),
	(5, end, i64, plain, decode_end, skip_end, walk_end, into_walk_end, into_end_bytes),
]);

#[revisioned(revision = 3, serialize = false)]
#[derive(Debug, Clone, PartialEq)]
pub enum AddsT {
	First,
	#[revision(override(revision = 2, discriminant = 300))]
	Single(String),
	Rec { a: u8, #[revision(start = 2, default_fn = "df_887")] b: Vec<u32> },
	#[revision(start = 3)]
	Later(u64, String),
}
#[revisioned(revision = 3, deserialize = false)]
pub enum AddsTW {
	First,
	#[revision(override(revision = 2, discriminant = 300))]
	Single(String),
	Rec { a: u8, #[revision(start = 2, default_fn = "df_887")] b: Vec<u32> },
	#[revision(start = 3)]
	Later(u64, String),
}
impl AddsTW {
	fn df_887(rev: u16) -> Result<Vec<u32>, Error> { cb(887)?; Ok(def_value(887, rev)) }
}
impl revision::SerializeRevisioned for AddsT {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		let h = match self { AddsT::First => AddsTW::First, AddsT::Single(a0) => AddsTW::Single(a0.clone()), AddsT::Rec { a, b } => AddsTW::Rec { a: a.clone(), b: b.clone() }, AddsT::Later(a0, a1) => AddsTW::Later(a0.clone(), a1.clone()) };
		revision::SerializeRevisioned::serialize_revisioned(&h, w)
	}
}
impl AddsT {
	fn df_887(rev: u16) -> Result<Vec<u32>, Error> { cb(887)?; Ok(def_value(887, rev)) }
}
core_sim::sim_enum!(AddsT, 47, 3, [
	(0, First, is_first, unit (into_first, decode_first)),
	(1, Single, is_single, single (String, into_single, decode_single, single_view, tuple)),
	(2, Rec, is_rec, multi (rec_view, named, [(0, a, u8), (1, b, Vec<u32>)])),
	(3, Later, is_later, multi (later_view, tuple, [(0, a0, u64), (1, a1, String)])),
]);

#[revisioned(revision(1), revision(2, optimised), revision(3, optimised), serialize = false)]
#[derive(Debug, Clone, PartialEq)]
pub enum PackedT {
	#[revision(size = "inline")]
	None,
	#[revision(size = "fixed(1)")]
	Byte(u8),
	#[revision(size = "varlen")]
	Text(String),
	#[revision(size = "varlen")]
	Rec { a: u32, b: String },
	#[revision(start = 2, size = "varlen")]
	Late(Vec<u32>),
	#[revision(start = 3, size = "inline")]
	Mark,
}
#[revisioned(revision(1), revision(2, optimised), revision(3, optimised), deserialize = false)]
pub enum PackedTW {
	#[revision(size = "inline")]
	None,
	#[revision(size = "fixed(1)")]
	Byte(u8),
	#[revision(size = "varlen")]
	Text(String),
	#[revision(size = "varlen")]
	Rec { a: u32, b: String },
	#[revision(start = 2, size = "varlen")]
	Late(Vec<u32>),
	#[revision(start = 3, size = "inline")]
	Mark,
}
impl revision::SerializeRevisioned for PackedT {
	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
		let h = match self { PackedT::None => PackedTW::None, PackedT::Byte(a0) => PackedTW::Byte(a0.clone()), PackedT::Text(a0) => PackedTW::Text(a0.clone()), PackedT::Rec { a, b } => PackedTW::Rec { a: a.clone(), b: b.clone() }, PackedT::Late(a0) => PackedTW::Late(a0.clone()), PackedT::Mark => PackedTW::Mark };
		revision::SerializeRevisioned::serialize_revisioned(&h, w)
	}
}
core_sim::sim_enum!(PackedT, 48, 3, [
	(0, None, is_none, unit (into_none, decode_none)),
	(1, Byte, is_byte, single (u8, into_byte, decode_byte, byte_view, tuple)),
	(2, Text, is_text, single (String, into_text, decode_text, text_view, tuple)),
	(3, Rec, is_rec, multi (rec_view, named, [(0, a, u32), (1, b, String)])),
	(4, Late, is_late, single (Vec<u32>, into_late, decode_late, late_view, tuple)),
	(5, Mark, is_mark, unit (into_mark, decode_mark)),
]);

#[revisioned(revision(3, optimised, indexed_struct), revision(2, optimised, indexed_struct), revision(1))]
#[derive(Debug, Clone, PartialEq)]
pub struct Halves {
	pub acc: u64,
	pub grow: GrowT,
	#[revision(indexed_map)] pub rows: BTreeMap<String, LadderT>,
	#[revision(indexed_seq)] pub log: Vec<PackedT>,
	#[revision(start = 2)] pub adds: Option<Box<AddsT>>,
	#[revision(end = 3, convert_fn = "cv_907")] pub gone: PackedT,
}
impl Halves {
	fn cv_907(&mut self, rev: u16, v: PackedT) -> Result<(), Error> { cb(907)?; self.acc = absorb(self.acc, digest(&<PackedT as Sim>::schema(), &v.to_val()), rev, 907); Ok(()) }
}
core_sim::sim_struct!(Halves, HalvesWalker, 49, 3, [
	(0, acc, u64, plain, decode_acc, skip_acc, walk_acc, into_walk_acc, into_acc_bytes),
	(1, grow, GrowT, plain, decode_grow, skip_grow, walk_grow, into_walk_grow, into_grow_bytes),
	(2, rows, BTreeMap<String, LadderT>, map, decode_rows, skip_rows, walk_rows, into_walk_rows, into_rows_bytes),
	(3, log, Vec<PackedT>, seq, decode_log, skip_log, walk_log, into_walk_log, into_log_bytes),
	(4, adds, Option<Box<AddsT>>, plain, decode_adds, skip_adds, walk_adds, into_walk_adds, into_adds_bytes),
]);

pub fn types(o: &mut Vec<core_sim::dynt::Entry>) {
	core_sim::dynt::fam::<Plain>(o, "Plain", 0, 3);
	core_sim::dynt::fam::<Grow>(o, "Grow", 1, 3);
	core_sim::dynt::fam::<Shrink>(o, "Shrink", 2, 3);
	core_sim::dynt::fam::<Ladder>(o, "Ladder", 3, 3);
	core_sim::dynt::fam::<Indexed>(o, "Indexed", 4, 3);
	core_sim::dynt::fam::<Zigzag>(o, "Zigzag", 5, 3);
	core_sim::dynt::fam::<Cut>(o, "Cut", 6, 3);
	core_sim::dynt::fam::<CutOpt>(o, "CutOpt", 7, 3);
	core_sim::dynt::fam::<CutMix>(o, "CutMix", 8, 3);
	core_sim::dynt::fam::<Forced>(o, "Forced", 9, 3);
	core_sim::dynt::fam::<ForcedCut>(o, "ForcedCut", 10, 3);
	core_sim::dynt::fam::<Pair>(o, "Pair", 11, 3);
	core_sim::dynt::fam::<Unit>(o, "Unit", 12, 3);
	core_sim::dynt::fam::<Wide>(o, "Wide", 13, 3);
	core_sim::dynt::fam::<Tree>(o, "Tree", 14, 3);
	core_sim::dynt::fam::<Color>(o, "Color", 15, 3);
	core_sim::dynt::fam::<Event>(o, "Event", 16, 3);
	core_sim::dynt::fam::<Parts>(o, "Parts", 17, 3);
	core_sim::dynt::fam::<Adds>(o, "Adds", 18, 3);
	core_sim::dynt::fam::<Disc>(o, "Disc", 19, 3);
	core_sim::dynt::fam::<Packed>(o, "Packed", 20, 3);
	core_sim::dynt::fam::<Mixed>(o, "Mixed", 21, 3);
	core_sim::dynt::fam::<OptDisc>(o, "OptDisc", 22, 3);
	core_sim::dynt::fam::<LegOpt>(o, "LegOpt", 23, 3);
	core_sim::dynt::fam::<AddsO>(o, "AddsO", 24, 3);
	core_sim::dynt::fam::<CutsO>(o, "CutsO", 25, 3);
	core_sim::dynt::fam::<ForcedE>(o, "ForcedE", 26, 3);
	core_sim::dynt::fam::<ForcedA>(o, "ForcedA", 27, 3);
	core_sim::dynt::fam::<ForcedMix>(o, "ForcedMix", 28, 3);
	core_sim::dynt::fam::<PairX>(o, "PairX", 29, 3);
	core_sim::dynt::fam::<Aged>(o, "Aged", 30, 3);
	core_sim::dynt::fam::<AgedX>(o, "AgedX", 31, 3);
	core_sim::dynt::fam::<Crowd>(o, "Crowd", 32, 3);
	core_sim::dynt::fam::<Full>(o, "Full", 33, 3);
	core_sim::dynt::fam::<Hollow>(o, "Hollow", 34, 3);
	core_sim::dynt::fam::<Lone>(o, "Lone", 35, 3);
	core_sim::dynt::fam::<Late1>(o, "Late1", 36, 3);
	core_sim::dynt::fam::<Solo>(o, "Solo", 37, 3);
	core_sim::dynt::fam::<Hush>(o, "Hush", 38, 3);
	core_sim::dynt::fam::<Doc>(o, "Doc", 39, 3);
	core_sim::dynt::fam::<Store>(o, "Store", 40, 3);
	core_sim::dynt::fam::<Value>(o, "Value", 41, 3);
	core_sim::dynt::fam::<Frame>(o, "Frame", 42, 3);
	core_sim::dynt::fam::<Still>(o, "Still", 43, 3);
	core_sim::dynt::fam::<StillX>(o, "StillX", 44, 3);
	core_sim::dynt::fam::<GrowT>(o, "GrowT", 45, 3);
	core_sim::dynt::fam::<LadderT>(o, "LadderT", 46, 3);
	core_sim::dynt::fam::<AddsT>(o, "AddsT", 47, 3);
	core_sim::dynt::fam::<PackedT>(o, "PackedT", 48, 3);
	core_sim::dynt::fam::<Halves>(o, "Halves", 49, 3);
}
