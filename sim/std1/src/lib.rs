//! The library's own types: scalars, strings, sums, products, foreign types.
use std::borrow::Cow;
use std::cmp::Reverse;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

use bytes::Bytes;
use chrono::{DateTime, NaiveDate, NaiveTime, Utc};
use core_sim::dynt::{Entry, plain};
use core_sim::imp::{BorrowedStr, CowStr, Hook};
use ordered_float::NotNan;
use regex::Regex;
use roaring::{RoaringBitmap, RoaringTreemap};
use rust_decimal::Decimal;
use uuid::Uuid;

macro_rules! reg {
	($o:expr; $($t:ty),* $(,)?) => { $(plain::<$t>($o, stringify!($t));)* };
}

pub fn types(o: &mut Vec<Entry>) {
	reg!(o;
		bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char,
		String, Arc<str>, Box<str>, CowStr, BorrowedStr, PathBuf, Bytes,
		Duration, SystemTime, Decimal, Uuid, Regex, DateTime<Utc>, NaiveDate, NaiveTime, chrono::Duration,
		RoaringBitmap, RoaringTreemap,
		geo::Coord<f64>, geo::Point<f64>, geo::LineString<f64>, geo::Polygon<f64>, geo::MultiPoint<f64>,
		geo::MultiLineString<f64>, geo::MultiPolygon<f64>,
		Box<u64>, Arc<String>, Box<Vec<u16>>, Arc<Box<i32>>, Wrapping<i32>, Wrapping<u128>, Reverse<String>,
		Reverse<Vec<u8>>, Cow<'static, u64>, Cow<'static, String>, NotNan<f64>, NotNan<f32>, Hook,
		Option<bool>, Option<u64>, Option<String>, Option<Option<u8>>, Option<Vec<String>>, Option<Vec<u32>>, Option<Box<Uuid>>,
		Option<Duration>,
		Result<u32, String>, Result<Vec<u8>, i64>, Result<Option<u16>, Vec<String>>,
		Bound<u32>, Bound<String>, Bound<Vec<u64>>, Range<u64>, Range<String>,
		(u8,), (u8, String), (u64, i32, bool), (String, Vec<u16>, Option<u8>, f64), (u8, u16, u32, u64, u128),
		(i8, String, char, Uuid, Option<String>, Vec<bool>), ((u8, u16), (String, String)),
		[u8; 4], [u32; 3], [u16; 16], [bool; 9], [u64; 32], [i128; 2], [f64; 5], [Option<u8>; 7], [char; 8], [i8; 1],
		(DateTime<Utc>, NaiveDate, NaiveTime), (Hook, String, Hook), (Bytes, PathBuf), Option<RoaringBitmap>,
		Option<geo::Polygon<f64>>, Option<Decimal>, (Regex, Bytes),
	);
}
