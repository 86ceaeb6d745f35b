From 83ccc3c21049a78066c70f09f5d5053818acfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:42 +0000
Subject: [PATCH 01/15] fix: write bool with write_all so a failing or
 interrupted sink is not ignored

---
 src/implementations/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implementations/primitives.rs b/src/implementations/primitives.rs
index 6645e8c..fc2f9d9 100644
--- a/src/implementations/primitives.rs
+++ b/src/implementations/primitives.rs
@@ -143,7 +143,7 @@ impl SerializeRevisioned for bool {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
 		let v = *self as u8;
-		w.write(&[v]).map_err(Error::Io)?;
+		w.write_all(&[v]).map_err(Error::Io)?;
 		Ok(())
 	}
 }
-- 
2.43.0


From d030471499c7dea441ab73eea47214a15d89d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:36 +0000
Subject: [PATCH 02/15] fix: skip specialised fields by their bulk layout

---
 revision-derive/src/expand/common.rs | 22 +++++++++++++++++
 revision-derive/src/expand/skip.rs   |  8 ++++++-
 src/implementations/decimal.rs       |  8 +++++++
 src/implementations/specialised.rs   | 36 ++++++++++++++++++++++++++++
 src/implementations/uuid.rs          |  8 +++++++
 5 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/revision-derive/src/expand/common.rs b/revision-derive/src/expand/common.rs
index a23a846..9a47447 100644
--- a/revision-derive/src/expand/common.rs
+++ b/revision-derive/src/expand/common.rs
@@ -231,6 +231,28 @@ pub fn emit_deserialize_specialised(ty: &Type, reader_expr: &TokenStream) -> Tok
 	}
 }
 
+/// Emit a skip of the bulk layout of a `#[revision(specialised)]` field. Same
+/// trait-bound contract as [`emit_serialize_specialised`]. In `slice_mode` the
+/// reader is a `SliceReader`, which can jump over the elements.
+pub fn emit_skip_specialised(
+	ty: &Type,
+	reader_expr: &TokenStream,
+	slice_mode: bool,
+) -> TokenStream {
+	let advance = if slice_mode {
+		quote! { (#reader_expr).consume(__byte_len)?; }
+	} else {
+		quote! { ::revision::slice_reader::advance_read(#reader_expr, __byte_len)?; }
+	};
+	quote! {
+		{
+			let __len = <usize as ::revision::DeserializeRevisioned>::deserialize_revisioned(#reader_expr)?;
+			let __byte_len = <#ty as ::revision::implementations::specialised::SkipRevisionedSpecialised>::specialised_byte_len(__len)?;
+			#advance
+		}
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
diff --git a/revision-derive/src/expand/skip.rs b/revision-derive/src/expand/skip.rs
index 8df2522..901947e 100644
--- a/revision-derive/src/expand/skip.rs
+++ b/revision-derive/src/expand/skip.rs
@@ -6,7 +6,7 @@ use syn::Ident;
 
 use crate::ast::{Enum, Fields, Struct, Variant, Visit};
 
-use super::common::{CalcDiscriminant, emit_skip_fixed_le};
+use super::common::{CalcDiscriminant, emit_skip_fixed_le, emit_skip_specialised};
 use super::context::EncodingContext;
 use super::optimised;
 
@@ -157,6 +157,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr, self.slice_mode)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
@@ -174,6 +177,9 @@ impl<'ast> Visit<'ast> for SkipFields<'_> {
 						let body = if f.attrs.options.fixed {
 							let reader_expr = quote! { reader };
 							emit_skip_fixed_le(ty, &reader_expr)?
+						} else if f.attrs.options.specialised {
+							let reader_expr = quote! { reader };
+							emit_skip_specialised(ty, &reader_expr, self.slice_mode)
 						} else if self.slice_mode {
 							quote! {
 								<#ty as ::revision::SkipRevisioned>::skip_revisioned_slice(reader)?;
diff --git a/src/implementations/decimal.rs b/src/implementations/decimal.rs
index a38e1b9..b6d4102 100644
--- a/src/implementations/decimal.rs
+++ b/src/implementations/decimal.rs
@@ -88,6 +88,14 @@ impl super::specialised::DeserializeRevisionedSpecialised for Vec<Decimal> {
 	}
 }
 
+#[cfg(feature = "specialised-vectors")]
+impl super::specialised::SkipRevisionedSpecialised for Vec<Decimal> {
+	#[inline]
+	fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+		len.checked_mul(DECIMAL_SIZE).ok_or(Error::IntegerOverflow)
+	}
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/implementations/specialised.rs b/src/implementations/specialised.rs
index 640a088..526f360 100644
--- a/src/implementations/specialised.rs
+++ b/src/implementations/specialised.rs
@@ -32,6 +32,14 @@ pub trait DeserializeRevisionedSpecialised: Revisioned + DeserializeRevisioned {
 		Self: Sized;
 }
 
+/// Size of the bulk layout written by [`SerializeRevisionedSpecialised`], so
+/// that a `#[revision(specialised)]` field can be skipped without being built.
+#[doc(hidden)]
+pub trait SkipRevisionedSpecialised: Revisioned {
+	/// Number of bytes which follow the length prefix of a `len`-element value.
+	fn specialised_byte_len(len: usize) -> Result<usize, Error>;
+}
+
 // --------------------------------------------------
 // Macro for generating optimized Vec<T> implementations for numeric types
 // --------------------------------------------------
@@ -127,6 +135,13 @@ macro_rules! impl_revisioned_specialised_vec {
 				}
 			}
 		}
+
+		impl SkipRevisionedSpecialised for Vec<$ty> {
+			#[inline]
+			fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+				len.checked_mul(std::mem::size_of::<$ty>()).ok_or(Error::IntegerOverflow)
+			}
+		}
 	};
 }
 
@@ -164,6 +179,13 @@ impl DeserializeRevisionedSpecialised for Vec<u8> {
 	}
 }
 
+impl SkipRevisionedSpecialised for Vec<u8> {
+	#[inline]
+	fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+		Ok(len)
+	}
+}
+
 // --------------------------------------------------
 // Optimized bulk implementation for Vec<i8>
 // --------------------------------------------------
@@ -216,6 +238,13 @@ impl DeserializeRevisionedSpecialised for Vec<i8> {
 	}
 }
 
+impl SkipRevisionedSpecialised for Vec<i8> {
+	#[inline]
+	fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+		Ok(len)
+	}
+}
+
 // --------------------------------------------------
 // Bit-packed implementation for Vec<bool>
 // --------------------------------------------------
@@ -276,6 +305,13 @@ impl DeserializeRevisionedSpecialised for Vec<bool> {
 	}
 }
 
+impl SkipRevisionedSpecialised for Vec<bool> {
+	#[inline]
+	fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+		Ok(len.div_ceil(8))
+	}
+}
+
 // --------------------------------------------------
 // Optimized implementations for Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>
 // --------------------------------------------------
diff --git a/src/implementations/uuid.rs b/src/implementations/uuid.rs
index a30ab25..2318631 100644
--- a/src/implementations/uuid.rs
+++ b/src/implementations/uuid.rs
@@ -93,6 +93,14 @@ impl super::specialised::DeserializeRevisionedSpecialised for Vec<Uuid> {
 	}
 }
 
+#[cfg(feature = "specialised-vectors")]
+impl super::specialised::SkipRevisionedSpecialised for Vec<Uuid> {
+	#[inline]
+	fn specialised_byte_len(len: usize) -> Result<usize, Error> {
+		len.checked_mul(UUID_SIZE).ok_or(Error::IntegerOverflow)
+	}
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 635fcfaaf97aced922a55d1419b3b460b00c91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:56 +0000
Subject: [PATCH 03/15] fix: decode removed indexed fields of optimised structs
 with the codec they were written with

---
 .../src/expand/optimised/struct_codegen.rs    | 53 +++++++++++--------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/revision-derive/src/expand/optimised/struct_codegen.rs b/revision-derive/src/expand/optimised/struct_codegen.rs
index 4153531..73bbb74 100644
--- a/revision-derive/src/expand/optimised/struct_codegen.rs
+++ b/revision-derive/src/expand/optimised/struct_codegen.rs
@@ -157,26 +157,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 		let ty = &f.ty;
 
 		if exists_current && exists_target {
-			let decode = if f.attrs.options.indexed_map {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_seq {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
-				}
-			} else if f.attrs.options.indexed_set {
-				quote! {
-					let #binding: #ty =
-						<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
-				}
-			} else {
-				quote! {
-					let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-				}
-			};
+			let decode = decode_field_from_payload(f);
 			decode_each.append_all(decode);
 			bindings_for_construction.push(quote! { #binding });
 		} else if !exists_current && exists_target {
@@ -202,9 +183,7 @@ pub fn emit_struct_deserialize(s: &Struct, ctx: EncodingContext, target: usize)
 				.expect("convert_fn required when `end` is set; checked by AST validation");
 			let convert_ident = syn::Ident::new(&convert.value(), convert.span());
 			let rev_lit = current as u16;
-			decode_each.append_all(quote! {
-				let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
-			});
+			decode_each.append_all(decode_field_from_payload(f));
 			// Apply convert_fn after construction (handled below via __post_construct).
 			let _ = (convert_ident, rev_lit);
 		}
@@ -294,6 +273,34 @@ pub fn emit_struct_skip(_s: &Struct, _ctx: EncodingContext, slice_mode: bool) ->
 	}
 }
 
+/// Emit `let <binding> = ..;` reading one field from `__payload` with the codec
+/// the field was written with: the indexed-encoded traits when it opted in,
+/// `DeserializeRevisioned` otherwise.
+fn decode_field_from_payload(f: &Field) -> TokenStream {
+	let binding = f.name.to_binding();
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(&mut __payload)?;
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(&mut __payload)?;
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			let #binding: #ty =
+				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(&mut __payload)?;
+		}
+	} else {
+		quote! {
+			let #binding = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __payload)?;
+		}
+	}
+}
+
 fn collect_fields(s: &Struct) -> Vec<&Field> {
 	match &s.fields {
 		Fields::Named {
-- 
2.43.0


From d7cd284a0fc75d7122ca0ceb05c66f9c857acba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 04/15] fix: walkers read each field with the codec of the
 revision on the wire

---
 revision-derive/src/expand/walk.rs | 193 ++++++++++++++++++++++++-----
 1 file changed, 159 insertions(+), 34 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 2ee4e73..c701c03 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -45,7 +45,10 @@ use crate::ast::attributes::VariantSize;
 use crate::ast::history::{HistoryEntry, StructEncoding};
 use crate::ast::{Enum, Field, FieldName, Fields, Item, ItemKind, Struct, Variant, Visit};
 
-use super::common::CalcDiscriminant;
+use super::common::{
+	CalcDiscriminant, emit_deserialize_fixed_le, emit_deserialize_specialised, emit_skip_fixed_le,
+	emit_skip_specialised,
+};
 
 /// Emit the [`WalkRevisioned`] impl and supporting types for a
 /// `#[revisioned(...)]` item.
@@ -255,7 +258,7 @@ pub fn emit_walk_impl(
 
 	// Per-type method body
 	let methods = match &item.kind {
-		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s)?,
+		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s, history)?,
 		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
 	};
 
@@ -443,6 +446,7 @@ fn emit_struct_methods(
 	walker_repr_name: &Ident,
 	revision: usize,
 	s: &Struct,
+	history: &[HistoryEntry],
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
 	let fields_iter: Vec<&Field> = match &s.fields {
@@ -490,38 +494,56 @@ fn emit_struct_methods(
 		// `#[revision(indexed_map)]` / `#[revision(indexed_seq)]` route through
 		// the runtime indexed helpers; everything else uses the type's own
 		// `DeserializeRevisioned` / `SkipRevisioned` impl.
-		let field_decode_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+		//
+		// A legacy revision writes the field with its `fixed` / `specialised`
+		// codec and ignores the indexed markers; an optimised revision does the
+		// opposite. `field_legacy` picks the revisions of the first kind when a
+		// history mixes the two.
+		let legacy_revs: Vec<u16> =
+			history.iter().filter(|h| !h.is_optimised()).map(|h| h.revision.value as u16).collect();
+		let is_indexed = f.attrs.options.indexed_map
+			|| f.attrs.options.indexed_seq
+			|| f.attrs.options.indexed_set;
+		let has_legacy_codec = f.attrs.options.fixed || f.attrs.options.specialised;
+		let field_legacy = |wire_rev: TokenStream| -> TokenStream {
+			if legacy_revs.is_empty() {
+				quote! { false }
+			} else {
+				quote! { ::std::matches!(#wire_rev, #(#legacy_revs)|*) }
 			}
 		};
-		let field_skip_call = if f.attrs.options.indexed_map {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
-			}
-		} else if f.attrs.options.indexed_seq {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
-			}
-		} else if f.attrs.options.indexed_set {
-			quote! {
-				<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
-			}
-		} else {
-			quote! {
-				<#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?;
+		let legacy_decode = legacy_field_decode(f)?;
+		let legacy_skip = legacy_field_skip(f)?;
+		let optimised_decode = optimised_field_decode(f);
+		let optimised_skip = optimised_field_skip(f);
+		let by_layout =
+			|wire_rev: TokenStream, legacy: &TokenStream, optimised: &TokenStream| -> TokenStream {
+				if legacy_revs.is_empty() || !(is_indexed || has_legacy_codec) {
+					optimised.clone()
+				} else if legacy_revs.len() == history.len() {
+					legacy.clone()
+				} else {
+					let is_legacy = field_legacy(wire_rev);
+					quote! { if #is_legacy { #legacy } else { #optimised } }
+				}
+			};
+		let field_decode_call = by_layout(quote! { *wire_rev }, &legacy_decode, &optimised_decode);
+		let field_skip_call = by_layout(quote! { *wire_rev }, &legacy_skip, &optimised_skip);
+		let field_skip_call_owned = by_layout(quote! { wire_rev }, &legacy_skip, &optimised_skip);
+		// The child walker of a field reads its type's own encoding, which is
+		// not what a legacy revision wrote for `fixed` / `specialised` fields.
+		let walk_codec_check = |wire_rev: TokenStream| -> TokenStream {
+			if has_legacy_codec && !legacy_revs.is_empty() {
+				let is_legacy = field_legacy(wire_rev);
+				quote! {
+					if #is_legacy {
+						return ::std::result::Result::Err(::revision::Error::Conversion(
+							"walk_<field> is not supported on `fixed` / `specialised` fields; use decode_<field>".into(),
+						));
+					}
+				}
+			} else {
+				quote! {}
 			}
 		};
 
@@ -557,8 +579,10 @@ fn emit_struct_methods(
 
 		// Consuming variant body — `reader` is `&'r mut R` (moved from `self.repr`),
 		// `wire_rev` is `u16` (moved).
+		let into_walk_codec_check = walk_codec_check(quote! { wire_rev });
 		let into_walk_wire_body = if always_present {
 			quote! {
+				#into_walk_codec_check
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		} else {
@@ -572,6 +596,7 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, wire_rev),
 					));
 				}
+				#into_walk_codec_check
 				<#ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
 			}
 		};
@@ -580,8 +605,10 @@ fn emit_struct_methods(
 		// `match &mut self.repr`); reborrow as `&mut R` via `&mut **reader`
 		// so the inner walker carries a shorter lifetime tied to `&mut self`.
 		// `wire_rev` is `&mut u16`, so dereference for comparison.
+		let walk_codec_check_borrow = walk_codec_check(quote! { *wire_rev });
 		let walk_wire_body_borrow = if always_present {
 			quote! {
+				#walk_codec_check_borrow
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -597,6 +624,7 @@ fn emit_struct_methods(
 						::std::format!(#walk_err_msg, *wire_rev),
 					));
 				}
+				#walk_codec_check_borrow
 				let __w = <#ty as ::revision::WalkRevisioned>::walk_revisioned(&mut **reader)?;
 				*pos = #pos_lit + 1;
 				::std::result::Result::Ok(__w)
@@ -660,12 +688,41 @@ fn emit_struct_methods(
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
 		// `BorrowedReader` contract).
+		//
+		// A legacy revision wrote the field without an offset table, so there
+		// is nothing to borrow: fall through to decoding and re-encoding it.
+		let indexed_field_is_legacy = field_legacy(quote! { __wire_rev });
+		let indexed_start_check = if always_present {
+			quote! {}
+		} else {
+			let walk_err_msg = format!(
+				"walk_{} not available at wire revision {{}}: field added at revision {}",
+				method_base, start_val,
+			);
+			quote! {
+				if __wire_rev < #start_val {
+					return ::std::result::Result::Err(::revision::Error::Conversion(
+						::std::format!(#walk_err_msg, __wire_rev),
+					));
+				}
+			}
+		};
 		let fast_path_wire = |view_ty: &TokenStream,
 		                      skip_call: &TokenStream,
 		                      self_expr: &TokenStream|
 		 -> TokenStream {
 			quote! {
-				if let #walker_repr_name::Wire { reader, .. } = &mut #self_expr.repr {
+				let __indexed_on_wire = match &#self_expr.repr {
+					#walker_repr_name::Wire { wire_rev, .. } => {
+						let __wire_rev = *wire_rev;
+						#indexed_start_check
+						!#indexed_field_is_legacy
+					}
+					_ => false,
+				};
+				if let (#walker_repr_name::Wire { reader, .. }, true) =
+					(&mut #self_expr.repr, __indexed_on_wire)
+				{
 					let __before = ::revision::BorrowedReader::remaining(*reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
@@ -976,7 +1033,7 @@ fn emit_struct_methods(
 					let __before = ::revision::BorrowedReader::remaining(reader);
 					let __before_ptr = __before.as_ptr();
 					let __before_len = __before.len();
-					#field_skip_call
+					#field_skip_call_owned
 					let __after_len = ::revision::BorrowedReader::remaining(reader).len();
 					let __consumed_len = __before_len
 						.checked_sub(__after_len)
@@ -1150,6 +1207,74 @@ fn emit_struct_methods(
 	Ok(out)
 }
 
+/// Expression decoding a field from `reader` as a legacy revision wrote it.
+fn legacy_field_decode(f: &Field) -> syn::Result<TokenStream> {
+	let ty = &f.ty;
+	let reader = quote! { reader };
+	if f.attrs.options.fixed {
+		emit_deserialize_fixed_le(ty, &reader)
+	} else if f.attrs.options.specialised {
+		Ok(emit_deserialize_specialised(ty, &reader))
+	} else {
+		Ok(quote! { <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)? })
+	}
+}
+
+/// Statement skipping a field in `reader` as a legacy revision wrote it.
+fn legacy_field_skip(f: &Field) -> syn::Result<TokenStream> {
+	let ty = &f.ty;
+	let reader = quote! { reader };
+	if f.attrs.options.fixed {
+		emit_skip_fixed_le(ty, &reader)
+	} else if f.attrs.options.specialised {
+		Ok(emit_skip_specialised(ty, &reader, false))
+	} else {
+		Ok(quote! { <#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?; })
+	}
+}
+
+/// Expression decoding a struct field from `reader` as an optimised revision
+/// wrote it.
+fn optimised_field_decode(f: &Field) -> TokenStream {
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::deserialize_indexed_map(reader)?
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::deserialize_indexed_seq(reader)?
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::deserialize_indexed_set(reader)?
+		}
+	} else {
+		quote! { <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)? }
+	}
+}
+
+/// Statement skipping a struct field in `reader` as an optimised revision wrote
+/// it.
+fn optimised_field_skip(f: &Field) -> TokenStream {
+	let ty = &f.ty;
+	if f.attrs.options.indexed_map {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedMapEncoded>::skip_indexed_map(reader)?;
+		}
+	} else if f.attrs.options.indexed_seq {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSeqEncoded>::skip_indexed_seq(reader)?;
+		}
+	} else if f.attrs.options.indexed_set {
+		quote! {
+			<#ty as ::revision::optimised::indexed::IndexedSetEncoded>::skip_indexed_set(reader)?;
+		}
+	} else {
+		quote! { <#ty as ::revision::SkipRevisioned>::skip_revisioned(reader)?; }
+	}
+}
+
 /// Helper: return the suffix for `decode_<x>` / `skip_<x>` / `walk_<x>`.
 /// For named fields it's the field identifier; for tuple fields it's
 /// `field_<idx>` (matching the existing `FieldName::to_binding` convention).
-- 
2.43.0


From 871b87671595800437648071b1a194b623de094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:07 +0000
Subject: [PATCH 05/15] fix: indexed struct walkers use the field layout of the
 revision on the wire

---
 revision-derive/src/expand/walk.rs | 198 +++++++++++++++--------------
 1 file changed, 102 insertions(+), 96 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index c701c03..d0abe8f 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -160,24 +160,19 @@ pub fn emit_walk_impl(
 	//   declared size class, and return an OptimisedBorrowed walker with
 	//   `discriminant = variant_id` (the existing per-variant decode code on
 	//   the OptimisedBorrowed arm reads the borrowed payload directly).
-	let optimised_struct_field_count = match &item.kind {
-		ItemKind::Struct(s) => Some(alive_field_count(s, revision) as u32),
-		ItemKind::Enum(_) => None,
-	};
 	let optimised_skip_arms: Vec<TokenStream> = history
 		.iter()
 		.filter(|h| h.is_optimised())
 		.map(|h| -> syn::Result<TokenStream> {
 			let rev_lit = h.revision.value as u16;
 			match &item.kind {
-				ItemKind::Struct(_) => {
+				ItemKind::Struct(s) => {
 					if matches!(h.struct_kind, StructEncoding::Indexed) {
 						// Indexed struct: borrow the payload directly from the
 						// reader's buffer (no allocation) and return an
 						// IndexedBorrowed walker. Per-field methods jump via
 						// offsets in O(1).
-						let field_count = optimised_struct_field_count.unwrap_or(0) as usize;
-						let field_count_u16 = field_count as u16;
+						let field_count_u16 = alive_field_count(s, h.revision.value) as u16;
 						Ok(quote! {
 							#rev_lit => {
 								let mut __len_buf = [0u8; 4];
@@ -192,6 +187,7 @@ pub fn emit_walk_impl(
 								return ::std::result::Result::Ok(#walker_name {
 									repr: #walker_repr_name::IndexedBorrowed {
 										bytes: __payload,
+										wire_rev: #rev_lit,
 										field_count: #field_count_u16,
 										pos: 0,
 										_marker: ::std::marker::PhantomData,
@@ -305,7 +301,7 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::IndexedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::IndexedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
@@ -375,6 +371,7 @@ fn emit_struct_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> T
 			/// demand from `bytes[i*4..i*4+4]` for O(1) random access.
 			IndexedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				field_count: u16,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -547,17 +544,48 @@ fn emit_struct_methods(
 			}
 		};
 
+		// Position of this field in the offset table of each `indexed_struct`
+		// revision that has it.
+		let indexed_slots: Vec<TokenStream> = history
+			.iter()
+			.filter(|h| h.is_optimised() && matches!(h.struct_kind, StructEncoding::Indexed))
+			.filter_map(|h| {
+				let slot = fields_iter
+					.iter()
+					.filter(|g| g.attrs.options.exists_at(h.revision.value))
+					.position(|g| ::std::ptr::eq(*g, *f))?;
+				let rev_lit = h.revision.value as u16;
+				Some(quote! { #rev_lit => #slot, })
+			})
+			.collect();
+		let indexed_bytes_name = format_ident!("__indexed_bytes_{}", method_base);
+		let indexed_absent_msg = format!(
+			"field {} not available at wire revision {{}}: field added at revision {}",
+			method_base, start_val,
+		);
+
+		let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
+			let default = Ident::new(&default.value(), default.span());
+			quote! { #owner_name::#default(*wire_rev)? }
+		} else {
+			quote! { <#ty as ::std::default::Default>::default() }
+		};
+		// A field present since revision 1 is never absent, and its type need
+		// not have a default.
+		let indexed_absent_value = if always_present {
+			quote! {
+				return ::std::result::Result::Err(::revision::Error::Conversion(
+					::std::format!(#indexed_absent_msg, *wire_rev),
+				))
+			}
+		} else {
+			default_expr.clone()
+		};
 		let decode_wire_body = if always_present {
 			quote! {
 				let __v = #field_decode_call;
 			}
 		} else {
-			let default_expr = if let Some(default) = f.attrs.options.default.as_ref() {
-				let default = Ident::new(&default.value(), default.span());
-				quote! { #owner_name::#default(*wire_rev)? }
-			} else {
-				quote! { <#ty as ::std::default::Default>::default() }
-			};
 			quote! {
 				let __v = if *wire_rev >= #start_val {
 					#field_decode_call
@@ -657,33 +685,21 @@ fn emit_struct_methods(
 		// `self_expr` is the identifier used for the walker instance — `self`
 		// for `walk_<field>(&mut self)` and `__self` for
 		// `into_walk_<field>(self)` after the `let mut __self = self;` rebind.
-		let fast_path_indexed_borrowed =
-			|view_ty: &TokenStream, self_expr: &TokenStream| -> TokenStream {
-				quote! {
-					if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &#self_expr.repr {
-						let __bytes_borrow: &'r [u8] = *bytes;
-						let __fc = *field_count as usize;
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							__bytes_borrow[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < __fc {
-							u32::from_le_bytes(
-								__bytes_borrow[__off_base + 4..__off_base + 8]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							__bytes_borrow.len()
-						};
-						return ::std::result::Result::Ok(
-							#view_ty::new(::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end])),
-						);
-					}
+		let fast_path_indexed_borrowed = |view_ty: &TokenStream,
+		                                  self_expr: &TokenStream|
+		 -> TokenStream {
+			quote! {
+				if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &#self_expr.repr {
+					let __field = Self::#indexed_bytes_name(*bytes, *wire_rev, *field_count)?
+						.ok_or_else(|| ::revision::Error::Conversion(
+							::std::format!(#indexed_absent_msg, *wire_rev),
+						))?;
+					return ::std::result::Result::Ok(
+						#view_ty::new(::std::borrow::Cow::Borrowed(__field)),
+					);
 				}
-			};
+			}
+		};
 		// Wire-parent fast path: skip the field, derive its bytes from the
 		// before/after `remaining()` snapshots, lifetime-extend via the
 		// canonical unsafe pattern (peeked bytes stay valid for `'r` per the
@@ -987,44 +1003,12 @@ fn emit_struct_methods(
 		let into_field_bytes_body = quote! {
 			let __self = self;
 			// IndexedBorrowed fast path — borrow from the offset table.
-			if let #walker_repr_name::IndexedBorrowed { bytes, field_count, .. } = &__self.repr {
-				let __bytes_borrow: &'r [u8] = *bytes;
-				let __fc = *field_count as usize;
-				let __off_base = (#pos_lit as usize) * 4;
-				// Bounds-check the offset table reads. The non-last-field
-				// branch reads two consecutive entries, so it needs 8
-				// bytes; the last-field branch only needs its own 4.
-				let __needed = if (#pos_lit as usize) + 1 < __fc { 8 } else { 4 };
-				if __off_base + __needed > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed offset table truncated".into(),
-					));
-				}
-				let __start = u32::from_le_bytes(
-					__bytes_borrow[__off_base..__off_base + 4]
-						.try_into()
-						.expect("4-byte slice"),
-				) as usize;
-				let __end = if (#pos_lit as usize) + 1 < __fc {
-					u32::from_le_bytes(
-						__bytes_borrow[__off_base + 4..__off_base + 8]
-							.try_into()
-							.expect("4-byte slice"),
-					) as usize
-				} else {
-					__bytes_borrow.len()
-				};
-				// Validate the slice bounds before indexing — a malformed
-				// payload with `start > end` or `end > len` would otherwise
-				// panic in the slice op.
-				if __start > __end || __end > __bytes_borrow.len() {
-					return ::std::result::Result::Err(::revision::Error::Deserialize(
-						"IndexedBorrowed field offsets out of range".into(),
-					));
-				}
-				return ::std::result::Result::Ok(
-					::std::borrow::Cow::Borrowed(&__bytes_borrow[__start..__end]),
-				);
+			if let #walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, .. } = &__self.repr {
+				let __field = Self::#indexed_bytes_name(*bytes, *wire_rev, *field_count)?
+					.ok_or_else(|| ::revision::Error::Conversion(
+						::std::format!(#indexed_absent_msg, *wire_rev),
+					))?;
+				return ::std::result::Result::Ok(::std::borrow::Cow::Borrowed(__field));
 			}
 			// Wire / ConvertedOwned: consume `__self.repr`.
 			match __self.repr {
@@ -1079,6 +1063,39 @@ fn emit_struct_methods(
 		};
 
 		out.append_all(quote! {
+			/// Bytes of this field inside an `indexed_struct` payload written at
+			/// `wire_rev`, or `None` when that revision does not have the field.
+			#[doc(hidden)]
+			#[allow(non_snake_case, unreachable_code, unused_variables)]
+			fn #indexed_bytes_name(
+				bytes: &'r [u8],
+				wire_rev: u16,
+				field_count: u16,
+			) -> ::std::result::Result<::std::option::Option<&'r [u8]>, ::revision::Error> {
+				let __slot: usize = match wire_rev {
+					#(#indexed_slots)*
+					_ => return ::std::result::Result::Ok(::std::option::Option::None),
+				};
+				let __offset = |__i: usize| -> ::std::result::Result<usize, ::revision::Error> {
+					let __entry = bytes
+						.get(__i * 4..__i * 4 + 4)
+						.ok_or(::revision::Error::OptimisedSubReaderOverrun)?;
+					::std::result::Result::Ok(
+						u32::from_le_bytes(__entry.try_into().expect("4-byte slice")) as usize
+					)
+				};
+				let __start = __offset(__slot)?;
+				let __end = if __slot + 1 < field_count as usize {
+					__offset(__slot + 1)?
+				} else {
+					bytes.len()
+				};
+				let __field = bytes.get(__start..__end).ok_or_else(|| {
+					::revision::Error::Deserialize("IndexedBorrowed field offsets out of range".into())
+				})?;
+				::std::result::Result::Ok(::std::option::Option::Some(__field))
+			}
+
 			/// Decode this field, advancing the walker.
 			///
 			/// For `IndexedBorrowed` walkers (optimised + `indexed_struct`),
@@ -1093,28 +1110,17 @@ fn emit_struct_methods(
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-					#walker_repr_name::IndexedBorrowed { bytes, field_count, pos, .. } => {
+					#walker_repr_name::IndexedBorrowed { bytes, wire_rev, field_count, pos, .. } => {
 						// Indexed struct: parse this field's offset from the
 						// table at the start of `bytes`. O(1) — two u32 reads,
 						// no Vec<u32> alloc.
-						let __off_base = (#pos_lit as usize) * 4;
-						let __start = u32::from_le_bytes(
-							bytes[__off_base..__off_base + 4]
-								.try_into()
-								.expect("4-byte slice"),
-						) as usize;
-						let __end = if (#pos_lit as usize) + 1 < (*field_count as usize) {
-							let __next_base = __off_base + 4;
-							u32::from_le_bytes(
-								bytes[__next_base..__next_base + 4]
-									.try_into()
-									.expect("4-byte slice"),
-							) as usize
-						} else {
-							bytes.len()
+						let __v = match Self::#indexed_bytes_name(*bytes, *wire_rev, *field_count)? {
+							::std::option::Option::Some(mut __slice) => {
+								let reader = &mut __slice;
+								#optimised_decode
+							}
+							::std::option::Option::None => #indexed_absent_value,
 						};
-						let mut __slice: &[u8] = &bytes[__start..__end];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
 					}
-- 
2.43.0


From f4b2063fb3cdc9150df2786426e5d286c3cb6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:43 +0000
Subject: [PATCH 06/15] fix: materialised walkers start after the envelope of
 an optimised revision

---
 revision-derive/src/expand/walk.rs | 73 ++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index d0abe8f..4a82095 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -99,6 +99,34 @@ pub fn emit_walk_impl(
 		ItemKind::Enum(_) => emit_enum_walker_struct(&walker_name, &walker_repr_name),
 	};
 
+	// Header of the current revision after its `u16`, which the materialised
+	// path has to step over.
+	let current_entry = history.last().expect("history non-empty");
+	let current_envelope_len: usize = match &item.kind {
+		ItemKind::Struct(s) if current_entry.is_optimised() => {
+			if matches!(current_entry.struct_kind, StructEncoding::Indexed) {
+				4 + alive_field_count(s, revision) * 4
+			} else {
+				4
+			}
+		}
+		_ => 0,
+	};
+	let current_discriminant = if current_entry.is_optimised() {
+		quote! {
+			let __tag = ::revision::optimised::tag::read_tag(&mut __slice)?;
+			if let ::revision::optimised::tag::SizeClass::Varlen = __tag.size_class()? {
+				::revision::slice_reader::advance_read(&mut __slice, 4)?;
+			}
+			let __mat_disc = __tag.variant_id() as u32;
+		}
+	} else {
+		quote! {
+			let __mat_disc =
+				<u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+		}
+	};
+
 	// Construction: read the u16 header, optionally materialise.
 	let materialise_branch = if !materialise_supported {
 		quote! {}
@@ -111,7 +139,8 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let __cursor = __buf.len() - __slice.len();
+					// Step over the envelope of an optimised current revision.
+					let __cursor = __buf.len() - __slice.len() + #current_envelope_len;
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -129,13 +158,8 @@ pub fn emit_walk_impl(
 					<Self as ::revision::SerializeRevisioned>::serialize_revisioned(&__value, &mut __buf)?;
 					let mut __slice: &[u8] = __buf.as_slice();
 					let _ = <u16 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
-					let mut __cursor = __buf.len() - __slice.len();
-					let __mat_disc = {
-						let mut __ms: &[u8] = &__buf[__cursor..];
-						let __d = <u32 as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __ms)?;
-						__cursor = __buf.len() - __ms.len();
-						__d
-					};
+					#current_discriminant
+					let __cursor = __buf.len() - __slice.len();
 					return ::std::result::Result::Ok(#walker_name {
 						repr: #walker_repr_name::ConvertedOwned {
 							bytes: __buf,
@@ -524,6 +548,12 @@ fn emit_struct_methods(
 					quote! { if #is_legacy { #legacy } else { #optimised } }
 				}
 			};
+		// The materialised path holds the current revision's encoding.
+		let (current_decode, current_skip) = if legacy_revs.contains(&(revision as u16)) {
+			(&legacy_decode, &legacy_skip)
+		} else {
+			(&optimised_decode, &optimised_skip)
+		};
 		let field_decode_call = by_layout(quote! { *wire_rev }, &legacy_decode, &optimised_decode);
 		let field_skip_call = by_layout(quote! { *wire_rev }, &legacy_skip, &optimised_skip);
 		let field_skip_call_owned = by_layout(quote! { wire_rev }, &legacy_skip, &optimised_skip);
@@ -982,8 +1012,8 @@ fn emit_struct_methods(
 		//   of the field; lifetime-extend the consumed slice via the
 		//   `BorrowedReader` contract (same unsafe pattern as
 		//   `read_borrowed_bytes`). Returns `Cow::Borrowed` at `'r`.
-		// - `ConvertedOwned`: decode the field from the parent's
-		//   materialised bytes, re-encode into a fresh `Vec<u8>`.
+		// - `ConvertedOwned`: copy the field out of the parent's
+		//   materialised bytes into a fresh `Vec<u8>`.
 		//   Returns `Cow::Owned`. Rare cross-rev `convert_fn` path.
 		let into_field_bytes_wire_rev_check = if always_present {
 			quote! {}
@@ -1045,13 +1075,12 @@ fn emit_struct_methods(
 				}
 				#walker_repr_name::ConvertedOwned { bytes, cursor, pos: _, .. } => {
 					let mut __slice: &[u8] = &bytes[cursor..];
-					let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(
-						&mut __slice,
-					)?;
-					let mut __out: ::std::vec::Vec<u8> = ::std::vec::Vec::new();
-					<#ty as ::revision::SerializeRevisioned>::serialize_revisioned(
-						&__v, &mut __out,
-					)?;
+					{
+						let reader = &mut __slice;
+						#current_skip
+					}
+					let __end = bytes.len() - __slice.len();
+					let __out = bytes[cursor..__end].to_vec();
 					::std::result::Result::Ok(::std::borrow::Cow::Owned(__out))
 				}
 				#walker_repr_name::IndexedBorrowed { .. } => {
@@ -1127,7 +1156,10 @@ fn emit_struct_methods(
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						// Sequential materialised path (convert_fn round-trip).
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						let __v = <#ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)?;
+						let __v = {
+							let reader = &mut __slice;
+							#current_decode
+						};
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(__v)
@@ -1155,7 +1187,10 @@ fn emit_struct_methods(
 					}
 					#walker_repr_name::ConvertedOwned { bytes, cursor, pos, .. } => {
 						let mut __slice: &[u8] = &bytes[*cursor..];
-						<#ty as ::revision::SkipRevisioned>::skip_revisioned(&mut __slice)?;
+						{
+							let reader = &mut __slice;
+							#current_skip
+						}
 						*cursor = bytes.len() - __slice.len();
 						*pos = #pos_lit + 1;
 						::std::result::Result::Ok(())
-- 
2.43.0


From d5990bb52e8bbfe0a06bff9888e77ac0a48a27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 07/15] fix: optimised enum walkers match variants at the
 revision on the wire

---
 revision-derive/src/expand/walk.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 4a82095..a13a9fc 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -300,13 +300,13 @@ pub fn emit_walk_impl(
 			pub fn revision(&self) -> u16 {
 				match &self.repr {
 					#walker_repr_name::Wire { wire_rev, .. } => *wire_rev,
-					#walker_repr_name::OptimisedBorrowed { .. } => #revision_lit,
+					#walker_repr_name::OptimisedBorrowed { wire_rev, .. } => *wire_rev,
 					#walker_repr_name::ConvertedOwned { .. } => #revision_lit,
 				}
 			}
 
-			/// Variant discriminant on the wire (for `Wire`) or on the
-			/// re-encoded current-rev bytes (for the borrowed / owned arms).
+			/// Variant discriminant on the wire (for `Wire` and the borrowed arm)
+			/// or on the re-encoded current-rev bytes (for the owned arm).
 			/// Use
 			/// [`walk_revisioned_variant_name`](Self::walk_revisioned_variant_name)
 			/// to map this to a variant identifier.
@@ -441,6 +441,7 @@ fn emit_enum_walker_struct(walker_name: &Ident, walker_repr_name: &Ident) -> Tok
 			/// after the `u32_le` length prefix).
 			OptimisedBorrowed {
 				bytes: &'r [u8],
+				wire_rev: u16,
 				discriminant: u32,
 				pos: u32,
 				_marker: ::std::marker::PhantomData<&'r mut R>,
@@ -1394,21 +1395,19 @@ fn emit_enum_methods(
 
 		out.append_all(quote! {
 			/// Returns `true` if the wire's discriminant identifies this variant
-			/// at the wire revision (or, for borrowed / owned walkers, on the
-			/// current-rev bytes).
+			/// at the wire revision (or, for owned walkers, on the current-rev
+			/// bytes).
 			#[inline]
 			pub fn #is_name(&self) -> bool {
 				match &self.repr {
-					#walker_repr_name::Wire { wire_rev, discriminant, .. } => {
+					#walker_repr_name::Wire { wire_rev, discriminant, .. }
+					| #walker_repr_name::OptimisedBorrowed { wire_rev, discriminant, .. } => {
 						let __expected: ::std::option::Option<u32> = match *wire_rev {
 							#(#wire_disc_arms)*
 							_ => ::std::option::Option::None,
 						};
 						__expected == ::std::option::Option::Some(*discriminant)
 					}
-					#walker_repr_name::OptimisedBorrowed { discriminant, .. } => {
-						*discriminant == #current_disc
-					}
 					#walker_repr_name::ConvertedOwned { discriminant, .. } => {
 						*discriminant == #current_disc
 					}
@@ -1897,6 +1896,7 @@ fn emit_optimised_enum_walker_arm(
 			return ::std::result::Result::Ok(#walker_name {
 				repr: #walker_repr_name::OptimisedBorrowed {
 					bytes: __payload,
+					wire_rev: #rev_lit,
 					discriminant: __variant_id as u32,
 					pos: 0,
 					_marker: ::std::marker::PhantomData,
-- 
2.43.0


From 499d49e846999f2a0cb4cc96b7f9cc603ab5bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 08/15] fix: enum walkers decode a variant's field as the
 revision on the wire wrote it

---
 revision-derive/src/expand/walk.rs | 89 +++++++++++++++++++++++++++---
 1 file changed, 80 insertions(+), 9 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index a13a9fc..20a5904 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -279,7 +279,7 @@ pub fn emit_walk_impl(
 	// Per-type method body
 	let methods = match &item.kind {
 		ItemKind::Struct(s) => emit_struct_methods(name, &walker_repr_name, revision, s, history)?,
-		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e)?,
+		ItemKind::Enum(e) => emit_enum_methods(name, &walker_repr_name, revision, e, history)?,
 	};
 
 	// Introspection tables
@@ -1341,8 +1341,10 @@ fn emit_enum_methods(
 	walker_repr_name: &Ident,
 	revision: usize,
 	e: &Enum,
+	history: &[HistoryEntry],
 ) -> syn::Result<TokenStream> {
 	let mut out = TokenStream::new();
+	let current_is_legacy = !history.last().expect("history non-empty").is_optimised();
 
 	// Per-revision discriminant tables. We need:
 	// - For `into_<variant>` at runtime we look up "what discriminant does
@@ -1459,6 +1461,70 @@ fn emit_enum_methods(
 					.find(|f| f.attrs.options.exists_at(revision))
 					.expect("variant has a field at current rev");
 				let inner_ty = &inner_field.ty;
+				// Legacy revisions write the field with its `fixed` /
+				// `specialised` codec; optimised ones never do.
+				let legacy_decode = legacy_field_decode(inner_field)?;
+				let plain_decode = quote! {
+					<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?
+				};
+				let current_decode = if current_is_legacy {
+					&legacy_decode
+				} else {
+					&plain_decode
+				};
+				let has_legacy_codec =
+					inner_field.attrs.options.fixed || inner_field.attrs.options.specialised;
+				let into_wire_body = if has_legacy_codec {
+					quote! {
+						let _ = reader;
+						::std::result::Result::Err(::revision::Error::Conversion(
+							"into_<variant> is not supported on `fixed` / `specialised` fields; use `decode_<variant>` instead".into(),
+						))
+					}
+				} else {
+					quote! { <#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader) }
+				};
+				// A revision before the field's `start` wrote the variant
+				// without it: there is nothing to walk into, and decoding
+				// yields the same value as a full decode.
+				let start_val =
+					inner_field.attrs.options.start.as_ref().map(|s| s.value).unwrap_or(0) as u16;
+				let (absent_error, absent_value) = if start_val == 0 {
+					(quote! {}, quote! {})
+				} else {
+					let absent_msg = format!(
+						"field of variant `{}` not available at wire revision {{}}: field added at revision {}",
+						variant_ident, start_val,
+					);
+					let default_expr = match inner_field.attrs.options.default.as_ref() {
+						Some(default) => {
+							let default = Ident::new(&default.value(), default.span());
+							quote! { #enum_name::#default(*wire_rev) }
+						}
+						None => quote! {
+							::std::result::Result::Ok(<#inner_ty as ::std::default::Default>::default())
+						},
+					};
+					let when_absent = |body: TokenStream| -> TokenStream {
+						quote! {
+							if let #walker_repr_name::Wire { wire_rev, .. }
+							| #walker_repr_name::OptimisedBorrowed { wire_rev, .. } = &self.repr
+							{
+								if *wire_rev < #start_val {
+									return #body;
+								}
+							}
+						}
+					};
+					(
+						when_absent(quote! {
+							::std::result::Result::Err(::revision::Error::Conversion(
+								::std::format!(#absent_msg, wire_rev),
+							))
+						}),
+						when_absent(default_expr),
+					)
+				};
 				out.append_all(quote! {
 					/// Walk into the payload of the `#variant_ident` variant.
 					///
@@ -1481,9 +1547,10 @@ fn emit_enum_methods(
 								),
 							));
 						}
+						#absent_error
 						match self.repr {
 							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::WalkRevisioned>::walk_revisioned(reader)
+								#into_wire_body
 							}
 							#walker_repr_name::OptimisedBorrowed { .. } => {
 								::std::result::Result::Err(::revision::Error::Conversion(
@@ -1517,19 +1584,23 @@ fn emit_enum_methods(
 								),
 							));
 						}
-						match self.repr {
+						#absent_value
+						let __v: #inner_ty = match self.repr {
 							#walker_repr_name::Wire { reader, .. } => {
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)
+								#legacy_decode
 							}
 							#walker_repr_name::OptimisedBorrowed { bytes, .. } => {
 								let mut __slice: &[u8] = bytes;
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								#plain_decode
 							}
 							#walker_repr_name::ConvertedOwned { ref bytes, cursor, .. } => {
 								let mut __slice: &[u8] = &bytes[cursor..];
-								<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(&mut __slice)
+								let reader = &mut __slice;
+								#current_decode
 							}
-						}
+						};
+						::std::result::Result::Ok(__v)
 					}
 
 					/// Return the variant payload as a [`VariantView`].
@@ -1562,13 +1633,13 @@ fn emit_enum_methods(
 								),
 							));
 						}
+						#absent_error
 						let __bytes: ::std::borrow::Cow<'r, [u8]> = match self.repr {
 							#walker_repr_name::Wire { reader, .. } => {
 								// Read the inner value then re-emit its bytes.
 								// One alloc + one re-serialise; matches the
 								// indexed-field view shape.
-								let __v: #inner_ty =
-									<#inner_ty as ::revision::DeserializeRevisioned>::deserialize_revisioned(reader)?;
+								let __v: #inner_ty = #legacy_decode;
 								let mut __buf = ::std::vec::Vec::new();
 								<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
 								::std::borrow::Cow::Owned(__buf)
-- 
2.43.0


From aa0f9aa229fe21527bbfa4c16af56c906783d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:10 +0000
Subject: [PATCH 09/15] fix: variant views hold the plain encoding of fixed and
 specialised fields

---
 revision-derive/src/expand/walk.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/revision-derive/src/expand/walk.rs b/revision-derive/src/expand/walk.rs
index 20a5904..1c0ebc1 100644
--- a/revision-derive/src/expand/walk.rs
+++ b/revision-derive/src/expand/walk.rs
@@ -1474,6 +1474,24 @@ fn emit_enum_methods(
 				};
 				let has_legacy_codec =
 					inner_field.attrs.options.fixed || inner_field.attrs.options.specialised;
+				// A view holds the plain encoding of the field, so a payload in a
+				// `fixed` / `specialised` codec is decoded and re-encoded.
+				let owned_view_bytes = if has_legacy_codec && current_is_legacy {
+					quote! {
+						let mut __slice: &[u8] = &bytes[cursor..];
+						let reader = &mut __slice;
+						let __v: #inner_ty = #current_decode;
+						let mut __buf = ::std::vec::Vec::new();
+						<#inner_ty as ::revision::SerializeRevisioned>::serialize_revisioned(&__v, &mut __buf)?;
+						::std::borrow::Cow::Owned(__buf)
+					}
+				} else {
+					quote! {
+						let mut v = bytes;
+						v.drain(..cursor);
+						::std::borrow::Cow::Owned(v)
+					}
+				};
 				let into_wire_body = if has_legacy_codec {
 					quote! {
 						let _ = reader;
@@ -1651,9 +1669,7 @@ fn emit_enum_methods(
 							}
 							#walker_repr_name::ConvertedOwned { bytes, cursor, .. } => {
 								// cross-revision convert_fn re-encode — owned.
-								let mut v = bytes;
-								v.drain(..cursor);
-								::std::borrow::Cow::Owned(v)
+								#owned_view_bytes
 							}
 						};
 						::std::result::Result::Ok(
-- 
2.43.0


From eda11228beb318f1edf022d5e96925bb32084302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 10/15] fix: report out-of-range Duration and SystemTime
 encodings as errors

Duration::new and SystemTime's Add panic when the decoded seconds and
nanoseconds overflow; decoding arbitrary bytes must return an error.
---
 src/implementations/duration.rs    | 5 ++++-
 src/implementations/system_time.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/implementations/duration.rs b/src/implementations/duration.rs
index bdc15dc..d7f20fd 100644
--- a/src/implementations/duration.rs
+++ b/src/implementations/duration.rs
@@ -18,7 +18,10 @@ impl DeserializeRevisioned for Duration {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(Duration::new(secs, nanos))
+		// `Duration::new` panics when the carry from `nanos` overflows `secs`.
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos.into()))
+			.ok_or_else(|| Error::Deserialize("duration out of range".to_string()))
 	}
 }
 
diff --git a/src/implementations/system_time.rs b/src/implementations/system_time.rs
index 6887a7b..44147d8 100644
--- a/src/implementations/system_time.rs
+++ b/src/implementations/system_time.rs
@@ -20,7 +20,10 @@ impl DeserializeRevisioned for SystemTime {
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let secs = u64::deserialize_revisioned(reader)?;
 		let nanos = u32::deserialize_revisioned(reader)?;
-		Ok(UNIX_EPOCH + Duration::new(secs, nanos))
+		Duration::from_secs(secs)
+			.checked_add(Duration::from_nanos(nanos.into()))
+			.and_then(|duration| UNIX_EPOCH.checked_add(duration))
+			.ok_or_else(|| Error::Deserialize("system time out of range".to_string()))
 	}
 }
 
-- 
2.43.0


From 666cd36ddce400cefa457bc42b80e9531b528894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 11/15] fix: bounds checks of indexed payloads no longer
 overflow

A corrupt length makes the offset table's size close to usize::MAX, so that
adding the header size to it wraps (or panics with overflow checks).
---
 src/optimised/indexed/map_walk.rs  | 2 +-
 src/optimised/indexed/seq_walk.rs  | 2 +-
 src/optimised/indexed/serialize.rs | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/optimised/indexed/map_walk.rs b/src/optimised/indexed/map_walk.rs
index 8c80efa..f90242d 100644
--- a/src/optimised/indexed/map_walk.rs
+++ b/src/optimised/indexed/map_walk.rs
@@ -180,7 +180,7 @@ impl<'p, K, V> IndexedMapWalker<'p, K, V> {
 		let table_bytes = len
 			.checked_mul(8)
 			.ok_or_else(|| Error::Deserialize("indexed-map offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		// Borrow the interleaved `(key_off, val_off)` table directly from the
diff --git a/src/optimised/indexed/seq_walk.rs b/src/optimised/indexed/seq_walk.rs
index 53ebe61..85f1efa 100644
--- a/src/optimised/indexed/seq_walk.rs
+++ b/src/optimised/indexed/seq_walk.rs
@@ -108,7 +108,7 @@ impl<'p, T> IndexedSeqWalker<'p, T> {
 		let table_bytes = len
 			.checked_mul(4)
 			.ok_or_else(|| Error::Deserialize("indexed-seq offset table size overflow".into()))?;
-		if payload.len() < cursor + table_bytes {
+		if payload.len() - cursor < table_bytes {
 			return Err(Error::OptimisedSubReaderOverrun);
 		}
 		let offsets = &payload[cursor..cursor + table_bytes];
diff --git a/src/optimised/indexed/serialize.rs b/src/optimised/indexed/serialize.rs
index f249083..3eed73b 100644
--- a/src/optimised/indexed/serialize.rs
+++ b/src/optimised/indexed/serialize.rs
@@ -138,7 +138,8 @@ where
 		}
 		// Skip the offset tables + region lengths.
 		let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-		advance_read(r, table_bytes + 8)?;
+		advance_read(r, table_bytes)?;
+		advance_read(r, 8)?;
 		let mut keys: Vec<K> = Vec::with_capacity(len);
 		for _ in 0..len {
 			keys.push(K::deserialize_revisioned(r)?);
@@ -748,7 +749,8 @@ where
 	// Skip the offset table (len * 8) and region-length pair (8 bytes); we
 	// don't need them for sequential decode.
 	let table_bytes = len.checked_mul(8).ok_or(Error::OptimisedSubReaderOverrun)?;
-	advance_read(reader, table_bytes + 8)?;
+	advance_read(reader, table_bytes)?;
+	advance_read(reader, 8)?;
 
 	// Dense keys (sorted ascending) come first, then dense values in matching
 	// order. Each K and V know their own wire length via DeserializeRevisioned.
-- 
2.43.0


From e29fba0228971a49949b8330141ec8f5b2d7d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:50 +0000
Subject: [PATCH 12/15] fix: opening an indexed map payload without entries no
 longer panics

With the index flag set and a length of zero the offset table is empty, and
slicing off its value column panicked.
---
 src/optimised/validation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimised/validation.rs b/src/optimised/validation.rs
index f389082..fc612b5 100644
--- a/src/optimised/validation.rs
+++ b/src/optimised/validation.rs
@@ -79,6 +79,10 @@ pub fn validate_map_prologue(
 	if offset_table.len() != count.saturating_mul(8) {
 		return Err(Error::OptimisedOffsetsNonMonotonic);
 	}
+	// An empty table has no value column to slice off.
+	if count == 0 {
+		return Ok(());
+	}
 	validate_struct_prologue(offset_table, count, 8, keys_region_len)?;
 	validate_struct_prologue(&offset_table[4..], count, 8, vals_region_len)?;
 	Ok(())
-- 
2.43.0


From ffdd6bf5d66b9f8456ebc95e7ddc214cf65c55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:29 +0000
Subject: [PATCH 13/15] fix: return the element's own error from Result and
 Bound

Decoding an element of a Result or a Bound turned every error into
Error::Deserialize with the debug text of the original, so a failing
reader or conversion function could not be told from invalid data.
---
 src/implementations/bound.rs  | 10 ++--------
 src/implementations/result.rs |  6 ++----
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/implementations/bound.rs b/src/implementations/bound.rs
index ba0eb67..de4e4f2 100644
--- a/src/implementations/bound.rs
+++ b/src/implementations/bound.rs
@@ -28,14 +28,8 @@ impl<T: DeserializeRevisioned> DeserializeRevisioned for Bound<T> {
 		let variant = u32::deserialize_revisioned(reader)?;
 		match variant {
 			0 => Ok(Bound::Unbounded),
-			1 => Ok(Bound::Included(
-				T::deserialize_revisioned(reader)
-					.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?,
-			)),
-			2 => Ok(Bound::Excluded(
-				T::deserialize_revisioned(reader)
-					.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?,
-			)),
+			1 => Ok(Bound::Included(T::deserialize_revisioned(reader)?)),
+			2 => Ok(Bound::Excluded(T::deserialize_revisioned(reader)?)),
 			_ => Err(Error::Deserialize("Unknown variant index".to_string())),
 		}
 	}
diff --git a/src/implementations/result.rs b/src/implementations/result.rs
index 2511ab4..946a5bf 100644
--- a/src/implementations/result.rs
+++ b/src/implementations/result.rs
@@ -25,10 +25,8 @@ impl<E: DeserializeRevisioned, T: DeserializeRevisioned> DeserializeRevisioned f
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
 		let variant = u32::deserialize_revisioned(reader)?;
 		match variant {
-			0 => Ok(Ok(T::deserialize_revisioned(reader)
-				.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?)),
-			1 => Ok(Err(E::deserialize_revisioned(reader)
-				.map_err(|ref err| Error::Deserialize(format!("{:?}", err)))?)),
+			0 => Ok(Ok(T::deserialize_revisioned(reader)?)),
+			1 => Ok(Err(E::deserialize_revisioned(reader)?)),
 			_ => Err(Error::Deserialize("Unknown variant index".to_string())),
 		}
 	}
-- 
2.43.0


From 5083be2bf5da6dc1bece87f57f54e7325e97fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:29 +0000
Subject: [PATCH 14/15] fix: report a failing reader or writer of a roaring
 bitmap as an I/O error

Roaring bitmaps reported every failure as Error::Serialize or
Error::Deserialize with the debug text of the I/O error, so a failing
reader or writer could not be told from invalid data.
---
 src/implementations/roaring.rs | 50 +++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/implementations/roaring.rs b/src/implementations/roaring.rs
index 5893092..ea5e4f9 100644
--- a/src/implementations/roaring.rs
+++ b/src/implementations/roaring.rs
@@ -3,18 +3,56 @@
 use super::super::Error;
 use super::super::{DeserializeRevisioned, Revisioned, SerializeRevisioned};
 use roaring::{RoaringBitmap, RoaringTreemap};
+use std::io::{self, Read};
+
+/// A reader which remembers whether it failed. The bitmaps report a failing
+/// reader and invalid contents alike as an [`io::Error`].
+struct Source<'a, R> {
+	reader: &'a mut R,
+	failed: bool,
+}
+
+impl<R: Read> Read for Source<'_, R> {
+	#[inline]
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+		let result = self.reader.read(buf);
+		self.failed = result.is_err();
+		result
+	}
+
+	#[inline]
+	fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
+		let result = self.reader.read_exact(buf);
+		self.failed = result.is_err();
+		result
+	}
+}
+
+impl<R> Source<'_, R> {
+	fn error(&self, err: io::Error) -> Error {
+		if self.failed {
+			Error::Io(err)
+		} else {
+			Error::Deserialize(format!("{:?}", err))
+		}
+	}
+}
 
 impl SerializeRevisioned for RoaringTreemap {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, writer: &mut W) -> Result<(), Error> {
-		self.serialize_into(writer).map_err(|ref err| Error::Serialize(format!("{:?}", err)))
+		self.serialize_into(writer).map_err(Error::Io)
 	}
 }
 
 impl DeserializeRevisioned for RoaringTreemap {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		Self::deserialize_from(reader).map_err(|ref err| Error::Deserialize(format!("{:?}", err)))
+		let mut source = Source {
+			reader,
+			failed: false,
+		};
+		Self::deserialize_from(&mut source).map_err(|err| source.error(err))
 	}
 }
 
@@ -28,14 +66,18 @@ impl Revisioned for RoaringTreemap {
 impl SerializeRevisioned for RoaringBitmap {
 	#[inline]
 	fn serialize_revisioned<W: std::io::Write>(&self, writer: &mut W) -> Result<(), Error> {
-		self.serialize_into(writer).map_err(|ref err| Error::Serialize(format!("{:?}", err)))
+		self.serialize_into(writer).map_err(Error::Io)
 	}
 }
 
 impl DeserializeRevisioned for RoaringBitmap {
 	#[inline]
 	fn deserialize_revisioned<R: std::io::Read>(reader: &mut R) -> Result<Self, Error> {
-		Self::deserialize_from(reader).map_err(|ref err| Error::Deserialize(format!("{:?}", err)))
+		let mut source = Source {
+			reader,
+			failed: false,
+		};
+		Self::deserialize_from(&mut source).map_err(|err| source.error(err))
 	}
 }
 
-- 
2.43.0


From c9c82377f68475a2a44d674d81468e628775dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:57 +0000
Subject: [PATCH 15/15] fix: checked skip of a SystemTime refuses what decoding
 refuses

---
 src/implementations/skip.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/implementations/skip.rs b/src/implementations/skip.rs
index 0947c5e..b45307d 100644
--- a/src/implementations/skip.rs
+++ b/src/implementations/skip.rs
@@ -123,8 +123,7 @@ impl SkipRevisioned for SystemTime {
 impl SkipCheckRevisioned for SystemTime {
 	#[inline]
 	fn skip_check_revisioned<R: Read>(reader: &mut R) -> Result<(), Error> {
-		<u64 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
-		<u32 as SkipCheckRevisioned>::skip_check_revisioned(reader)?;
+		let _ = <Self as DeserializeRevisioned>::deserialize_revisioned(reader)?;
 		Ok(())
 	}
 }
-- 
2.43.0

