From b0009d6873b71d636d0e16befc62d54371255350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 01/44] fix: native representation of zero and i64::MIN numbers

Zero has no digits, so Number::as_native panicked on it, and i64::MIN fits in
64 bits but was given as a float.
---
 layouts/src/value/mod.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..a5537b7 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -59,21 +59,14 @@ impl Number {
 		if self.0.is_integer() {
 			let n = self.0.numer();
 			match n.sign() {
-				Sign::Minus => {
-					if n.bits() < 64 {
-						let unsigned = n.iter_u64_digits().next().unwrap() as i64;
-						NativeNumber::I64(-unsigned)
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
-				Sign::NoSign | Sign::Plus => {
-					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
+				Sign::Minus => match n.to_i64() {
+					Some(i) => NativeNumber::I64(i),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
+				Sign::NoSign | Sign::Plus => match n.to_u64() {
+					Some(u) => NativeNumber::U64(u),
+					None => NativeNumber::F64(self.0.to_f64().unwrap()),
+				},
 			}
 		} else {
 			NativeNumber::F64(self.0.to_f64().unwrap())
-- 
2.43.0


From 7bee922b01bea999e787f84ae45f9c0a0700d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 02/44] fix: sign of the decimal representation of negative
 numbers

The integer part was printed with its own sign after the sign of the number,
giving `--5` for -5.
---
 layouts/src/value/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index a5537b7..e93e1b0 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -104,7 +104,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer().abs() / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From 1b25b13041741703e911cc8d47fc2cc68039ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 03/44] fix: exact conversion of decimal numbers

The XSD decimal parser reads -1.5 as -0.5 and rejects exponents, which JSON
numbers may have (that was a panic), and its printer writes `--5` for -5. Numbers are now read from and
written to decimal notation without going through it; an invalid decimal
literal is an error instead of a panic.
---
 layouts/src/distill/de/data.rs |  4 ++--
 layouts/src/distill/hy/data.rs |  9 ++------
 layouts/src/value/mod.rs       | 41 ++++++++++++++++++----------------
 3 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..5e1a57e 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..f1ff4cd 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -237,13 +237,8 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
 		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
-			Err(_) => {
-				todo!()
-			}
+			Ok(value) => Number::parse_decimal(value.as_str()).ok_or(Error::NoMatchingLiteral),
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index e93e1b0..5d7ce7a 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -35,6 +34,25 @@ impl Number {
 		Self(rational)
 	}
 
+	/// Parses a number written in decimal notation, with an optional exponent.
+	pub(crate) fn parse_decimal(value: &str) -> Option<Self> {
+		let (mantissa, exponent) = match value.split_once(['e', 'E']) {
+			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i64>().ok()?),
+			None => (value, 0),
+		};
+
+		let (integer, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+		let digits: BigInt = format!("{integer}{fraction}").parse().ok()?;
+		let exponent = exponent.checked_sub(fraction.len() as i64)?;
+		let scale = TEN.pow(u32::try_from(exponent.unsigned_abs()).ok()?);
+
+		Some(Self(if exponent < 0 {
+			BigRational::new(digits, scale)
+		} else {
+			BigRational::from_integer(digits * scale)
+		}))
+	}
+
 	pub fn is_integer(&self) -> bool {
 		self.0.is_integer()
 	}
@@ -180,34 +198,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From a16497a2479fe31be93b4fd3ffbad5297cc7835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 04/44] fix: report unsupported or ambiguous data instead of
 panicking

Hydrating ordinary data (a language-tagged string, a blank node where an IRI
is expected, data that fits no or several variants, an ill-formed boolean)
hit a `todo!()`, and so did dehydrating a value with a datatype that cannot
represent it.
---
 layouts/src/distill/de/data.rs |  8 +++----
 layouts/src/distill/hy/data.rs | 38 +++++++++++++++++-----------------
 layouts/src/distill/hy/mod.rs  | 31 ++++++++++++++-------------
 3 files changed, 40 insertions(+), 37 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5e1a57e..84fde1a 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
@@ -67,7 +67,7 @@ where
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
@@ -85,6 +85,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout),
 	}
 }
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index f1ff4cd..5d30e8e 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -245,7 +245,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 }
 
 fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+	Err(Error::NoMatchingLiteral) // byte strings are not supported yet.
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..746f2b9 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,9 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+							layout_ref.clone(),
+						)))),
 					}
 				}
 			}
@@ -294,14 +296,17 @@ where
 						);
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Variant {
+											layout: layout_ref.clone().cast(),
+											variant_name: variant.name.clone(),
+										},
+									)))
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -315,9 +320,7 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::IncompatibleLayout),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 4c0002b24cc0dbc4341b92c02400df65ccf1f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 05/44] fix: bind the variables introduced by a sum variant
 when hydrating

The variant pattern was matched without the variables it introduces, which
panicked on the first of them.
---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 746f2b9..1066a01 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -265,7 +265,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From d250157a84c8ad286d5c245a70c474ed394193e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:42 +0000
Subject: [PATCH 06/44] fix: keep the data of rejected sum variants out of the
 dehydrated dataset

Every variant is tried in turn and wrote straight into the output, so that
a variant rejected halfway left its quads there.
---
 layouts/src/distill/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..1ce8cca 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -684,7 +684,7 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
 				)
 				.is_ok() && selection.replace(variant_dataset).is_some()
 				{
-- 
2.43.0


From b31c078d8844ce127aeba5644689a99c049784ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 07/44] fix: dehydrate into the current graph

The graph selected for a value was ignored, everything went to the default
graph, where hydration does not look for it.
---
 layouts/src/distill/de/mod.rs | 42 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 1ce8cca..8b77f65 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -952,9 +956,12 @@ impl<R: Clone> Environment<'_, R> {
 		))
 	}
 
+	/// Instantiates each quad of the `input` dataset, placing the ones without
+	/// graph in the given `default_graph`.
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		default_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +969,8 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| default_graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From 142869ac4eb02fcd017fe360b186ef7e28d1b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:46 +0000
Subject: [PATCH 08/44] fix: dehydrate empty ordered lists

The head of an empty list was never identified with the tail, so the list
could not be read back.
---
 layouts/src/distill/de/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 8b77f65..39a12f9 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -769,6 +769,20 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The empty list is its own tail.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+						if head != tail {
+							let iris: Vec<_> = rdf.interpretation.iris_of(&tail).cloned().collect();
+							if iris.is_empty() {
+								return Err(Error::IncompatibleLayout);
+							}
+							for iri in iris {
+								rdf.interpretation.assign_iri(&head, iri);
+							}
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From 9978a2a11d7ca888978a036330e1c8687c60d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:46 +0000
Subject: [PATCH 09/44] fix: reject cyclic lists when hydrating

Following a cyclic list never ended.
---
 layouts/src/distill/hy/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 1066a01..affcfcc 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -454,8 +454,13 @@ where
 					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(Error::IncompatibleLayout); // cyclic list.
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From 22225d926bf261b0ebed33efdc14bd8798e0e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:21 +0000
Subject: [PATCH 10/44] fix: report unbound variables when hydrating instead of
 panicking

---
 layouts/src/distill/hy/data.rs | 26 +++----------
 layouts/src/distill/hy/mod.rs  | 67 ++++++++++++++++++++--------------
 2 files changed, 44 insertions(+), 49 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 5d30e8e..d918db2 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::{lexical::Lexical, ParseXsd};
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{instantiate, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,7 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = instantiate(&layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -103,11 +99,7 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = instantiate(&layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -146,11 +138,7 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = instantiate(&layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -189,11 +177,7 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = instantiate(&layout.resource, &substitution)?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index affcfcc..e1aa901 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -42,6 +42,9 @@ pub enum Error<R = Term> {
 
 	#[error("layout `{0}` is undefined")]
 	LayoutNotFound(Ref<LayoutType, R>),
+
+	#[error("unbound variable #{0}")]
+	UnboundVariable(u32),
 }
 
 static_assertions::assert_impl_all!(Error: ToString);
@@ -213,11 +216,7 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = instantiate(&layout.resource, &substitution)?;
 
 					let mut selected = None;
 
@@ -277,13 +276,13 @@ where
 				match variant_substitution {
 					Some(variant_substitution) => {
 						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
+							select_inputs(&variant.value.input, &variant_substitution)?;
 
 						let variant_graph = select_graph(
 							current_graph,
 							&variant.value.graph,
 							&variant_substitution,
-						);
+						)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -354,10 +353,10 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let field_inputs = select_inputs(&field.value.input, &field_substitution)?;
 
 						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+							select_graph(current_graph, &field.value.graph, &field_substitution)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -413,13 +412,13 @@ where
 
 					for item_substitution in matching {
 						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+							select_inputs(&layout.item.value.input, &item_substitution)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -450,8 +449,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = instantiate(&layout.head, &substitution)?;
+					let tail = instantiate(&layout.tail, &substitution)?;
 
 					let mut items = Vec::new();
 					let mut visited = BTreeSet::new();
@@ -482,13 +481,13 @@ where
 						})?;
 
 						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+							select_inputs(&layout.node.value.input, &item_substitution)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -502,7 +501,7 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = instantiate(&Pattern::Var(rest), &item_substitution)?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -536,9 +535,9 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
+						let item_inputs = select_inputs(&item.value.input, &item_substitution)?;
 						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+							select_graph(current_graph, &item.value.graph, &item_substitution)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -561,10 +560,24 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+/// Instantiates the given pattern, whose variables must all be bound.
+fn instantiate<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, Error<R>> {
+	match pattern.apply(substitution) {
+		Pattern::Resource(r) => Ok(r),
+		Pattern::Var(x) => Err(Error::UnboundVariable(x)),
+	}
+}
+
+fn select_inputs<R: Clone>(
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+) -> Result<Vec<R>, Error<R>> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| instantiate(p, substitution))
 		.collect()
 }
 
@@ -572,12 +585,10 @@ fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error<R>> {
+	match graph_pattern {
+		Some(Some(p)) => instantiate(p, substitution).map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
-- 
2.43.0


From c2deac2fb53df88785cafa241bbb8419eb9308db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 11/44] fix: keep the terms of rejected sum variants out of the
 dehydrated dataset

---
 layouts/src/distill/de/mod.rs | 167 ++++++++++++++++++++++++----------
 1 file changed, 118 insertions(+), 49 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 39a12f9..a4c6c6b 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut fragment = Fragment::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -534,18 +536,50 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
-		output,
-	)
+		&mut fragment,
+	)?;
+
+	for quad in fragment.dataset {
+		output.insert(quad);
+	}
+
+	for (resource, iri) in fragment.iris {
+		rdf.interpretation.assign_iri(&resource, iri);
+	}
+
+	for (resource, literal) in fragment.literals {
+		rdf.interpretation.assign_literal(&resource, literal);
+	}
+
+	Ok(())
 }
 
-fn dehydrate_with_ref<V, I, Q, D>(
+/// Result of the deserialization of a value, to be added to the output once the
+/// value is known to be compatible with the layout.
+struct Fragment<R, I, L> {
+	dataset: BTreeDataset<R>,
+	iris: Vec<(R, I)>,
+	literals: Vec<(R, L)>,
+}
+
+impl<R, I, L> Fragment<R, I, L> {
+	fn new() -> Self {
+		Self {
+			dataset: BTreeDataset::new(),
+			iris: Vec::new(),
+			literals: Vec::new(),
+		}
+	}
+}
+
+fn dehydrate_with_ref<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
 	value: &Value,
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
-	output: &mut D,
+	output: &mut Fragment<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -555,7 +589,6 @@ where
 		+ ReverseLiteralInterpretationMut<Literal = V::Literal>,
 	I::Resource: Clone + Ord,
 	Q: Clone + Ord + Into<I::Resource>,
-	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
 	let layout = layouts
 		.get(layout_ref)
@@ -576,7 +609,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,35 +617,45 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						output
+							.literals
+							.push((resource, rdf.vocabulary.insert_owned_literal(literal)));
 
 						Ok(())
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						output
+							.literals
+							.push((resource, rdf.vocabulary.insert_owned_literal(literal)));
 
 						Ok(())
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -620,16 +663,19 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						output
+							.literals
+							.push((resource, rdf.vocabulary.insert_owned_literal(literal)));
 
 						Ok(())
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -637,10 +683,9 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						output
+							.literals
+							.push((resource, rdf.vocabulary.insert_owned_literal(literal)));
 
 						Ok(())
 					}
@@ -649,13 +694,17 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								output.iris.push((resource, i));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -668,14 +717,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
-				let mut variant_dataset = BTreeDataset::new();
+				let mut fragment = Fragment::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut fragment.dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -684,20 +733,23 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					&mut variant_dataset,
+					&mut fragment,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection.replace(fragment).is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
-					for quad in variant_dataset {
-						output.insert(quad);
+				Some(fragment) => {
+					for quad in fragment.dataset {
+						output.dataset.insert(quad);
 					}
 
+					output.iris.extend(fragment.iris);
+					output.literals.extend(fragment.literals);
+
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -706,13 +758,17 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, current_graph, output)?;
+							env.instantiate_dataset(
+								&field.dataset,
+								current_graph,
+								&mut output.dataset,
+							)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +801,15 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.item.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +825,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -773,12 +833,18 @@ where
 						// The empty list is its own tail.
 						let tail = env.instantiate_pattern(&layout.tail)?;
 						if head != tail {
-							let iris: Vec<_> = rdf.interpretation.iris_of(&tail).cloned().collect();
+							let mut iris: Vec<_> =
+								rdf.interpretation.iris_of(&tail).cloned().collect();
+							for (r, iri) in &output.iris {
+								if *r == tail {
+									iris.push(iri.clone())
+								}
+							}
 							if iris.is_empty() {
 								return Err(Error::IncompatibleLayout);
 							}
 							for iri in iris {
-								rdf.interpretation.assign_iri(&head, iri);
+								output.iris.push((head.clone(), iri));
 							}
 						}
 					}
@@ -792,7 +858,11 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.node.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -812,7 +882,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -824,7 +894,7 @@ where
 								env.instantiate_dataset(
 									&item_layout.dataset,
 									current_graph,
-									output,
+									&mut output.dataset,
 								)?;
 								dehydrate_sub_value(
 									rdf,
@@ -850,14 +920,14 @@ where
 	}
 }
 
-fn dehydrate_sub_value<V, I, Q, D>(
+fn dehydrate_sub_value<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
 	value: &Value,
 	current_graph: Option<&I::Resource>,
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
-	output: &mut D,
+	output: &mut Fragment<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -867,7 +937,6 @@ where
 		+ ReverseLiteralInterpretationMut<Literal = V::Literal>,
 	I::Resource: Clone + Ord,
 	Q: Clone + Ord + Into<I::Resource>,
-	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
 	let inputs = env.instantiate_patterns(&format.input)?;
 	let graph = match &format.graph {
-- 
2.43.0


From 419a5fdbb17838eae037bec8d049647e20ce595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:02 +0000
Subject: [PATCH 12/44] fix: do not match graph variables against the default
 graph

---
 generators/rust/treeldr-rs/src/pattern.rs | 2 +-
 layouts/src/pattern.rs                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..b9a082d 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?; // a variable never denotes the default graph.
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..467498e 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?; // a variable never denotes the default graph.
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 99df6af2e148fff00528068be34217257f7cef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:29 +0000
Subject: [PATCH 13/44] fix: read a null graph as the default graph

---
 layouts/src/abs/syntax/layout/sum.rs |  9 ++++++---
 layouts/src/abs/syntax/mod.rs        | 19 ++++++++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..a16306b 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -209,7 +209,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		skip_serializing_if = "Option::is_none",
+		deserialize_with = "crate::abs::syntax::deserialize_nullable"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -239,8 +243,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..f20b779 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -495,6 +495,16 @@ where
 	}
 }
 
+/// Deserializes a field where `null` is a value, distinct from the absence of
+/// the field.
+pub(crate) fn deserialize_nullable<'de, D, T>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	D: serde::Deserializer<'de>,
+	T: Deserialize<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct ValueFormat {
@@ -503,7 +513,11 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		skip_serializing_if = "Option::is_none",
+		deserialize_with = "deserialize_nullable"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -520,8 +534,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
-- 
2.43.0


From 6d36d39dbab30186f59d01c4fede4c630e4fbe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:54 +0000
Subject: [PATCH 14/44] fix: encode zero and big numbers in CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..e971ee1 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::Signed;
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -141,15 +141,21 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
+					let unsigned = i.iter_u64_digits().next().unwrap_or(0) as i128;
 
-					let signed = if i.is_positive() { unsigned } else { -unsigned };
+					let signed = if i.is_negative() { -unsigned } else { unsigned };
 
 					serde_cbor::Value::Integer(signed)
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					// Negative bignums encode `-1 - n`.
+					let (tag, n) = if i.is_positive() {
+						(2, i.clone())
+					} else {
+						(3, -1 - i)
+					};
+
+					let (_, bytes) = n.to_bytes_be();
+					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From d70ba8c80a765c2f1b6b6d52209ecfa8204b787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:56 +0000
Subject: [PATCH 15/44] fix: write the constant of unit layouts in CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index e971ee1..21f114e 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From ebdcb3b18bfb82f37a9572744a270b81937bbe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:00 +0000
Subject: [PATCH 16/44] fix: read integers that do not fit in 64 bits

---
 layouts/src/value/de.rs  | 10 ++++++++++
 layouts/src/value/mod.rs |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 63a1318..388f6df 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -32,6 +32,16 @@ impl<'de> serde::Deserialize<'de> for Value {
 				Ok(Value::Literal(Literal::Number(value.into())))
 			}
 
+			#[inline]
+			fn visit_i128<E>(self, value: i128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(value.into())))
+			}
+
+			#[inline]
+			fn visit_u128<E>(self, value: u128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(value.into())))
+			}
+
 			#[inline]
 			fn visit_f64<E>(self, value: f64) -> Result<Value, E>
 			where
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 5d7ce7a..61e94c1 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -187,7 +187,7 @@ macro_rules! number_from_float {
 	};
 }
 
-number_from_integer!(u8, u16, u32, u64, i8, i16, i32, i64);
+number_from_integer!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
 number_from_float!(f32, f64);
 
 impl fmt::Display for Number {
-- 
2.43.0


From b934adf7c2198585c0da4a8ce11c3e411eaafc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:02 +0000
Subject: [PATCH 17/44] fix: read tagged CBOR values

---
 layouts/src/value/de.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 388f6df..5748ccf 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -93,6 +93,15 @@ impl<'de> serde::Deserialize<'de> for Value {
 				serde::Deserialize::deserialize(deserializer)
 			}
 
+			#[inline]
+			fn visit_newtype_struct<D>(self, deserializer: D) -> Result<Value, D::Error>
+			where
+				D: serde::Deserializer<'de>,
+			{
+				// tagged values.
+				serde::Deserialize::deserialize(deserializer)
+			}
+
 			#[inline]
 			fn visit_unit<E>(self) -> Result<Value, E> {
 				Ok(Value::Literal(Literal::Unit))
-- 
2.43.0


From de3b1d5842fb66b8aab9e06f70758ba97ee2ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:03 +0000
Subject: [PATCH 18/44] fix: read decimal numbers with serde_json's arbitrary
 precision

---
 layouts/src/value/de.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 5748ccf..d547ebc 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -2,6 +2,9 @@ use std::{collections::BTreeMap, fmt};
 
 use super::{Literal, Number, Value};
 
+/// Key used by `serde_json` to represent arbitrary precision numbers.
+const SERDE_JSON_NUMBER: &str = "$serde_json::private::Number";
+
 impl<'de> serde::Deserialize<'de> for Value {
 	#[inline]
 	fn deserialize<D>(deserializer: D) -> Result<Value, D::Error>
@@ -126,12 +129,26 @@ impl<'de> serde::Deserialize<'de> for Value {
 			where
 				V: serde::de::MapAccess<'de>,
 			{
-				let mut map = BTreeMap::new();
+				let mut map: BTreeMap<Value, Value> = BTreeMap::new();
 
 				while let Some((key, value)) = visitor.next_entry()? {
 					map.insert(key, value);
 				}
 
+				if map.len() == 1 {
+					// `serde_json` presents its numbers as maps when its
+					// `arbitrary_precision` feature is enabled.
+					if let Some((key, Value::Literal(Literal::TextString(n)))) =
+						map.first_key_value()
+					{
+						if key.as_str() == Some(SERDE_JSON_NUMBER) {
+							if let Some(n) = Number::parse_decimal(n) {
+								return Ok(Value::Literal(Literal::Number(n)));
+							}
+						}
+					}
+				}
+
 				Ok(Value::Map(map))
 			}
 		}
-- 
2.43.0


From f7e6ec28d9c24ee1fb0a6c1baebb86357f1d0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 19/44] fix: read literals of patterns alike with serde and
 TryFromJson

Serde dropped language tags, TryFromJson rejected literals without a type.
---
 layouts/src/abs/syntax/pattern/literal.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..bf427cc 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -29,11 +29,12 @@ impl LiteralValue {
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
@@ -94,6 +95,7 @@ impl From<rdf_types::LiteralType> for LiteralType {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeIri {
 	#[serde(
 		rename = "type",
@@ -112,6 +114,7 @@ impl LiteralTypeIri {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeLanguage {
 	pub language: LangTagBuf,
 }
-- 
2.43.0


From 5a9bf682ef14b4d0f917e9963008db54176e616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:10 +0000
Subject: [PATCH 20/44] fix: do not write absent literal resources as null

TryFromJson does not read them back.
---
 layouts/src/abs/syntax/layout/literal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..c788371 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,6 +253,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -346,6 +347,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +417,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -487,6 +490,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -568,6 +572,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
-- 
2.43.0


From 905a776cd2b8de43b709d7f2f5280d175f42557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 21/44] fix: read nested boolean layouts with TryFromJson, like
 serde does

---
 layouts/src/abs/syntax/layout/list.rs | 3 ++-
 layouts/src/abs/syntax/layout/mod.rs  | 8 +++++++-
 layouts/src/abs/syntax/layout/sum.rs  | 3 ++-
 layouts/src/abs/syntax/mod.rs         | 3 ++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..741f9cf 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -161,6 +161,7 @@ impl TryFromJson for ListNodeOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout(LayoutRef::boolean(*value))),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -175,7 +176,7 @@ impl TryFromJson for ListNodeOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..1235a0e 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -274,6 +274,11 @@ impl LayoutRef {
 	pub fn try_from_json_string_at(value: &str, offset: usize) -> Result<Self, Error> {
 		Self::from_str(value).map_err(|e| Error::InvalidCompactIri(offset, e.0))
 	}
+
+	/// References the "always" (`true`) or "never" (`false`) layout.
+	pub fn boolean(value: bool) -> Self {
+		Self::Layout(Box::new(Layout::Boolean(value)))
+	}
 }
 
 impl FromStr for LayoutRef {
@@ -305,13 +310,14 @@ impl TryFromJson for LayoutRef {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::boolean(*value)),
 			json_syntax::Value::String(value) => Self::try_from_json_string_at(value, offset),
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a16306b..f8e5030 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -164,6 +164,7 @@ impl TryFromJson for VariantFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout(LayoutRef::boolean(*value))),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -176,7 +177,7 @@ impl TryFromJson for VariantFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index f20b779..9aacc09 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -458,6 +458,7 @@ impl TryFromJson for ValueFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout(LayoutRef::boolean(*value))),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -470,7 +471,7 @@ impl TryFromJson for ValueFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From 7872f1bf159b50e3c51bcf1c0ec25cc28db0e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:34 +0000
Subject: [PATCH 22/44] fix: read a null graph in a quad with TryFromJson, like
 serde does

---
 layouts/src/abs/syntax/dataset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 8a2fdb6..bc4e1a3 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -82,8 +82,9 @@ impl TryFromJson for Quad {
 		component_offset += code_map.get(component_offset).unwrap().volume;
 		let g = array
 			.get(3)
-			.map(|g| Pattern::try_from_json_at(g, code_map, component_offset))
-			.transpose()?;
+			.map(|g| Option::<Pattern>::try_from_json_at(g, code_map, component_offset))
+			.transpose()?
+			.flatten();
 
 		Ok(Self(s, p, o, g))
 	}
-- 
2.43.0


From 19ff63933e12b56da5fa04a5afc52a6c3d553f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 23/44] fix: anonymous layouts built in several calls clashed
 with each other

---
 layouts/src/abs/syntax/build.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..0d391bf 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,13 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			// The builder may hold layouts named by another generator.
+			let id = Term::Id(self.generator.next(&mut ()));
+			if !self.builder.layouts.contains_key(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From d59c95af12eb19318bb20c85c8c061195ac9d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 24/44] fix: report union and intersection layouts as
 unsupported instead of panicking

---
 layouts/src/abs/syntax/build.rs               | 3 +++
 layouts/src/abs/syntax/layout/intersection.rs | 4 +++-
 layouts/src/abs/syntax/layout/union.rs        | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 0d391bf..5f48db6 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -36,6 +36,9 @@ pub enum BuildError {
 
 	#[error("no property object")]
 	NoPropertyObject,
+
+	#[error("unsupported layout type `{0}`")]
+	UnsupportedLayoutType(&'static str),
 }
 
 pub trait Context {
diff --git a/layouts/src/abs/syntax/layout/intersection.rs b/layouts/src/abs/syntax/layout/intersection.rs
index 3e26017..3277b88 100644
--- a/layouts/src/abs/syntax/layout/intersection.rs
+++ b/layouts/src/abs/syntax/layout/intersection.rs
@@ -53,6 +53,8 @@ impl<C: Context> Build<C> for IntersectionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayoutType(
+			IntersectionLayoutType::NAME,
+		))
 	}
 }
diff --git a/layouts/src/abs/syntax/layout/union.rs b/layouts/src/abs/syntax/layout/union.rs
index a1a5a2c..ad0d13e 100644
--- a/layouts/src/abs/syntax/layout/union.rs
+++ b/layouts/src/abs/syntax/layout/union.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for UnionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayoutType(UnionLayoutType::NAME))
 	}
 }
-- 
2.43.0


From 10030dcf7a826da1364098263d71bddded0be5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:57 +0000
Subject: [PATCH 25/44] fix: number of inputs of literal layouts

---
 layouts/src/layout/literal/mod.rs | 11 +++++++++++
 layouts/src/layout/mod.rs         |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..ce90111 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,17 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(DataLayout::Unit(l)) => l.input,
+			Self::Data(DataLayout::Boolean(l)) => l.input,
+			Self::Data(DataLayout::Number(l)) => l.input,
+			Self::Data(DataLayout::ByteString(l)) => l.input,
+			Self::Data(DataLayout::TextString(l)) => l.input,
+			Self::Id(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From 620579bf663901658be0f6ba73f14d09b94a6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 26/44] fix: read null optional entries and typed strings alike
 with serde and TryFromJson

---
 layouts/src/abs/syntax/layout/list.rs    | 16 +++++++----
 layouts/src/abs/syntax/layout/literal.rs | 30 +++++++++++++--------
 layouts/src/abs/syntax/layout/mod.rs     | 10 +++----
 layouts/src/abs/syntax/layout/product.rs | 13 ++++++---
 layouts/src/abs/syntax/mod.rs            | 34 ++++++++++++++++++++++++
 layouts/src/abs/syntax/resource.rs       |  1 +
 6 files changed, 80 insertions(+), 24 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index 741f9cf..2b70d53 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -5,9 +5,9 @@ use serde::{Deserialize, Serialize};
 use crate::abs::{
 	self,
 	syntax::{
-		check_type, expect_object, get_entry, require_entry, require_type, Build, BuildError,
-		CompactIri, Context, Dataset, Error, ExpectedType, ObjectUnusedEntries, Pattern, Scope,
-		ValueFormatOrLayout, ValueIntro,
+		check_type, expect_object, get_entry, get_nullable_entry, require_entry, require_type,
+		Build, BuildError, CompactIri, Context, Dataset, Error, ExpectedType, ObjectUnusedEntries,
+		Pattern, Scope, ValueFormatOrLayout, ValueIntro,
 	},
 };
 
@@ -295,7 +295,7 @@ impl TryFromJsonObject for ListNode {
 			intro: get_entry(object, "intro", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
-			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?,
+			dataset: get_nullable_entry(object, "dataset", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
@@ -446,7 +446,13 @@ impl TryFromJsonObject for ListItem {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_nullable_entry(
+				object,
+				"property",
+				&mut unused_entries,
+				code_map,
+				offset,
+			)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index c788371..eb2953b 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -5,8 +5,9 @@ use crate::{
 	abs::{
 		self,
 		syntax::{
-			check_type, expect_object, get_entry, require_entry, require_type, Build, BuildError,
-			CompactIri, Context, Error, ExpectedType, ObjectUnusedEntries, Pattern, Scope,
+			check_type, expect_object, get_entry, get_nullable_entry, require_entry, require_type,
+			Build, BuildError, CompactIri, Context, Error, ExpectedType, ObjectUnusedEntries,
+			Pattern, Scope,
 		},
 		RegExp,
 	},
@@ -326,8 +327,10 @@ impl TryFromJsonObject for BooleanLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_nullable_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let datatype =
+			get_nullable_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: BooleanLayoutType,
@@ -396,7 +399,8 @@ impl TryFromJsonObject for NumberLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_nullable_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -466,7 +470,8 @@ impl TryFromJsonObject for ByteStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_nullable_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -515,9 +520,11 @@ impl TryFromJsonObject for TextStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let pattern = get_nullable_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_nullable_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let datatype =
+			get_nullable_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: TextStringLayoutType,
@@ -594,8 +601,9 @@ impl TryFromJsonObject for IdLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let pattern = get_nullable_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_nullable_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: IdLayoutType,
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 1235a0e..587d77d 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -30,9 +30,9 @@ use crate::{
 };
 
 use super::{
-	get_entry, require_type, Build, BuildError, CompactIri, Context, Dataset, Error, ExpectedType,
-	InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource, Scope, ValueFormat,
-	VariableName,
+	get_entry, get_nullable_entry, require_type, Build, BuildError, CompactIri, Context, Dataset,
+	Error, ExpectedType, InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource,
+	Scope, ValueFormat, VariableName,
 };
 
 /// Abstract syntax layout.
@@ -425,10 +425,10 @@ impl LayoutHeader {
 		offset: usize,
 	) -> Result<Self, Error> {
 		Ok(Self {
-			base: get_entry(object, "base", unused_entries, code_map, offset)?,
+			base: get_nullable_entry(object, "base", unused_entries, code_map, offset)?,
 			prefixes: get_entry(object, "prefixes", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			id: get_entry(object, "id", unused_entries, code_map, offset)?,
+			id: get_nullable_entry(object, "id", unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			intro: get_entry(object, "intro", unused_entries, code_map, offset)?
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index bcba6c2..562a82b 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -7,8 +7,9 @@ use crate::{
 	abs::{
 		self,
 		syntax::{
-			check_type, expect_object, get_entry, require_entry, Build, BuildError, Context,
-			Dataset, Error, ObjectUnusedEntries, Pattern, Scope, ValueFormatOrLayout, ValueIntro,
+			check_type, expect_object, get_entry, get_nullable_entry, require_entry, Build,
+			BuildError, Context, Dataset, Error, ObjectUnusedEntries, Pattern, Scope,
+			ValueFormatOrLayout, ValueIntro,
 		},
 	},
 	Value,
@@ -178,7 +179,13 @@ impl TryFromJsonObject for Field {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_nullable_entry(
+				object,
+				"property",
+				&mut unused_entries,
+				code_map,
+				offset,
+			)?,
 			required: get_entry(object, "required", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 		};
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 9aacc09..de9e5c2 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -303,6 +303,40 @@ where
 	}
 }
 
+/// Reads an optional entry, for which `null` means that the entry is absent.
+pub(crate) fn get_nullable_entry<T: json_syntax::TryFromJson>(
+	object: &json_syntax::Object,
+	key: &str,
+	unused_entries: &mut ObjectUnusedEntries,
+	code_map: &json_syntax::CodeMap,
+	offset: usize,
+) -> Result<Option<T>, Error>
+where
+	T::Error: Into<Error>,
+{
+	Ok(
+		get_entry::<Nullable<T>>(object, key, unused_entries, code_map, offset)?
+			.and_then(|value| value.0),
+	)
+}
+
+struct Nullable<T>(Option<T>);
+
+impl<T: json_syntax::TryFromJson> json_syntax::TryFromJson for Nullable<T> {
+	type Error = T::Error;
+
+	fn try_from_json_at(
+		json: &json_syntax::Value,
+		code_map: &json_syntax::CodeMap,
+		offset: usize,
+	) -> Result<Self, Self::Error> {
+		match json {
+			json_syntax::Value::Null => Ok(Self(None)),
+			json => T::try_from_json_at(json, code_map, offset).map(|t| Self(Some(t))),
+		}
+	}
+}
+
 pub(crate) fn require_entry<T: json_syntax::TryFromJson>(
 	object: &json_syntax::Object,
 	key: &str,
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..972edc0 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -89,6 +89,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
-- 
2.43.0


From d45491c3c19d103dcf1acdb299bb1d5edfac87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 27/44] fix: read and compile regular expressions with their
 usual meaning

Repetitions apply to the last item instead of all the preceding ones, `.` is
any character, the automaton of a sequence starts with its first item, empty
character sets are not the empty string, and repeated singletons are repeated.
---
 layouts/src/abs/regexp.rs | 129 ++++++++++++++++++++------------------
 1 file changed, 67 insertions(+), 62 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..9965f14 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -78,17 +78,21 @@ impl RegExp {
 			Self::Any => Self::Any,
 			Self::Set(set) => Self::Set(set),
 			Self::Sequence(seq) => {
-				let new_seq = seq
-					.into_iter()
-					.filter_map(|e| {
-						if e.is_empty() {
-							None
-						} else {
-							Some(e.simplified())
-						}
-					})
-					.collect();
-				Self::Sequence(new_seq)
+				let mut new_seq = Vec::with_capacity(seq.len());
+
+				for e in seq {
+					match e.simplified() {
+						e if e.is_empty() => (),
+						Self::Sequence(items) => new_seq.extend(items),
+						e => new_seq.push(e),
+					}
+				}
+
+				if new_seq.len() == 1 {
+					new_seq.pop().unwrap()
+				} else {
+					Self::Sequence(new_seq)
+				}
 			}
 			Self::Union(items) => {
 				if items.len() == 1 {
@@ -101,11 +105,13 @@ impl RegExp {
 		}
 	}
 
+	/// Checks if this regular expression only matches the empty string.
+	///
+	/// Note that the empty character set (or union) does not match anything.
 	pub fn is_empty(&self) -> bool {
 		match self {
-			Self::Set(set) => set.is_empty(),
 			Self::Sequence(seq) => seq.iter().all(Self::is_empty),
-			Self::Union(items) => items.iter().all(Self::is_empty),
+			Self::Union(items) => !items.is_empty() && items.iter().all(Self::is_empty),
 			Self::Repeat(r, min, max) => r.is_empty() || (*min == 0 && *max == 0),
 			_ => false,
 		}
@@ -135,7 +141,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, count, _) => {
+				for _ in 0..*count {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
@@ -158,69 +168,63 @@ impl RegExp {
 	}
 
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		// Each open group is a list of alternatives, each a list of items.
+		let mut stack: Vec<Vec<Vec<RegExp>>> = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
+		fn close(options: Vec<Vec<RegExp>>) -> RegExp {
+			RegExp::Union(options.into_iter().map(RegExp::Sequence).collect()).simplified()
+		}
+
 		while let Some(c) = chars.next() {
+			let options = stack.last_mut().unwrap();
+			let items = options.last_mut().unwrap();
+
+			// Repetitions only apply to the last item.
+			let mut repeat_last = |min, max| {
+				let mut item = items.pop().unwrap_or_else(RegExp::empty);
+				item.repeat(min, max);
+				items.push(item)
+			};
+
 			match c {
-				'(' => {
-					stack.push(vec![RegExp::empty()]);
-				}
+				'(' => stack.push(vec![Vec::new()]),
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
-					let options = stack
+					let options = stack.pop().unwrap();
+					stack
 						.last_mut()
-						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
-					options.last_mut().unwrap().push(sub_exp);
-				}
-				'|' => {
-					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
-				}
-				'[' => {
-					let options = stack.last_mut().unwrap();
-					let charset = parse_charset(&mut chars)?;
-					options.last_mut().unwrap().push(RegExp::Set(charset))
-				}
-				'\\' => {
-					let options = stack.last_mut().unwrap();
-					let c = parse_escaped_char(&mut chars)?;
-					let mut charset = RangeSet::new();
-					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
-				}
-				'?' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
-				}
-				'*' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
-				}
-				'+' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
-				}
-				c => {
-					let options = stack.last_mut().unwrap();
-					let mut charset = RangeSet::new();
-					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
+						.ok_or(ParseError::UnmatchedClosingParenthesis)?
+						.last_mut()
+						.unwrap()
+						.push(close(options));
 				}
+				'|' => options.push(Vec::new()),
+				'.' => items.push(RegExp::Any),
+				'[' => items.push(RegExp::Set(parse_charset(&mut chars)?)),
+				'\\' => items.push(RegExp::from_char(parse_escaped_char(&mut chars)?)),
+				'?' => repeat_last(0, 1),
+				'*' => repeat_last(0, u32::MAX),
+				'+' => repeat_last(1, u32::MAX),
+				c => items.push(RegExp::from_char(c)),
 			}
 		}
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(close(stack.into_iter().next().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
 
+	fn from_char(c: char) -> Self {
+		let mut charset = RangeSet::new();
+		charset.insert(c);
+		Self::Set(charset)
+	}
+
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
-		debug_assert!(!dt.final_states().is_empty());
 
 		let mut n = 0;
 		dt.map(
@@ -268,16 +272,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
 
+				let mut last = a;
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(last, None, ea);
+					last = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(last, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From 2a1eceec1255b47c4a35c4c7d14377f90cea7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 28/44] fix: write regular expressions so that they are read
 back

Unions and sequences are enclosed where needed, dots escaped, a set may end with
a dash, and the sets that exclude nothing do not depend on RangeSet::complement,
whose result for the empty set has itself as its gap.
---
 layouts/src/abs/regexp.rs | 43 ++++++++++++++++++++++++++++-----------
 layouts/src/utils/mod.rs  | 10 ++++++---
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 9965f14..6412563 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -117,8 +117,10 @@ impl RegExp {
 		}
 	}
 
+	/// Checks if this regular expression can be repeated without enclosing it
+	/// between parenthesis.
 	pub fn is_simple(&self) -> bool {
-		matches!(self, Self::Any | Self::Set(_) | Self::Sequence(_))
+		matches!(self, Self::Any | Self::Set(_))
 	}
 
 	/// Checks if this regular expression matches only one value.
@@ -262,12 +264,9 @@ impl RegExp {
 	) -> (usize, usize) {
 		match self {
 			Self::Any => {
-				let mut charset = RangeSet::new();
-				charset.insert('\u{0}'..='\u{d7ff}');
-				charset.insert('\u{e000}'..='\u{10ffff}');
 				let a = new_state();
 				let b = new_state();
-				automaton.add(a, Some(charset), b);
+				automaton.add(a, Some(any_char()), b);
 				(a, b)
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
@@ -358,6 +357,14 @@ pub enum ParseError {
 	IncompleteCharacterSet,
 }
 
+/// Set of all characters.
+fn any_char() -> RangeSet<char> {
+	let mut charset = RangeSet::new();
+	charset.insert('\u{0}'..='\u{d7ff}');
+	charset.insert('\u{e000}'..='\u{10ffff}');
+	charset
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
@@ -382,13 +389,22 @@ fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char
 				}
 				c => match state {
 					State::RangeDashOrStart if c == '-' => state = State::RangeEnd,
-					State::Start | State::RangeStart | State::RangeDashOrStart if c == ']' => {
+					state if c == ']' => {
 						if let Some(start) = range_start.take() {
 							set.insert(start);
 						}
 
+						if state == State::RangeEnd {
+							// The dash is the last character.
+							set.insert('-');
+						}
+
 						if negate {
-							set = set.complement();
+							let mut complement = any_char();
+							for range in &set {
+								complement.remove(*range)
+							}
+							set = complement;
 						}
 
 						break Ok(set);
@@ -494,10 +510,9 @@ impl fmt::Display for RegExp {
 			}
 			Self::Sequence(seq) => {
 				for item in seq {
-					if seq.len() > 1 {
-						item.display_sub().fmt(f)?
-					} else {
-						item.fmt(f)?
+					match item {
+						Self::Union(_) => item.display_sub().fmt(f)?,
+						item => item.fmt(f)?,
 					}
 				}
 
@@ -521,7 +536,10 @@ impl fmt::Display for RegExp {
 						write!(f, "|")?
 					}
 
-					item.display_sub().fmt(f)?
+					match item {
+						Self::Union(_) => item.display_sub().fmt(f)?,
+						item => item.fmt(f)?,
+					}
 				}
 
 				Ok(())
@@ -572,6 +590,7 @@ fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 		'*' => write!(f, "\\*"),
 		'+' => write!(f, "\\+"),
 		'-' => write!(f, "\\-"),
+		'.' => write!(f, "\\."),
 		'^' => write!(f, "\\^"),
 		'|' => write!(f, "\\|"),
 		'\\' => write!(f, "\\\\"),
diff --git a/layouts/src/utils/mod.rs b/layouts/src/utils/mod.rs
index 5c735ad..7730504 100644
--- a/layouts/src/utils/mod.rs
+++ b/layouts/src/utils/mod.rs
@@ -12,10 +12,14 @@ use crate::Pattern;
 
 /// Computes the intersection of two character sets.
 pub fn charset_intersection(a: &RangeSet<char>, b: &RangeSet<char>) -> RangeSet<char> {
-	let mut result = a.clone();
+	let mut only_a = a.clone();
+	for r in b {
+		only_a.remove(*r);
+	}
 
-	for r in b.gaps() {
-		result.remove(r.cloned());
+	let mut result = a.clone();
+	for r in &only_a {
+		result.remove(*r);
 	}
 
 	result
-- 
2.43.0


From 31a482d3d74e660a0bea833c915fd1286f873490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 29/44] fix: keep the language of automata when combining or
 transforming them

minimize and try_map dropped the final states, compress looped on cycles and
dropped all the states but the first one, and product only followed epsilon
transitions that both automata can take at once.
---
 layouts/src/utils/automaton.rs | 60 ++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..402a37b 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -237,22 +237,26 @@ impl<Q: Ord> Automaton<Q> {
 							}
 						}
 						None => {
-							if let Some(b_successors) =
-								other.transitions.get(b).and_then(|s| s.get(&None))
-							{
-								let successors = transitions.entry(None).or_default();
-
-								for sa in a_successors {
-									for sb in b_successors {
-										let s = f(sa, sb);
-										stack.push((s.clone(), sa, sb));
-										successors.insert(s);
-									}
-								}
+							let successors = transitions.entry(None).or_default();
+
+							for sa in a_successors {
+								let s = f(sa, b);
+								stack.push((s.clone(), sa, b));
+								successors.insert(s);
 							}
 						}
 					}
 				}
+
+				if let Some(b_successors) = other.transitions.get(b).and_then(|s| s.get(&None)) {
+					let successors = transitions.entry(None).or_default();
+
+					for sb in b_successors {
+						let s = f(a, sb);
+						stack.push((s.clone(), a, sb));
+						successors.insert(s);
+					}
+				}
 			}
 		}
 
@@ -505,6 +509,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			if let Some(member) = map.get(q) {
+				result.add_final_state(member.clone());
+			}
+		}
+
 		result
 	}
 
@@ -582,6 +592,15 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
@@ -659,16 +678,21 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					let mut compact_label = M::default();
 					append(&mut compact_label, label);
 
-					while let Some((label, s)) = self.single_transition_of(r) {
-						if self.is_final_state(r) {
-							q_transitions.insert(compact_label.clone(), r.clone());
+					// Follow the chain of states up to a final state, a branch,
+					// or back to where it has already been.
+					let mut chain = BTreeSet::from([q]);
+					while !self.is_final_state(r) && chain.insert(r) {
+						match self.single_transition_of(r) {
+							Some((label, s)) => {
+								append(&mut compact_label, label);
+								r = s;
+							}
+							None => break,
 						}
-
-						append(&mut compact_label, label);
-						r = s;
 					}
 
 					q_transitions.insert(compact_label, r.clone());
+					stack.push(r);
 				}
 
 				transitions.insert(q.clone(), q_transitions);
-- 
2.43.0


From da00190e7053076462ce895ae540dd41d4bd7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 30/44] fix: check the patterns of text string and identifier
 layouts

---
 layouts/src/distill/de/mod.rs  | 16 ++++++++++++++++
 layouts/src/distill/hy/data.rs |  4 ++++
 layouts/src/distill/hy/mod.rs  |  5 ++++-
 layouts/src/utils/automaton.rs | 18 ++++++++++++++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index a4c6c6b..9b0a7e0 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -670,6 +670,14 @@ where
 						Ok(())
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
+						if layout
+							.pattern
+							.as_ref()
+							.is_some_and(|p| !p.recognizes(value))
+						{
+							return Err(Error::IncompatibleLayout);
+						}
+
 						let env = env.intro(rdf, layout.intro);
 						env.instantiate_dataset(
 							&layout.dataset,
@@ -693,6 +701,14 @@ where
 				},
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
+						if layout
+							.pattern
+							.as_ref()
+							.is_some_and(|p| !p.recognizes(value))
+						{
+							return Err(Error::IncompatibleLayout);
+						}
+
 						let env = env.intro(rdf, layout.intro);
 						env.instantiate_dataset(
 							&layout.dataset,
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index d918db2..28c1c9b 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -191,6 +191,10 @@ where
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
+					if layout.pattern.as_ref().is_some_and(|p| !p.recognizes(&v)) {
+						continue;
+					}
+
 					if value.replace(v).is_some() {
 						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
 							layout_ref.cast(),
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index e1aa901..04a308f 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -223,7 +223,10 @@ where
 					for i in interpretation.iris_of(&resource) {
 						let iri = vocabulary.iri(i).unwrap();
 
-						// TODO check automaton.
+						// Ignore the IRIs that do not match the pattern.
+						if layout.pattern.as_ref().is_some_and(|p| !p.recognizes(iri)) {
+							continue;
+						}
 
 						if selected.replace(iri).is_some() {
 							return Err(Error::DataAmbiguity(Box::new(
diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 402a37b..457fc01 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -3,6 +3,7 @@ use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
 	marker::PhantomData,
+	ops::RangeBounds,
 };
 
 use super::charset_intersection;
@@ -707,6 +708,23 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 	}
 }
 
+impl<Q: Ord> DetAutomaton<Q> {
+	/// Checks if the given string is in the language of this automaton.
+	pub fn recognizes(&self, string: &str) -> bool {
+		let mut q = &self.initial_state;
+
+		for c in string.chars() {
+			let mut transitions = self.transitions_from(q);
+			match transitions.find(|(range, _)| (range.start, range.end).contains(&c)) {
+				Some((_, target)) => q = target,
+				None => return false,
+			}
+		}
+
+		self.is_final_state(q)
+	}
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct DetTransitions<Q, L>(BTreeMap<Q, BTreeMap<L, Q>>);
 
-- 
2.43.0


From f4a2f5c3bb3f6ea526a58f92044bcf7841451c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:24 +0000
Subject: [PATCH 31/44] fix: write the complement of character sets without
 surrogates or losses

---
 layouts/src/abs/regexp.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 6412563..30367ca 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -365,6 +365,15 @@ fn any_char() -> RangeSet<char> {
 	charset
 }
 
+/// Set of all characters that are not in the given set.
+fn complement(charset: &RangeSet<char>) -> RangeSet<char> {
+	let mut result = any_char();
+	for range in charset {
+		result.remove(*range)
+	}
+	result
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
@@ -400,11 +409,7 @@ fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char
 						}
 
 						if negate {
-							let mut complement = any_char();
-							for range in &set {
-								complement.remove(*range)
-							}
-							set = complement;
+							set = complement(&set);
 						}
 
 						break Ok(set);
@@ -496,8 +501,8 @@ impl fmt::Display for RegExp {
 					write!(f, "[")?;
 					if charset.len() > CHAR_COUNT / 2 {
 						write!(f, "^")?;
-						for range in charset.gaps() {
-							fmt_range(range.cloned(), f)?
+						for range in &complement(charset) {
+							fmt_range(*range, f)?
 						}
 					} else {
 						for range in charset {
-- 
2.43.0


From fb2890eb7726a3f5b9251b39c4c04dde167c26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:41 +0000
Subject: [PATCH 32/44] fix: compile repetitions of counted repetitions, write
 empty unions

---
 layouts/src/abs/regexp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 30367ca..b19d7df 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -334,9 +334,12 @@ impl RegExp {
 			automaton.add(b, None, c);
 			(a, d)
 		} else {
-			let (a, b) = self.build_into(new_state, automaton);
+			let a = new_state();
+			let b = new_state();
+			let (ea, eb) = self.build_into(new_state, automaton);
+			automaton.add(a, None, ea);
+			automaton.add(eb, None, a);
 			automaton.add(a, None, b);
-			automaton.add(b, None, a);
 			(a, b)
 		}
 	}
@@ -535,6 +538,7 @@ impl fmt::Display for RegExp {
 					write!(f, "{}{{{},{}}}", e.display_sub(), min, max)
 				}
 			}
+			Self::Union(items) if items.is_empty() => write!(f, "[]"),
 			Self::Union(items) => {
 				for (i, item) in items.iter().enumerate() {
 					if i > 0 {
-- 
2.43.0


From 7055dfa7c668b54254bc8e94a20d9f50aaf64d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:39 +0000
Subject: [PATCH 33/44] fix: write derived types in the current graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 14 ++++++--
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..9afaa9d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..a74a5e1 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -81,13 +81,21 @@ where
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	/// Adds the instantiated `input` quads to the `output` dataset.
+	///
+	/// Quads without a graph are added to the given current graph.
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			let Quad(s, p, o, g) = self.instantiate_quad(quad.as_ref());
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 	}
 }
-- 
2.43.0


From 27302ef6d6ec5f9084662baf26759b6c8b76201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 34/44] fix: generate code that compiles for graphs, text
 strings and one-item tuples

---
 .../rust/treeldr-rs-macros/src/generate/de.rs |  2 +-
 .../treeldr-rs-macros/src/generate/ser.rs     | 48 ++++++++++++-------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..39e703e 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -573,7 +573,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9afaa9d..ad76d42 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -150,7 +150,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						rdf.interpretation.assign_literal(#target, literal);
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -194,11 +194,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -208,11 +210,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -245,7 +249,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -256,11 +260,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let value_inputs = env.instantiate_patterns(&#variant_inputs);
+						let value_graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)
 					}
@@ -292,7 +298,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -307,11 +313,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+						let value_graph: Option<I::Resource> = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 					}
@@ -338,7 +346,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -362,11 +370,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#node_value_inputs);
+						let value_graph: Option<I::Resource> = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 
@@ -393,7 +403,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -406,11 +416,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+							let value_graph: Option<I::Resource> = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&value_inputs,
+								value_graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From 010ce303575c963f3ed2223235d38a5ef4e38cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:16 +0000
Subject: [PATCH 35/44] fix: write derived literals and identifiers to the
 layout's resource

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index ad76d42..c6e6928 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let resource = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
+					let target = env.instantiate_pattern(&#resource);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#resource);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,7 +110,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +120,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#resource);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +139,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#resource);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,7 +148,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let resource = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +158,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#resource);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -465,46 +471,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From 781858aec4adfa6c6086d485e90a8d4ece42dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:31 +0000
Subject: [PATCH 36/44] fix: write derived empty lists as their own tail

---
 .../rust/treeldr-rs-macros/src/generate/ser.rs   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index c6e6928..2c075c4 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -365,6 +365,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					let mut head = env.instantiate_pattern(&#head);
 
+					if self.0.is_empty() {
+						// The empty list is its own tail.
+						let tail = env.instantiate_pattern(&#tail);
+						if head != tail {
+							let iris: Vec<_> = rdf.interpretation
+								.iris_of(&tail)
+								.filter_map(|i| rdf.vocabulary.iri(i))
+								.map(::treeldr::iref::Iri::to_owned)
+								.collect();
+							for iri in iris {
+								let id = rdf.vocabulary.insert(&iri);
+								rdf.interpretation.assign_iri(&head, id);
+							}
+						}
+					}
+
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
 							env.instantiate_pattern(&#tail)
-- 
2.43.0


From baed868963912927119b0a77e0c34ff1d25e9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 37/44] fix: report unbound variables and cyclic lists when
 reading derived types

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 36 ++++++++++-------
 generators/rust/treeldr-rs/src/de/mod.rs      | 39 ++++++++++++-------
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 39e703e..344b97d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -76,7 +76,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let resource = ::treeldr::de::instantiate(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 					let mut selected = None;
 
@@ -210,10 +210,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.into_unique()?;
 
 					if let Some(field_substitution) = field_substitution {
-						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let item_graph =
-							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let value = <#field_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -301,10 +301,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.into_unique()?;
 
 					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -395,13 +395,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					for item_substitution in matching {
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -452,11 +452,17 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
-					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let mut head = ::treeldr::de::instantiate(&#head.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
+					let tail = ::treeldr::de::instantiate(&#tail.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 					let mut items = Vec::new();
 
+					let mut visited = ::std::collections::BTreeSet::new();
+
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(::treeldr::DeserializeError::DataAmbiguity) // cyclic list.
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
@@ -475,13 +481,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -492,7 +498,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = ::treeldr::de::instantiate(&::treeldr::Pattern::Var(rest), &item_substitution)?;
 					}
 
 					Ok(Self(items))
@@ -532,13 +538,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						).into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -723,7 +729,7 @@ fn generate_data(
 		)
 		.into_required_unique()?;
 
-		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+		let resource = ::treeldr::de::instantiate(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 		let mut result = None;
 
diff --git a/generators/rust/treeldr-rs/src/de/mod.rs b/generators/rust/treeldr-rs/src/de/mod.rs
index b0d9951..885f89f 100644
--- a/generators/rust/treeldr-rs/src/de/mod.rs
+++ b/generators/rust/treeldr-rs/src/de/mod.rs
@@ -9,31 +9,40 @@ use rdf_types::{
 
 use crate::{pattern::Substitution, Pattern, RdfContext};
 
+/// Returns the resource denoted by the given pattern.
+///
+/// Returns an error if the pattern is a variable left unbound by the dataset.
+pub fn instantiate<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(Error::MissingData)
+}
+
 pub fn select_inputs<R: Clone, const N: usize>(
 	inputs: &[Pattern<R>; N],
 	substitution: &Substitution<R>,
-) -> [R; N] {
-	inputs
+) -> Result<[R; N], Error> {
+	let resources = inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect::<Vec<_>>()
-		.try_into()
-		.ok()
-		.unwrap()
+		.map(|p| instantiate(p, substitution))
+		.collect::<Result<Vec<_>, _>>()?;
+	Ok(resources.try_into().ok().unwrap())
 }
 
 pub fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error> {
+	match graph_pattern {
+		Some(Some(p)) => instantiate(p, substitution).map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From e8872947edf1e8da8896fa19d0ace53bd4750c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:15 +0000
Subject: [PATCH 38/44] fix: match nothing instead of failing on resources
 unknown to the vocabulary

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 114 +++++++++---------
 1 file changed, 60 insertions(+), 54 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 344b97d..462e244 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// Unknown resources match nothing.
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
@@ -287,18 +290,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// Unknown resources match nothing.
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
@@ -380,37 +386,37 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						)
-					);
-
-					for item_substitution in matching {
-						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
-
-						let item_graph = ::treeldr::de::select_graph(
-							current_graph,
-							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
-							&item_substitution,
-						)?;
-
-						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
+					if let Some(matching_dataset) = #node_dataset {
+						let matching = ::treeldr::de::Matching::new(
 							dataset,
-							item_graph.as_ref(),
-							&item_inputs
-						)?;
-
-						items.push(item);
+							substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
+						);
+
+						for item_substitution in matching {
+							let item_inputs =
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
+
+							let item_graph = ::treeldr::de::select_graph(
+								current_graph,
+								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
+								&item_substitution,
+							)?;
+
+							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								item_graph.as_ref(),
+								&item_inputs
+							)?;
+
+							items.push(item);
+						}
 					}
 
 					Ok(Self(items))
-- 
2.43.0


From a00724703bb16455c8ffa7146a8aa76936e2ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:17 +0000
Subject: [PATCH 39/44] fix: ignore the variants that do not match when reading
 derived enums

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 462e244..25f78c0 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -317,10 +317,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						// Ignore the variants that do not match the data.
+						if let Ok(value) = value {
+							if let Some(other) = result.replace(Self::#variant_ident(value)) {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From c168f332cbb7fb79653c68f90f1018b9153708d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:17 +0000
Subject: [PATCH 40/44] fix: report resources with several string values as
 ambiguous

---
 generators/rust/treeldr-rs/src/datatypes.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8cb36b4 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,29 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+		let mut has_literal = false;
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
+			has_literal = true;
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		match result {
+			Some(r) => Ok(r),
+			None => {
+				if has_literal {
+					Err(DeserializeError::LiteralTypeMismatch)
+				} else {
+					Err(DeserializeError::ExpectedLiteral)
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 6077a13e20b10df126998abbbf2ca1317f8e75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 41/44] fix: recursive layouts on cyclic data overflowed the
 stack

A layout that includes itself, on a dataset where the same resources come
back, and a sum that is one of its own variants, were followed forever.
---
 layouts/src/distill/de/mod.rs | 38 +++++++++++++++++++++++++++++
 layouts/src/distill/hy/mod.rs | 46 +++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 9b0a7e0..79fa1a7 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -536,6 +536,7 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 		&mut fragment,
 	)?;
 
@@ -572,6 +573,29 @@ impl<R, I, L> Fragment<R, I, L> {
 	}
 }
 
+/// Sum layout being dehydrated.
+struct Visit<'a, Q> {
+	parent: Option<&'a Visit<'a, Q>>,
+	layout_ref: &'a Ref<LayoutType, Q>,
+}
+
+impl<Q: PartialEq> Visit<'_, Q> {
+	/// Checks if this visit is part of itself.
+	fn is_cyclic(&self) -> bool {
+		let mut parent = self.parent;
+
+		while let Some(other) = parent {
+			if self.layout_ref.id() == other.layout_ref.id() {
+				return true;
+			}
+
+			parent = other.parent
+		}
+
+		false
+	}
+}
+
 fn dehydrate_with_ref<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -579,6 +603,7 @@ fn dehydrate_with_ref<V, I, Q>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
+	parent: Option<&Visit<Q>>,
 	output: &mut Fragment<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
@@ -732,6 +757,12 @@ where
 			_ => Err(Error::IncompatibleLayout),
 		},
 		Layout::Sum(layout) => {
+			let visit = Visit { parent, layout_ref };
+
+			if visit.is_cyclic() {
+				return Err(Error::IncompatibleLayout); // infinitely many variants.
+			}
+
 			let env = env.intro(rdf, layout.intro);
 			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
@@ -749,6 +780,7 @@ where
 					current_graph,
 					&variant.value,
 					&env,
+					Some(&visit),
 					&mut fragment,
 				)
 				.is_ok() && selection.replace(fragment).is_some()
@@ -792,6 +824,7 @@ where
 								current_graph,
 								&field.value,
 								&env,
+								None,
 								output,
 							)?;
 						}
@@ -833,6 +866,7 @@ where
 							current_graph,
 							&layout.item.value,
 							&env,
+							None,
 							output,
 						)?;
 					}
@@ -888,6 +922,7 @@ where
 							current_graph,
 							&layout.node.value,
 							&env,
+							None,
 							output,
 						)?;
 
@@ -919,6 +954,7 @@ where
 									current_graph,
 									&item_layout.value,
 									&env,
+									None,
 									output,
 								)?;
 							}
@@ -943,6 +979,7 @@ fn dehydrate_sub_value<V, I, Q>(
 	current_graph: Option<&I::Resource>,
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
+	parent: Option<&Visit<Q>>,
 	output: &mut Fragment<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
@@ -968,6 +1005,7 @@ where
 		graph.as_ref(),
 		&format.layout,
 		&inputs,
+		parent,
 		output,
 	)
 }
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 04a308f..6749eee 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -156,9 +156,38 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 	)
 }
 
+/// Layout being hydrated.
+struct Visit<'a, R> {
+	parent: Option<&'a Visit<'a, R>>,
+	layout_ref: &'a Ref<LayoutType, R>,
+	current_graph: Option<&'a R>,
+	inputs: &'a [R],
+}
+
+impl<R: PartialEq> Visit<'_, R> {
+	/// Checks if this visit is part of itself.
+	fn is_cyclic(&self) -> bool {
+		let mut parent = self.parent;
+
+		while let Some(other) = parent {
+			if self.layout_ref.id() == other.layout_ref.id()
+				&& self.current_graph == other.current_graph
+				&& self.inputs == other.inputs
+			{
+				return true;
+			}
+
+			parent = other.parent
+		}
+
+		false
+	}
+}
+
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
@@ -167,6 +196,7 @@ fn hydrate_with_ref<V, I, D>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
+	parent: Option<&Visit<I::Resource>>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -188,6 +218,17 @@ where
 		});
 	}
 
+	let visit = Visit {
+		parent,
+		layout_ref,
+		current_graph,
+		inputs,
+	};
+
+	if visit.is_cyclic() {
+		return Err(Error::IncompatibleLayout); // cyclic data.
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -295,6 +336,7 @@ where
 							variant_graph.as_ref(),
 							&variant.value.layout,
 							&variant_inputs,
+							Some(&visit),
 						);
 
 						match value {
@@ -369,6 +411,7 @@ where
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
+							Some(&visit),
 						)?;
 
 						record.insert(key.clone(), value);
@@ -431,6 +474,7 @@ where
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
+							Some(&visit),
 						)?;
 
 						items.push(item);
@@ -500,6 +544,7 @@ where
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
+							Some(&visit),
 						)?;
 
 						items.push(item);
@@ -550,6 +595,7 @@ where
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
+							Some(&visit),
 						)?;
 
 						items.push(item)
-- 
2.43.0


From d3eb79c3322f048b7b4aa5f3d81bbcd214de62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 42/44] fix: a value in the default graph lost its graph when a
 layout was serialized

---
 layouts/src/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layouts/src/format.rs b/layouts/src/format.rs
index c1b4be2..82c4b23 100644
--- a/layouts/src/format.rs
+++ b/layouts/src/format.rs
@@ -3,6 +3,7 @@ use crate::{layout::LayoutType, Pattern, Ref};
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(bound(deserialize = "R: serde::Deserialize<'de>"))]
 pub struct ValueFormat<R> {
 	/// Layout.
 	pub layout: Ref<LayoutType, R>,
@@ -11,6 +12,11 @@ pub struct ValueFormat<R> {
 	pub input: Vec<Pattern<R>>,
 
 	/// Graph in which the layout is evaluated.
+	#[serde(
+		default,
+		skip_serializing_if = "Option::is_none",
+		deserialize_with = "crate::abs::syntax::deserialize_nullable"
+	)]
 	pub graph: Option<Option<Pattern<R>>>,
 }
 
-- 
2.43.0


From 0b592054e7abf5f28472fd71342b9094e217973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 43/44] fix: generated Rust types lost optional fields, sets
 and literal layouts

---
 generators/rust/generator/src/lib.rs | 59 ++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..74a3437 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -269,6 +269,37 @@ where
 	Ok(quote!(graph(#expr)))
 }
 
+pub fn generate_resource_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &Pattern<I::Resource>,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let resource = pattern_to_id(rdf, resource)?.to_string();
+
+	Ok(quote!(resource(#resource)))
+}
+
+pub fn generate_datatype_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let datatype = rdf
+		.interpretation
+		.iris_of(datatype)
+		.next()
+		.map(|i| rdf.vocabulary.iri(i).unwrap().to_string())
+		.ok_or(Error::NoIriRepresentation)?;
+
+	Ok(quote!(datatype(#datatype)))
+}
+
 pub fn generate<V, I>(
 	rdf: RdfContext<V, I>,
 	layouts: &Layouts<I::Resource>,
@@ -304,10 +335,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(bool);
 					})
 				}
@@ -315,10 +348,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(number, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(Number);
 					})
 				}
@@ -326,10 +361,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +374,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -349,10 +388,11 @@ where
 				let input = generate_input_attribute(layout.input);
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+				let resource = generate_resource_attribute(rdf, &layout.resource)?;
 
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
+					#[tldr(id, #input, #intro, #dataset, #resource)]
 					pub struct #ident(Id);
 				})
 			}
@@ -374,10 +414,15 @@ where
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
@@ -442,7 +487,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From 1c10262558ae0bbbfd0a5c2f92297416cf8b748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 44/44] fix: field names with whitespaces were generated as
 other names

---
 generators/rust/generator/src/lib.rs   | 10 +++++-----
 generators/rust/generator/src/utils.rs |  8 ++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 74a3437..d574836 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -17,7 +17,7 @@ use treeldr_layouts::{
 	layout::{DataLayout, LayoutType, ListLayout, LiteralLayout},
 	Layout, Layouts, Literal, Pattern, Ref, Value,
 };
-use utils::ident_from_iri;
+use utils::{ident_from_iri, ident_from_name};
 
 pub mod utils;
 
@@ -406,8 +406,8 @@ where
 				.iter()
 				.map(|(key, f)| match key {
 					Value::Literal(Literal::TextString(name)) => {
-						let f_ident = syn::parse_str::<syn::Ident>(name.as_str())
-							.map_err(|_| Error::InvalidFieldIdent(key.clone()))?;
+						let f_ident = ident_from_name(name.as_str())
+							.ok_or_else(|| Error::InvalidFieldIdent(key.clone()))?;
 
 						let intro = generate_intro_attribute(f.intro, layout.input + layout.intro);
 						let dataset = generate_dataset_attribute(rdf, &f.dataset)?;
@@ -445,8 +445,8 @@ where
 				.variants
 				.iter()
 				.map(|v| {
-					let v_ident = syn::parse_str::<syn::Ident>(&v.name)
-						.map_err(|_| Error::InvalidVariantIdent(v.name.clone()))?;
+					let v_ident = ident_from_name(&v.name)
+						.ok_or_else(|| Error::InvalidVariantIdent(v.name.clone()))?;
 
 					let intro = generate_intro_attribute(v.intro, layout.input + layout.intro);
 					let dataset = generate_dataset_attribute(rdf, &v.dataset)?;
diff --git a/generators/rust/generator/src/utils.rs b/generators/rust/generator/src/utils.rs
index f9b7ebb..663526b 100644
--- a/generators/rust/generator/src/utils.rs
+++ b/generators/rust/generator/src/utils.rs
@@ -12,6 +12,14 @@ pub fn ident_from_iri(iri: &Iri) -> Option<syn::Ident> {
 	}
 }
 
+/// Returns the identifier spelled exactly as the given name, if any.
+pub fn ident_from_name(name: &str) -> Option<syn::Ident> {
+	// The parser skips the whitespaces and comments around the identifier.
+	syn::parse_str::<syn::Ident>(name)
+		.ok()
+		.filter(|ident| ident == name)
+}
+
 pub struct PascalCase<T>(pub T);
 
 impl<T: AsRef<str>> fmt::Display for PascalCase<T> {
-- 
2.43.0

