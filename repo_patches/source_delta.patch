From 8ad3816e5a06a6a54ba8141f5148de7b45ab2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 01/52] fix: scale factors for exponents beyond the lookup
 tables are computed, not taken as one

---
 proc-macros/src/pow_lookup_macro.rs | 56 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..4f2bbf7 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -84,9 +84,21 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: exponents beyond the table are computed (and panic, rather than
+        // silently yielding a factor of one, if the power does not fit)
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => {
+                let mut power: i128 = 1;
+                let mut i = 0;
+                while i < exp.unsigned_abs() {
+                    power = match power.checked_mul(#base) {
+                        Some(power) => power,
+                        None => panic!("scale factor overflows i128"),
+                    };
+                    i += 1;
+                }
+                if exp >= 0 { (power, 1) } else { (1, power) }
+            }
         });
 
         let func_name = &self.name;
@@ -123,9 +135,17 @@ impl PowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: exponents beyond the table are computed
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => {
+                let mut power: f64 = 1.0;
+                let mut i = 0;
+                while i < exp.unsigned_abs() {
+                    power *= #base;
+                    i += 1;
+                }
+                if exp >= 0 { power } else { 1.0 / power }
+            }
         });
 
         let func_name = &self.name;
@@ -238,9 +258,21 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: exponents beyond the table are computed (and panic, rather than
+        // silently yielding a factor of one, if the power does not fit)
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => {
+                let (mut num, mut den): (i128, i128) = (1, 1);
+                let mut i = 0;
+                while i < exp.unsigned_abs() {
+                    (num, den) = match (num.checked_mul(355), den.checked_mul(113)) {
+                        (Some(num), Some(den)) => (num, den),
+                        _ => panic!("scale factor overflows i128"),
+                    };
+                    i += 1;
+                }
+                if exp >= 0 { (num, den) } else { (den, num) }
+            }
         });
 
         let func_name = &self.name;
@@ -290,9 +322,17 @@ impl PiPowLookupInput {
             });
         }
 
-        // Add default case
+        // Add default case: exponents beyond the table are computed
         match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
+            _ => {
+                let mut power: f64 = 1.0;
+                let mut i = 0;
+                while i < exp.unsigned_abs() {
+                    power *= core::f64::consts::PI;
+                    i += 1;
+                }
+                if exp >= 0 { power } else { 1.0 / power }
+            }
         });
 
         let func_name = &self.name;
-- 
2.43.0


From 9eecc862fc27ea5edcbffb3199658da63572e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 02/52] fix: scales of the gradian, arcminute and arcsecond

---
 src/quantity.rs               | 2 +-
 whippyunits-core/src/units.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 7454144a33029c340070a7453897865a48b0ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 03/52] fix: zero point of the Fahrenheit scale is 459.67

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..47c86d1 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From e8fb6ba0f8f37fc6d26979973e29ed0bc897d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 04/52] fix: dynamic viscosity is mass per length per time

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 1b6fc9d4bbab004b1399ed5c752e43c2034ced77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 05/52] fix: integer rescaling when the ratio does not fit the
 storage type or the value is negative

---
 src/scale_conversion.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..dbf3fb6 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -232,17 +232,33 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            let value = quantity.unsafe_value;
 
-            // Numerical stability: check for potential overflow on multiplication
-            // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            let result = if (num as $T) as i128 == num && (den as $T) as i128 == den {
+                let num = num as $T;
+                let den = den as $T;
+
+                // Numerical stability: check for potential overflow on multiplication
+                // If value * num would overflow, divide first; otherwise multiply first
+                if value > <$T>::MAX / num || value < <$T>::MIN / num {
+                    // Potential overflow: divide first to reduce intermediate value
+                    (value / den) * num
+                } else {
+                    // Safe to multiply first
+                    (value * num) / den
+                }
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                // The ratio itself does not fit the (narrow) storage type, so the conversion
+                // is carried out in i128
+                let value = value as i128;
+                let wide = if value > i128::MAX / num || value < i128::MIN / num {
+                    (value / den) * num
+                } else {
+                    (value * num) / den
+                };
+                let result = wide as $T;
+                assert!(result as i128 == wide, "attempt to rescale with overflow");
+                result
             };
 
             Quantity::<
-- 
2.43.0


From 5a4e4e59cdd1ebbe0f5d3cb56ca4d4e5b6d9be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 06/52] fix: reduce_rational assumed both terms odd
 (near-endless loop, common twos kept)

---
 src/scale_conversion.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index dbf3fb6..74e89fb 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -78,10 +78,10 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
     let mut num_u = num.unsigned_abs();
     let mut den_u = den.unsigned_abs();
 
-    // Remove common factors of 2 using bit shifts
+    // Remove all factors of 2 using bit shifts, remembering the common ones
     let common_twos = (num_u | den_u).trailing_zeros();
-    num_u >>= common_twos;
-    den_u >>= common_twos;
+    num_u >>= num_u.trailing_zeros();
+    den_u >>= den_u.trailing_zeros();
 
     // Now both are odd, so we can use the odd-odd case of binary GCD
     while num_u != den_u {
@@ -95,8 +95,8 @@ pub const fn reduce_rational(num: i128, den: i128) -> (i128, i128) {
         }
     }
 
-    // num_u == den_u now, and both are odd, so this is the GCD
-    let gcd = num_u;
+    // num_u == den_u now, and both are odd, so this is the odd part of the GCD
+    let gcd = num_u << common_twos;
 
     // Divide both by the GCD to get reduced form
     let reduced_num = num / (gcd as i128);
-- 
2.43.0


From 35398a69be47ec9707bc09643a513d33c0e60086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 07/52] fix: unknown units, stray numbers and unrepresentable
 exponents in unit expressions are errors

---
 .../src/compute_unit_dimensions_macro.rs      |  5 ++
 proc-macros/src/quantity_macro.rs             |  5 ++
 proc-macros/src/unit_macro.rs                 |  5 ++
 proc-macros/src/value_macro.rs                |  5 ++
 src/serialization.rs                          | 15 +++++
 whippyunits-core/src/parser.rs                | 66 +++++++++++++++++--
 6 files changed, 97 insertions(+), 4 deletions(-)

diff --git a/proc-macros/src/compute_unit_dimensions_macro.rs b/proc-macros/src/compute_unit_dimensions_macro.rs
index f5edf6a..0e3aa48 100644
--- a/proc-macros/src/compute_unit_dimensions_macro.rs
+++ b/proc-macros/src/compute_unit_dimensions_macro.rs
@@ -9,6 +9,11 @@ use syn::parse;
 pub fn compute_unit_dimensions(input: TokenStream) -> TokenStream {
     let unit_expr: whippyunits_core::UnitExpr = parse(input).expect("Expected unit expression");
 
+    // Unknown units must not be read as dimensionless
+    if let Err(error) = unit_expr.validate() {
+        return error.to_compile_error().into();
+    }
+
     // Use tolerant mode to allow nonstorage units (for quantity!, value!, serialization)
     let result = unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
 
diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..89dbb18 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -48,6 +48,11 @@ impl Parse for QuantityMacroInput {
 
 impl QuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units must not be read as dimensionless
+        if let Err(error) = self.unit_expr.validate() {
+            return error.to_compile_error();
+        }
+
         // Generate documentation structs for unit identifiers
         // For quantity! macro, use storage type for affine/nonstorage units
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
diff --git a/proc-macros/src/unit_macro.rs b/proc-macros/src/unit_macro.rs
index afaa138..8db0db9 100644
--- a/proc-macros/src/unit_macro.rs
+++ b/proc-macros/src/unit_macro.rs
@@ -44,6 +44,11 @@ impl Parse for UnitMacroInput {
 
 impl UnitMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units must not be read as dimensionless
+        if let Err(error) = self.unit_expr.validate() {
+            return error.to_compile_error();
+        }
+
         // Validate that no nonstorage units are used (strict mode requirement)
         if let Some(error_msg) = self.unit_expr.validate_strict() {
             return quote! {
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..753846f 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -49,6 +49,11 @@ impl Parse for ValueMacroInput {
 
 impl ValueMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units must not be read as dimensionless
+        if let Err(error) = self.unit_expr.validate() {
+            return error.to_compile_error();
+        }
+
         // Generate documentation structs for unit identifiers
         // For value! macro, use storage type for affine/nonstorage units (like quantity!)
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..1c75c34 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -603,6 +603,10 @@ where
 
 // deserialize_from_json removed - not compatible with compile-time only units library
 
+/// Longest unit text, and most parentheses in it, that [parse_ucum_unit] accepts
+const MAX_UNIT_LENGTH: usize = 1024;
+const MAX_UNIT_DEPTH: usize = 32;
+
 /// Parse a UCUM unit string to extract dimension exponents and scale factors
 /// Returns (mass, length, time, current, temperature, amount, luminosity, angle, p2, p3, p5, pi)
 pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
@@ -614,6 +618,12 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         ));
     }
 
+    // Parsing is recursive, so long or deeply nested input would exhaust the stack
+    let depth = ucum_string.bytes().filter(|b| *b == b'(').count();
+    if ucum_string.len() > MAX_UNIT_LENGTH || depth > MAX_UNIT_DEPTH {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents::ZERO));
+    }
+
     // Convert the string to a TokenStream for parsing
     let token_stream: TokenStream = parse_str(ucum_string).map_err(|_| {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
@@ -624,6 +634,11 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
     })?;
 
+    // Reject unknown units and unrepresentable exponents
+    unit_expr
+        .validate()
+        .map_err(|_| UcumError::UnknownDimension(DynDimensionExponents::ZERO))?;
+
     // Evaluate the unit expression to get dimensions and scales (use tolerant mode for serialization)
     let result: UnitEvaluationResult =
         unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..257aa3c 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,4 +1,3 @@
-#[cfg(not(test))]
 extern crate alloc;
 
 use syn::parse::{Parse, ParseStream, Result};
@@ -18,6 +17,10 @@ use crate::{
     scale_exponents::ScaleExponents,
 };
 
+/// Largest exponent magnitude accepted in a unit expression; sums and differences of a few such
+/// exponents are still representable
+const MAX_EXPONENT: i32 = (i16::MAX / 4) as i32;
+
 /// Represents a unit with optional exponent
 #[derive(Debug, Clone)]
 pub struct UnitExprUnit {
@@ -115,6 +118,8 @@ impl UnitExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            // Reject exponents that cannot be represented
+            exponent.base10_parse::<i16>()?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -131,11 +136,19 @@ impl UnitExpr {
             let lit: syn::LitInt = input.parse()?;
             let base_value: i32 = lit.base10_parse()?;
 
+            // Only powers of ten are meaningful scale factors; any other number would be lost
+            if base_value != 1 && base_value != 10 {
+                return Err(syn::Error::new(
+                    lit.span(),
+                    "only `1`, `10` and powers of 10 are allowed as numbers in a unit expression",
+                ));
+            }
+
             // Check if this is followed by a caret (^) for power notation
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -144,7 +157,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
@@ -177,7 +190,8 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            let first_digit = ident_str.find(|c: char| c.is_ascii_digit());
+            if let Some(pos) = first_digit.filter(|_| !ident_str.starts_with("r#")) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
@@ -204,6 +218,50 @@ impl UnitExpr {
         }
     }
 
+    /// Validate that every unit in the expression is known, and that the exponents of the
+    /// resulting unit stay within a range in which no intermediate computation overflows
+    pub fn validate(&self) -> Result<()> {
+        for ident in self.collect_unit_identifiers() {
+            let name = ident.to_string();
+            if name != "power_of_10" && name != "dimensionless" && get_unit_info(&name).is_none() {
+                return Err(syn::Error::new(
+                    ident.span(),
+                    alloc::format!("Unknown unit '{}'", name),
+                ));
+            }
+        }
+
+        match self.exponent_bound() {
+            Some(bound) if bound <= MAX_EXPONENT => Ok(()),
+            _ => Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                "exponents of the unit expression are too large",
+            )),
+        }
+    }
+
+    /// Upper bound on the magnitude of any exponent met while evaluating the expression
+    fn exponent_bound(&self) -> Option<i32> {
+        match self {
+            UnitExpr::Unit(unit) => {
+                // A prefix contributes at most 10^30
+                const MAX_PREFIX: i32 = 30;
+                let base = get_unit_info(&unit.name.to_string()).map_or(1, |info| {
+                    let dimension_exponents = info.exponents.value();
+                    let exponents = dimension_exponents.0.iter().chain(info.scale.0.iter());
+                    exponents.map(|e| (*e as i32).abs()).max().unwrap_or(0) + MAX_PREFIX
+                });
+                base.checked_mul((unit.exponent as i32).abs())
+            }
+            UnitExpr::Mul(a, b) | UnitExpr::Div(a, b) => {
+                a.exponent_bound()?.checked_add(b.exponent_bound()?)
+            }
+            UnitExpr::Pow(base, exp) => base
+                .exponent_bound()?
+                .checked_mul((exp.base10_parse::<i16>().ok()? as i32).abs()),
+        }
+    }
+
     /// Validate that the unit expression doesn't contain nonstorage units (for strict mode)
     /// Returns an error message if any nonstorage units are found, None otherwise
     #[cfg(not(test))]
-- 
2.43.0


From 9a3424cf070601ca5142c95e3fff0a83311b88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 08/52] fix: quantity! ignored exponent, storage type and brand
 of a lone converted unit

---
 proc-macros/src/quantity_macro.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 89dbb18..c77d65b 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -58,9 +58,13 @@ impl QuantityMacroInput {
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
 
         // Check if this is a simple atomic unit that's nonstorage/affine
-        // For these, we can dispatch directly to the declarator
+        // For these, we can dispatch directly to the declarator (which knows nothing of exponents,
+        // explicit storage types or brands)
+        let is_plain = self.storage_type.is_none() && self.brand_type.is_none();
         if let UnitExpr::Unit(unit) = &self.unit_expr {
-            if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
+            if unit.exponent != 1 || !is_plain {
+                // Handled below
+            } else if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
-- 
2.43.0


From 442e0c33161a278bd5855ca785fb3322a7a4bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 09/52] fix: default declarators ignored the scale of a
 dimension's first unit

---
 .../src/generate_default_declarators_macro.rs | 30 ++++++-------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..8850f8a 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -352,13 +352,8 @@ impl DefaultDeclaratorsInput {
                 let base_fn_name = unit_suffix.to_string();
 
                 // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                // (e.g. gram has an inherent -3 scale factor, most have none)
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -374,20 +369,13 @@ impl DefaultDeclaratorsInput {
                     // For function names, use the plural form
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
-                    // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    // Calculate scale factors: the inherent ones times the prefix
+                    let (p2, p3, p5, pi) = (
+                        base_p2 + prefix.factor_log10(),
+                        base_p3,
+                        base_p5 + prefix.factor_log10(),
+                        base_pi,
+                    );
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 555b948f3c31ba4d094173c3ccba5db7be65611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 10/52] fix: value! of an affine unit given by name used
 kelvins as storage unit

---
 proc-macros/src/value_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 753846f..97c7688 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -143,6 +143,7 @@ impl ValueMacroInput {
             // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
             let storage_unit_symbol = if let Some((unit, dimension)) =
                 Dimension::find_unit_by_symbol(&unit_name)
+                    .or_else(|| Dimension::find_unit_by_name(&unit_name))
             {
                 // Find a storage unit with the same scale
                 if let Some(storage_unit) = dimension.units.iter().find(|u| {
-- 
2.43.0


From 2e197f7778677d15cfd27bea5ca4f3ae138e4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 11/52] fix: serialization dropped the scale of the quantity

---
 src/serialization.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 1c75c34..e928e7d 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -106,6 +106,11 @@ where
     generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
 }
 
+/// Factor from a scale to the coherent unit that [to_ucum_unit] writes
+fn scale_to_unity(p2: i16, p3: i16, p5: i16, pi: i16) -> f64 {
+    aggregate_scale_factor_float(p2, p3, p5, pi, 0, 0, 0, 0)
+}
+
 /// Errors that can occur during UCUM serialization/deserialization
 #[derive(Debug, Clone, PartialEq)]
 pub enum UcumError {
@@ -249,7 +254,9 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        // The written unit has no scale, so the scale goes into the value
+        let value =
+            self.unsafe_value.into() * scale_to_unity(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI);
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +600,8 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    let value =
+        quantity.unsafe_value.into() * scale_to_unity(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From 28374a99a70372bf6e44fbac0ddb9f2a6382fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 12/52] fix: serialized compound units are written in the
 grammar they are read in

---
 src/serialization.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index e928e7d..1557aab 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -38,8 +38,6 @@
 //! for sufficiently resource-constrained environments.
 
 use crate::api::aggregate_scale_factor_float;
-use crate::print::name_lookup::generate_systematic_unit_name_with_format;
-use crate::print::prettyprint::UnitFormat;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
@@ -53,7 +51,7 @@ pub type UnitDimensions = (
     whippyunits_core::scale_exponents::ScaleExponents,
 );
 
-use crate::alloc::{String, ToString, Vec, format, vec};
+use crate::alloc::{String, ToString, Vec, format};
 use proc_macro2::TokenStream;
 use syn::parse_str;
 
@@ -93,7 +91,7 @@ pub fn to_ucum_unit<
 where
     T: Into<f64> + Copy,
 {
-    let exponents = vec![
+    let exponents = [
         MASS_EXPONENT,
         LENGTH_EXPONENT,
         TIME_EXPONENT,
@@ -103,7 +101,23 @@ where
         LUMINOSITY_EXPONENT,
         ANGLE_EXPONENT,
     ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+    // Coherent units in the grammar of `parse_ucum_unit`, e.g. `kg.m2/s2` or `1/s`
+    const SYMBOLS: [&str; 8] = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
+    let power = |(symbol, exponent): (&str, i16)| match exponent.unsigned_abs() {
+        1 => symbol.to_string(),
+        n => format!("{}{}", symbol, n),
+    };
+    let terms = || SYMBOLS.into_iter().zip(exponents);
+    let numerator: Vec<String> = terms().filter(|(_, e)| *e > 0).map(power).collect();
+    let mut result = match numerator.is_empty() {
+        true => "1".to_string(),
+        false => numerator.join("."),
+    };
+    for term in terms().filter(|(_, e)| *e < 0) {
+        result.push('/');
+        result.push_str(&power(term));
+    }
+    result
 }
 
 /// Factor from a scale to the coherent unit that [to_ucum_unit] writes
-- 
2.43.0


From 4efaa45781f813c2c9100fc1fdaef346d3e2c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 13/52] fix: infinite and tiny values were printed as NaN

---
 src/print/prettyprint.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..0f9cd0f 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -442,12 +442,20 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     if value == 0.0 {
         return "0".to_string();
     }
+    if !value.is_finite() {
+        return value.to_string();
+    }
 
     let abs_value = value.abs();
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    let rounded = (value * scale_factor).round() / scale_factor;
+    // The scale factor of a subnormal-range value overflows; such a value is shown as it is
+    let rounded = if scale_factor.is_finite() {
+        (value * scale_factor).round() / scale_factor
+    } else {
+        value
+    };
 
     // Format with appropriate precision
     let formatted = if magnitude >= 0 {
-- 
2.43.0


From 47bf201b707ed7bdd121e7279a470ecd360798d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 14/52] fix: scales of the acre and the foot-pound

---
 whippyunits-core/src/units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 47c86d1..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From fbb1702755eb239f720aad42a6b5970b87c4b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 15/52] fix: run-time unit text could not name the inch (in) or
 the attosecond (as)

---
 whippyunits-core/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 257aa3c..e417bde 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,5 +1,6 @@
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -186,7 +187,8 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // The symbols of the inch (`in`) and the attosecond (`as`) are keywords
+            let ident = input.call(Ident::parse_any)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From 7b7ab3d476472c42967631b32f830027dc54ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 16/52] fix: reading a value and unit without a space took
 quadratic time

---
 src/serialization.rs | 57 +++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 1557aab..9f7f8e6 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1028,29 +1028,17 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
     }
 
     // No space found - try to parse by finding the boundary between number and unit
-    // Find the longest valid numeric prefix by trying all possible prefixes
-    let chars: Vec<char> = trimmed.chars().collect();
-    let mut end_of_number = 0;
-
-    // Try all possible prefixes and find the longest one that parses as a valid f64
-    for i in 1..=chars.len() {
-        let candidate: String = chars[..i].iter().collect();
-        if candidate.parse::<f64>().is_ok() {
-            end_of_number = i;
-        }
-        // Continue trying longer prefixes even if this one fails
-        // (e.g., "5.0e" fails but "5.0e-3" succeeds)
-    }
+    // Take the longest prefix that is a valid number
+    let end_of_number = numeric_prefix_length(trimmed);
 
-    if end_of_number == 0 || end_of_number >= chars.len() {
+    if end_of_number == 0 || end_of_number >= trimmed.len() {
         return Err(SerializationError::InvalidFormat(format!(
             "Could not parse value and unit from '{}'",
             trimmed
         )));
     }
 
-    let value_str: String = chars[..end_of_number].iter().collect();
-    let unit_str: String = chars[end_of_number..].iter().collect();
+    let (value_str, unit_str) = trimmed.split_at(end_of_number);
 
     let value: f64 = value_str.parse().map_err(|e| {
         SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
@@ -1063,7 +1051,42 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
         )));
     }
 
-    Ok((value, unit_str))
+    Ok((value, unit_str.to_string()))
+}
+
+/// Length in bytes of the longest prefix that parses as an f64, zero if there is none
+fn numeric_prefix_length(text: &str) -> usize {
+    let bytes = text.as_bytes();
+    let sign_at = |at: usize| usize::from(matches!(bytes.get(at), Some(b'+' | b'-')));
+    let digits_at = |at: usize| bytes[at..].iter().take_while(|b| b.is_ascii_digit()).count();
+
+    let mut end = sign_at(0);
+    for word in ["infinity", "inf", "nan"] {
+        let candidate = bytes.get(end..end + word.len());
+        if candidate.is_some_and(|c| c.eq_ignore_ascii_case(word.as_bytes())) {
+            return end + word.len();
+        }
+    }
+
+    let mut digits = digits_at(end);
+    end += digits;
+    if bytes.get(end) == Some(&b'.') {
+        let fraction = digits_at(end + 1);
+        digits += fraction;
+        end += 1 + fraction;
+    }
+    if digits == 0 {
+        return 0;
+    }
+
+    if matches!(bytes.get(end), Some(b'e' | b'E')) {
+        let sign = sign_at(end + 1);
+        match digits_at(end + 1 + sign) {
+            0 => {}
+            exponent => end += 1 + sign + exponent,
+        }
+    }
+    end
 }
 
 /// Core deserialization logic that handles parsing and validation
-- 
2.43.0


From 8f0d67a1a7613c96b5b9718c7fc1334220d19ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 17/52] fix: a unit containing spaces could not directly follow
 its value

---
 src/serialization.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 9f7f8e6..f5de7d3 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -1017,8 +1017,12 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
 
     // First, try parsing with whitespace separation (for backward compatibility)
     let parts: Vec<&str> = trimmed.split_whitespace().collect();
+    let end_of_number = numeric_prefix_length(trimmed);
+    // The unit itself may contain spaces ("5.0kg * m2")
+    let unit_follows_number =
+        end_of_number > 0 && parts.first().is_some_and(|part| end_of_number < part.len());
 
-    if parts.len() >= 2 {
+    if parts.len() >= 2 && !unit_follows_number {
         // Space-separated format: "5.0 m"
         let value: f64 = parts[0].parse().map_err(|e| {
             SerializationError::ParseError(format!("Failed to parse value as f64: {}", e))
@@ -1027,10 +1031,7 @@ pub fn parse_string_input(string: &str) -> Result<(f64, String), SerializationEr
         return Ok((value, unit_str));
     }
 
-    // No space found - try to parse by finding the boundary between number and unit
-    // Take the longest prefix that is a valid number
-    let end_of_number = numeric_prefix_length(trimmed);
-
+    // No space found - the unit follows the longest prefix that is a valid number
     if end_of_number == 0 || end_of_number >= trimmed.len() {
         return Err(SerializationError::InvalidFormat(format!(
             "Could not parse value and unit from '{}'",
-- 
2.43.0


From 0be532bd3a96a0d86c736fe8a37b0a18765194df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 18/52] fix: printed unit names lost or misplaced the scale
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A scale without a unit of its own fell back to the unscaled name (1 kHz was
printed as Hz), prefixes were put on powers (km⁻¹ for 10^3/m), a scaled factor
was used under any exponent (min⁻¹ for 60/s), kg² was named g², and numeric
scales ignored the scale of the unit they were put in front of.
---
 whippyunits-core/src/storage_unit.rs | 213 ++++++++-------------------
 1 file changed, 62 insertions(+), 151 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..4d62796 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -251,23 +251,13 @@ pub fn lookup_unit_literal_by_scale_factors(
     ]);
 
     if let Some(dimension) = Dimension::find_dimension_by_exponents(dyn_exponents) {
-        // First, try to find a unit that matches the exact scale factors
-        // This is the preferred approach - use exact matches when possible
-        if let Some(exact_unit) = dimension.units.iter().find(|unit| {
-            unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
-        }) {
-            return Some(if long_name {
-                exact_unit.name
-            } else {
-                exact_unit.symbols[0]
-            });
-        }
-
-        // If no exact match found, fall back to base unit (identity scale)
+        // Only a unit of exactly this scale names the quantity
         dimension
             .units
             .iter()
-            .find(|unit| unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0)
+            .find(|unit| {
+                unit.scale == scale_factors && unit.conversion_factor == 1.0 // Only consider pure SI units, not imperial units
+            })
             .map(|unit| {
                 if long_name {
                     unit.name
@@ -349,137 +339,57 @@ pub fn generate_prefixed_systematic_unit(
     base_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
-    // Check if this is a pure unit (not compound)
-    let is_pure_unit = !base_unit.contains("·");
-
-    // For pure units, check if we need to apply base scale offset
-    let effective_scale_p10 = if is_pure_unit {
-        // Find the base scale offset by looking up the unit's scale from whippyunits-core
-        // The base_unit comes from systematic unit name generation, so it should always be valid
-        let base_scale_offset = Dimension::find_unit_by_symbol(base_unit)
-            .or_else(|| Dimension::find_unit_by_name(base_unit))
-            .map(|(_unit, _dimension)| _unit.scale.log10().unwrap_or(0))
-            .unwrap_or(0);
-
-        // Apply the base scale offset to the scale calculation
-        // The base scale offset represents the offset of the base unit (e.g., gram = -3)
-        // We need to subtract it from the total scale to get the effective scale
-        total_scale_p10 - base_scale_offset
-    } else {
-        // For compound units, don't apply base scale offset to the aggregate prefix
-        // The individual parts already have their base scale offsets applied
-        total_scale_p10
-    };
+    apply_scale(scale_factors, base_unit, long_name)
+}
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
-        // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
-            format!("{}({})", prefix, base_unit)
-        } else {
-            format!("{}{}", prefix, base_unit)
-        }
-    } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
+/// Put the scale in front of a unit: as a prefix where there is one, else as a power of ten or a number
+fn apply_scale(scale_factors: ScaleExponents, base_unit: &str, long_name: bool) -> String {
+    // The unit may have a scale of its own (e.g. gram = 10^-3); what is left is shown
+    let base_scale = Dimension::find_unit_by_symbol(base_unit)
+        .or_else(|| Dimension::find_unit_by_name(base_unit))
+        .map(|(unit, _dimension)| unit.scale)
+        .unwrap_or(ScaleExponents::IDENTITY);
+    let mut relative = scale_factors;
+    for (exponent, base) in relative.0.iter_mut().zip(base_scale.0) {
+        *exponent = exponent.saturating_sub(base);
+    }
 
-        if is_pure_power_of_10 {
-            // Fall back to SI unit with 10^n notation when SI prefix lookup fails
-            generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
-        } else {
-            // Not a pure power of 10, show the scale factors explicitly
-            let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
-            );
-            if scale_factors_str.is_empty() {
-                base_unit.to_string()
-            } else {
-                format!("{}{}", scale_factors_str, base_unit)
+    match relative.log10() {
+        Some(power) => match get_si_prefix(power, long_name) {
+            // A prefix binds tighter than an exponent, so powers of units are parenthesized
+            Some(prefix) if has_exponent(base_unit) && !base_unit.starts_with('(') => {
+                format!("{}({})", prefix, base_unit)
             }
-        }
+            Some(prefix) => format!("{}{}", prefix, base_unit),
+            // Fall back to 10^n notation when SI prefix lookup fails
+            None => generate_si_unit_with_scale(power, base_unit, long_name),
+        },
+        // Not a pure power of 10, show the scale factors explicitly
+        None => format!(
+            "{}{}",
+            format_scale_factors(
+                relative.0[0],
+                relative.0[1],
+                relative.0[2],
+                relative.0[3],
+            ),
+            base_unit
+        ),
     }
 }
 
+/// Whether a unit name ends in an exponent, e.g. `m²` or `s⁻¹`
+fn has_exponent(unit: &str) -> bool {
+    unit.contains(['^', '⁻', '⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹'])
+}
+
 /// Generate prefixed SI unit
 pub fn generate_prefixed_si_unit(
     scale_factors: ScaleExponents,
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
-    // Apply base scale offset for mass units (same logic as generate_prefixed_systematic_unit)
-    let effective_scale_p10 =
-        if let Some((_unit, _dimension)) = Dimension::find_unit_by_symbol(base_si_unit) {
-            // Get the base scale offset from the unit's scale (systematic approach)
-            let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-            total_scale_p10 - base_scale_offset
-        } else {
-            // Fallback: try to find by name if symbol lookup fails
-            if let Some((_unit, _dimension)) = Dimension::find_unit_by_name(base_si_unit) {
-                let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-                total_scale_p10 - base_scale_offset
-            } else {
-                // No base scale offset found, use total scale as-is
-                total_scale_p10
-            }
-        };
-
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
-        // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
-            format!("{}({})", prefix, base_si_unit)
-        } else {
-            format!("{}{}", prefix, base_si_unit)
-        }
-    } else {
-        // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
-            // Fall back to SI unit with 10^n notation when SI prefix lookup fails
-            generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
-        } else {
-            // Not a pure power of 10, show the scale factors explicitly
-            let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
-            );
-            if scale_factors_str.is_empty() {
-                base_si_unit.to_string()
-            } else {
-                format!("{}{}", scale_factors_str, base_si_unit)
-            }
-        }
-    }
-}
-
-/// Calculate total power of 10 using whippyunits-core ScaleExponents
-fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
-    let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-    scale_exponents.log10().unwrap_or(0)
+    apply_scale(scale_factors, base_si_unit, long_name)
 }
 
 /// Generate SI unit with 10^n notation when no standard prefix is available
@@ -607,6 +517,7 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    let mut scale_used = false;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -618,27 +529,27 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         let (unit_name, unit_symbol, base_scale_offset) =
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
-                let matched_unit = if let Some(scale) = scale_factors {
-                    // For compound units, try to match the aggregate scale factors
-                    // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
+                // For compound units, try to match the aggregate scale factors
+                // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
+                let exact_unit = scale_factors.and_then(|scale| {
+                    // The scale belongs to at most one factor, and only to one that is not a power
+                    if scale != ScaleExponents::IDENTITY && (exp != 1 || scale_used) {
+                        return None;
+                    }
                     dimension
                         .units
                         .iter()
                         .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
-                        // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
-                        .or_else(|| {
-                            if scale == ScaleExponents::IDENTITY {
-                                None // Already tried identity above
-                            } else {
-                                dimension.units.iter().find(|unit| {
-                                    unit.scale == ScaleExponents::IDENTITY
-                                        && unit.conversion_factor == 1.0
-                                })
-                            }
+                });
+                scale_used |= exact_unit.is_some();
+                // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
+                let matched_unit = exact_unit.or_else(|| {
+                    scale_factors.and_then(|_| {
+                        dimension.units.iter().find(|unit| {
+                            unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0
                         })
-                } else {
-                    None
-                };
+                    })
+                });
 
                 if let Some(unit) = matched_unit.or_else(|| dimension.units.first()) {
                     let base_scale_offset = unit.scale.log10().unwrap_or(0);
@@ -650,8 +561,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
                 ("?", "?", 0)
             };
 
-        // For compound units, convert g to kg for mass terms
-        let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1;
+        // For compound units and powers, convert g to kg for mass terms
+        let is_compound_unit = !is_pure || exp != 1;
         let (adjusted_unit_name, adjusted_unit_symbol) =
             if is_compound_unit && base_scale_offset != 0 && index == 0 {
                 // This is a compound unit with mass dimension (index 0) that has a scale offset
-- 
2.43.0


From 328b750762b4c329cf77a4c80c82f2ce444dccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 19/52] fix: the largest finite values were printed as infinite

---
 src/print/prettyprint.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 0f9cd0f..d06ce55 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -450,9 +450,11 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
-    // The scale factor of a subnormal-range value overflows; such a value is shown as it is
-    let rounded = if scale_factor.is_finite() {
-        (value * scale_factor).round() / scale_factor
+    // The scale factor of a subnormal-range value overflows, and so does rounding up the largest
+    // values; such a value is shown as it is
+    let rounded = (value * scale_factor).round() / scale_factor;
+    let rounded = if scale_factor.is_finite() && rounded.is_finite() {
+        rounded
     } else {
         value
     };
-- 
2.43.0


From 675f9bd5da9ad6c6b3d7076c515d741acd5fc2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 20/52] fix: erasing a plain integer into another integer type
 rounded it through f64

---
 src/quantity.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..44699c0 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -695,7 +695,15 @@ macro_rules! define_from_dimensionless_cross_type {
             ) -> $target_type {
                 // Convert to float first, then apply rescale logic, then convert to target type
                 if SCALE_P2 == 0 && SCALE_P3 == 0 && SCALE_P5 == 0 && SCALE_PI == 0 {
-                    (other.unsafe_value as f64) as $target_type
+                    // Cast directly when the target can hold the value, as a detour through f64
+                    // would round integers beyond 2^53; otherwise let the float cast saturate.
+                    let float_value = other.unsafe_value as f64;
+                    let direct_value = other.unsafe_value as $target_type;
+                    if direct_value as f64 == float_value {
+                        direct_value
+                    } else {
+                        float_value as $target_type
+                    }
                 } else {
                     // Convert to f64 quantity first, then apply rescale logic
                     let f64_quantity = Quantity::<
-- 
2.43.0


From 6b829fbc1ffe4c15486be6d97cfad9c40ef5403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:06 +0000
Subject: [PATCH 21/52] =?UTF-8?q?fix:=20generic=20dimensions=20refused=20t?=
 =?UTF-8?q?he=20documented=20symbols=20=CE=98=20and=20J?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 whippyunits-core/src/dimensions.rs                | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..7df8370 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -83,7 +83,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index f70d9fd..7540f16 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -24,6 +24,13 @@ pub struct Dimension<ExponentsType: 'static = DynDimensionExponents> {
 impl Dimension {
     /// Find a dimension by its name or symbol.
     pub fn find_dimension(name_or_symbol: &str) -> Option<&'static Self> {
+        // The quantity type and the documentation also call these by their SI dimension symbols.
+        let name_or_symbol = match name_or_symbol {
+            "Θ" => "Temperature",
+            "J" => "Luminosity",
+            other => other,
+        };
+
         Self::ALL
             .iter()
             .find(|dim| dim.symbol == name_or_symbol || dim.name == name_or_symbol)
-- 
2.43.0


From ab3ef97e2ed81b64fd188eb2a1116c0f398c546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 22/52] fix: quantities branded by define_unit_declarators
 could not be compared

---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 3930439..021de87 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -189,7 +189,7 @@ impl DefineBaseUnitsInput {
         // Create the brand struct definition token stream if brand is present
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
@@ -874,7 +874,7 @@ impl DefineBaseUnitsInput {
 
         let brand_struct_def = if let Some(ref ident) = brand_ident {
             quote! {
-                #[derive(Clone, Copy)]
+                #[derive(Clone, Copy, PartialEq)]
                 pub struct #ident;
             }
         } else {
-- 
2.43.0


From fdfeaa2946f88b9d6b3f0ee7b2334789d958b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 23/52] fix: scale-preferred declarators chose wrong or
 nonexistent local units

Scale names other than eight hard-coded ones fell back to grams, meters, ...; the exponent of a
lone unit was ignored; units such as dag and min were split into the wrong prefix and base; and
the documentation aliases could name declarator types that do not exist, which does not compile.
---
 proc-macros/src/local_unit_type_macro.rs | 337 +++++------------------
 proc-macros/src/utils/lift_trace.rs      |  79 ++----
 proc-macros/src/utils/shared_utils.rs    |  76 -----
 3 files changed, 94 insertions(+), 398 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..7ba1b21 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -10,50 +10,9 @@ use whippyunits_core::scale_exponents::ScaleExponents;
 use whippyunits_core::{Dimension, Unit};
 
 // Import the helper functions from lift_trace
-use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
-
-/// Convert a scale type name to the actual unit symbol
-/// This uses direct core APIs instead of api_helpers
-fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
-    use whippyunits_core::SiPrefix;
-
-    // Try to find a unit that matches the scale type name directly
-    for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
-            return Some(unit.symbols[0].to_string());
-        }
-    }
-
-    // Try to find in all dimensions
-    for dimension in Dimension::ALL {
-        for unit in dimension.units {
-            if unit.name == scale_type {
-                return Some(unit.symbols[0].to_string());
-            }
-        }
-    }
-
-    // Try to parse as a prefixed scale type name (like "Kilogram" -> "kilo" + "gram")
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(scale_type) {
-        // Find the base unit
-        for unit in Unit::BASES.iter() {
-            if unit.name == base {
-                return Some(format!("{}{}", prefix.symbol(), unit.symbols[0]));
-            }
-        }
-
-        // Try to find in all dimensions
-        for dimension in Dimension::ALL {
-            for unit in dimension.units {
-                if unit.name == base {
-                    return Some(format!("{}{}", prefix.symbol(), unit.symbols[0]));
-                }
-            }
-        }
-    }
-
-    None
-}
+use crate::utils::lift_trace::{
+    is_prefixed_base_unit, is_prefixed_compound_unit, scale_type_to_actual_unit_symbol,
+};
 
 /// Get units by their dimension exponents
 fn get_units_by_exponents(
@@ -205,6 +164,14 @@ impl Parse for LocalQuantityMacroInput {
 
 impl LocalQuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        // Unknown units must not be read as dimensionless
+        if let Err(error) = self.unit_expr.validate() {
+            return match &self.unit_expr {
+                UnitExpr::Unit(unit) => self.generate_unknown_unit_error(&unit.name.to_string()),
+                _ => error.to_compile_error(),
+            };
+        }
+
         // Generate the lift trace docstring
         let input_expr_decomposed = self.generate_input_unit_expression_decomposed_string();
         let output_expr = self.generate_output_unit_expression_string();
@@ -223,29 +190,16 @@ impl LocalQuantityMacroInput {
             .unwrap_or_else(|| syn::parse_str::<Type>("()").unwrap());
 
         // Generate lift trace doc shadows for each unit identifier in the expression
-        let lift_trace_doc_shadows =
-            self.generate_lift_trace_doc_shadows_for_expr(&lift_trace, &storage_type);
+        let lift_trace_doc_shadows = self.generate_lift_trace_doc_shadows_for_expr(&lift_trace);
 
-        // Check if this is a single unit (not an algebraic expression)
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
-            let unit_name = unit.name.to_string();
-            self.handle_single_unit(
-                &unit_name,
-                &storage_type,
-                &brand_type,
-                &lift_trace_doc_shadows,
-            )
-        } else {
-            // It's an algebraic expression (like J/s, m*s, etc.)
-            self.handle_algebraic_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
-        }
+        // The dimensions of the whole expression decide the local type
+        self.handle_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
     }
 
     /// Generate lift trace doc shadows for each unit identifier in the expression
     fn generate_lift_trace_doc_shadows_for_expr(
         &self,
         _lift_trace: &str,
-        storage_type: &Type,
     ) -> TokenStream {
         let unit_identifiers = self.unit_expr.collect_unit_identifiers();
         let mut doc_shadows = Vec::new();
@@ -257,7 +211,6 @@ impl LocalQuantityMacroInput {
             let doc_shadow = self.generate_lift_trace_doc_shadow_for_identifier(
                 &identifier,
                 &comprehensive_trace,
-                storage_type,
             );
             doc_shadows.push(doc_shadow);
         }
@@ -465,15 +418,13 @@ impl LocalQuantityMacroInput {
         &self,
         identifier: &Ident,
         lift_trace: &str,
-        storage_type: &Type,
     ) -> TokenStream {
         // Create a new identifier with the same span as the original, using upper camel case
         let doc_ident_name = format!("Local{}", identifier.to_string().to_uppercase());
         let doc_ident = syn::Ident::new(&doc_ident_name, identifier.span());
 
         // Determine the target type for this unit identifier in the local context
-        let target_type =
-            self.get_local_target_type_for_unit(&identifier.to_string(), storage_type);
+        let target_type = self.get_local_target_type_for_unit(&identifier.to_string());
 
         // Use the comprehensive trace directly
         let enhanced_trace = lift_trace.to_string();
@@ -713,100 +664,8 @@ impl LocalQuantityMacroInput {
         result
     }
 
-    /// Handle prefixed compound unit logic for a single unit
-    fn handle_prefixed_compound_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> Option<TokenStream> {
-        if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-            if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                let dimensions = dimension.exponents;
-                let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
-                return Some(self.generate_compound_unit_quote(
-                    &unit_expr_parsed,
-                    storage_type,
-                    brand_type,
-                    lift_trace_doc_shadows,
-                ));
-            }
-        }
-        None
-    }
-
-    /// Handle single unit logic (both prefixed and non-prefixed)
-    fn handle_single_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> TokenStream {
-        // First try to handle as prefixed compound unit
-        if let Some(quote_result) = self.handle_prefixed_compound_unit(
-            unit_name,
-            storage_type,
-            brand_type,
-            lift_trace_doc_shadows,
-        ) {
-            return quote_result;
-        }
-
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
-
-        let dimensions = dimension.exponents;
-
-        // Check if it's a simple base unit
-        if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-            self.generate_simple_base_unit_quote(
-                &scale_ident,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        } else {
-            // It's a compound unit - generate the unit expression
-            let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
-            self.generate_compound_unit_quote(
-                &unit_expr_parsed,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        }
-    }
-
-    /// Handle algebraic expression logic
-    fn handle_algebraic_expression(
+    /// Express the dimensions of the unit expression in the local base units
+    fn handle_expression(
         &self,
         storage_type: &Type,
         brand_type: &Type,
@@ -873,30 +732,60 @@ impl LocalQuantityMacroInput {
         }
     }
 
-    /// Get the local target type for a single unit identifier (reuses existing lift logic)
-    fn get_local_target_type_for_unit(&self, unit_name: &str, storage_type: &Type) -> TokenStream {
-        // Check if this is a time unit that needs conversion (like h → s)
-        if let Some(_time_conversion) = self.get_time_unit_conversion(unit_name) {
-            // For time units with conversion factors, return the target time unit declarator
-            return quote! {
-                whippyunits::default_declarators::Second
-            };
+    /// Get the local target type for a single unit identifier: the default declarator type of the
+    /// unit it is lifted to, or the plain type where no declarator has exactly that unit
+    fn get_local_target_type_for_unit(&self, unit_name: &str) -> TokenStream {
+        use crate::utils::shared_utils::{generate_scale_name, is_valid_identifier};
+        use whippyunits_core::{SiPrefix, System};
+
+        let Ok(unit_expr) = syn::parse_str::<UnitExpr>(unit_name) else {
+            return quote! { () };
+        };
+        let dimensions = unit_expr
+            .evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant)
+            .dimension_exponents;
+        if dimensions == DynDimensionExponents::ZERO {
+            return quote! { () };
         }
 
-        // First, try to use the shared helper for units that don't get transformed in local context
-        if let Some(shared_type) =
-            crate::utils::shared_utils::get_declarator_type_for_unit(unit_name)
-        {
-            // Check if this unit gets transformed in the local context
-            if !self.unit_gets_transformed_in_local_context(unit_name) {
-                // Unit doesn't get transformed, use the shared declarator type
-                return shared_type;
+        let local_expr = self.generate_unit_expression_from_dimensions(dimensions);
+        let (Ok(local_unit_expr), Ok(local_tokens)) = (
+            syn::parse_str::<UnitExpr>(&local_expr),
+            syn::parse_str::<syn::Expr>(&local_expr),
+        ) else {
+            return quote! { () };
+        };
+        let local_scale = local_unit_expr
+            .evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant)
+            .scale_exponents;
+
+        let units = get_units_by_exponents(dimensions)
+            .into_iter()
+            .map(|(_, unit)| unit)
+            .filter(|unit| {
+                unit.system == System::Metric
+                    && unit.conversion_factor == 1.0
+                    && unit.affine_offset == 0.0
+                    && is_valid_identifier(unit.name)
+            });
+        for unit in units {
+            let type_name = if unit.scale == local_scale {
+                Some(generate_scale_name("", unit.name))
+            } else {
+                SiPrefix::ALL
+                    .iter()
+                    .find(|prefix| {
+                        unit.scale.mul(ScaleExponents::_10(prefix.factor_log10())) == local_scale
+                    })
+                    .map(|prefix| generate_scale_name(prefix.name(), unit.name))
+            };
+            if let Some(type_name) = type_name {
+                let type_ident = syn::Ident::new(&type_name, proc_macro2::Span::call_site());
+                return quote! { whippyunits::default_declarators::#type_ident };
             }
-            // Unit gets transformed, fall through to local logic
         }
 
-        // For units that get transformed or don't have declarator types, use local logic
-        self.get_local_transformed_type_for_unit(unit_name, storage_type)
+        quote! { whippyunits::unit!(#local_tokens) }
     }
 
     /// Check if a unit gets transformed in the local context
@@ -905,106 +794,12 @@ impl LocalQuantityMacroInput {
         local_context.unit_gets_transformed_in_local_context(unit_name)
     }
 
-    /// Get the local transformed type for a unit (fallback when shared helper isn't sufficient)
-    fn get_local_transformed_type_for_unit(
-        &self,
-        unit_name: &str,
-        _storage_type: &Type,
-    ) -> TokenStream {
-        // For units that get transformed, we need to generate the local type
-        // This should match the logic in handle_single_unit but return just the type
-
-        // First, try to find the unit by symbol (for base units)
-        if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-            let dimensions = dimension.exponents;
-
-            // Check if it's a simple base unit
-            if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-                // For simple base units, the target type is the local scale declarator
-                quote! {
-                    whippyunits::default_declarators::#scale_ident
-                }
-            } else {
-                // For compound units, calculate the scale factor difference and find the appropriate prefixed type
-                let scale_factor_diff = self.calculate_scale_factor_difference(dimensions);
-
-                if scale_factor_diff != 0 {
-                    // Try to find a prefixed version that matches the scale factor
-                    if let Some(prefixed_type) =
-                        self.find_prefixed_type_by_scale_factor(unit_name, scale_factor_diff)
-                    {
-                        prefixed_type
-                    } else {
-                        // Fall back to original if no prefixed type found
-                        match crate::utils::shared_utils::get_declarator_type_for_unit(unit_name) {
-                            Some(declarator_type) => declarator_type,
-                            None => quote! { () },
-                        }
-                    }
-                } else {
-                    // No scale factor difference, use the original type
-                    match crate::utils::shared_utils::get_declarator_type_for_unit(unit_name) {
-                        Some(declarator_type) => declarator_type,
-                        None => quote! { () },
-                    }
-                }
-            }
-        } else {
-            // Unit not found by symbol, try to find declarator type using dimension and scale exponents
-            let (dimensions, scales) = self.evaluate_dimensions();
-
-            // First try the new exponent-based approach
-            if let Some(declarator_type) =
-                crate::utils::shared_utils::get_declarator_type_for_exponents(dimensions, scales)
-            {
-                declarator_type
-            } else {
-                // Fall back to the old unit name-based approach
-                if let Some(declarator_type) =
-                    crate::utils::shared_utils::get_declarator_type_for_unit(unit_name)
-                {
-                    // This is a prefixed unit, we need to calculate the scale factor difference
-                    // and find the appropriate transformed type
-                    let scale_factor_diff = self.calculate_scale_factor_difference(dimensions);
-
-                    if scale_factor_diff != 0 {
-                        // Try to find a prefixed version that matches the scale factor
-                        if let Some(prefixed_type) =
-                            self.find_prefixed_type_by_scale_factor(unit_name, scale_factor_diff)
-                        {
-                            prefixed_type
-                        } else {
-                            // Fall back to original if no prefixed type found
-                            declarator_type
-                        }
-                    } else {
-                        // No scale factor difference, use the original type
-                        declarator_type
-                    }
-                } else {
-                    // Unknown unit, fall back to using it as-is
-                    quote! { () }
-                }
-            }
-        }
-    }
-
     /// Calculate the scale factor difference between local and default units
     fn calculate_scale_factor_difference(&self, dimensions: DynDimensionExponents) -> i16 {
         let local_context = self.get_local_context();
         local_context.calculate_scale_factor_difference(dimensions)
     }
 
-    /// Find a prefixed type by scale factor using centralized utilities
-    fn find_prefixed_type_by_scale_factor(
-        &self,
-        unit_name: &str,
-        scale_factor_diff: i16,
-    ) -> Option<TokenStream> {
-        let local_context = self.get_local_context();
-        local_context.find_prefixed_type_by_scale_factor(unit_name, scale_factor_diff)
-    }
-
     /// Get transformation details for a specific identifier
     fn get_transformation_details_for_identifier(
         &self,
diff --git a/proc-macros/src/utils/lift_trace.rs b/proc-macros/src/utils/lift_trace.rs
index b8d620e..fc930da 100644
--- a/proc-macros/src/utils/lift_trace.rs
+++ b/proc-macros/src/utils/lift_trace.rs
@@ -6,6 +6,7 @@ use whippyunits_core::{
     Dimension, SiPrefix, Unit,
 };
 
+use crate::utils::shared_utils::generate_scale_name;
 // Import the UnitExpr type from unit_macro
 use whippyunits_core::UnitExpr;
 
@@ -36,38 +37,40 @@ fn lookup_si_prefix(prefix_symbol: &str) -> Option<&'static SiPrefix> {
     SiPrefix::from_symbol(prefix_symbol)
 }
 
-/// Convert a scale type name to the actual unit symbol
+/// Convert a scale type name (e.g. "Millimeter", "Minute") to the actual unit symbol
+///
+/// Covers every name accepted by `define_unit_declarators!`: the units of the base dimensions, and
+/// the prefixed forms of the first of them.
 pub fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
-    // Handle the mapping from capitalized scale type names to actual unit symbols
-    match scale_type {
-        "Kilogram" => Some("kg".to_string()),   // kilogram
-        "Millimeter" => Some("mm".to_string()), // millimeter
-        "Second" => Some("s".to_string()),      // second
-        "Ampere" => Some("A".to_string()),      // ampere
-        "Kelvin" => Some("K".to_string()),      // kelvin
-        "Mole" => Some("mol".to_string()),      // mole
-        "Candela" => Some("cd".to_string()),    // candela
-        "Radian" => Some("rad".to_string()),    // radian
-        _ => {
-            // Try to find a unit that matches the scale type name directly
-            for unit in Unit::BASES.iter() {
-                if unit.name == scale_type {
-                    return Some(unit.symbols[0].to_string());
-                }
+    // A symbol that is a keyword (attosecond, "as") cannot be used in an expression, the name can
+    let usable = |symbol: String, name: String| {
+        if syn::parse_str::<Ident>(&symbol).is_ok() {
+            symbol
+        } else {
+            name
+        }
+    };
+
+    for dimension in Dimension::BASIS {
+        for unit in dimension.units {
+            if generate_scale_name("", unit.name) == scale_type {
+                return Some(usable(unit.symbols[0].to_string(), unit.name.to_string()));
             }
+        }
 
-            // Try to find in all dimensions
-            for dimension in Dimension::ALL {
-                for unit in dimension.units {
-                    if unit.name == scale_type {
-                        return Some(unit.symbols[0].to_string());
-                    }
+        if let Some(base_unit) = dimension.units.first() {
+            for prefix in SiPrefix::ALL {
+                if generate_scale_name(prefix.name(), base_unit.name) == scale_type {
+                    return Some(usable(
+                        format!("{}{}", prefix.symbol(), base_unit.symbols[0]),
+                        format!("{}{}", prefix.name(), base_unit.name),
+                    ));
                 }
             }
-
-            None
         }
     }
+
+    None
 }
 
 /// Generic visitor implementation that can be parameterized with different strategies
@@ -401,32 +404,6 @@ impl LocalContext {
         // If we can't determine the scale difference, return 0
         0
     }
-
-    /// Find a prefixed type by scale factor using centralized utilities
-    pub fn find_prefixed_type_by_scale_factor(
-        &self,
-        unit_name: &str,
-        scale_factor_diff: i16,
-    ) -> Option<TokenStream> {
-        // Find the prefix that matches the scale factor difference
-        for prefix_info in SiPrefix::ALL {
-            if prefix_info.factor_log10() == scale_factor_diff {
-                // Get the base unit name (e.g., "kW" -> "W")
-                let base_unit_name = self.get_base_unit_name(unit_name);
-
-                // Try to find a prefixed version of the base unit
-                let prefixed_unit_name = format!("{}{}", prefix_info.symbol(), base_unit_name);
-
-                if let Some(declarator_type) =
-                    crate::utils::shared_utils::get_declarator_type_for_unit(&prefixed_unit_name)
-                {
-                    return Some(declarator_type);
-                }
-            }
-        }
-
-        None
-    }
 }
 
 /// Unit symbol and name utilities
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..d3afc40 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -76,82 +76,6 @@ pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     None
 }
 
-/// Get the corresponding default declarator type for a unit based on dimension and scale exponents
-/// This uses the same logic as default declarators to ensure consistency
-pub fn get_declarator_type_for_exponents(
-    dimension_exponents: whippyunits_core::dimension_exponents::DynDimensionExponents,
-    scale_exponents: whippyunits_core::scale_exponents::ScaleExponents,
-) -> Option<TokenStream> {
-    use whippyunits_core::dimension_exponents::DynDimensionExponents;
-    use whippyunits_core::{Dimension, SiPrefix, System};
-
-    // Skip dimensionless units - they don't have corresponding default declarator types
-    if dimension_exponents == DynDimensionExponents::ZERO {
-        return None;
-    }
-
-    // Find the dimension that matches these exponents
-    let matching_dimension = Dimension::ALL
-        .iter()
-        .find(|dim| dim.exponents == dimension_exponents)?;
-
-    // Look for a unit in this dimension that matches the scale exponents
-    // We need to find a unit that has the same scale exponents
-    for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
-            // Found a matching unit - generate type name using same logic as default declarators
-            let type_name = if unit.system == System::Metric {
-                // For metric units, use the same logic as generate_default_declarators_macro
-                // Check if this is a base unit (first unit in the dimension)
-                let is_base_unit = matching_dimension.units[0].name == unit.name;
-
-                if is_base_unit {
-                    // For base units, use the singular name for type generation
-                    generate_scale_name("", unit.name)
-                } else {
-                    // For derived units, use the capitalized name
-                    whippyunits_core::CapitalizedFmt(unit.name).to_string()
-                }
-            } else {
-                // For non-metric units, skip - they don't have types in default_declarators
-                continue;
-            };
-
-            let type_ident = syn::Ident::new(&type_name, proc_macro2::Span::call_site());
-            return Some(quote::quote! {
-                whippyunits::default_declarators::#type_ident
-            });
-        }
-    }
-
-    // If no exact match found, check if this could be a prefixed unit
-    // Look for a base unit in the same dimension and see if we can match with a prefix
-    for unit in matching_dimension.units {
-        if unit.system == System::Metric {
-            // Check if this could be a prefixed version of the base unit
-            // The base unit is the first unit in the dimension
-            let base_unit = &matching_dimension.units[0];
-
-            // Check if the scale difference corresponds to a known prefix
-            let scale_diff = scale_exponents.0[0] - base_unit.scale.0[0]; // Check p2 difference
-            if let Some(prefix) = SiPrefix::ALL
-                .iter()
-                .find(|p| p.factor_log10() == scale_diff)
-            {
-                // Generate prefixed type name using same logic as generate_default_declarators_macro
-                let type_name = generate_scale_name(prefix.name(), base_unit.name);
-
-                let type_ident = syn::Ident::new(&type_name, proc_macro2::Span::call_site());
-                return Some(quote::quote! {
-                    whippyunits::default_declarators::#type_ident
-                });
-            }
-        }
-    }
-
-    None
-}
-
 /// Parse a unit name to extract prefix and base unit
 /// Returns (prefix_option, base_unit_name)
 fn parse_unit_with_prefix_core(
-- 
2.43.0


From 3d17450b4199534111fb08fa3179ba8f714651a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 24/52] fix: scale-preferred declarators refused most storage
 types

The literal macros for u32 and u64 were generated but could never compile, and the wider and
narrower integers the default declarators take were missing.
---
 .../src/define_unit_declarators_macro.rs      | 55 +++++++------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 021de87..2529d5b 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -267,6 +267,24 @@ impl DefineBaseUnitsInput {
             namespace.span(),
         );
 
+        // One macro arm per storage type the default declarators support
+        let typed_arms = [
+            "f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64",
+            "u128", "usize",
+        ]
+        .map(|name| {
+            let storage_type = syn::Ident::new(name, proc_macro2::Span::call_site());
+            let rescale = quote::format_ident!("rescale_{}", name);
+            quote! {
+                ($value:expr, $unit:expr, #storage_type) => {
+                    {
+                        let declared_quantity = whippyunits::quantity!($value, $unit, #storage_type, #brand_type);
+                        whippyunits::api::#rescale(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, #storage_type, #brand_type)
+                    }
+                };
+            }
+        });
+
         quote! {
             // Generate documentation structs for scale identifiers (validation happens here)
             const _: () = {
@@ -374,42 +392,7 @@ impl DefineBaseUnitsInput {
                             whippyunits::api::rescale_f64(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f64, #brand_type)
                         }
                     };
-                    ($value:expr, $unit:expr, f64) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, f64, #brand_type);
-                            whippyunits::api::rescale_f64(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f64, #brand_type)
-                        }
-                    };
-                    ($value:expr, $unit:expr, i32) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, i32, #brand_type);
-                            whippyunits::api::rescale_i32(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i32, #brand_type)
-                        }
-                    };
-                    ($value:expr, $unit:expr, i64) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, i64, #brand_type);
-                            whippyunits::api::rescale_i64(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, i64, #brand_type)
-                        }
-                    };
-                    ($value:expr, $unit:expr, f32) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, f32, #brand_type);
-                            whippyunits::api::rescale_f32(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, f32, #brand_type)
-                        }
-                    };
-                    ($value:expr, $unit:expr, isize) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, isize, #brand_type);
-                            whippyunits::api::rescale_isize(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, isize, #brand_type)
-                        }
-                    };
-                    ($value:expr, $unit:expr, usize) => {
-                        {
-                            let declared_quantity = whippyunits::quantity!($value, $unit, usize, #brand_type);
-                            whippyunits::api::rescale_usize(declared_quantity) as whippyunits::local_unit!($unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, usize, #brand_type)
-                        }
-                    };
+                    #(#typed_arms)*
                 }
 
                 // Re-export the prefixed macro as quantity! for convenience
-- 
2.43.0


From 99b0b0966cc86804467ce125dd464c8ca15f2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 25/52] fix: branded declarators refused units that need a
 conversion

ns::quantity!(1.0, ft) and 1.0ft went through unit!, which only takes storage units.
---
 proc-macros/src/define_unit_declarators_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index 2529d5b..e722edd 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -951,10 +951,10 @@ impl DefineBaseUnitsInput {
                 #[macro_export]
                 macro_rules! #prefixed_macro_name {
                     ($value:expr, $unit:expr) => {
-                        <whippyunits::unit!($unit, f64, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, f64, #brand_type)
                     };
                     ($value:expr, $unit:expr, $storage_type:ty) => {
-                        <whippyunits::unit!($unit, $storage_type, #brand_type)>::new($value)
+                        whippyunits::quantity!($value, $unit, $storage_type, #brand_type)
                     };
                 }
 
-- 
2.43.0


From 38551c33388cf9204ac19c5b38b0781ed49d2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 26/52] fix: show a unit only for quantity types whose
 arguments determine it
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The hover, hint and compiler-output formatter searched the whole text of a type for fragments such
as `Dimension>` or `_A<`: a brand or storage type containing one was read as the quantity's own
exponents, types with both mass and angle but defaulted exponents between them were left raw, and
elided (`...`, `…`, `_`) or symbolic arguments were read as zero, showing a length as dimensionless.
Read the arguments of the parsed type instead, and leave the text alone if they determine no unit.
---
 lsp-proxy/src/unit_formatter.rs | 316 ++++++++------------------------
 1 file changed, 75 insertions(+), 241 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 0c6e5c4..4ebff59 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -1,4 +1,4 @@
-use syn::{parse_str, TypePath};
+use syn::{parse_str, GenericArgument, PathArguments, Type, TypePath};
 use whippyunits_core::{
     dimension_exponents::DynDimensionExponents, scale_exponents::ScaleExponents,
 };
@@ -329,270 +329,104 @@ impl UnitFormatter {
     }
 
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
+    ///
+    /// Returns `None` unless the text determines every exponent (or marks it as unresolved with `_`):
+    /// a type with elided, truncated or symbolic arguments has no unit to show.
     fn parse_new_quantity_params(&self, quantity_type: &str) -> Option<QuantityParams> {
-        // Parse Scale parameters - handle all possible combinations of defaulted parameters
-        let scale = if quantity_type.contains("Scale<") {
-            // Any Scale format with parameters - handle all combinations of defaulted values
-            let (p2, p3, p5, pi) = self.parse_scale_general_format(quantity_type)?;
-            ScaleExponents([p2, p3, p5, pi])
-        } else if quantity_type.contains("Scale,") {
-            // Truncated format: Scale, or Scale> or Scale, Dimension (all parameters default to 0)
-            ScaleExponents::IDENTITY
-        } else {
-            // Unknown format
+        // Parse as a Rust type using syn - it handles const generics reliably
+        if Self::nesting_depth(quantity_type) > Self::MAX_NESTING_DEPTH {
             return None;
-        };
+        }
+        let type_path = parse_str::<TypePath>(quantity_type).ok()?;
 
-        // Parse Dimension parameters - handle both full format and truncated format
-        let dimensions = if quantity_type.contains("Dimension<_M<") && quantity_type.contains("_A<")
-        {
-            // Full format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_full_format(quantity_type)?;
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        } else if quantity_type.contains("Dimension,") || quantity_type.contains("Dimension>") {
-            // Fully defaulted Dimension (dimensionless): Dimension, T or Dimension> T
-            DynDimensionExponents::ZERO
-        } else {
-            // Truncated format: parse only the non-zero parameters
-            // Look for patterns like Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-            let (mass, length, time, current, temp, amount, lum, angle) =
-                self.parse_dimension_truncated_format(quantity_type);
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle])
-        };
+        // We expect: [Scale, Dimension<...>, T?, Brand?]
+        let args = Self::generic_arguments(&type_path.path, "Quantity")?;
+        if !(2..=4).contains(&args.len()) {
+            return None;
+        }
 
-        // Don't apply base scale offset here - let the prettyprint functions handle it
-        // The prettyprint functions already have the correct base scale offset logic
-        let adjusted_scale = scale;
+        let scale = self.parse_exponents(args[0], "Scale", ["_2", "_3", "_5", "_Pi"])?;
+        let dimensions = self.parse_exponents(
+            args[1],
+            "Dimension",
+            ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"],
+        )?;
 
-        // Extract the actual generic type parameter and brand from the type string
-        let (generic_type, brand) = self.extract_generic_type_and_brand(quantity_type);
+        // The storage type defaults to f64, and the brand to ()
+        let argument_text = |index: usize| args.get(index).map(|arg| quote::quote!(#arg).to_string());
 
+        // Don't apply base scale offset here - let the prettyprint functions handle it
+        // The prettyprint functions already have the correct base scale offset logic
         Some(QuantityParams {
-            dimensions,
-            scale: adjusted_scale,
-            generic_type,
-            brand,
+            dimensions: DynDimensionExponents(dimensions),
+            scale: ScaleExponents(scale),
+            generic_type: argument_text(2).unwrap_or_else(|| "f64".to_string()),
+            brand: argument_text(3),
         })
     }
 
-    /// Parse general Scale format: Scale<_2[<P2>], _3[<P3>], _5[<P5>], _Pi[<PI>]>
-    /// Handles all possible combinations of defaulted parameters
-    /// Parameters can be either _2<value> (explicit) or _2 (defaulted to 0)
-    fn parse_scale_general_format(&self, quantity_type: &str) -> Option<(i16, i16, i16, i16)> {
-        let scale_start = quantity_type.find("Scale<")?;
-        let scale_content = &quantity_type[scale_start + 6..]; // Skip "Scale<"
-
-        // Find the end of the Scale struct
-        let scale_end = self.find_matching_bracket(scale_content, 0)?;
-        let scale_params = &scale_content[..scale_end];
-
-        // Parse each parameter, handling both explicit values and defaults
-        let p2 = self.parse_scale_param_with_default(scale_params, "_2");
-        let p3 = self.parse_scale_param_with_default(scale_params, "_3");
-        let p5 = self.parse_scale_param_with_default(scale_params, "_5");
-        let pi = self.parse_scale_param_with_default(scale_params, "_Pi");
+    /// Deeper texts are no quantity types, and would exhaust the stack of the type parser
+    const MAX_NESTING_DEPTH: usize = 64;
 
-        Some((p2, p3, p5, pi))
-    }
-
-    /// Parse a scale parameter that may be either explicit (_2<value>) or defaulted (_2)
-    fn parse_scale_param_with_default(&self, content: &str, prefix: &str) -> i16 {
-        // First try to find explicit value: _2<value>
-        if let Some(value) = self.parse_scale_param(content, &format!("{}<", prefix)) {
-            value
-        } else {
-            // Check if parameter exists in defaulted form: _2 (without <value>)
-            if content.contains(&format!("{},", prefix)) || content.ends_with(prefix) {
-                0 // Default value
-            } else {
-                0 // Parameter not found, default to 0
+    fn nesting_depth(text: &str) -> usize {
+        let mut depth: usize = 0;
+        let mut max_depth = 0;
+        for byte in text.bytes() {
+            match byte {
+                b'<' | b'(' | b'[' | b'{' | b'&' | b'*' => depth += 1,
+                b'>' | b')' | b']' | b'}' => depth = depth.saturating_sub(1),
+                _ => {}
             }
+            max_depth = max_depth.max(depth);
         }
+        max_depth
     }
 
-    /// Parse full Dimension format: Dimension<_M<MASS>, _L<LENGTH>, _T<TIME>, _I<CURRENT>, _Θ<TEMP>, _N<AMOUNT>, _J<LUMINOSITY>, _A<ANGLE>>
-    fn parse_dimension_full_format(
-        &self,
-        quantity_type: &str,
-    ) -> Option<(i16, i16, i16, i16, i16, i16, i16, i16)> {
-        let dimension_start = quantity_type.find("Dimension<_M<")?;
-        let dimension_content = &quantity_type[dimension_start + 9..]; // Skip "Dimension<"
-
-        // Parse individual parameters directly from the dimension content
-        // We don't need to find the end of the Dimension struct - we can parse each parameter individually
-        let mass = self.parse_dimension_param(dimension_content, "_M<")?;
-        let length = self.parse_dimension_param(dimension_content, "_L<")?;
-        let time = self.parse_dimension_param(dimension_content, "_T<")?;
-        let current = self.parse_dimension_param(dimension_content, "_I<")?;
-        let temp = self.parse_dimension_param(dimension_content, "_Θ<")?;
-        let amount = self.parse_dimension_param(dimension_content, "_N<")?;
-        let lum = self.parse_dimension_param(dimension_content, "_J<")?;
-        let angle = self.parse_dimension_param(dimension_content, "_A<")?;
-
-        Some((mass, length, time, current, temp, amount, lum, angle))
-    }
-
-    /// Parse truncated Dimension format: Dimension<_M<0>, _L<1>> (only non-zero parameters are shown)
-    fn parse_dimension_truncated_format(
-        &self,
-        quantity_type: &str,
-    ) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
-        let mut mass_exp = 0;
-        let mut length_exp = 0;
-        let mut time_exp = 0;
-        let mut electric_current_exp = 0;
-        let mut temperature_exp = 0;
-        let mut amount_of_substance_exp = 0;
-        let mut luminous_intensity_exp = 0;
-        let mut angle_exp = 0;
-
-        // Parse individual dimension parameters that are present
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_M<") {
-            mass_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_L<") {
-            length_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_T<") {
-            time_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_I<") {
-            electric_current_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_Θ<") {
-            temperature_exp = value;
+    /// The generic arguments of a path that ends in `name`
+    fn generic_arguments<'a>(path: &'a syn::Path, name: &str) -> Option<Vec<&'a GenericArgument>> {
+        let segment = path.segments.last().filter(|segment| segment.ident == name)?;
+        match &segment.arguments {
+            PathArguments::None => Some(Vec::new()),
+            PathArguments::AngleBracketed(args) => Some(args.args.iter().collect()),
+            PathArguments::Parenthesized(_) => None,
         }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_N<") {
-            amount_of_substance_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_J<") {
-            luminous_intensity_exp = value;
-        }
-        if let Some(value) = self.parse_dimension_param(quantity_type, "_A<") {
-            angle_exp = value;
-        }
-
-        (
-            mass_exp,
-            length_exp,
-            time_exp,
-            electric_current_exp,
-            temperature_exp,
-            amount_of_substance_exp,
-            luminous_intensity_exp,
-            angle_exp,
-        )
-    }
-
-    /// Parse a scale parameter like "_2<5>" and return the value
-    fn parse_scale_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        Some(self.parse_parameter(param_value))
-    }
-
-    /// Parse a dimension parameter like "_M<1>" and return the value
-    fn parse_dimension_param(&self, content: &str, prefix: &str) -> Option<i16> {
-        let start = content.find(prefix)?;
-        let param_start = start + prefix.len();
-        let param_end = content[param_start..].find('>')?;
-        let param_value = &content[param_start..param_start + param_end];
-        let result = self.parse_parameter(param_value);
-        Some(result)
-    }
-
-    /// Find the matching closing bracket for a given opening bracket
-    fn find_matching_bracket(&self, content: &str, start_pos: usize) -> Option<usize> {
-        let mut depth = 1;
-        let mut i = start_pos;
-
-        while i < content.len() {
-            match content.chars().nth(i) {
-                Some('<') => depth += 1,
-                Some('>') => {
-                    depth -= 1;
-                    if depth == 0 {
-                        return Some(i);
-                    }
-                }
-                _ => {}
-            }
-            i += 1;
-        }
-        None
     }
 
-    /// Extract both the generic type parameter and brand from a Quantity type string
-    /// Returns (generic_type, brand) where brand is Some(...) if present, None otherwise
-    fn extract_generic_type_and_brand(&self, quantity_type: &str) -> (String, Option<String>) {
-        // Parse as a Rust type using syn - it handles const generics reliably
-        if let Some(quantity_start) = quantity_type.find("Quantity<") {
-            let quantity_content = &quantity_type[quantity_start..];
-
-            match parse_str::<TypePath>(quantity_content) {
-                Ok(type_path) => {
-                    // Extract generic arguments
-                    if let Some(segment) = type_path.path.segments.last() {
-                        if let syn::PathArguments::AngleBracketed(args) = &segment.arguments {
-                            let args_vec: Vec<_> = args.args.iter().collect();
-
-                            // We expect: [Scale, Dimension<...>, T, Brand?]
-                            // Scale is at index 0, Dimension at 1, type T at 2, Brand at 3 (if present)
-
-                            if args_vec.len() >= 3 {
-                                // Extract the type parameter (index 2)
-                                let type_arg = &args_vec[2];
-                                let generic_type = match type_arg {
-                                    syn::GenericArgument::Type(ty) => {
-                                        quote::quote!(#ty).to_string()
-                                    }
-                                    _ => quote::quote!(#type_arg).to_string(),
-                                };
-
-                                // Extract Brand if present (index 3)
-                                let brand = if args_vec.len() >= 4 {
-                                    let brand_arg = &args_vec[3];
-                                    match brand_arg {
-                                        syn::GenericArgument::Type(ty) => {
-                                            Some(quote::quote!(#ty).to_string())
-                                        }
-                                        _ => Some(quote::quote!(#brand_arg).to_string()),
-                                    }
-                                } else {
-                                    None
-                                };
-
-                                return (
-                                    generic_type.trim().to_string(),
-                                    brand.map(|s| s.trim().to_string()),
-                                );
-                            } else if args_vec.len() == 2 {
-                                // Only Scale and Dimension, type defaults to f64
-                                return ("f64".to_string(), None);
-                            }
-                        }
-                    }
-                }
-                Err(_) => {
-                    // syn parsing failed - this shouldn't happen for valid Rust types
-                    // but default to f64 if it does
-                }
-            }
+    /// Parse `name<_2<P2>, _3, ...>`: parameters are either explicit (`_2<value>`), defaulted to 0
+    /// (`_2`) or left out (also 0)
+    fn parse_exponents<const N: usize>(
+        &self,
+        argument: &GenericArgument,
+        name: &str,
+        params: [&str; N],
+    ) -> Option<[i16; N]> {
+        let GenericArgument::Type(Type::Path(type_path)) = argument else {
+            return None;
+        };
+        let mut exponents = [0; N];
+        for param in Self::generic_arguments(&type_path.path, name)? {
+            let GenericArgument::Type(Type::Path(param)) = param else {
+                return None;
+            };
+            let index = params
+                .iter()
+                .position(|name| param.path.segments.last().is_some_and(|s| s.ident == *name))?;
+            let values = Self::generic_arguments(&param.path, params[index])?;
+            exponents[index] = match values.as_slice() {
+                [] => 0,
+                [value] => self.parse_parameter(&quote::quote!(#value).to_string().replace(' ', ""))?,
+                _ => return None,
+            };
         }
-
-        // Default fallback if parsing fails
-        ("f64".to_string(), None)
+        Some(exponents)
     }
 
     /// Parse a parameter that could be a number or underscore placeholder
-    fn parse_parameter(&self, param: &str) -> i16 {
+    fn parse_parameter(&self, param: &str) -> Option<i16> {
         if param == "_" {
-            i16::MIN // Unknown placeholder
+            Some(i16::MIN) // Unknown placeholder
         } else {
-            param.parse().unwrap_or(0)
+            param.parse().ok()
         }
     }
 
-- 
2.43.0


From 6aa81fbb0296d737a0dddb61cdd72330c9a1022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 27/52] fix: show an unresolved scale as unresolved
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A type whose scale exponents are partly inferred (`_2<_>`) was shown with the numeric scale factor
2^-32768 = 0: `Quantity<(0)m, f64>`. Show `(ˀ)m`, as unresolved powers of ten already are.
---
 src/print/prettyprint.rs             | 5 +++++
 whippyunits-core/src/storage_unit.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index d06ce55..efb28a5 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -272,6 +272,11 @@ fn format_scale_factors(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i
         return String::new();
     }
 
+    // An unresolved exponent leaves the scale unknown
+    if scale_exponents.0.contains(&i16::MIN) {
+        return "(ˀ)".to_string();
+    }
+
     // Calculate the actual numeric value: 2^p2 * 3^p3 * 5^p5 * π^pi
     let mut value = 1.0;
 
diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 4d62796..a8656d0 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -419,6 +419,11 @@ fn format_scale_factors(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i
         return String::new();
     }
 
+    // An unresolved exponent leaves the scale unknown
+    if scale_exponents.0.contains(&i16::MIN) {
+        return "(ˀ)".to_string();
+    }
+
     // Calculate the actual numeric value: 2^p2 * 3^p3 * 5^p5 * π^pi
     let mut value = 1.0;
 
-- 
2.43.0


From b2d733b1ea058283021e77b646aef681983770d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 28/52] fix: show units in ASCII when Unicode is disabled

DisplayConfig::unicode (WHIPPYUNITS_UNICODE=false, --no-unicode) was read but never used.
---
 lsp-proxy/src/inlay_hint_processor.rs |   1 +
 lsp-proxy/src/unit_formatter.rs       | 109 +++++++++++++++-----------
 2 files changed, 65 insertions(+), 45 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index f9940be..bc87097 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -386,6 +386,7 @@ impl InlayHintProcessor {
         // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
         // Remove the ? and place cursor after the caret
         pretty_type
+            .replace("^?", "^") // Likewise without Unicode
             .replace("ˀ", "^") // Replace superscript question mark with just ^
             .replace("⁻", "^-") // Replace superscript minus with ^-
             .replace("¹", "^1") // Replace superscript 1 with ^1
diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 4ebff59..2ef3a86 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -229,7 +229,7 @@ impl UnitFormatter {
         &self,
         full_match: &str,
         verbose: bool,
-        _unicode: bool,
+        unicode: bool,
         is_inlay_hint: bool,
     ) -> String {
         use whippyunits::print::prettyprint::pretty_print_quantity_type;
@@ -274,60 +274,79 @@ impl UnitFormatter {
                 }
                 return result;
             }
-            if is_inlay_hint {
-                // Use the main pretty print function with verbose=false to get the unit literal
-                let full_output = pretty_print_quantity_type(
-                    params.dimensions,
-                    params.scale,
-                    &params.generic_type,
-                    false, // Non-verbose mode for inlay hints
-                    false, // Don't show type in brackets
-                    brand_name,
-                );
-
-                // Check if the pretty print function returned just "?" for wholly unresolved types
-                if full_output == "?" {
-                    let mut result = format!("Quantity<?, {}>", params.generic_type);
-                    if let Some(brand) = brand_name {
-                        if brand != "()" {
-                            result = format!("{}, {}>", &result[..result.len() - 1], brand);
-                        }
-                    }
-                    return result;
-                }
-
-                full_output
-            } else {
-                // Use the prettyprint API with configurable parameters
-                let result = pretty_print_quantity_type(
-                    params.dimensions,
-                    params.scale,
-                    &params.generic_type,
-                    verbose,
-                    false, // show_type_in_brackets = false for pretty printer
-                    brand_name,
-                );
-
-                // Check if the pretty print function returned just "?" for wholly unresolved types
-                if result == "?" {
-                    let mut formatted = format!("Quantity<?, {}>", params.generic_type);
-                    if let Some(brand) = brand_name {
-                        if brand != "()" {
-                            formatted =
-                                format!("{}, {}>", &formatted[..formatted.len() - 1], brand);
-                        }
+            // Inlay hints always use the compact format
+            let result = pretty_print_quantity_type(
+                params.dimensions,
+                params.scale,
+                &params.generic_type,
+                verbose && !is_inlay_hint,
+                false, // show_type_in_brackets = false for pretty printer
+                brand_name,
+            );
+
+            // Check if the pretty print function returned just "?" for wholly unresolved types
+            if result == "?" {
+                let mut formatted = format!("Quantity<?, {}>", params.generic_type);
+                if let Some(brand) = brand_name {
+                    if brand != "()" {
+                        formatted = format!("{}, {}>", &formatted[..formatted.len() - 1], brand);
                     }
-                    return formatted;
                 }
+                return formatted;
+            }
 
-                result
+            if unicode {
+                return result;
             }
+
+            // Only the unit is ours to rewrite, not the names of the storage type and the brand
+            let unit_end = [brand_name.unwrap_or("()"), "()"]
+                .iter()
+                .map(|brand| format!(", {}, {}>", params.generic_type, brand))
+                .chain([format!(", {}>", params.generic_type)])
+                .find_map(|suffix| result.strip_suffix(&suffix).map(str::len))
+                .unwrap_or(result.len());
+            format!("{}{}", Self::ascii_notation(&result[..unit_end]), &result[unit_end..])
         } else {
             // If parsing fails, return the original
             full_match.to_string()
         }
     }
 
+    /// Rewrite unit notation without Unicode symbols: `kg·m²·s⁻²` becomes `kg*m^2*s^-2`
+    fn ascii_notation(unit: &str) -> String {
+        const SUPERSCRIPTS: &str = "⁰¹²³⁴⁵⁶⁷⁸⁹";
+        let mut result = String::new();
+        let mut in_exponent = false;
+        for ch in unit.chars() {
+            let exponent = match ch {
+                '⁻' => Some('-'),
+                'ˀ' => Some('?'),
+                _ => SUPERSCRIPTS
+                    .chars()
+                    .position(|superscript| superscript == ch)
+                    .map(|digit| (b'0' + digit as u8) as char),
+            };
+            if let Some(exponent) = exponent {
+                if !in_exponent {
+                    result.push('^');
+                }
+                result.push(exponent);
+            } else {
+                match ch {
+                    '·' => result.push('*'),
+                    'µ' | 'μ' => result.push('u'),
+                    'Ω' => result.push_str("Ohm"),
+                    'π' => result.push_str("pi"),
+                    'Θ' | 'θ' => result.push_str("Th"),
+                    _ => result.push(ch),
+                }
+            }
+            in_exponent = exponent.is_some();
+        }
+        result
+    }
+
     /// Parse the new Quantity type format with Scale<...> and Dimension<...> structs
     ///
     /// Returns `None` unless the text determines every exponent (or marks it as unresolved with `_`):
-- 
2.43.0


From faee9dbe078d00c5b93d929b37ac998c91c5fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 29/52] fix: inlay hints lost digits of exponents that contain
 a 1
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m¹² was shown as m², 10¹⁵ as 10⁵ and s⁻²¹ as s⁻².
---
 lsp-proxy/src/inlay_hint_processor.rs | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index bc87097..88732d4 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -404,20 +404,20 @@ impl InlayHintProcessor {
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
     pub fn prune_inlay_hint_exponents(&self, pretty_type: &str) -> String {
         // In our pretty-printed output, we use Unicode superscripts like ¹, ², ³, etc.
-        // We want to remove ¹ (superscript 1) but keep all other superscripts
-        // For negative exponents, we want to preserve the full -1 to make it clear
-        let mut result = pretty_type.to_string();
-
-        // Remove standalone ¹ (but preserve ⁻¹ as it represents a meaningful negative exponent)
-        // Since ⁻¹ is two separate Unicode characters (⁻ + ¹), we need to handle this carefully
-        // First, temporarily replace ⁻¹ with a placeholder to protect it
-        result = result.replace("⁻¹", "PLACEHOLDER_MINUS_ONE");
-
-        // Then remove standalone ¹
-        result = result.replace("¹", "");
-
-        // Finally, restore the ⁻¹
-        result = result.replace("PLACEHOLDER_MINUS_ONE", "⁻¹");
+        // We want to remove a ¹ that is the whole exponent, but keep those that are part of another
+        // exponent (⁻¹, ¹², ²¹, ...)
+        let is_superscript = |ch: char| "⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(ch);
+        let mut result = String::with_capacity(pretty_type.len());
+        let mut previous = None;
+        let mut chars = pretty_type.chars().peekable();
+        while let Some(ch) = chars.next() {
+            let part_of_exponent = previous.is_some_and(is_superscript)
+                || chars.peek().copied().is_some_and(is_superscript);
+            if ch != '¹' || part_of_exponent {
+                result.push(ch);
+            }
+            previous = Some(ch);
+        }
 
         result
     }
-- 
2.43.0


From 844d84584a7ab06d618e8be3dc32cd158354e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 30/52] fix: hovers lost text, crashed on non-ASCII code, or
 were left raw

Only the first code block of a hover was formatted (rust-analyzer puts the module path there), its
blanks were trimmed even when it held no quantity type, the documentation before the first --- was
dropped when the raw type was shown, and looking for the declaration panicked inside multi-byte
characters.
---
 lsp-proxy/src/unit_formatter.rs | 133 +++++++++-----------------------
 1 file changed, 37 insertions(+), 96 deletions(-)

diff --git a/lsp-proxy/src/unit_formatter.rs b/lsp-proxy/src/unit_formatter.rs
index 2ef3a86..eb15144 100644
--- a/lsp-proxy/src/unit_formatter.rs
+++ b/lsp-proxy/src/unit_formatter.rs
@@ -58,62 +58,38 @@ impl UnitFormatter {
             return self.format_quantity_types(text, config.verbose, config.unicode, false);
         }
 
-        // Work within the existing markdown structure
-        // Find the first code block and replace its content
-        if let Some(code_start) = original_text.find("```rust") {
-            let after_code_start = &original_text[code_start + 7..]; // Skip "```rust"
-            if let Some(code_end) = after_code_start.find("```") {
-                let code_content = &after_code_start[..code_end];
-
-                // Format the code content
-                let formatted_content =
-                    self.format_quantity_types(code_content, config.verbose, config.unicode, false);
-
-                // Check if we actually transformed anything
-                let was_transformed = formatted_content != code_content;
-
-                // Extract raw type from the original code content if we transformed it
-                let raw_type = if was_transformed && config.include_raw {
-                    self.extract_raw_type_from_hover(code_content)
-                } else {
-                    String::new()
-                };
-
-                // Replace the content in the existing code block
-                let before_code = &original_text[..code_start + 7]; // Include "```rust"
-                let after_code_block = &after_code_start[code_end + 3..]; // Skip closing ```
-
-                let result = if !raw_type.is_empty() {
-                    // Insert raw section after the first --- separator
-                    if let Some(separator_pos) = after_code_block.find("---") {
-                        let after_separator = &after_code_block[separator_pos..];
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n{}",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type,
-                            after_separator
-                        )
-                    } else {
-                        format!(
-                            "{}\n{}\n```\n\n---\nRaw:\n\n```rust\n{}\n```\n",
-                            before_code,
-                            formatted_content.trim(),
-                            raw_type
-                        )
-                    }
-                } else {
-                    format!(
-                        "{}\n{}\n```{}",
-                        before_code,
-                        formatted_content.trim(),
-                        after_code_block
-                    )
-                };
-
-                return result;
+        // Work within the existing markdown structure: format the content of every code block (the
+        // first one often only names the module) and leave everything around it as it is
+        let mut result = String::new();
+        let mut rest = original_text;
+        let mut found_block = false;
+        let mut needs_raw = config.include_raw;
+        while let Some(code_start) = rest.find("```rust").map(|start| start + "```rust".len()) {
+            let Some(code_end) = rest[code_start..].find("```").map(|len| code_start + len) else {
+                break;
+            };
+            found_block = true;
+            let code_content = &rest[code_start..code_end];
+            let formatted_content =
+                self.format_quantity_types(code_content, config.verbose, config.unicode, false);
+            result.push_str(&rest[..code_start]);
+            result.push_str(&formatted_content);
+            result.push_str("```");
+            rest = &rest[code_end + "```".len()..];
+
+            // Show the raw type after the first block that we transformed
+            if needs_raw && formatted_content != code_content {
+                let raw_type = self.extract_raw_type_from_hover(code_content);
+                if !raw_type.is_empty() {
+                    result.push_str(&format!("\n\n---\nRaw:\n\n```rust\n{}\n```\n", raw_type));
+                    needs_raw = false;
+                }
             }
         }
+        if found_block {
+            result.push_str(rest);
+            return result;
+        }
 
         // Fallback to normal formatting if we can't parse the markdown structure
         self.format_quantity_types(text, config.verbose, config.unicode, false)
@@ -464,61 +440,26 @@ impl UnitFormatter {
                 .map(|(i, _)| i);
 
             if let Some(type_end) = type_end {
-                if after_colon.chars().nth(type_end) == Some('<') {
+                if after_colon[type_end..].starts_with('<') {
                     // We found a generic type, extract the full declaration
                     // Find the start of the variable declaration by looking backwards for 'let'
                     let mut var_start = start;
-                    let mut found_let = false;
 
                     // Look backwards to find the start of the declaration
-                    while var_start > 0 {
-                        let char_before =
-                            hover_text[var_start - 1..var_start].chars().next().unwrap();
+                    while let Some(char_before) = hover_text[..var_start].chars().next_back() {
+                        var_start -= char_before.len_utf8();
                         if char_before.is_whitespace() {
                             // Check if we've found "let" or "let mut"
-                            let potential_start = var_start;
-                            let before_whitespace = &hover_text[..potential_start];
-
-                            // Look for "let" at the end of the string
-                            if before_whitespace.ends_with("let") {
+                            if let Some(before_let) = hover_text[..var_start].strip_suffix("let") {
                                 // Check if there's whitespace before "let" or if it's at the start
-                                let let_start = before_whitespace.len() - 3;
-                                if let_start == 0
-                                    || hover_text[let_start - 1..let_start]
-                                        .chars()
-                                        .next()
-                                        .unwrap()
-                                        .is_whitespace()
+                                if before_let.is_empty()
+                                    || before_let.ends_with(char::is_whitespace)
                                 {
-                                    var_start = let_start;
-                                    found_let = true;
+                                    var_start = before_let.len();
                                     break;
                                 }
                             }
                         }
-                        var_start -= 1;
-                    }
-
-                    if !found_let {
-                        // Fallback: find the start of the variable name
-                        while var_start > 0
-                            && !hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start -= 1;
-                        }
-                        if var_start > 0
-                            && hover_text[var_start..var_start + 1]
-                                .chars()
-                                .next()
-                                .unwrap()
-                                .is_whitespace()
-                        {
-                            var_start += 1; // Skip the whitespace
-                        }
                     }
 
                     // Find the end of the type declaration by matching brackets
-- 
2.43.0


From 2cba17348cd5dcf337bb3eeb860caa7d2715eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 31/52] fix: rewritten messages lost and gained fields

A message that shows a quantity type was rebuilt from the fields that the proxy knows: hover actions
and other members disappeared, absent ones appeared as null (a response with both a result and an
error is invalid), and messages in which nothing changed were re-serialized as well.
---
 lsp-proxy/src/lib.rs            | 96 +++++++++++----------------------
 lsp-proxy/src/lsp_structures.rs | 22 ++++++++
 2 files changed, 52 insertions(+), 66 deletions(-)

diff --git a/lsp-proxy/src/lib.rs b/lsp-proxy/src/lib.rs
index 3726c71..a3c7b33 100644
--- a/lsp-proxy/src/lib.rs
+++ b/lsp-proxy/src/lib.rs
@@ -13,7 +13,6 @@ mod tests;
 
 use hover_processor::HoverProcessor;
 use inlay_hint_processor::InlayHintProcessor;
-use lsp_structures::LspMessage;
 
 // Re-export for public API
 pub use unit_formatter::DisplayConfig;
@@ -70,57 +69,42 @@ impl LspProxy {
             return Ok(message.to_string());
         }
 
-        // Parse the JSON payload only if we detected Quantity types
-        let mut lsp_msg: LspMessage = match serde_json::from_str(&json_payload) {
+        // Parse the JSON payload only if we detected Quantity types. We keep all of it, including the
+        // fields that we know nothing about
+        let original: Value = match serde_json::from_str(&json_payload) {
             Ok(msg) => msg,
             Err(e) => {
                 warn!("Failed to parse LSP message: {}", e);
                 return Ok(message.to_string());
             }
         };
+        let mut lsp_msg = original.clone();
 
         // Only process specific message types we care about
-        let mut needs_processing = false;
-
-        // Check if this is a hover response
-        if let Some(result) = &lsp_msg.result {
+        if let Some(result) = lsp_msg.get_mut("result") {
+            // Check if this is a hover response
             if let Some(hover_content) = self.hover_processor.extract_hover_content(result) {
-                match self.hover_processor.improve_hover_content(hover_content) {
-                    improved_content => match serde_json::to_value(improved_content) {
-                        Ok(value) => {
-                            lsp_msg.result = Some(value);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            warn!("Failed to serialize hover content: {}", e);
-                        }
-                    },
-                }
+                self.hover_processor
+                    .improve_hover_content(hover_content)
+                    .write_to(result);
             }
-        }
 
-        // Check if this is an inlay hint response (including resolve responses)
-        if let Some(result) = &lsp_msg.result {
-            if self.is_inlay_hint_response(&lsp_msg) {
-                // Only process inlay hints if they contain whippyunits types
-                if self.contains_whippyunits_in_result(result) {
-                    match self.process_inlay_hint_result(result) {
-                        Ok(improved_result) => {
-                            lsp_msg.result = Some(improved_result);
-                            needs_processing = true;
-                        }
-                        Err(e) => {
-                            // If processing fails, log the error but don't crash
-                            warn!("Failed to process inlay hint: {}", e);
-                            // Continue without processing - return original message
-                        }
+            // Check if this is an inlay hint response (including resolve responses)
+            // Only process inlay hints if they contain whippyunits types
+            if self.is_inlay_hint_response(result) && self.contains_whippyunits_in_result(result) {
+                match self.process_inlay_hint_result(result) {
+                    Ok(improved_result) => *result = improved_result,
+                    Err(e) => {
+                        // If processing fails, log the error but don't crash
+                        warn!("Failed to process inlay hint: {}", e);
+                        // Continue without processing - return original message
                     }
                 }
             }
         }
 
         // Only reconstruct if we actually modified something
-        if needs_processing {
+        if lsp_msg != original {
             match serde_json::to_string(&lsp_msg) {
                 Ok(new_json) => {
                     let content_length = new_json.len();
@@ -182,38 +166,18 @@ impl LspProxy {
     }
 
     /// Check if this is an inlay hint response (has result with inlay hint data)
-    fn is_inlay_hint_response(&self, lsp_msg: &LspMessage) -> bool {
-        // Check if the result contains inlay hint data structure
-        if let Some(result) = &lsp_msg.result {
-            // Check if result is an array (typical for inlay hint requests)
-            if result.is_array() {
-                // Check if any item in the array has inlay hint structure
-                if let Some(array) = result.as_array() {
-                    for item in array.iter() {
-                        if let Some(item_obj) = item.as_object() {
-                            let has_position = item_obj.contains_key("position");
-                            let has_label = item_obj.contains_key("label");
-                            if has_position && has_label {
-                                return true;
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Check if result is an object (typical for inlay hint resolve responses)
-            if result.is_object() {
-                if let Some(obj) = result.as_object() {
-                    let has_position = obj.contains_key("position");
-                    let has_label = obj.contains_key("label");
-                    if has_position && has_label {
-                        return true;
-                    }
-                }
-            }
+    fn is_inlay_hint_response(&self, result: &Value) -> bool {
+        let is_inlay_hint = |value: &Value| {
+            value
+                .as_object()
+                .is_some_and(|obj| obj.contains_key("position") && obj.contains_key("label"))
+        };
+        match result {
+            // Typical for inlay hint requests
+            Value::Array(items) => items.iter().any(is_inlay_hint),
+            // Typical for inlay hint resolve responses
+            _ => is_inlay_hint(result),
         }
-
-        false
     }
 
     /// Check if a result contains whippyunits types
diff --git a/lsp-proxy/src/lsp_structures.rs b/lsp-proxy/src/lsp_structures.rs
index 722d71c..63d9a4a 100644
--- a/lsp-proxy/src/lsp_structures.rs
+++ b/lsp-proxy/src/lsp_structures.rs
@@ -19,6 +19,28 @@ pub struct HoverContent {
     pub range: Option<Value>,
 }
 
+impl HoverContent {
+    /// Replace the texts of the hover result this was extracted from, and nothing else in it
+    pub fn write_to(self, result: &mut Value) {
+        let Some(contents) = result.get_mut("contents") else {
+            return;
+        };
+        let replace = |item: Option<&mut Value>, text: String| {
+            if let Some(value) = item.and_then(|item| item.get_mut("value")) {
+                *value = Value::String(text);
+            }
+        };
+        match self.contents {
+            HoverContents::Single(item) => replace(Some(contents), item.value),
+            HoverContents::Multiple(items) => {
+                for (index, item) in items.into_iter().enumerate() {
+                    replace(contents.get_mut(index), item.value);
+                }
+            }
+        }
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum HoverContents {
-- 
2.43.0


From 401fbcc443bb5036468ba68a23eb127b073f64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 32/52] fix: inlay hints dropped parts of the types around a
 quantity

The closing bracket of a quantity type usually shares a label part with what follows it, which was
then swallowed with the rest of the label; only the first quantity of a label was converted, and the
parts of other types named Quantity were merged.
---
 lsp-proxy/src/inlay_hint_processor.rs | 145 +++++++++-----------------
 1 file changed, 48 insertions(+), 97 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index 88732d4..963eb0a 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -113,113 +113,64 @@ impl InlayHintProcessor {
 
     /// Convert a whippyunits inlay hint to pretty format
     pub fn convert_whippyunits_hint(&self, label_array: &mut Vec<Value>) -> Result<()> {
-        // Find the Quantity part
-        let mut quantity_part_index = None;
-        for (i, part) in label_array.iter().enumerate() {
-            if let Some(value) = part.get("value") {
-                if let Some(text) = value.as_str() {
-                    if text == "Quantity" {
-                        quantity_part_index = Some(i);
-                        break;
-                    }
-                }
-            }
-        }
+        let text_of = |part: &Value| -> String {
+            let value = part.get("value").and_then(Value::as_str);
+            value.unwrap_or_default().to_string()
+        };
 
-        // If we found the Quantity part, collect all the generic parameters
-        if let Some(quantity_idx) = quantity_part_index {
-            // Collect all parts after Quantity that form the generic parameters
-            let mut generic_parts = Vec::new();
-            let mut bracket_depth = 0;
-            let mut found_opening_bracket = false;
-
-            for i in (quantity_idx + 1)..label_array.len() {
-                if let Some(value) = label_array[i].get("value") {
-                    if let Some(text) = value.as_str() {
-                        // Track bracket depth to know when we've reached the end
-                        for ch in text.chars() {
-                            if ch == '<' {
-                                bracket_depth += 1;
-                                found_opening_bracket = true;
-                            } else if ch == '>' {
-                                bracket_depth -= 1;
-                            }
+        let mut quantity_idx = 0;
+        while quantity_idx < label_array.len() {
+            // Every Quantity part starts a type, whose generic parameters are in the parts after it
+            if text_of(&label_array[quantity_idx]) == "Quantity" {
+                // Construct the full type string, up to the bracket that closes the parameters
+                let mut full_type = "Quantity".to_string();
+                let mut end = None;
+                let mut bracket_depth = 0;
+                'parts: for (i, part) in label_array.iter().enumerate().skip(quantity_idx + 1) {
+                    let text = text_of(part);
+                    for (pos, ch) in text.char_indices() {
+                        match ch {
+                            '<' => bracket_depth += 1,
+                            '>' => bracket_depth -= 1,
+                            _ => {}
                         }
-
-                        generic_parts.push(text);
-
-                        // Stop when we've closed all brackets
-                        if found_opening_bracket && bracket_depth == 0 {
-                            break;
+                        // Anything but an opening bracket means that there are no parameters
+                        if bracket_depth <= 0 {
+                            if ch == '>' && bracket_depth == 0 {
+                                full_type.push_str(&text[..=pos]);
+                                end = Some((i, text[pos + 1..].to_string()));
+                            }
+                            break 'parts;
                         }
                     }
+                    full_type.push_str(&text);
                 }
-            }
-
-            if !generic_parts.is_empty() {
-                // Create the complete generic parameters string
-                let generic_params = generic_parts.join("");
 
-                // Construct the full type string
-                let full_type = format!("Quantity{}", generic_params);
-
-                // For inlay hints, use the full Quantity<unit, type> format
-                let pretty_type = self
-                    .formatter
-                    .format_types_inlay_hint(&full_type, &self.display_config);
-
-                // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
-                let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
-
-                // Replace the "Quantity" part with the pretty version
-                // Preserve the location information if it exists
-                let quantity_part = &label_array[quantity_idx];
-                let mut new_quantity_part = json!({
-                    "value": pretty_type
-                });
-
-                // Copy over the location if it exists
-                if let Some(location) = quantity_part.get("location") {
-                    new_quantity_part["location"] = location.clone();
-                }
-
-                label_array[quantity_idx] = new_quantity_part;
-
-                // Remove all the generic parameters parts
-                let mut parts_to_remove = Vec::new();
-                let mut bracket_depth = 0;
-                let mut found_opening_bracket = false;
-
-                for i in (quantity_idx + 1)..label_array.len() {
-                    if let Some(value) = label_array[i].get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Track bracket depth to know when we've reached the end
-                            for ch in text.chars() {
-                                if ch == '<' {
-                                    bracket_depth += 1;
-                                    found_opening_bracket = true;
-                                } else if ch == '>' {
-                                    bracket_depth -= 1;
-                                }
-                            }
-
-                            parts_to_remove.push(i);
-
-                            // Stop when we've closed all brackets
-                            if found_opening_bracket && bracket_depth == 0 {
-                                break;
-                            }
+                if let Some((end_idx, rest)) = end {
+                    // For inlay hints, use the full Quantity<unit, type> format
+                    let pretty_type = self
+                        .formatter
+                        .format_types_inlay_hint(&full_type, &self.display_config);
+
+                    // Leave the parts of other types alone
+                    if pretty_type != full_type {
+                        // For inlay hints specifically, prune ^1 exponents while keeping meaningful ones
+                        let pretty_type = self.prune_inlay_hint_exponents(&pretty_type);
+
+                        // Replace the "Quantity" part with the pretty version, keeping its location
+                        label_array[quantity_idx]["value"] = Value::String(pretty_type);
+
+                        // Remove the generic parameters, but nothing that follows them
+                        if rest.is_empty() {
+                            label_array.drain(quantity_idx + 1..=end_idx);
+                        } else {
+                            label_array[end_idx]["value"] = Value::String(rest);
+                            label_array.drain(quantity_idx + 1..end_idx);
                         }
                     }
                 }
-
-                // Remove parts in reverse order to maintain indices
-                for &i in parts_to_remove.iter().rev() {
-                    label_array.remove(i);
-                }
-            } else {
             }
-        } else {
+            quantity_idx += 1;
         }
 
         Ok(())
-- 
2.43.0


From 6cad8c74a4200721fd9a5f564ebe8431635d97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 33/52] fix: hint edits did not denote the type that the hint
 shows
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unit! annotation contained `·`, superscripts of two digits became two exponents, the brand ended
up in the unit, and it was offered even when the hint is about more than one quantity or when unit!
cannot express the type; the range that the server wanted to replace was lost.
---
 lsp-proxy/src/inlay_hint_processor.rs | 213 +++++++++-----------------
 1 file changed, 75 insertions(+), 138 deletions(-)

diff --git a/lsp-proxy/src/inlay_hint_processor.rs b/lsp-proxy/src/inlay_hint_processor.rs
index 963eb0a..0dd06c8 100644
--- a/lsp-proxy/src/inlay_hint_processor.rs
+++ b/lsp-proxy/src/inlay_hint_processor.rs
@@ -4,6 +4,7 @@ use crate::{
 };
 use anyhow::Result;
 use serde_json::{json, Value};
+use whippyunits_core::UnitExpr;
 
 /// Process inlay hint responses to pretty-print whippyunits types
 #[derive(Clone)]
@@ -181,8 +182,10 @@ impl InlayHintProcessor {
         &self,
         hint_obj: &mut serde_json::Map<String, Value>,
     ) -> Result<()> {
-        // Generate the unit! macro text
-        let seeded_text = self.generate_seeded_unit_macro(hint_obj)?;
+        // Generate the unit! macro text, if the hint's type can be written with the macro
+        let Some(seeded_text) = self.generate_seeded_unit_macro(hint_obj) else {
+            return Ok(());
+        };
 
         // Extract position before any mutable borrows
         let position = if let Some(pos) = hint_obj.get("position") {
@@ -190,166 +193,100 @@ impl InlayHintProcessor {
         } else {
             return Ok(());
         };
-
-        // Replace existing textEdits with our seeded unit macro
-        if let Some(existing_text_edits) = hint_obj.get_mut("textEdits") {
-            if let Some(text_edits_array) = existing_text_edits.as_array_mut() {
-                // Clear existing text edits and add our unit! macro one
-                text_edits_array.clear();
-
-                // Get the range from the first existing text edit (if any)
-                let range = if let Some(first_edit) = text_edits_array.first() {
-                    if let Some(range) = first_edit.get("range") {
-                        range.clone()
-                    } else {
-                        // Fallback: use position as range
-                        json!({
-                            "start": position,
-                            "end": position
-                        })
-                    }
-                } else {
-                    // No existing text edits, use position as range
-                    json!({
-                        "start": position,
-                        "end": position
-                    })
-                };
-
-                // Add our unit! macro text edit
-                let text_edit = json!({
-                    "range": range,
-                    "newText": seeded_text
-                });
-                text_edits_array.push(text_edit);
+        let new_text_edit = json!({
+            "range": { "start": position, "end": position },
+            "newText": seeded_text
+        });
+
+        match hint_obj.get_mut("textEdits").and_then(Value::as_array_mut) {
+            None => {
+                hint_obj.insert("textEdits".to_string(), json!([new_text_edit]));
             }
-        } else {
-            // No existing textEdits, create new array
-            let range = json!({
-                "start": position,
-                "end": position
-            });
-
-            let text_edit = json!({
-                "range": range,
-                "newText": seeded_text
-            });
-            hint_obj.insert("textEdits".to_string(), json!([text_edit]));
+            Some(text_edits) => match text_edits.as_mut_slice() {
+                [] => text_edits.push(new_text_edit),
+                // The text that replaces the same range
+                [text_edit] => text_edit["newText"] = Value::String(seeded_text),
+                // More than a type annotation
+                _ => {}
+            },
         }
 
         Ok(())
     }
 
-    /// Generate a seeded unit macro based on the unresolved type
+    /// Generate a seeded unit macro for a hint that annotates a single quantity type
     fn generate_seeded_unit_macro(
         &self,
         hint_obj: &serde_json::Map<String, Value>,
-    ) -> Result<String> {
-        // We need to reconstruct the original unresolved type from the pretty-printed version
-        // Look for the pretty-printed type in the label
-        let mut pretty_type = String::new();
-
-        if let Some(label) = hint_obj.get("label") {
-            if let Some(label_array) = label.as_array() {
-                for part in label_array {
-                    if let Some(value) = part.get("value") {
-                        if let Some(text) = value.as_str() {
-                            // Skip the ": " part
-                            if text != ": " {
-                                pretty_type.push_str(text);
-                            }
-                        }
-                    }
-                }
-            }
+    ) -> Option<String> {
+        let label_array = hint_obj.get("label")?.as_array()?;
+        let label: String = label_array
+            .iter()
+            .filter_map(|part| part.get("value").and_then(Value::as_str))
+            .collect();
+
+        // Only the pretty-printed part says which type it is
+        let shown_type = label.strip_prefix(": ")?;
+        if !label_array
+            .iter()
+            .any(|part| part.get("value").and_then(Value::as_str) == Some(shown_type))
+        {
+            return None;
         }
-
-        // Extract the datatype suffix if present
-        let (unit_part, datatype) = self.extract_unit_and_datatype(&pretty_type);
-
-        // Generate the appropriate unit! macro format based on datatype
-        let unit_macro = if datatype == "f64" {
-            // For f64, use the simple format: unit!(mm)
-            format!("unit!({})", unit_part)
-        } else {
-            // For other datatypes, use the type-specified format: unit!(mm, i32)
-            format!("unit!({}, {})", unit_part, datatype)
-        };
-
-        // Return just the type annotation with the unit! macro
-        Ok(format!(": {}", unit_macro))
-    }
-
-    /// Extract unit part and datatype from a pretty-printed type with suffix
-    fn extract_unit_and_datatype(&self, pretty_type: &str) -> (String, String) {
-        // Remove the "Unresolved type - " prefix if present
-        let clean_type = if pretty_type.starts_with("Unresolved type - ") {
-            &pretty_type[18..] // Skip "Unresolved type - "
-        } else {
-            pretty_type
-        };
-
-        // Check for new Quantity<unit, datatype> format
-        if clean_type.starts_with("Quantity<") && clean_type.ends_with('>') {
-            let inner = &clean_type[9..clean_type.len() - 1]; // Remove "Quantity<" and ">"
-
-            if let Some(comma_pos) = inner.rfind(',') {
-                let unit_part = self.convert_pretty_type_to_unit_macro(inner[..comma_pos].trim());
-                let datatype = inner[comma_pos + 1..].trim().to_string();
-                return (unit_part, datatype);
-            } else {
-                // No comma found, this might be a malformed Quantity type
-                // Try to extract just the unit part without datatype
-                let unit_part = self.convert_pretty_type_to_unit_macro(inner.trim());
-                return (unit_part, "f64".to_string());
-            }
+        let inner = shown_type.strip_prefix("Quantity<")?.strip_suffix('>')?;
+        if inner.starts_with("Scale") {
+            return None;
         }
 
-        // Check for old backing datatype suffix format (fallback for compatibility)
-        if let Some(underscore_pos) = clean_type.rfind('_') {
-            let suffix = &clean_type[underscore_pos + 1..];
-            if suffix == "f64"
-                || suffix == "f32"
-                || suffix == "i64"
-                || suffix == "i32"
-                || suffix == "i16"
-                || suffix == "i8"
-                || suffix == "u64"
-                || suffix == "u32"
-                || suffix == "u16"
-                || suffix == "u8"
-                || suffix == "isize"
-                || suffix == "usize"
-            {
-                let unit_part =
-                    self.convert_pretty_type_to_unit_macro(&clean_type[..underscore_pos]);
-                return (unit_part, suffix.to_string());
+        // The rest is the storage type and possibly the brand
+        let (unit_text, storage_and_brand) = inner.split_once(", ")?;
+        let unit = self.convert_pretty_type_to_unit_macro(unit_text);
+
+        // Unresolved exponents are left for the user to fill in; any other unit must be one that
+        // the macro accepts
+        if !unit_text.contains(['ˀ', '?']) {
+            let expr = syn::parse_str::<UnitExpr>(&unit).ok()?;
+            if expr.validate().is_err() || expr.validate_strict().is_some() {
+                return None;
             }
         }
 
-        // No datatype suffix found, treat as f64 (default)
-        let unit_part = self.convert_pretty_type_to_unit_macro(clean_type);
-        (unit_part, "f64".to_string())
+        // For f64, use the simple format: unit!(mm); otherwise, use the type-specified format:
+        // unit!(mm, i32)
+        Some(if storage_and_brand == "f64" {
+            format!(": unit!({})", unit)
+        } else {
+            format!(": unit!({}, {})", unit, storage_and_brand)
+        })
     }
 
     /// Convert pretty-printed type to unit! macro format
     fn convert_pretty_type_to_unit_macro(&self, pretty_type: &str) -> String {
+        const SUPERSCRIPTS: &str = "⁻⁰¹²³⁴⁵⁶⁷⁸⁹";
+
         // Convert pretty-printed types like "mmˀ" to unit macro format like "mm^"
         // Remove the ? and place cursor after the caret
         pretty_type
             .replace("^?", "^") // Likewise without Unicode
             .replace("ˀ", "^") // Replace superscript question mark with just ^
-            .replace("⁻", "^-") // Replace superscript minus with ^-
-            .replace("¹", "^1") // Replace superscript 1 with ^1
-            .replace("²", "^2") // Replace superscript 2 with ^2
-            .replace("³", "^3") // Replace superscript 3 with ^3
-            .replace("⁴", "^4") // Replace superscript 4 with ^4
-            .replace("⁵", "^5") // Replace superscript 5 with ^5
-            .replace("⁶", "^6") // Replace superscript 6 with ^6
-            .replace("⁷", "^7") // Replace superscript 7 with ^7
-            .replace("⁸", "^8") // Replace superscript 8 with ^8
-            .replace("⁹", "^9") // Replace superscript 9 with ^9
-            .replace("⁰", "^0") // Replace superscript 0 with ^0
+            .replace('·', "*")
+            .chars()
+            .fold((String::new(), false), |(mut result, in_exponent), ch| {
+                // Replace superscripts ⁻¹² with ^-12
+                let exponent = SUPERSCRIPTS
+                    .chars()
+                    .position(|superscript| superscript == ch);
+                if exponent.is_some() && !in_exponent {
+                    result.push('^');
+                }
+                result.push(
+                    exponent
+                        .and_then(|i| "-0123456789".chars().nth(i))
+                        .unwrap_or(ch),
+                );
+                (result, exponent.is_some())
+            })
+            .0
     }
 
     /// Prune ^1 exponents from inlay hint display while keeping meaningful exponents
-- 
2.43.0


From d2aedb71b307571d642896df4727ab64393e57e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 34/52] fix: whippyunits-pretty altered the text around the
 types

A line that is not UTF-8 ended the program, CRLF line ends became LF, a missing final newline was
added, and with -f the last newline was dropped.
---
 whippyunits-pretty/src/main.rs         | 29 +++++++++++++-------------
 whippyunits-pretty/src/rustc_pretty.rs | 13 ++++++------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/whippyunits-pretty/src/main.rs b/whippyunits-pretty/src/main.rs
index e5f888b..2b95bd3 100644
--- a/whippyunits-pretty/src/main.rs
+++ b/whippyunits-pretty/src/main.rs
@@ -1,7 +1,7 @@
 use anyhow::Result;
 use clap::Parser;
 use log::info;
-use std::io::{self, BufRead, BufReader};
+use std::io::{self, BufRead, BufReader, Write};
 
 use whippyunits_lsp_proxy::DisplayConfig;
 use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
@@ -54,21 +54,20 @@ async fn main() -> Result<()> {
     let mut printer = RustcPrettyPrinter::with_config(display_config);
 
     // Process input
-    if let Some(input_file) = args.input {
-        // Read from file
-        let content = std::fs::read_to_string(&input_file)?;
-        let processed = printer.process_rustc_output(&content)?;
-        print!("{}", processed);
-    } else {
-        // Read from stdin
-        let stdin = io::stdin();
-        let reader = BufReader::new(stdin.lock());
-
-        for line in reader.lines() {
-            let line = line?;
-            let processed = printer.process_line(&line)?;
-            println!("{}", processed);
+    let mut reader: Box<dyn BufRead> = match args.input {
+        Some(input_file) => Box::new(BufReader::new(std::fs::File::open(&input_file)?)),
+        None => Box::new(BufReader::new(io::stdin())),
+    };
+    let mut stdout = io::stdout();
+    let mut line = Vec::new();
+    while reader.read_until(b'\n', &mut line)? > 0 {
+        // Bytes that are not text contain no types
+        match std::str::from_utf8(&line) {
+            Ok(text) => stdout.write_all(printer.process_rustc_output(text)?.as_bytes())?,
+            Err(_) => stdout.write_all(&line)?,
         }
+        stdout.flush()?;
+        line.clear();
     }
 
     Ok(())
diff --git a/whippyunits-pretty/src/rustc_pretty.rs b/whippyunits-pretty/src/rustc_pretty.rs
index 4eb5e46..e6743b3 100644
--- a/whippyunits-pretty/src/rustc_pretty.rs
+++ b/whippyunits-pretty/src/rustc_pretty.rs
@@ -23,15 +23,16 @@ impl RustcPrettyPrinter {
 
     /// Process a complete rustc output string
     pub fn process_rustc_output(&mut self, output: &str) -> Result<String> {
-        let lines: Vec<&str> = output.lines().collect();
-        let mut processed_lines = Vec::new();
+        let mut processed = String::new();
 
-        for line in lines {
-            let processed = self.process_line(line)?;
-            processed_lines.push(processed);
+        // Keep the line ends as they are
+        for line in output.split_inclusive('\n') {
+            let content = line.trim_end_matches(['\r', '\n']);
+            processed.push_str(&self.process_line(content)?);
+            processed.push_str(&line[content.len()..]);
         }
 
-        Ok(processed_lines.join("\n"))
+        Ok(processed)
     }
 
     /// Process a single line of rustc output
-- 
2.43.0


From 1954f00039084cee635959091380b8e50e1591b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 35/52] fix: a message with more headers than Content-Length
 ended the session

LSP also defines Content-Type, in any order, and header names are not case-sensitive.
---
 lsp-proxy/src/main.rs | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index b4a60a8..aa479f4 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -172,28 +172,27 @@ async fn read_lsp_message<R: AsyncBufReadExt + Unpin>(
     reader: &mut R,
     buffer: &mut String,
 ) -> Result<Option<String>, anyhow::Error> {
-    // Read the Content-Length header
-    buffer.clear();
-    match reader.read_line(buffer).await {
-        Ok(0) => return Ok(None), // EOF
-        Ok(_) => {}
-        Err(e) => return Err(anyhow::anyhow!("Failed to read Content-Length: {}", e)),
-    }
-
-    let content_length_line = buffer.trim();
-    if content_length_line.is_empty() {
-        return Ok(None);
-    }
-
-    // Parse Content-Length
-    let content_length: usize = content_length_line
-        .strip_prefix("Content-Length: ")
-        .ok_or_else(|| anyhow::anyhow!("Invalid Content-Length header: {}", content_length_line))?
-        .parse()?;
-
-    // Read the empty line after headers
-    buffer.clear();
-    reader.read_line(buffer).await?;
+    // Read the headers, up to the empty line that ends them
+    let mut content_length: Option<usize> = None;
+    let content_length = loop {
+        buffer.clear();
+        if reader.read_line(buffer).await? == 0 {
+            return Ok(None); // EOF
+        }
+        let header = buffer.trim();
+        if header.is_empty() {
+            match content_length {
+                Some(content_length) => break content_length,
+                None => continue,
+            }
+        }
+        let (name, value) = header
+            .split_once(':')
+            .ok_or_else(|| anyhow::anyhow!("Invalid header: {}", header))?;
+        if name.trim().eq_ignore_ascii_case("Content-Length") {
+            content_length = Some(value.trim().parse()?);
+        }
+    };
 
     // Read the JSON payload
     buffer.clear();
-- 
2.43.0


From 0f8cbcb57185533285e3ade3f1e0b42706058fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 36/52] fix: the proxy ended sessions that were not over

It ended, killing rust-analyzer, as soon as the editor had written its last message or rust-analyzer
had closed its stderr or written something that is not UTF-8 to it, losing every message still on
its way; and it outlived a rust-analyzer that had exited until the editor sent something.
---
 lsp-proxy/src/main.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/lsp-proxy/src/main.rs b/lsp-proxy/src/main.rs
index aa479f4..f1e5673 100644
--- a/lsp-proxy/src/main.rs
+++ b/lsp-proxy/src/main.rs
@@ -1,6 +1,7 @@
 use anyhow::Result;
 use log::{error, info, warn};
 use std::process::{Command, Stdio};
+use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
 use tokio::process::{Child, Command as TokioCommand};
 
@@ -52,7 +53,7 @@ async fn main() -> Result<()> {
 
     // Spawn tasks for bidirectional communication
     let proxy_clone = proxy.clone();
-    let editor_to_ra = tokio::spawn(async move {
+    tokio::spawn(async move {
         let mut reader = BufReader::new(stdin);
         let mut buffer = String::new();
 
@@ -133,38 +134,28 @@ async fn main() -> Result<()> {
 
     // Forward stderr from rust-analyzer to our stderr
     let stderr_forwarder = tokio::spawn(async move {
-        let mut reader = BufReader::new(ra_stderr);
-        let mut line = String::new();
-
-        loop {
-            line.clear();
-            match reader.read_line(&mut line).await {
-                Ok(0) => break, // EOF
-                Ok(_) => {
-                    eprint!("{}", line);
-                }
-                Err(e) => {
-                    error!("Failed to read rust-analyzer stderr: {}", e);
-                    break;
-                }
-            }
+        let mut ra_stderr = ra_stderr;
+        if let Err(e) = tokio::io::copy(&mut ra_stderr, &mut tokio::io::stderr()).await {
+            error!("Failed to forward rust-analyzer stderr: {}", e);
         }
     });
 
-    // Wait for any task to complete (which means something went wrong or EOF)
-    tokio::select! {
-        _ = editor_to_ra => info!("Editor to rust-analyzer task completed"),
-        _ = ra_to_editor => info!("Rust-analyzer to editor task completed"),
-        _ = stderr_forwarder => info!("Stderr forwarder task completed"),
+    // The session lasts as long as rust-analyzer has something to say: it may still answer after the
+    // editor has closed its side (which closes rust-analyzer's stdin) or after closing its own stderr
+    if let Err(e) = ra_to_editor.await {
+        error!("Rust-analyzer to editor task failed: {}", e);
     }
 
     // Clean up
     if let Err(e) = rust_analyzer.kill().await {
         warn!("Failed to kill rust-analyzer: {}", e);
     }
+    let _ = tokio::time::timeout(Duration::from_secs(1), stderr_forwarder).await;
 
     info!("LSP proxy shutting down");
-    Ok(())
+
+    // A pending read from the editor must not keep the proxy alive without rust-analyzer
+    std::process::exit(0)
 }
 
 /// Read a complete LSP message from the reader
-- 
2.43.0


From 4fd7be24ab8663bf65525e4243797428318e9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 37/52] fix: hints were left raw next to another type named
 Quantity

Any `Quantity<` that is not one of ours (another type of that name, or a truncated label) stopped the
search for types that are split into label parts.
---
 lsp-proxy/src/quantity_detection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsp-proxy/src/quantity_detection.rs b/lsp-proxy/src/quantity_detection.rs
index 77f7105..c5acbb2 100644
--- a/lsp-proxy/src/quantity_detection.rs
+++ b/lsp-proxy/src/quantity_detection.rs
@@ -9,8 +9,8 @@ pub fn contains_quantity_types_fast(json_payload: &str) -> bool {
     }
 
     // For initial inlay hints (full type in one chunk), validate the Quantity< pattern
-    if json_payload.contains("Quantity<") {
-        return validate_quantity_format(json_payload);
+    if json_payload.contains("Quantity<") && validate_quantity_format(json_payload) {
+        return true;
     }
 
     // For mouseover/resolved hints (deconstructed type), look for separate Scale and Dimension
-- 
2.43.0


From 53f982305649919793cdf0e98ff6ddbeb50ab6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 38/52] fix: unit literals were looked up with the wrong prefix
 or not found

---
 src/serialization.rs | 137 ++-----------------------------------------
 1 file changed, 4 insertions(+), 133 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index f5de7d3..0b9d4ef 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -41,7 +41,7 @@ use crate::api::aggregate_scale_factor_float;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
-    SiPrefix, Unit, UnitEvaluationResult, UnitExpr, dimension_exponents::DynDimensionExponents,
+    UnitEvaluationResult, UnitExpr, dimension_exponents::DynDimensionExponents,
     scale_exponents::ScaleExponents,
 };
 
@@ -1287,143 +1287,14 @@ pub fn get_quantity_dimensions<
 
 /// Get target unit dimensions for a unit literal using proper core types
 pub fn get_target_unit_dimensions(unit_literal: &str) -> UnitDimensions {
-    // First try to find in unit literals
-    if let Some((dimension, unit)) = lookup_unit_literal_direct(unit_literal) {
-        let (mass, length, time, current, temp, amount, lum, angle) = (
-            dimension.exponents.0[0], // mass
-            dimension.exponents.0[1], // length
-            dimension.exponents.0[2], // time
-            dimension.exponents.0[3], // current
-            dimension.exponents.0[4], // temperature
-            dimension.exponents.0[5], // amount
-            dimension.exponents.0[6], // luminosity
-            dimension.exponents.0[7], // angle
-        );
-        let (p2, p3, p5, pi) = (
-            unit.scale.0[0],
-            unit.scale.0[1],
-            unit.scale.0[2],
-            unit.scale.0[3],
-        );
-        (
-            DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle]),
-            ScaleExponents([p2, p3, p5, pi]),
-        )
-    } else {
-        // Try to parse as a prefixed unit (e.g., "cm", "km", "mm")
-        if let Some((base_symbol, prefix)) = is_prefixed_base_unit_direct(unit_literal) {
-            // Get the base unit dimensions
-            if let Some(base_unit) = whippyunits_core::Unit::BASES
-                .iter()
-                .find(|unit| unit.symbols.contains(&base_symbol.as_str()))
-            {
-                let (mass, length, time, current, temp, amount, lum, angle) = (
-                    base_unit.exponents.0[0], // mass
-                    base_unit.exponents.0[1], // length
-                    base_unit.exponents.0[2], // time
-                    base_unit.exponents.0[3], // current
-                    base_unit.exponents.0[4], // temperature
-                    base_unit.exponents.0[5], // amount
-                    base_unit.exponents.0[6], // luminosity
-                    base_unit.exponents.0[7], // angle
-                );
-                let inherent_scale = 0; // No inherent scale offset in the new system
-
-                // Get the prefix scale factor
-                let prefix_scale = if let Some(prefix_info) = whippyunits_core::SiPrefix::ALL
-                    .iter()
-                    .find(|p| p.symbol() == prefix)
-                {
-                    prefix_info.factor_log10()
-                } else {
-                    0
-                };
-
-                // Calculate the total scale factor
-                let total_scale = inherent_scale + prefix_scale;
-
-                // Convert to p2, p3, p5, pi format
-                // The scale factors represent powers of 10, so we need to factor them properly
-                let (p2, p3, p5, pi) = if total_scale == 0 {
-                    (0, 0, 0, 0)
-                } else {
-                    // For SI prefixes, the scale is a power of 10
-                    // Factor 10^n into 2^n * 5^n since 10 = 2 * 5
-                    (total_scale, 0, total_scale, 0)
-                };
-
-                (
-                    DynDimensionExponents([mass, length, time, current, temp, amount, lum, angle]),
-                    ScaleExponents([p2, p3, p5, pi]),
-                )
-            } else {
-                panic!("Unknown base unit: {}", base_symbol);
-            }
-        } else {
-            // Try the existing logic from whippyunits-core
-            if let Some((dimensions, scales)) = lookup_unit_dimensions(unit_literal) {
-                (dimensions, scales)
-            } else {
-                panic!("Unknown unit literal: {}", unit_literal);
-            }
-        }
+    match parse_ucum_unit(unit_literal) {
+        Ok(dimensions) => dimensions,
+        Err(_) => panic!("Unknown unit literal: {}", unit_literal),
     }
 }
 
 // create_quantity_from_value_and_unit function removed - now using quantity! macro directly
 
-// Helper functions that replace api_helpers functions with direct whippyunits-core calls
-
-/// Look up a unit literal (like "min", "h", "g", "m", "s", etc.) in the dimensions data
-fn lookup_unit_literal_direct(
-    unit_name: &str,
-) -> Option<(&'static whippyunits_core::Dimension, &'static Unit)> {
-    // First try to find by symbol
-    if let Some((unit, dimension)) = whippyunits_core::Dimension::find_unit_by_symbol(unit_name) {
-        return Some((dimension, unit));
-    }
-
-    // Then try to find by name
-    if let Some((unit, dimension)) = whippyunits_core::Dimension::find_unit_by_name(unit_name) {
-        return Some((dimension, unit));
-    }
-
-    None
-}
-
-/// Check if a unit name is a prefixed base unit (like kg, kW, mm, etc.)
-/// Returns Some((base_unit, prefix)) if it is, None otherwise
-fn is_prefixed_base_unit_direct(unit_name: &str) -> Option<(String, String)> {
-    // Try to strip any prefix from the unit name
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(unit_name) {
-        // Check if the base unit exists
-        if whippyunits_core::Dimension::find_unit_by_symbol(base).is_some() {
-            return Some((String::from(base), String::from(prefix.symbol())));
-        }
-    }
-
-    // Also try stripping prefix from name (not just symbol)
-    if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(unit_name) {
-        // Check if the base unit exists by name
-        if whippyunits_core::Dimension::find_unit_by_name(base).is_some() {
-            return Some((String::from(base), String::from(prefix.symbol())));
-        }
-    }
-
-    None
-}
-
-/// Get unit dimensions for a unit literal using proper whippyunits-core types
-fn lookup_unit_dimensions(unit_literal: &str) -> Option<UnitDimensions> {
-    // This is a simplified version that just returns the base dimensions
-    // The full implementation would need to handle prefixes and conversion factors
-    if let Some((_dimension, unit)) = lookup_unit_literal_direct(unit_literal) {
-        Some((unit.exponents, unit.scale))
-    } else {
-        None
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From c86958edf8d4994ffe2a370d3024d663bd2141d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 39/52] fix: looking up a unit by literal took prefixed-looking
 names apart

---
 whippyunits-core/src/dimensions.rs | 65 +++++++++++++-----------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index 7540f16..9802a1d 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -146,50 +146,39 @@ impl Dimension {
         literal: &str,
     ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
         // First try the literal as-is
-        if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal)
-            && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
-        {
-            return Some((unit, dimension, Some(prefix)));
-        }
-
-        if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(literal)
-            && let Some((unit, dimension)) = Self::find_si_unit_by_symbol(base)
-        {
-            return Some((unit, dimension, Some(prefix)));
-        }
-
-        if let Some((unit, dimension)) = Self::find_unit_by_name(literal) {
-            return Some((unit, dimension, None));
-        } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal) {
-            return Some((unit, dimension, None));
+        if let Some(found) = Self::find_by_singular_literal(literal) {
+            return Some(found);
         }
 
         // If not found, try with plural "s" stripped (but only if the result is not empty)
-        if literal.len() > 1 {
-            let literal_singular = literal.trim_end_matches("s");
-            if !literal_singular.is_empty() {
-                if let Some((prefix, base)) = SiPrefix::strip_any_prefix_name(literal_singular)
-                    && let Some((unit, dimension)) = Self::find_si_unit_by_name(base)
-                {
-                    return Some((unit, dimension, Some(prefix)));
-                }
-
-                if let Some((prefix, base)) = SiPrefix::strip_any_prefix_symbol(literal_singular)
-                    && let Some((unit, dimension)) = Self::find_si_unit_by_symbol(base)
-                {
-                    return Some((unit, dimension, Some(prefix)));
-                }
+        literal
+            .strip_suffix('s')
+            .filter(|singular| !singular.is_empty())
+            .and_then(Self::find_by_singular_literal)
+    }
 
-                if let Some((unit, dimension)) = Self::find_unit_by_name(literal_singular) {
-                    return Some((unit, dimension, None));
-                } else if let Some((unit, dimension)) = Self::find_unit_by_symbol(literal_singular)
-                {
-                    return Some((unit, dimension, None));
-                }
-            }
+    fn find_by_singular_literal(
+        literal: &str,
+    ) -> Option<(&'static Unit, &'static Dimension, Option<&'static SiPrefix>)> {
+        // A unit of this very name or symbol takes precedence over a prefixed one ("cd", "min")
+        if let Some((unit, dimension)) =
+            Self::find_unit_by_name(literal).or_else(|| Self::find_unit_by_symbol(literal))
+        {
+            return Some((unit, dimension, None));
         }
 
-        None
+        // A literal may start with more than one prefix symbol ("dam" with "d" and "da")
+        SiPrefix::ALL.iter().find_map(|prefix| {
+            let (unit, dimension) = prefix
+                .strip_prefix_name(literal)
+                .and_then(Self::find_si_unit_by_name)
+                .or_else(|| {
+                    prefix
+                        .strip_prefix_symbol(literal)
+                        .and_then(Self::find_si_unit_by_symbol)
+                })?;
+            Some((unit, dimension, Some(prefix)))
+        })
     }
 }
 
-- 
2.43.0


From 2e8a1fd5b6e824c5db371348b0c11eb48c9b8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 40/52] fix: f32 rescaling took ratios outside the range of f32
 as zero or infinite

---
 src/scale_conversion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 74e89fb..4f16101 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -159,14 +159,15 @@ macro_rules! _define_float_rescale {
         ) -> $($float_rescale_output_type)* {
             let rescale_factor = aggregate_scale_factor_float(
                 $($float_rescale_aggregate_args)*
-            ) as $T;
+            );
             Quantity::<
                 Scale<_2<SCALE_P2_TO>, _3<SCALE_P3_TO>, _5<SCALE_P5_TO>, _Pi<SCALE_PI_TO>>,
                 Dimension<_M<MASS_EXPONENT>, _L<LENGTH_EXPONENT>, _T<TIME_EXPONENT>, _I<CURRENT_EXPONENT>, _Θ<TEMPERATURE_EXPONENT>, _N<AMOUNT_EXPONENT>, _J<LUMINOSITY_EXPONENT>, _A<ANGLE_EXPONENT>>,
                 $T,
                 Brand,
             >::new(
-                quantity.unsafe_value * rescale_factor
+                // Ratios of scales may lie outside the range of f32
+                (quantity.unsafe_value as f64 * rescale_factor) as $T
             )
         }
     };
-- 
2.43.0


From e1904938e319913f223ac61a55273ae2b3e53c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 41/52] fix: report an unparsable unit in
 from_string!/from_json! instead of panicking

---
 proc-macros/src/compute_unit_dimensions_macro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/compute_unit_dimensions_macro.rs b/proc-macros/src/compute_unit_dimensions_macro.rs
index 0e3aa48..4a4c4f5 100644
--- a/proc-macros/src/compute_unit_dimensions_macro.rs
+++ b/proc-macros/src/compute_unit_dimensions_macro.rs
@@ -1,13 +1,13 @@
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::parse;
+use syn::parse_macro_input;
 
 /// Computes unit dimensions for a unit expression.
 ///
 /// Usage: `compute_unit_dimensions!(unit_expr)`
 /// Returns a tuple of 12 i16 values representing the dimensions
 pub fn compute_unit_dimensions(input: TokenStream) -> TokenStream {
-    let unit_expr: whippyunits_core::UnitExpr = parse(input).expect("Expected unit expression");
+    let unit_expr = parse_macro_input!(input as whippyunits_core::UnitExpr);
 
     // Unknown units must not be read as dimensionless
     if let Err(error) = unit_expr.validate() {
-- 
2.43.0


From a354ced5d08ad9a7ae4e232252266873a053484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 42/52] fix: refuse dimension expressions whose exponents
 overflow

---
 .../src/define_generic_dimension_macro.rs     | 41 ++++++++++++++++++-
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index 7df8370..d507261 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -104,6 +104,38 @@ impl DimensionExpr {
         }
     }
 
+    // Exponents that do not fit would overflow while the expression is evaluated
+    fn validate(&self) -> Result<()> {
+        match self.exponent_bound()? {
+            Some(bound) if bound <= i16::MAX as i32 => Ok(()),
+            _ => Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                "exponents of the dimension expression are too large",
+            )),
+        }
+    }
+
+    // Upper bound on the magnitude of any exponent met while evaluating the expression, if it fits
+    fn exponent_bound(&self) -> Result<Option<i32>> {
+        Ok(match self {
+            DimensionExpr::Dimensionless => Some(0),
+            DimensionExpr::Dimension(ident) => Dimension::find_dimension(&ident.to_string())
+                .and_then(|dim| dim.exponents.0.iter().map(|e| (*e as i32).abs()).max())
+                .or(Some(0)),
+            DimensionExpr::Mul(a, b) | DimensionExpr::Div(a, b) => {
+                match (a.exponent_bound()?, b.exponent_bound()?) {
+                    (Some(a), Some(b)) => a.checked_add(b),
+                    _ => None,
+                }
+            }
+            DimensionExpr::Pow(base, exp) => {
+                let exp = exp.base10_parse::<i16>()? as i32;
+                base.exponent_bound()?
+                    .and_then(|bound| bound.checked_mul(exp.abs()))
+            }
+        })
+    }
+
     // Evaluate the expression to get dimension exponents (safe version that doesn't panic)
     fn evaluate_safe(&self) -> (i16, i16, i16, i16, i16, i16, i16, i16) {
         match self {
@@ -185,11 +217,16 @@ pub struct DefineGenericDimensionInput {
 
 impl Parse for DefineGenericDimensionInput {
     fn parse(input: ParseStream) -> Result<Self> {
-        Ok(DefineGenericDimensionInput {
+        let input = DefineGenericDimensionInput {
             trait_name: input.parse()?,
             _comma: input.parse()?,
             dimension_exprs: input.parse_terminated(DimensionExpr::parse, Token![,])?,
-        })
+        };
+        input
+            .dimension_exprs
+            .iter()
+            .try_for_each(DimensionExpr::validate)?;
+        Ok(input)
     }
 }
 
-- 
2.43.0


From 138a712c9a7f3966e68b8a4dc62166e7ca7ac9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 43/52] fix: name what is unknown, and suggest only what would
 be accepted

---
 proc-macros/src/local_unit_type_macro.rs      | 21 +++++--------------
 .../src/utils/dimension_suggestions.rs        |  3 +++
 proc-macros/src/utils/scale_suggestions.rs    |  6 +++---
 3 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 7ba1b21..3f4b8b2 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -167,7 +167,7 @@ impl LocalQuantityMacroInput {
         // Unknown units must not be read as dimensionless
         if let Err(error) = self.unit_expr.validate() {
             return match &self.unit_expr {
-                UnitExpr::Unit(unit) => self.generate_unknown_unit_error(&unit.name.to_string()),
+                UnitExpr::Unit(unit) => self.generate_unknown_unit_error(&unit.name),
                 _ => error.to_compile_error(),
             };
         }
@@ -698,10 +698,10 @@ impl LocalQuantityMacroInput {
     }
 
     /// Generate error for unknown unit with suggestions
-    fn generate_unknown_unit_error(&self, unit_name: &str) -> TokenStream {
+    fn generate_unknown_unit_error(&self, unit_name: &Ident) -> TokenStream {
         use crate::utils::unit_suggestions::find_similar_units;
 
-        let suggestions = find_similar_units(unit_name, 0.7);
+        let suggestions = find_similar_units(&unit_name.to_string(), 0.7);
         let error_message = if suggestions.is_empty() {
             format!("Unknown unit '{}'. No similar units found.", unit_name)
         } else {
@@ -717,19 +717,8 @@ impl LocalQuantityMacroInput {
             )
         };
 
-        // Generate a doc shadow that shows the error
-        let doc_ident_name = format!("Local{}", unit_name.to_uppercase());
-        let doc_ident = syn::Ident::new(&doc_ident_name, proc_macro2::Span::call_site());
-
-        quote! {
-            const _: () = {
-                #[doc = #error_message]
-                #[allow(dead_code, non_camel_case_types)]
-                type #doc_ident = ();
-
-                compile_error!(#error_message);
-            };
-        }
+        // The macro stands in type position, where no items can be declared
+        syn::Error::new(unit_name.span(), error_message).to_compile_error()
     }
 
     /// Get the local target type for a single unit identifier: the default declarator type of the
diff --git a/proc-macros/src/utils/dimension_suggestions.rs b/proc-macros/src/utils/dimension_suggestions.rs
index be5cfd6..cd3e85d 100644
--- a/proc-macros/src/utils/dimension_suggestions.rs
+++ b/proc-macros/src/utils/dimension_suggestions.rs
@@ -49,6 +49,9 @@ fn get_all_available_dimensions() -> Vec<String> {
         dimensions.push(dimension.symbol.to_string());
     }
 
+    // Only identifiers can be written in a dimension expression
+    dimensions.retain(|dimension| syn::parse_str::<syn::Ident>(dimension).is_ok());
+
     // Remove duplicates and sort
     dimensions.sort();
     dimensions.dedup();
diff --git a/proc-macros/src/utils/scale_suggestions.rs b/proc-macros/src/utils/scale_suggestions.rs
index 3e2a2a9..4bce297 100644
--- a/proc-macros/src/utils/scale_suggestions.rs
+++ b/proc-macros/src/utils/scale_suggestions.rs
@@ -40,9 +40,9 @@ fn calculate_similarity(s1: &str, s2: &str) -> f64 {
 fn get_all_available_scales() -> Vec<String> {
     let mut scales = Vec::new();
 
-    // Get base unit names from all dimensions
-    for dimension in Dimension::ALL {
-        for unit in dimension.units {
+    // Get unit names from the base dimensions, nonstorage units being no scales
+    for dimension in Dimension::BASIS {
+        for unit in dimension.units.iter().filter(|unit| unit.conversion_factor == 1.0) {
             // Add the unit name (capitalized for scale identifiers)
             let capitalized_name = whippyunits_core::CapitalizedFmt(unit.name).to_string();
             scales.push(capitalized_name);
-- 
2.43.0


From 1563576f11d67e210c316aef21ebd27974f4d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 44/52] fix: an unresolved scale of a mass was shown as a
 definite power of ten

---
 whippyunits-core/src/storage_unit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index a8656d0..2637a30 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -351,7 +351,10 @@ fn apply_scale(scale_factors: ScaleExponents, base_unit: &str, long_name: bool)
         .unwrap_or(ScaleExponents::IDENTITY);
     let mut relative = scale_factors;
     for (exponent, base) in relative.0.iter_mut().zip(base_scale.0) {
-        *exponent = exponent.saturating_sub(base);
+        // An unresolved exponent stays unresolved
+        if *exponent != i16::MIN {
+            *exponent = exponent.saturating_sub(base);
+        }
     }
 
     match relative.log10() {
-- 
2.43.0


From 96cdc34b2b87b955fb7ed10ff487cdb11204fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 45/52] fix: a raw identifier in a dimension expression made
 the macro panic

---
 proc-macros/src/define_generic_dimension_macro.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index d507261..6593d8d 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::punctuated::Punctuated;
 use syn::token::{Caret, Comma, Dot, Slash, Star};
@@ -79,7 +80,8 @@ impl DimensionExpr {
                 ));
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // `r#L2` is the same identifier as `L2`
+            let ident: Ident = input.parse::<Ident>()?.unraw();
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From b92487292834b1f75d1b06fac8705a9cf6fd8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 46/52] fix: from_json! and from_string! need nothing in scope
 but whippyunits

Their expansions named whippyunits_core and whippyunits_proc_macros, which a crate that depends on
whippyunits alone cannot resolve, and relied on Result, Ok and Err being the prelude's.
---
 src/serialization.rs | 154 ++++++++++---------------------------------
 1 file changed, 36 insertions(+), 118 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index 0b9d4ef..8bab474 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -788,70 +788,30 @@ pub fn calculate_conversion_factor(from_dims: &UnitDimensions, to_dims: &UnitDim
 macro_rules! from_json {
     ($json:expr, $unit:expr) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
-                // Use deserialize_core_quantity to handle dimension checking and rescaling
-                // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
-                        $crate::serialization::SerializationError,
-                    >
+            ::core::result::Result::Ok((value, unit_str)) => {
+                // The target type fixes the dimension and scale; deserialize_core_quantity checks
+                // the former and rescales to the latter
+                let deserialized: ::core::result::Result<
+                    $crate::unit!($unit, f64),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                deserialized
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($json:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_json_input($json) {
-            Ok((value, unit_str)) => {
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
-                        $crate::serialization::SerializationError,
-                    >
+            ::core::result::Result::Ok((value, unit_str)) => {
+                // The target type fixes the dimension and scale; deserialize_core_quantity checks
+                // the former and rescales to the latter
+                let deserialized: ::core::result::Result<
+                    $crate::unit!($unit, $storage_type),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                deserialized
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
@@ -920,72 +880,30 @@ macro_rules! from_json {
 macro_rules! from_string {
     ($string:expr, $unit:expr) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
-                // Use deserialize_core_quantity to handle dimension checking and rescaling
-                // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    f64,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, f64),
-                        $crate::serialization::SerializationError,
-                    >
+            ::core::result::Result::Ok((value, unit_str)) => {
+                // The target type fixes the dimension and scale; deserialize_core_quantity checks
+                // the former and rescales to the latter
+                let deserialized: ::core::result::Result<
+                    $crate::unit!($unit, f64),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                deserialized
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
     ($string:expr, $unit:expr, $storage_type:ty) => {{
         match $crate::serialization::parse_string_input($string) {
-            Ok((value, unit_str)) => {
-                // Use deserialize_core_quantity to handle dimension checking and rescaling
-                // Returns Quantity directly - no need for quantity! macro
-                const UNIT_INFO: (
-                    whippyunits_core::dimension_exponents::DynDimensionExponents,
-                    whippyunits_core::scale_exponents::ScaleExponents,
-                ) = whippyunits_proc_macros::compute_unit_dimensions!($unit);
-                const DIMENSIONS: whippyunits_core::dimension_exponents::DynDimensionExponents =
-                    UNIT_INFO.0;
-                const SCALES: whippyunits_core::scale_exponents::ScaleExponents = UNIT_INFO.1;
-                $crate::serialization::deserialize_core_quantity::<
-                    { DIMENSIONS.0[0] },
-                    { DIMENSIONS.0[1] },
-                    { DIMENSIONS.0[2] },
-                    { DIMENSIONS.0[3] },
-                    { DIMENSIONS.0[4] },
-                    { DIMENSIONS.0[5] },
-                    { DIMENSIONS.0[6] },
-                    { DIMENSIONS.0[7] },
-                    { SCALES.0[0] },
-                    { SCALES.0[1] },
-                    { SCALES.0[2] },
-                    { SCALES.0[3] },
-                    $storage_type,
-                >(value, &unit_str)
-                    as Result<
-                        whippyunits::unit!($unit, $storage_type),
-                        $crate::serialization::SerializationError,
-                    >
+            ::core::result::Result::Ok((value, unit_str)) => {
+                // The target type fixes the dimension and scale; deserialize_core_quantity checks
+                // the former and rescales to the latter
+                let deserialized: ::core::result::Result<
+                    $crate::unit!($unit, $storage_type),
+                    $crate::serialization::SerializationError,
+                > = $crate::serialization::deserialize_core_quantity(value, &unit_str);
+                deserialized
             }
-            Err(e) => Err(e),
+            ::core::result::Result::Err(e) => ::core::result::Result::Err(e),
         }
     }};
 }
-- 
2.43.0


From 10440875acc56ee3e30d02d9ed114a7a87d0d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 47/52] fix: rescale! does not hide the caller's TargetQuantity
 from its argument

---
 src/rescale_macro.rs | 45 +++++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/rescale_macro.rs b/src/rescale_macro.rs
index 17a3701..e36d252 100644
--- a/src/rescale_macro.rs
+++ b/src/rescale_macro.rs
@@ -48,92 +48,77 @@
 macro_rules! rescale {
     // f64 (default) - two arguments
     ($quantity:expr, $unit:expr) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f64 (explicit) - three arguments with f64
     ($quantity:expr, $unit:expr, f64) => {{
-        type TargetQuantity = $crate::unit!($unit, f64);
-        let result: TargetQuantity = $crate::api::rescale($quantity);
+        let result: $crate::unit!($unit, f64) = $crate::api::rescale($quantity);
         result as $crate::unit!($unit, f64)
     }};
     // f32
     ($quantity:expr, $unit:expr, f32) => {{
-        type TargetQuantity = $crate::unit!($unit, f32);
-        let result: TargetQuantity = $crate::api::rescale_f32($quantity);
+        let result: $crate::unit!($unit, f32) = $crate::api::rescale_f32($quantity);
         result as $crate::unit!($unit, f32)
     }};
     // i8
     ($quantity:expr, $unit:expr, i8) => {{
-        type TargetQuantity = $crate::unit!($unit, i8);
-        let result: TargetQuantity = $crate::api::rescale_i8($quantity);
+        let result: $crate::unit!($unit, i8) = $crate::api::rescale_i8($quantity);
         result as $crate::unit!($unit, i8)
     }};
     // i16
     ($quantity:expr, $unit:expr, i16) => {{
-        type TargetQuantity = $crate::unit!($unit, i16);
-        let result: TargetQuantity = $crate::api::rescale_i16($quantity);
+        let result: $crate::unit!($unit, i16) = $crate::api::rescale_i16($quantity);
         result as $crate::unit!($unit, i16)
     }};
     // i32
     ($quantity:expr, $unit:expr, i32) => {{
-        type TargetQuantity = $crate::unit!($unit, i32);
-        let result: TargetQuantity = $crate::api::rescale_i32($quantity);
+        let result: $crate::unit!($unit, i32) = $crate::api::rescale_i32($quantity);
         result as $crate::unit!($unit, i32)
     }};
     // i64
     ($quantity:expr, $unit:expr, i64) => {{
-        type TargetQuantity = $crate::unit!($unit, i64);
-        let result: TargetQuantity = $crate::api::rescale_i64($quantity);
+        let result: $crate::unit!($unit, i64) = $crate::api::rescale_i64($quantity);
         result as $crate::unit!($unit, i64)
     }};
     // i128
     ($quantity:expr, $unit:expr, i128) => {{
-        type TargetQuantity = $crate::unit!($unit, i128);
-        let result: TargetQuantity = $crate::api::rescale_i128($quantity);
+        let result: $crate::unit!($unit, i128) = $crate::api::rescale_i128($quantity);
         result as $crate::unit!($unit, i128)
     }};
     // u8
     ($quantity:expr, $unit:expr, u8) => {{
-        type TargetQuantity = $crate::unit!($unit, u8);
-        let result: TargetQuantity = $crate::api::rescale_u8($quantity);
+        let result: $crate::unit!($unit, u8) = $crate::api::rescale_u8($quantity);
         result as $crate::unit!($unit, u8)
     }};
     // u16
     ($quantity:expr, $unit:expr, u16) => {{
-        type TargetQuantity = $crate::unit!($unit, u16);
-        let result: TargetQuantity = $crate::api::rescale_u16($quantity);
+        let result: $crate::unit!($unit, u16) = $crate::api::rescale_u16($quantity);
         result as $crate::unit!($unit, u16)
     }};
     // u32
     ($quantity:expr, $unit:expr, u32) => {{
-        type TargetQuantity = $crate::unit!($unit, u32);
-        let result: TargetQuantity = $crate::api::rescale_u32($quantity);
+        let result: $crate::unit!($unit, u32) = $crate::api::rescale_u32($quantity);
         result as $crate::unit!($unit, u32)
     }};
     // u64
     ($quantity:expr, $unit:expr, u64) => {{
-        type TargetQuantity = $crate::unit!($unit, u64);
-        let result: TargetQuantity = $crate::api::rescale_u64($quantity);
+        let result: $crate::unit!($unit, u64) = $crate::api::rescale_u64($quantity);
         result as $crate::unit!($unit, u64)
     }};
     // u128
     ($quantity:expr, $unit:expr, u128) => {{
-        type TargetQuantity = $crate::unit!($unit, u128);
-        let result: TargetQuantity = $crate::api::rescale_u128($quantity);
+        let result: $crate::unit!($unit, u128) = $crate::api::rescale_u128($quantity);
         result as $crate::unit!($unit, u128)
     }};
     // isize
     ($quantity:expr, $unit:expr, isize) => {{
-        type TargetQuantity = $crate::unit!($unit, isize);
-        let result: TargetQuantity = $crate::api::rescale_isize($quantity);
+        let result: $crate::unit!($unit, isize) = $crate::api::rescale_isize($quantity);
         result as $crate::unit!($unit, isize)
     }};
     // usize
     ($quantity:expr, $unit:expr, usize) => {{
-        type TargetQuantity = $crate::unit!($unit, usize);
-        let result: TargetQuantity = $crate::api::rescale_usize($quantity);
+        let result: $crate::unit!($unit, usize) = $crate::api::rescale_usize($quantity);
         result as $crate::unit!($unit, usize)
     }};
 }
-- 
2.43.0


From d2bf14a400fa3a3545a1e9fe814986cd47d2b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 48/52] fix: quantity! evaluates its arguments outside the
 scope of its own imports

Its expansion imported Scale, Dimension, Quantity, ... or a declarator trait around the caller's
value, storage type and brand, so a caller's items of the same names were replaced by the library's.
---
 proc-macros/src/quantity_macro.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index c77d65b..689072a 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -136,9 +136,12 @@ impl QuantityMacroInput {
         // The trait methods are called directly on the value type
         // The trait is generic, but the impls are for specific types (f64, i32)
         quote! {
-            {
-                use whippyunits::default_declarators::#trait_ident;
-                (#value_expr).#method_ident()
+            // The caller's expression stays outside the scope of the trait import
+            match (#value_expr) {
+                declared_value => {
+                    use whippyunits::default_declarators::#trait_ident;
+                    declared_value.#method_ident()
+                }
             }
         }
     }
@@ -180,6 +183,17 @@ impl QuantityMacroInput {
             .map(|t| quote! { #t })
             .unwrap_or_else(|| quote! { () });
 
+        // Spelled out in full: the value, storage type and brand are the caller's, and must not see
+        // names that the expansion brings into scope
+        let quantity_type = quote! {
+            whippyunits::quantity::Quantity::<
+                whippyunits::quantity::Scale<whippyunits::quantity::_2<#p2>, whippyunits::quantity::_3<#p3>, whippyunits::quantity::_5<#p5>, whippyunits::quantity::_Pi<#pi>>,
+                whippyunits::quantity::Dimension<whippyunits::quantity::_M<#mass_exp>, whippyunits::quantity::_L<#length_exp>, whippyunits::quantity::_T<#time_exp>, whippyunits::quantity::_I<#current_exp>, whippyunits::quantity::_Θ<#temp_exp>, whippyunits::quantity::_N<#amount_exp>, whippyunits::quantity::_J<#lum_exp>, whippyunits::quantity::_A<#angle_exp>>,
+                #storage_type_ty,
+                #brand_type_ty
+            >
+        };
+
         let value_expr = &self.value;
         let has_nonstorage = conversion_factor != 1.0 || affine_offset != 0.0;
 
@@ -190,18 +204,16 @@ impl QuantityMacroInput {
 
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
                     let raw_value: #storage_type_ty = #value_expr;
                     let converted_value = (raw_value as f64) * #cf + #af;
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(converted_value as #storage_type_ty)
+                    #quantity_type::new(converted_value as #storage_type_ty)
                 }
             }
         } else {
             // Pure storage unit - no conversion needed
             quote! {
                 {
-                    use whippyunits::quantity::{Quantity, Scale, Dimension, _2, _3, _5, _Pi, _M, _L, _T, _I, _Θ, _N, _J, _A};
-                    Quantity::<Scale<_2<#p2>, _3<#p3>, _5<#p5>, _Pi<#pi>>, Dimension<_M<#mass_exp>, _L<#length_exp>, _T<#time_exp>, _I<#current_exp>, _Θ<#temp_exp>, _N<#amount_exp>, _J<#lum_exp>, _A<#angle_exp>>, #storage_type_ty, #brand_type_ty>::new(#value_expr)
+                    #quantity_type::new(#value_expr)
                 }
             }
         }
-- 
2.43.0


From f1324ddf2961d6123203d0f04255327f337e9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 49/52] fix: find_by_literal finds prefixed derived units

find_si_unit_by_name and find_si_unit_by_symbol kept only units one of whose
exponents is 1, so Dimension::find_by_literal knew kN but neither kHz nor mL.
Every metric unit without a conversion factor takes a prefix.
---
 whippyunits-core/src/dimensions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index 9802a1d..1581552 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -2,7 +2,7 @@ use crate::dimension_exponents::{
     DimensionExponents, DynDimensionExponents, TypeDimensionExponents,
 };
 use crate::prefix::SiPrefix;
-use crate::units::Unit;
+use crate::units::{System, Unit};
 
 /// A dimension and its associated units.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -66,7 +66,7 @@ impl Dimension {
                 .iter()
                 .find(|unit| {
                     unit.name == name
-                        && unit.exponents.as_basis().is_some()
+                        && unit.system == System::Metric
                         && !unit.has_conversion()
                 })
                 .map(|unit| (unit, dimension))
@@ -81,7 +81,7 @@ impl Dimension {
                 .iter()
                 .find(|unit| {
                     unit.symbols.contains(&symbol)
-                        && unit.exponents.as_basis().is_some()
+                        && unit.system == System::Metric
                         && !unit.has_conversion()
                 })
                 .map(|unit| (unit, dimension))
-- 
2.43.0


From a85b81296dace049a58dc1bb867fcc5fea26a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 50/52] fix: as_basis answers a basis only for the exponents of
 one

A vector that merely contains a 1, such as that of force, was taken for the
basis of that axis, and Dimension::si_base_units listed newtons and joules.
---
 whippyunits-core/src/dimension_exponents.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..5a50109 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -90,18 +90,11 @@ pub trait DimensionExponents: exponents_seal::Sealed + 'static {
     ///
     /// This returns `None` for negative basis.
     fn as_basis(&self) -> Option<DimensionBasis> {
-        match self.value().0.iter().position(|&x| x == 1) {
-            Some(0) => Some(DimensionBasis::Mass),
-            Some(1) => Some(DimensionBasis::Length),
-            Some(2) => Some(DimensionBasis::Time),
-            Some(3) => Some(DimensionBasis::Current),
-            Some(4) => Some(DimensionBasis::Temperature),
-            Some(5) => Some(DimensionBasis::Amount),
-            Some(6) => Some(DimensionBasis::Luminosity),
-            Some(7) => Some(DimensionBasis::Angle),
-            Some(_) => unreachable!(),
-            None => None,
-        }
+        let value = self.value();
+
+        DimensionBasis::ALL
+            .into_iter()
+            .find(|basis| basis.exponents() == value)
     }
 }
 
-- 
2.43.0


From 5be576b7ce17cbda94eb0b2b0ad99c1270dd7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 51/52] fix: type-level dimension exponents subtract

The bounds of both operators were those of addition, so the type of
Length - Time was that of Length + Time.
---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index 5a50109..b4e9814 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -442,14 +442,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0


From d5473442653c66559e1b0bcde56e907f68b34380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 52/52] fix: literals of a local scale can be used in any
 module

---
 .../src/define_unit_declarators_macro.rs      | 10 +++++
 .../src/generate_literals_module_macro.rs     |  1 +
 .../src/generate_local_unit_literals_macro.rs |  1 +
 proc-macros/src/utils/culit.rs                |  1 +
 proc-macros/src/utils/literal_macros.rs       | 37 ++++++++++++++-----
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/proc-macros/src/define_unit_declarators_macro.rs b/proc-macros/src/define_unit_declarators_macro.rs
index e722edd..f163252 100644
--- a/proc-macros/src/define_unit_declarators_macro.rs
+++ b/proc-macros/src/define_unit_declarators_macro.rs
@@ -259,6 +259,13 @@ impl DefineBaseUnitsInput {
             &luminosity_scale,
             &angle_scale,
             &namespace,
+            &|unit, storage_type| {
+                let rescale = quote::format_ident!("rescale_{}", storage_type.to_string());
+                quote! {
+                    let declared_quantity = whippyunits::quantity!($value as #storage_type, #unit, #storage_type, #brand_type);
+                    whippyunits::api::#rescale(declared_quantity) as whippyunits::local_unit!(#unit, #mass_scale, #length_scale, #time_scale, #current_scale, #temperature_scale, #amount_scale, #luminosity_scale, #angle_scale, #storage_type, #brand_type)
+                }
+            },
         );
 
         // Create the prefixed macro name identifier
@@ -644,6 +651,7 @@ impl DefineBaseUnitsInput {
         luminosity_scale: &Ident,
         angle_scale: &Ident,
         namespace: &Ident,
+        declaration: &dyn Fn(&Ident, &Ident) -> TokenStream,
     ) -> TokenStream {
         // Use the actual scale parameters to generate the literals module
         let scale_params = (
@@ -662,6 +670,7 @@ impl DefineBaseUnitsInput {
             Some(scale_params),
             true,
             namespace.clone(),
+            Some(declaration),
         )
     }
 
@@ -879,6 +888,7 @@ impl DefineBaseUnitsInput {
             &syn::Ident::new("Candela", proc_macro2::Span::call_site()),
             &syn::Ident::new("Radian", proc_macro2::Span::call_site()),
             &namespace,
+            &|unit, storage_type| quote! { whippyunits::quantity!($value as #storage_type, #unit, #storage_type, #brand_type) },
         );
 
         // Create prefixed macro name
diff --git a/proc-macros/src/generate_literals_module_macro.rs b/proc-macros/src/generate_literals_module_macro.rs
index 894a299..f6e3831 100644
--- a/proc-macros/src/generate_literals_module_macro.rs
+++ b/proc-macros/src/generate_literals_module_macro.rs
@@ -9,6 +9,7 @@ pub fn generate_literals_module(_input: TokenStream) -> TokenStream {
         None,
         false,
         syn::Ident::new("default_declarators", proc_macro2::Span::mixed_site()),
+        None,
     );
     literals_module.into()
 }
diff --git a/proc-macros/src/generate_local_unit_literals_macro.rs b/proc-macros/src/generate_local_unit_literals_macro.rs
index 3e2f2f8..93c1d4d 100644
--- a/proc-macros/src/generate_local_unit_literals_macro.rs
+++ b/proc-macros/src/generate_local_unit_literals_macro.rs
@@ -66,6 +66,7 @@ impl LocalUnitLiteralsInput {
             Some(scale_params),
             false,
             syn::Ident::new("local_unit_literals", proc_macro2::Span::mixed_site()),
+            None,
         )
         .into()
     }
diff --git a/proc-macros/src/utils/culit.rs b/proc-macros/src/utils/culit.rs
index 63085fb..a302ada 100644
--- a/proc-macros/src/utils/culit.rs
+++ b/proc-macros/src/utils/culit.rs
@@ -81,6 +81,7 @@ pub fn generate_custom_literal_module_with_name(module_name: &str) -> proc_macro
         None,
         false,
         syn::Ident::new(module_name, proc_macro2::Span::mixed_site()),
+        None,
     )
     .into()
 }
diff --git a/proc-macros/src/utils/literal_macros.rs b/proc-macros/src/utils/literal_macros.rs
index ec79f0e..5bb9554 100644
--- a/proc-macros/src/utils/literal_macros.rs
+++ b/proc-macros/src/utils/literal_macros.rs
@@ -93,12 +93,15 @@ pub fn get_all_unit_symbols_for_literals() -> Vec<String> {
 /// - `scale_params`: Optional scale parameters for lift trace (only used if is_local_mode is true)
 /// - `for_namespace`: If true, generates just the float/integer submodules without outer wrapper
 /// - `namespace_ident`: Optional namespace identifier for disambiguating local macros
+/// - `declaration`: What a literal of the given unit and storage type stands for, written so that it can be
+///   used in any module; if None, an invocation of the quantity! macro of the mode
 pub fn generate_literal_macros_module(
     module_name: &str,
     is_local_mode: bool,
     scale_params: Option<(Ident, Ident, Ident, Ident, Ident, Ident, Ident, Ident)>,
     for_namespace: bool,
     namespace_ident: Ident,
+    declaration: Option<&dyn Fn(&Ident, &Ident) -> TokenStream2>,
 ) -> TokenStream2 {
     // Get all unit symbols using the shared function
     let unit_symbols = get_all_unit_symbols_for_literals();
@@ -115,6 +118,13 @@ pub fn generate_literal_macros_module(
         // Default mode: always use whippyunits::quantity!
         quote! { whippyunits::quantity! }
     };
+    let declare = |unit: &Ident, storage_type: &str| {
+        let storage_type = Ident::new(storage_type, proc_macro2::Span::call_site());
+        match declaration {
+            Some(declaration) => declaration(unit, &storage_type),
+            None => quote! { #quantity_path($value as #storage_type, #unit, #storage_type) },
+        }
+    };
 
     let mut float_macros = Vec::new();
     let mut integer_macros = Vec::new();
@@ -268,6 +278,13 @@ pub fn generate_literal_macros_module(
             proc_macro2::Span::mixed_site(),
         );
 
+        let declare_f64 = declare(&unit_ident, "f64");
+        let declare_f32 = declare(&unit_ident, "f32");
+        let declare_i32 = declare(&unit_ident, "i32");
+        let declare_i64 = declare(&unit_ident, "i64");
+        let declare_u32 = declare(&unit_ident, "u32");
+        let declare_u64 = declare(&unit_ident, "u64");
+
         // Generate typed float macros
         float_macros.push(quote! {
             #[doc = #doc_string_f64]
@@ -275,7 +292,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_f64 {
                 ($value:literal) => {{
-                    #quantity_path($value as f64, #unit_ident, f64)
+                    #declare_f64
                 }};
             }
             pub use #inner_f64 as #unit_f64;
@@ -285,7 +302,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_f32 {
                 ($value:literal) => {{
-                    #quantity_path($value as f32, #unit_ident, f32)
+                    #declare_f32
                 }};
             }
             pub use #inner_f32 as #unit_f32;
@@ -298,7 +315,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_i32 {
                 ($value:literal) => {{
-                    #quantity_path($value as i32, #unit_ident, i32)
+                    #declare_i32
                 }};
             }
             pub use #inner_i32 as #unit_i32;
@@ -308,7 +325,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_i64 {
                 ($value:literal) => {{
-                    #quantity_path($value as i64, #unit_ident, i64)
+                    #declare_i64
                 }};
             }
             pub use #inner_i64 as #unit_i64;
@@ -318,7 +335,7 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_u32 {
                 ($value:literal) => {{
-                    #quantity_path($value as u32, #unit_ident, u32)
+                    #declare_u32
                 }};
             }
             pub use #inner_u32 as #unit_u32;
@@ -328,33 +345,33 @@ pub fn generate_literal_macros_module(
             #[doc(hidden)]
             macro_rules! #inner_u64 {
                 ($value:literal) => {{
-                    #quantity_path($value as u64, #unit_ident, u64)
+                    #declare_u64
                 }};
             }
             pub use #inner_u64 as #unit_u64;
         });
 
-        // Create shortname macro for float module using #quantity_path macro directly
+        // Create shortname macro for float module
         float_macros.push(quote! {
             #[doc = #base_doc_string]
             #[macro_export]
             #[doc(hidden)]
             macro_rules! #inner_short_float {
                 ($value:literal) => {{
-                    #quantity_path($value as f64, #unit_ident, f64)
+                    #declare_f64
                 }};
             }
             pub use #inner_short_float as #unit_ident;
         });
 
-        // Create shortname macro for int module using #quantity_path macro directly
+        // Create shortname macro for int module
         integer_macros.push(quote! {
             #[doc = #doc_string_i32]
             #[macro_export]
             #[doc(hidden)]
             macro_rules! #inner_short_int {
                 ($value:literal) => {{
-                    #quantity_path($value as i32, #unit_ident, i32)
+                    #declare_i32
                 }};
             }
             pub use #inner_short_int as #unit_ident;
-- 
2.43.0

