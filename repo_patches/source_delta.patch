From 28ce3c1e654eeffeabc0587f92f40582a5bf354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/11] fix: linspace with one or zero elements

One element gave [NaN] (0 * (stop - start) / 0) and zero elements
underflowed n_elements - 1.
---
 dess/src/traits_and_macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..6bf2a2b 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,6 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
+        // there is no spacing between fewer than two points
+        if n_elements < 2 {
+            return vec![start; n_elements];
+        }
         let n_steps = n_elements - 1;
         let step_size = (stop - start) / n_steps as f64;
         let v_norm: Vec<f64> = (0..=n_steps)
-- 
2.43.0


From 7bb8878dd5341b7cef4507da45aaec25e8f59318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/11] fix: accept the memo argument in __deepcopy__

copy.deepcopy(obj) calls obj.__deepcopy__(memo), so it raised TypeError
for every exposed class.
---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..25ab33d 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: Option<&PyDict>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From 56eb9bbe7dec2d169468a379fba5b261c4a8d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 03/11] fix: raise a Python exception for a malformed
 solver_type string

The constructors of System3TM and System3TMWithBC unwrapped the parse
result, so bad input surfaced as PanicException (a BaseException).
---
 dess-examples/src/three_thermal_mass_sys.rs    | 8 ++++----
 dess-examples/src/three_thrml_mass_w_bc_sys.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dess-examples/src/three_thermal_mass_sys.rs b/dess-examples/src/three_thermal_mass_sys.rs
index fdbd5e2..43a0e46 100644
--- a/dess-examples/src/three_thermal_mass_sys.rs
+++ b/dess-examples/src/three_thermal_mass_sys.rs
@@ -12,9 +12,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self { 
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(), 
+    ) -> PyResult<Self> { 
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?, 
             m1, 
             m2, 
             h12, 
@@ -23,7 +23,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
diff --git a/dess-examples/src/three_thrml_mass_w_bc_sys.rs b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
index 72e720b..007501a 100644
--- a/dess-examples/src/three_thrml_mass_w_bc_sys.rs
+++ b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
@@ -13,9 +13,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self {
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(),
+    ) -> PyResult<Self> {
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?,
             m1,
             m2,
             h12,
@@ -24,7 +24,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
-- 
2.43.0


From 2b68176b459fe33c1be4781d8279970f9e4c422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 04/11] fix: reject forbidden function names when extra
 functions are allowed

pyo3_api passes forbidden names with expected_exclusive = false, and the
check was skipped entirely in that mode.
---
 dess/dess-proc-macros/src/utilities.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index c2c9862..e515b5e 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -70,9 +70,8 @@ pub fn parse_ts_as_fn_defs(
                 let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
-                if expected_exclusive
-                    && (forbidden_fn_names.contains(sig_str)
-                        || !expected_fn_names.contains(sig_str))
+                if forbidden_fn_names.contains(sig_str)
+                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                 {
                     emit_error!(
                         &item_meth.sig.ident.span(),
-- 
2.43.0


From 0e770284eaa4316f0a9a6a4206d767e658ab732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 05/11] fix: register the documented walk helper attribute of
 pyo3_api

#[walk] on a struct failed to compile with 'cannot find attribute'.
---
 dess/dess-proc-macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/lib.rs b/dess/dess-proc-macros/src/lib.rs
index 121c21c..f41a85e 100644
--- a/dess/dess-proc-macros/src/lib.rs
+++ b/dess/dess-proc-macros/src/lib.rs
@@ -51,7 +51,7 @@ pub fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 /// Dummy derive macro for registering [pyo3_api] attributes.  
 /// This may not be the cleanest way to do this.
 #[proc_macro_error]
-#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get))]
+#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get, walk))]
 pub fn pyo3_api_cleanup(_item: TokenStream) -> TokenStream {
     TokenStream::new()
 }
-- 
2.43.0


From 9bc5d99d3348f8e226a45b48a017af182ea30fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 06/11] fix: keep the adapted dt finite when the error estimate
 is zero

A zero error (e.g. a system at equilibrium) made the next dt infinite or
NaN. That value is part of the system's state, and the JSON written for
it (null) could not be read back.
---
 dess/src/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..62e0db0 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; `dt_coeff` is not finite if the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +657,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; `dt_coeff` is not finite if the error is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From c71489c4e9a7ca4ba1369a9baadf8a5aabcfedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 07/11] fix: retry a rejected step with zero increment at a
 quarter of dt

With zero atol the retried (or next) step size became exactly zero.
---
 dess/src/solver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 62e0db0..ffd3a06 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -388,8 +388,9 @@ pub trait SolverVariantMethods: SolverBase {
                 //if no rtol exists, just consideres atol
                 None => {
                     match sc_mut.state.norm_err {
-                        Some(norm_err) => (sc_mut.atol / norm_err)
-                            .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
+                        // `atol / norm_err` is zero for zero `atol`, so it cannot be used to decrease `dt`
+                        Some(norm_err) if norm_err > sc_mut.atol => 0.25,
+                        Some(norm_err) => (sc_mut.atol / norm_err).powf(0.2),
                         None => 1., // don't adapt if there is not enough information to do so (if neither atol or rtol exist)
                     }
                 }
@@ -636,8 +637,9 @@ pub trait SolverVariantMethods: SolverBase {
                 //if rtol doesn't exist just use atol
                 None => {
                     match sc_mut.state.norm_err {
-                        Some(norm_err) => (sc_mut.atol / norm_err)
-                            .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
+                        // `atol / norm_err` is zero for zero `atol`, so it cannot be used to decrease `dt`
+                        Some(norm_err) if norm_err > sc_mut.atol => 0.25,
+                        Some(norm_err) => (sc_mut.atol / norm_err).powf(0.2),
                         None => 1., // don't adapt if there is not enough information to do so
                     }
                 }
-- 
2.43.0


From ef14de6cb86751f65cee31875a68a3bb7aa22022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 08/11] fix: shrink the step when an attempt is rejected with
 error equal to atol

Such an attempt is not accepted (the error must be less than atol), but
the adaptation treated atol as met and retried the identical step until
the attempts ran out.
---
 dess/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ffd3a06..5f643b6 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -366,7 +366,7 @@ pub trait SolverVariantMethods: SolverBase {
                     Some(norm_err) => {
                         if norm_err_rel <= sc_mut.rtol {
                             (sc_mut.rtol / norm_err_rel).powf(0.2)
-                        } else if norm_err <= sc_mut.atol {
+                        } else if norm_err < sc_mut.atol {
                             (sc_mut.atol / norm_err).powf(0.2)
                         } else {
                             0.25
@@ -621,7 +621,7 @@ pub trait SolverVariantMethods: SolverBase {
                     //prioritizes rtol -- if both atol and rtol are met, rtol is used
                     if norm_err_rel <= sc_mut.rtol {
                         (sc_mut.rtol / norm_err_rel).powf(0.2)
-                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
+                    } else if sc_mut.state.norm_err.unwrap() < sc_mut.atol {
                         (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                     } else {
                         0.25
-- 
2.43.0


From 6320f80775b56e1c29f03543e5d09c596ecb5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 09/11] fix: name getters of raw-identifier fields without r#

---
 dess/dess-proc-macros/src/pyo3_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index 25ab33d..5979204 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -40,13 +40,13 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 
         // Conditionally add setter function
         if !field.attrs.iter().any(|a| a.path.is_ident("skip_get")) {
-            let fn_get_fname: TokenStream2 =
-                format!("fn get_{}(&mut self)", &fname).parse().unwrap();
+            // `format_ident` drops the `r#` of raw identifiers
+            let get_fname = quote::format_ident!("get_{}", fname);
             let field_type = &field.ty;
             let fn_body: TokenStream2 = format!("self.{}.clone()", &fname).parse().unwrap();
             let new_fn = quote! {
                 #[getter]
-                #fn_get_fname -> #field_type {
+                fn #get_fname(&mut self) -> #field_type {
                     #fn_body
                 }
             };
-- 
2.43.0


From fc34564a26aa1404e62468e084027a3f0188feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 10/11] fix: let print_to_py print arbitrary text, keys and
 values

---
 dess/src/traits_and_macros.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 6bf2a2b..c6b0c44 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -57,9 +57,10 @@ macro_rules! print_to_py {
         pyo3::Python::with_gil(|py| {
             let locals = pyo3::types::PyDict::new(py);
             $(
-                locals.set_item($x, $y).unwrap();
+                locals.set_item("key", format!("{}", $x)).unwrap();
+                locals.set_item("value", $y).unwrap();
                 py.run(
-                    &format!("print(f\"{}: {{{}:.3g}}\")", $x, $x),
+                    "print(f'{key}: {value:.3g}' if isinstance(value, (int, float)) else f'{key}: {value}')",
                     None,
                     Some(locals),
                 )
@@ -70,10 +71,12 @@ macro_rules! print_to_py {
     ( $x:expr ) => {
         // use pyo3::py_run;
         pyo3::Python::with_gil(|py| {
+                let locals = pyo3::types::PyDict::new(py);
+                locals.set_item("value", format!("{}", $x)).unwrap();
                 py.run(
-                    &format!("print({})", $x),
-                    None,
+                    "print(value)",
                     None,
+                    Some(locals),
                 )
                 .expect(&format!("printing `{}` failed", $x));
         });
-- 
2.43.0


From 7d6f338e6cad0f39e41710a1f1be9734cc321bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 11/11] fix: do not record stale solver states once state
 saving is turned off

---
 dess/src/solver.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 5f643b6..ac3ef72 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -268,7 +268,7 @@ pub trait SolverVariantMethods: SolverBase {
             // reborrow because of the borrow above in `self.rk23_bogacki_shampine_step(dt);`
             let sc = self.sc().unwrap();
             // grab states for later use if solver steps are to be saved
-            let states = if sc.save {
+            let states = if sc.save && sc.save_states {
                 self.states()
                     .clone()
                     .iter()
@@ -337,9 +337,7 @@ pub trait SolverVariantMethods: SolverBase {
 
             sc_mut.state.t_curr = t_curr;
 
-            if sc_mut.save_states {
-                sc_mut.state.states = states;
-            }
+            sc_mut.state.states = states;
 
             // conditions for breaking loop
             // if there is a relative error, use that
@@ -525,7 +523,7 @@ pub trait SolverVariantMethods: SolverBase {
             // reborrow because of the borrow above in `self.rk45_cash_karp_step(dt);`
             let sc = self.sc().unwrap();
             // grab states for later use if solver steps are to be saved
-            let states = if sc.save {
+            let states = if sc.save && sc.save_states {
                 self.states()
                     .clone()
                     .iter()
@@ -594,9 +592,7 @@ pub trait SolverVariantMethods: SolverBase {
 
             sc_mut.state.t_curr = t_curr;
 
-            if sc_mut.save_states {
-                sc_mut.state.states = states;
-            }
+            sc_mut.state.states = states;
 
             // conditions for breaking loop
             // if there is a relative error, use that
-- 
2.43.0

