From 2d4bdc44a4bbbc51a46d00df496e90988ccaee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 01/40] fix: weight the derivative of the responsibilities
 cluster-wise in the smooth variance gradients

The (n_clusters,) responsibilities were broadcast along the input components instead of the clusters:
the gradients were wrong when n_clusters == nx and the call panicked when they differ.
---
 crates/moe/src/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 6356238..b93c962 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -773,7 +773,8 @@ impl GpMixture {
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let term1 = term1.sum_axis(Axis(0));
 
-                let term2 = (p.to_owned() * pprime * preds).mapv(|v| 2. * v);
+                let p = p.to_owned().insert_axis(Axis(1));
+                let term2 = (p * pprime * preds).mapv(|v| 2. * v);
                 let term2 = term2.sum_axis(Axis(0));
 
                 y.assign(&(term1 + term2));
@@ -865,7 +866,8 @@ impl GpMixture {
                     .and(vars_drv.rows())
                     .for_each(|mut t, p, der| t.assign(&(der.to_owned().mapv(|v| v * p * p))));
                 let var_term1 = var_term1.sum_axis(Axis(0));
-                let var_term2 = (p.to_owned() * pprime * vars).mapv(|v| 2. * v);
+                let p = p.to_owned().insert_axis(Axis(1));
+                let var_term2 = (p * pprime * vars).mapv(|v| 2. * v);
                 let var_term2 = var_term2.sum_axis(Axis(0));
                 var_y.assign(&(var_term1 + var_term2));
             });
-- 
2.43.0


From eddd0cf9fd2194dabee4c695680c1c7da5909b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 02/40] fix: unfold scalar variables located after a
 categorical one from their own column

---
 crates/ego/src/gpmix/mixint.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 4aac950..9b6b832 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -121,9 +121,7 @@ pub(crate) fn unfold_with_enum_mask(
     let mut unfold_index = 0;
     xtypes.iter().enumerate().for_each(|(i, s)| match s {
         XType::Float(_, _) | XType::Int(_, _) | XType::Ord(_) => {
-            xunfold
-                .column_mut(unfold_index)
-                .assign(&x.column(unfold_index));
+            xunfold.column_mut(unfold_index).assign(&x.column(i));
             unfold_index += 1;
         }
         XType::Enum(v) => {
-- 
2.43.0


From 12804fb6461133440345e2e9eb26aaf0e2c8ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 03/40] fix: cast points to discrete space in mixint in-place
 prediction

---
 crates/ego/src/gpmix/mixint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 9b6b832..e8f289d 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -751,7 +751,7 @@ impl<D: Data<Elem = f64>> PredictInplace<ArrayBase<D, Ix2>, Array1<f64>> for Mix
             "The number of data points must match the number of output targets."
         );
 
-        let values = self.moe.predict(x).expect("MixintGpMixture prediction");
+        let values = self.predict(&x.view()).expect("MixintGpMixture prediction");
         *y = values;
     }
 
-- 
2.43.0


From 1221a9a6ad280404e45ef2ad53c7e82a1e2dea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 04/40] fix: return the error of a mixint training on given
 clusters instead of panicking

---
 crates/ego/src/gpmix/mixint.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index e8f289d..10b27c5 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -382,8 +382,7 @@ impl MixintGpMixtureValidParams {
                 .surrogate_builder
                 .clone()
                 .check_ref()?
-                .train_on_clusters(&xcast, &yt.to_owned(), clustering)
-                .unwrap(),
+                .train_on_clusters(&xcast, &yt.to_owned(), clustering)?,
             xtypes: self.xtypes.clone(),
             work_in_folded_space: self.work_in_folded_space,
             training_data: (xt.to_owned(), yt.to_owned()),
-- 
2.43.0


From 2e76805955066060cd4233176302eddce049741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 05/40] fix: return an error instead of panicking when the file
 of a saved model cannot be created

---
 crates/moe/src/algorithm.rs  | 2 +-
 crates/moe/src/surrogates.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index b93c962..087498f 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -509,7 +509,7 @@ impl GpSurrogate for GpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
 
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index 7b963a3..d526a0d 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -179,7 +179,7 @@ macro_rules! declare_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
@@ -347,7 +347,7 @@ macro_rules! declare_sgp_surrogate {
 
                 #[cfg(feature = "persistent")]
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
-                    let mut file = fs::File::create(path).unwrap();
+                    let mut file = fs::File::create(path)?;
                     let bytes = match format {
                         GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
-- 
2.43.0


From c449eb8e84a005d5f9ce80f92e77f287d7634dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 06/40] fix: return an error instead of panicking when a mixint
 model cannot be saved or loaded

---
 crates/ego/src/gpmix/mixint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 10b27c5..6bbc264 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -619,7 +619,7 @@ impl GpSurrogate for MixintGpMixture {
     /// Save Moe model in given file.
     #[cfg(feature = "persistent")]
     fn save(&self, path: &str, format: GpFileFormat) -> egobox_moe::Result<()> {
-        let mut file = fs::File::create(path).unwrap();
+        let mut file = fs::File::create(path)?;
         let bytes = match format {
             GpFileFormat::Json => serde_json::to_vec(self).map_err(MoeError::SaveJsonError)?,
             GpFileFormat::Binary => {
@@ -638,7 +638,7 @@ impl MixintGpMixture {
     pub fn load(path: &str, format: GpFileFormat) -> Result<Box<MixintGpMixture>> {
         let data = fs::read(path)?;
         let moe = match format {
-            GpFileFormat::Json => serde_json::from_slice(&data).unwrap(),
+            GpFileFormat::Json => serde_json::from_slice(&data)?,
             GpFileFormat::Binary => {
                 bincode::serde::decode_from_slice(&data, bincode::config::standard())
                     .map(|(surrogate, _)| surrogate)?
-- 
2.43.0


From 9652b4e2da40ac494427bca738889bcb8cbb00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 07/40] fix: return an error instead of panicking when a
 checkpoint or gp models file cannot be created

---
 crates/ego/src/utils/gp_recorder.rs | 2 +-
 crates/ego/src/utils/hot_start.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/gp_recorder.rs b/crates/ego/src/utils/gp_recorder.rs
index 74d27e3..9b16135 100644
--- a/crates/ego/src/utils/gp_recorder.rs
+++ b/crates/ego/src/utils/gp_recorder.rs
@@ -10,7 +10,7 @@ pub(crate) fn save_gp_models<P: AsRef<Path>>(
     path: P,
     models: &[Box<dyn egobox_moe::MixtureGpSurrogate>],
 ) -> Result<()> {
-    let mut file = fs::File::create(path).unwrap();
+    let mut file = fs::File::create(path)?;
 
     let bytes = bincode::serde::encode_to_vec(models, bincode::config::standard())?;
     file.write_all(&bytes)?;
diff --git a/crates/ego/src/utils/hot_start.rs b/crates/ego/src/utils/hot_start.rs
index 3d75cee..cfebea5 100644
--- a/crates/ego/src/utils/hot_start.rs
+++ b/crates/ego/src/utils/hot_start.rs
@@ -93,7 +93,7 @@ where
             std::fs::create_dir_all(&self.directory)?
         }
         let fname = self.directory.join(&self.filename);
-        let mut file = std::fs::File::create(fname).unwrap();
+        let mut file = std::fs::File::create(fname)?;
 
         // let bytes = bincode::serde::encode_to_vec((solver, state), bincode::config::standard())?;
         let bytes = serde_json::to_vec(&(solver, state))?;
-- 
2.43.0


From ba5a9e0a6ceeeaa5968d55fe2d4a80873f7060ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 08/40] fix: return an error instead of panicking when the
 output files of a run cannot be written

---
 crates/ego/src/egor.rs               | 8 ++++----
 crates/ego/src/solver/egor_solver.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/egor.rs b/crates/ego/src/egor.rs
index 31da127..6c5c9ee 100644
--- a/crates/ego/src/egor.rs
+++ b/crates/ego/src/egor.rs
@@ -234,8 +234,8 @@ impl<O: GroupFunc, C: CstrFn, SB: SurrogateBuilder + DeserializeOwned> Egor<O, C
         if let Some(outdir) = self.solver.config.outdir.as_ref() {
             std::fs::create_dir_all(outdir)?;
             let filepath = std::path::Path::new(outdir).join(CONFIG_FILE);
-            let json = serde_json::to_string(&self.solver.config).unwrap();
-            std::fs::write(filepath, json).expect("Unable to write file");
+            let json = serde_json::to_string(&self.solver.config)?;
+            std::fs::write(filepath, json)?;
         }
 
         let exec = Executor::new(self.fobj.clone(), self.solver.clone()).timer(true);
@@ -360,7 +360,7 @@ impl Observe<EgorState<f64>> for OptimizationObserver {
 
             let filepath = self.dir.join(crate::DOE_FILE);
             info!(">>> Save doe shape {:?} in {:?}", doe.shape(), filepath);
-            write_npy(filepath, &doe).expect("Write current doe");
+            write_npy(filepath, &doe)?;
 
             if self.best_params.is_none() {
                 // Have to initialize best params and full best costs
@@ -387,7 +387,7 @@ impl Observe<EgorState<f64>> for OptimizationObserver {
 
             let filepath = std::path::Path::new(&self.dir).join(HISTORY_FILE);
             info!(">>> Save history {:?} in {:?}", hist.shape(), filepath);
-            ndarray_npy::write_npy(filepath, &hist).expect("Write current history");
+            ndarray_npy::write_npy(filepath, &hist)?;
         }
         Ok(())
     }
diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index fa101ec..da0d505 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -239,7 +239,7 @@ where
             std::fs::create_dir_all(path)?;
             let filepath = std::path::Path::new(path).join(DOE_INITIAL_FILE);
             info!("Save initial doe shape {:?} in {:?}", doe.shape(), filepath);
-            write_npy(filepath, &doe).expect("Write initial doe");
+            write_npy(filepath, &doe)?;
         }
 
         let clusterings = vec![None; self.config.n_cstr + 1];
-- 
2.43.0


From 6b19ae85ff586d693aac47c341a8b55f1aa639fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:40 +0000
Subject: [PATCH 09/40] fix: raise an error from the python bindings when a
 model file has no extension or cannot be loaded

---
 python/src/gp_mix.rs        | 15 +++++++++------
 python/src/sparse_gp_mix.rs | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/python/src/gp_mix.rs b/python/src/gp_mix.rs
index bb54946..a84a86c 100644
--- a/python/src/gp_mix.rs
+++ b/python/src/gp_mix.rs
@@ -22,6 +22,7 @@ use log::error;
 use ndarray::{Array1, Array2, Axis, Ix1, Ix2, Zip, array};
 use ndarray_rand::rand::SeedableRng;
 use numpy::{IntoPyArray, PyArray1, PyArray2, PyReadonlyArray2, PyReadonlyArrayDyn};
+use pyo3::exceptions::PyRuntimeError;
 use pyo3::prelude::*;
 use pyo3_stub_gen::derive::{gen_stub_pyclass, gen_stub_pymethods};
 use rand_xoshiro::Xoshiro256Plus;
@@ -308,8 +309,8 @@ impl Gpx {
     /// # Returns True if save succeeds otherwise False
     ///
     fn save(&self, filename: String) -> bool {
-        let format = match Path::new(&filename).extension().unwrap().to_str().unwrap() {
-            "json" => egobox_moe::GpFileFormat::Json,
+        let format = match Path::new(&filename).extension().and_then(|e| e.to_str()) {
+            Some("json") => egobox_moe::GpFileFormat::Json,
             _ => egobox_moe::GpFileFormat::Binary,
         };
         self.0.save(&filename, format).is_ok()
@@ -322,12 +323,14 @@ impl Gpx {
     ///         json filepath generated by saving a trained Gaussian processes mixture
     ///
     #[staticmethod]
-    fn load(filename: String) -> Gpx {
-        let format = match Path::new(&filename).extension().unwrap().to_str().unwrap() {
-            "json" => egobox_moe::GpFileFormat::Json,
+    fn load(filename: String) -> PyResult<Gpx> {
+        let format = match Path::new(&filename).extension().and_then(|e| e.to_str()) {
+            Some("json") => egobox_moe::GpFileFormat::Json,
             _ => egobox_moe::GpFileFormat::Binary,
         };
-        Gpx(GpMixture::load(&filename, format).unwrap())
+        GpMixture::load(&filename, format)
+            .map(Gpx)
+            .map_err(|err| PyRuntimeError::new_err(err.to_string()))
     }
 
     /// Predict output values at nsamples points.
diff --git a/python/src/sparse_gp_mix.rs b/python/src/sparse_gp_mix.rs
index d7847c6..b59ac42 100644
--- a/python/src/sparse_gp_mix.rs
+++ b/python/src/sparse_gp_mix.rs
@@ -20,6 +20,7 @@ use log::error;
 use ndarray::{Array1, Array2, Axis, Ix1, Ix2, Zip, array};
 use ndarray_rand::rand::SeedableRng;
 use numpy::{IntoPyArray, PyArray1, PyArray2, PyReadonlyArray2};
+use pyo3::exceptions::PyRuntimeError;
 use pyo3::prelude::*;
 use pyo3_stub_gen::derive::{gen_stub_pyclass, gen_stub_pymethods};
 use rand_xoshiro::Xoshiro256Plus;
@@ -287,8 +288,8 @@ impl SparseGpx {
     /// # Returns True if save succeeds otherwise False
     ///
     fn save(&self, filename: String) -> bool {
-        let format = match Path::new(&filename).extension().unwrap().to_str().unwrap() {
-            "json" => egobox_moe::GpFileFormat::Json,
+        let format = match Path::new(&filename).extension().and_then(|e| e.to_str()) {
+            Some("json") => egobox_moe::GpFileFormat::Json,
             _ => egobox_moe::GpFileFormat::Binary,
         };
         self.0.save(&filename, format).is_ok()
@@ -301,12 +302,14 @@ impl SparseGpx {
     ///         json filepath generated by saving a trained Gaussian processes mixture
     ///
     #[staticmethod]
-    fn load(filename: String) -> SparseGpx {
-        let format = match Path::new(&filename).extension().unwrap().to_str().unwrap() {
-            "json" => egobox_moe::GpFileFormat::Json,
+    fn load(filename: String) -> PyResult<SparseGpx> {
+        let format = match Path::new(&filename).extension().and_then(|e| e.to_str()) {
+            Some("json") => egobox_moe::GpFileFormat::Json,
             _ => egobox_moe::GpFileFormat::Binary,
         };
-        SparseGpx(GpMixture::load(&filename, format).unwrap())
+        GpMixture::load(&filename, format)
+            .map(SparseGpx)
+            .map_err(|err| PyRuntimeError::new_err(err.to_string()))
     }
 
     /// Predict output values at nsamples points.
-- 
2.43.0


From 86cfb2fba62b00da4c3dd4053228298fb7413fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:11 +0000
Subject: [PATCH 10/40] fix: raise an error from python minimize when the run
 fails instead of panicking

---
 python/src/egor.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 53396ea..8c462de 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -19,6 +19,7 @@ use egobox_gp::ThetaTuning;
 use egobox_moe::NbClusters;
 use ndarray::{Array1, Array2, ArrayView2, Axis, array, concatenate};
 use numpy::{IntoPyArray, PyArray1, PyArray2, PyArrayMethods, PyReadonlyArray2, ToPyArray};
+use pyo3::exceptions::PyRuntimeError;
 use pyo3::prelude::*;
 use pyo3_stub_gen::derive::{gen_stub_pyclass, gen_stub_pymethods};
 use std::cmp::Ordering;
@@ -317,11 +318,9 @@ impl Egor {
             mixintegor
         };
 
-        let res = py.detach(|| {
-            mixintegor
-                .run()
-                .expect("Egor should optimize the objective function")
-        });
+        let res = py
+            .detach(|| mixintegor.run())
+            .map_err(|err| PyRuntimeError::new_err(format!("Optimization failed: {err}")))?;
         let x_opt = res.x_opt.into_pyarray(py).to_owned();
         let y_opt = res.y_opt.into_pyarray(py).to_owned();
         let x_doe = res.x_doe.into_pyarray(py).to_owned();
-- 
2.43.0


From 0ed6ef96da16eaa79f2b139c177a7e9d8b2b85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 11/40] fix: save sparse GP surrogates in the form in which GP
 surrogates are loaded

---
 crates/moe/src/surrogates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/moe/src/surrogates.rs b/crates/moe/src/surrogates.rs
index d526a0d..73488db 100644
--- a/crates/moe/src/surrogates.rs
+++ b/crates/moe/src/surrogates.rs
@@ -349,10 +349,10 @@ macro_rules! declare_sgp_surrogate {
                 fn save(&self, path: &str, format: GpFileFormat) -> Result<()> {
                     let mut file = fs::File::create(path)?;
                     let bytes = match format {
-                        GpFileFormat::Json => serde_json::to_vec(self as &dyn SgpSurrogate)
+                        GpFileFormat::Json => serde_json::to_vec(self as &dyn GpSurrogate)
                             .map_err(MoeError::SaveJsonError)?,
                         GpFileFormat::Binary => {
-                            bincode::serde::encode_to_vec(self as &dyn SgpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
+                            bincode::serde::encode_to_vec(self as &dyn GpSurrogate, bincode::config::standard()).map_err(MoeError::SaveBinaryError)?
                         }
                     };
                     file.write_all(&bytes)?;
-- 
2.43.0


From e5f670cc63cd92626f3238427e7451c7c4c754e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 12/40] fix: keep the active components of a partial theta
 tuning when its init or bounds are set

---
 crates/gp/src/parameters.rs        | 10 ++++++----
 crates/gp/src/sparse_parameters.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/gp/src/parameters.rs b/crates/gp/src/parameters.rs
index 8d0b181..96b6202 100644
--- a/crates/gp/src/parameters.rs
+++ b/crates/gp/src/parameters.rs
@@ -210,10 +210,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GpParams<F,
             },
             ThetaTuning::Partial {
                 init: _,
-                active: _,
+                active,
                 bounds,
-            } => ThetaTuning::Full {
+            } => ThetaTuning::Partial {
                 init: theta_init,
+                active,
                 bounds,
             },
             ThetaTuning::Fixed(_) => ThetaTuning::Fixed(theta_init),
@@ -232,10 +233,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GpParams<F,
             },
             ThetaTuning::Partial {
                 init,
-                active: _,
+                active,
                 bounds: _,
-            } => ThetaTuning::Full {
+            } => ThetaTuning::Partial {
                 init,
+                active,
                 bounds: theta_bounds,
             },
             ThetaTuning::Fixed(f) => ThetaTuning::Fixed(f),
diff --git a/crates/gp/src/sparse_parameters.rs b/crates/gp/src/sparse_parameters.rs
index 9005a2b..c995088 100644
--- a/crates/gp/src/sparse_parameters.rs
+++ b/crates/gp/src/sparse_parameters.rs
@@ -192,10 +192,11 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpParams<F, Corr> {
             },
             ThetaTuning::Partial {
                 init: _,
-                active: _,
+                active,
                 bounds,
-            } => ThetaTuning::Full {
+            } => ThetaTuning::Partial {
                 init: theta_init,
+                active,
                 bounds,
             },
             ThetaTuning::Fixed(_) => ThetaTuning::Fixed(theta_init),
@@ -214,10 +215,11 @@ impl<F: Float, Corr: CorrelationModel<F>> SgpParams<F, Corr> {
             },
             ThetaTuning::Partial {
                 init,
-                active: _,
+                active,
                 bounds: _,
-            } => ThetaTuning::Full {
+            } => ThetaTuning::Partial {
                 init,
+                active,
                 bounds: theta_bounds,
             },
             ThetaTuning::Fixed(f) => ThetaTuning::Fixed(f),
-- 
2.43.0


From ea98870b0597f5ed05b319295d2a475875595621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 13/40] fix: complete the constraint tolerances of the user
 with the ones of the function constraints

---
 crates/ego/src/solver/egor_config.rs |  8 ++++++--
 crates/ego/src/solver/egor_solver.rs | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/ego/src/solver/egor_config.rs b/crates/ego/src/solver/egor_config.rs
index 289541c..b694b62 100644
--- a/crates/ego/src/solver/egor_config.rs
+++ b/crates/ego/src/solver/egor_config.rs
@@ -304,6 +304,9 @@ impl EgorConfig {
     }
 
     /// Sets the tolerance on constraints violation (`cstr < tol`)
+    ///
+    /// The `n_cstr` tolerances may be followed by the tolerances of the function constraints,
+    /// which otherwise get the default one.
     pub fn cstr_tol(mut self, tol: Array1<f64>) -> Self {
         self.0.cstr_tol = Some(tol);
         self
@@ -443,10 +446,11 @@ impl EgorConfig {
     /// Checks and wraps an EgorConfig
     pub fn check(self) -> Result<ValidEgorConfig> {
         let config = self.0;
-        // Check cstr_tol length if any
+        // Check cstr_tol length if any: tolerances of the function constraints, known at run time,
+        // may follow the ones of the metamodelized constraints
         if config.n_cstr > 0
             && config.cstr_tol.is_some()
-            && config.cstr_tol.as_ref().unwrap().len() != config.n_cstr
+            && config.cstr_tol.as_ref().unwrap().len() < config.n_cstr
         {
             return Err(crate::EgoError::InvalidConfigError(format!(
                 "EgorConfig invalid: cstr_tol length ({}) does not match n_cstr ({})",
diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index da0d505..860d3ee 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -266,10 +266,19 @@ where
         initial_state.max_iters = self.config.max_iters as u64;
         initial_state.added = doe.nrows();
         initial_state.no_point_added_retries = no_point_added_retries;
-        initial_state.cstr_tol = self.config.cstr_tol.clone().unwrap_or(Array1::from_elem(
-            self.config.n_cstr + c_data.ncols(),
-            DEFAULT_CSTR_TOL,
-        ));
+        let n_tol = self.config.n_cstr + c_data.ncols();
+        let mut cstr_tol = Array1::from_elem(n_tol, DEFAULT_CSTR_TOL);
+        if let Some(tol) = &self.config.cstr_tol {
+            if tol.len() > n_tol {
+                return Err(EgoError::InvalidConfigError(format!(
+                    "cstr_tol length ({}) exceeds the number of constraints ({n_tol})",
+                    tol.len()
+                ))
+                .into());
+            }
+            cstr_tol.slice_mut(s![..tol.len()]).assign(tol);
+        }
+        initial_state.cstr_tol = cstr_tol;
         initial_state.target_cost = self.config.target;
 
         let best_index = find_best_result_index(&y_data, &c_data, &initial_state.cstr_tol);
-- 
2.43.0


From 1770e87c8ac2d126f07a482cf0f26117b5fd076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 14/40] fix: size the empty constraint values by the number of
 evaluations in python get_result

---
 python/src/egor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 8c462de..9b9a705 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -380,7 +380,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs))
     }
 
@@ -408,7 +408,7 @@ impl Egor {
         let y_doe = y_doe.as_array();
         // TODO: Make c_doe an optional argument ?
         let n_fcstrs = 0;
-        let c_doe = Array2::zeros((y_doe.ncols(), n_fcstrs));
+        let c_doe = Array2::zeros((y_doe.nrows(), n_fcstrs));
         let idx = find_best_result_index(&y_doe, &c_doe, &self.cstr_tol(n_fcstrs));
         let x_opt = x_doe.row(idx).to_pyarray(py).into();
         let y_opt = y_doe.row(idx).to_pyarray(py).into();
-- 
2.43.0


From fa24092007722d3538c74458b19428d3963634f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 15/40] fix: honor the hyperparameters tuning of the user when
 it is fixed or when the number of clusters is automatic

---
 crates/ego/src/solver/solver_impl.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index f838123..e3176bc 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -159,6 +159,9 @@ where
             self.config.gp.correlation_spec,
         );
 
+        // hyperparameters set as fixed by the user are never optimized
+        let fixed_theta = matches!(self.config.gp.theta_tuning, ThetaTuning::Fixed(_));
+
         for (i, active) in actives.outer_iter().enumerate() {
             let gp = if make_clustering {
                 /* init || recluster */
@@ -167,14 +170,23 @@ where
                         if self.config.coego.activated {
                             log::warn!("Automated clustering not available with CoEGO")
                         }
+                        // used for all experts
+                        builder
+                            .set_theta_tunings(std::slice::from_ref(&self.config.gp.theta_tuning));
                     }
                     NbClusters::Fixed { nb: _ } => {
                         let theta_tunings = best_theta_inits
                             .outer_iter()
-                            .map(|init| ThetaTuning::Partial {
-                                init: init.to_owned(),
-                                bounds: theta_bounds.to_owned(),
-                                active: Self::strip(&active.to_vec(), init.len()),
+                            .map(|init| {
+                                if fixed_theta {
+                                    ThetaTuning::Fixed(init.to_owned())
+                                } else {
+                                    ThetaTuning::Partial {
+                                        init: init.to_owned(),
+                                        bounds: theta_bounds.to_owned(),
+                                        active: Self::strip(&active.to_vec(), init.len()),
+                                    }
+                                }
                             })
                             .collect::<Vec<_>>();
                         builder.set_theta_tunings(&theta_tunings);
@@ -213,7 +225,7 @@ where
             } else {
                 let clustering = clustering.unwrap();
 
-                let theta_tunings = if optimize_theta {
+                let theta_tunings = if optimize_theta && !fixed_theta {
                     // set hyperparameters optimization
                     let mut inits = best_theta_inits
                         .outer_iter()
-- 
2.43.0


From 04d5ab0c18227081013742bd177af783bcc4868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 16/40] fix: pass the likelihood evaluation budget of the
 python GpMix to the training

---
 python/src/gp_mix.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/gp_mix.rs b/python/src/gp_mix.rs
index a84a86c..fb9d5aa 100644
--- a/python/src/gp_mix.rs
+++ b/python/src/gp_mix.rs
@@ -228,6 +228,7 @@ impl GpMix {
                 .theta_tunings(&theta_tunings)
                 .kpls_dim(self.gp_config.kpls_dim)
                 .n_start(n_start)
+                .max_eval(self.gp_config.max_eval)
                 .with_rng(rng)
                 .fit(&dataset)
                 .expect("MoE model training")
-- 
2.43.0


From ddc97854c8aa194fffb192822fcabec3ed67b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 17/40] fix: use the initial hyperparameters as is in the
 python Egor when n_start is negative

---
 python/src/egor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/egor.rs b/python/src/egor.rs
index 9b9a705..ff486f9 100644
--- a/python/src/egor.rs
+++ b/python/src/egor.rs
@@ -495,6 +495,10 @@ impl Egor {
                 bounds: bounds.iter().map(|v| (v[0], v[1])).collect(),
             }
         }
+        if self.gp_config.n_start < 0 {
+            // no optimization, use theta_init as is
+            theta_tuning = ThetaTuning::Fixed(theta_tuning.init().to_owned());
+        }
         theta_tuning
     }
 
-- 
2.43.0


From b8c632a7ea7928dbc47386599cae77fb1c8f586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 18/40] fix: always seed the sparse GP expert from the
 generator of the mixture

---
 crates/moe/src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 087498f..123e508 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -327,7 +327,7 @@ impl GpMixtureValidParams<f64> {
                         }
                     };
                 let mut expert_params = best_expert_params?;
-                let seed = self.rng().r#gen();
+                let seed = Some(self.rng().r#gen());
                 debug!("Theta tuning = {:?}", self.theta_tunings());
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
-- 
2.43.0


From 95a5907e6094105fba16a86e1c08ffa4c4b38205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 19/40] fix: draw the single random start of the GP multistart
 from a seeded generator

---
 crates/gp/src/optimization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index c076756..14fa77d 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -40,8 +40,8 @@ pub(crate) fn prepare_multistart<F: Float>(
 
     match n_start.cmp(&1) {
         std::cmp::Ordering::Equal => {
-            //let mut rng = Xoshiro256Plus::seed_from_u64(42);
-            let mut rng = Xoshiro256Plus::from_entropy();
+            // Use a seed here for reproducibility as below
+            let mut rng = Xoshiro256Plus::seed_from_u64(42);
             let vals = bounds.iter().map(|(a, b)| rng.gen_range(*a..*b)).collect();
             theta0s.row_mut(1).assign(&Array::from_vec(vals))
         }
-- 
2.43.0


From f3784df3b9da45adbeacc5e991d702c491e5d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 20/40] fix: pick portfolio points in the order of their
 clusters

---
 crates/ego/src/utils/portfolio.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/portfolio.rs b/crates/ego/src/utils/portfolio.rs
index 92c7b40..f083c45 100644
--- a/crates/ego/src/utils/portfolio.rs
+++ b/crates/ego/src/utils/portfolio.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use linfa::traits::Transformer;
 
@@ -28,7 +28,7 @@ pub fn cluster_as_indices(xdat: &ArrayBase<impl Data<Elem = f64>, Ix2>) -> Vec<u
         .tolerance((xdat.ncols() as f64).sqrt())
         .transform(&xdat.to_owned())
         .unwrap();
-    let mut dict = HashMap::new();
+    let mut dict = BTreeMap::new();
     for (i, c) in clusters.iter().enumerate() {
         match c {
             None => (),
-- 
2.43.0


From ce9a2c0bbdd6178c9fcb22220517d52658c8aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 21/40] fix: seed the generator of the surrogates when the
 optimization is seeded

---
 crates/ego/src/gpmix/mixint.rs       | 9 +++++++++
 crates/ego/src/gpmix/mod.rs          | 6 ++++++
 crates/ego/src/solver/solver_impl.rs | 6 +++++-
 crates/ego/src/types.rs              | 5 +++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/gpmix/mixint.rs b/crates/ego/src/gpmix/mixint.rs
index 6bbc264..87bd981 100644
--- a/crates/ego/src/gpmix/mixint.rs
+++ b/crates/ego/src/gpmix/mixint.rs
@@ -480,6 +480,15 @@ impl SurrogateBuilder for MixintGpMixtureParams {
         }
     }
 
+    /// Sets the random number generator used by the mixture training
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        self.0 = MixintGpMixtureValidParams {
+            surrogate_builder: self.0.surrogate_builder.clone().with_rng(rng),
+            xtypes: self.0.xtypes.clone(),
+            work_in_folded_space: self.0.work_in_folded_space,
+        }
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/gpmix/mod.rs b/crates/ego/src/gpmix/mod.rs
index 16974be..97bf4c7 100644
--- a/crates/ego/src/gpmix/mod.rs
+++ b/crates/ego/src/gpmix/mod.rs
@@ -8,6 +8,7 @@ use egobox_moe::{
     Clustering, CorrelationSpec, GpMixtureParams, MixtureGpSurrogate, NbClusters, RegressionSpec,
 };
 use ndarray::{ArrayView1, ArrayView2};
+use rand_xoshiro::Xoshiro256Plus;
 
 use linfa::ParamGuard;
 
@@ -62,6 +63,11 @@ impl SurrogateBuilder for GpMixtureParams<f64> {
         *self = self.clone().n_start(n_start).max_eval(max_eval);
     }
 
+    /// Sets the random number generator used by the mixture training
+    fn set_rng(&mut self, rng: Xoshiro256Plus) {
+        *self = self.clone().with_rng(rng);
+    }
+
     fn train(
         &self,
         xt: ArrayView2<f64>,
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index e3176bc..231d4e1 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -41,10 +41,14 @@ impl<SB: SurrogateBuilder + DeserializeOwned, C: CstrFn> EgorSolver<SB, C> {
         let builder = builder.target(env_logger::Target::Stdout);
         builder.try_init().ok();
         let xtypes = config.xtypes.clone();
+        let mut surrogate_builder = SB::new_with_xtypes(&xtypes);
+        if let Some(seed) = config.seed {
+            surrogate_builder.set_rng(Xoshiro256Plus::seed_from_u64(seed));
+        }
         EgorSolver {
             config,
             xlimits: as_continuous_limits(&xtypes),
-            surrogate_builder: SB::new_with_xtypes(&xtypes),
+            surrogate_builder,
             phantom: PhantomData,
         }
     }
diff --git a/crates/ego/src/types.rs b/crates/ego/src/types.rs
index c76f254..7ac7449 100644
--- a/crates/ego/src/types.rs
+++ b/crates/ego/src/types.rs
@@ -4,6 +4,7 @@ use argmin::core::CostFunction;
 use egobox_moe::{Clustering, MixtureGpSurrogate, NbClusters, Recombination, ThetaTuning};
 use linfa::Float;
 use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
+use rand_xoshiro::Xoshiro256Plus;
 use serde::{Deserialize, Serialize};
 
 /// Optimization result
@@ -167,6 +168,10 @@ pub trait SurrogateBuilder: Clone + Serialize + Sync {
     /// Set likelihood optimization parameters
     fn set_optim_params(&mut self, n_start: usize, max_eval: usize);
 
+    /// Sets the random number generator used during training, if any.
+    /// By default it is ignored.
+    fn set_rng(&mut self, _rng: Xoshiro256Plus) {}
+
     /// Train the surrogate with given training dataset (x, y)
     fn train(
         &self,
-- 
2.43.0


From 5c8da43e13d53108c67db108546afdd4852d2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 22/40] fix: hand the generator of the mixture to the
 cross-validation of the number of clusters

---
 crates/moe/src/clustering.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/clustering.rs b/crates/moe/src/clustering.rs
index c334c8c..f5782c3 100644
--- a/crates/moe/src/clustering.rs
+++ b/crates/moe/src/clustering.rs
@@ -8,7 +8,8 @@ use linfa::dataset::{Dataset, DatasetView};
 use linfa::traits::{Fit, Predict};
 use linfa_clustering::GaussianMixtureModel;
 use ndarray::{Array1, Array2, ArrayBase, Axis, Data, Ix1, Ix2, Zip, concatenate};
-use ndarray_rand::rand::Rng;
+use ndarray_rand::rand::{Rng, SeedableRng};
+use rand_xoshiro::Xoshiro256Plus;
 // use std::ops::Sub;
 
 fn mean(list: &[f64]) -> f64 {
@@ -146,6 +147,7 @@ pub fn find_best_number_of_clusters<R: Rng + Clone>(
                         .correlation_spec(correlation_spec)
                         .kpls_dim(kpls_dim)
                         .gmm(gmm.clone())
+                        .with_rng(Xoshiro256Plus::seed_from_u64(rng.clone().r#gen()))
                         .fit(&train)
                     {
                         Ok(mixture) => {
-- 
2.43.0


From 30752252bd786f468e9c6043baa6a5d239973dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 23/40] fix: convert float values numerically instead of
 reading their memory as f64

---
 crates/gp/src/algorithm.rs        |  4 ++--
 crates/gp/src/optimization.rs     |  8 +++-----
 crates/gp/src/sparse_algorithm.rs | 12 ++++++------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c98527f..f22820d 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -1,6 +1,6 @@
 use crate::errors::{GpError, Result};
 use crate::mean_models::*;
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::parameters::{GpParams, GpValidParams};
 use crate::utils::{DiffMatrix, NormalizedData, pairwise_differences};
 use crate::{ThetaTuning, correlation_models::*};
@@ -891,7 +891,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                     }
                     let rxx = self.corr().value(&x_distances.d, &theta, &w_star);
                     match reduced_likelihood(&fx, rxx, &x_distances, &ytrain, self.nugget()) {
-                        Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                        Ok(r) => -into_f64(&r.0),
                         Err(_) => f64::INFINITY,
                     }
                 };
diff --git a/crates/gp/src/optimization.rs b/crates/gp/src/optimization.rs
index 14fa77d..a1f57e8 100644
--- a/crates/gp/src/optimization.rs
+++ b/crates/gp/src/optimization.rs
@@ -87,9 +87,7 @@ where
     let base: f64 = 10.;
     // block to drop optimizer and allow self.corr borrowing after
     let mut optimizer = Nlopt::new(Algorithm::Cobyla, param0.len(), objfn, Target::Minimize, ());
-    let mut param = param0
-        .map(|v| unsafe { *(v as *const F as *const f64) })
-        .into_raw_vec();
+    let mut param = param0.map(|v| into_f64(v)).into_raw_vec();
 
     let lower_bounds = bounds.iter().map(|b| into_f64(&b.0)).collect::<Vec<_>>();
     optimizer.set_lower_bounds(&lower_bounds).unwrap();
@@ -169,6 +167,6 @@ where
 }
 
 #[inline(always)]
-fn into_f64<F: Float>(v: &F) -> f64 {
-    unsafe { *(v as *const F as *const f64) }
+pub(crate) fn into_f64<F: Float>(v: &F) -> f64 {
+    v.to_f64().expect("float type should be convertible to f64")
 }
diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 02010d3..50a55a9 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -1,6 +1,6 @@
 use crate::ThetaTuning;
 use crate::errors::{GpError, Result};
-use crate::optimization::{CobylaParams, optimize_params, prepare_multistart};
+use crate::optimization::{CobylaParams, into_f64, optimize_params, prepare_multistart};
 use crate::sparse_parameters::{Inducings, ParamTuning, SgpParams, SgpValidParams, SparseMethod};
 use crate::{GpSamplingMethod, correlation_models::*, sample, utils::pairwise_differences};
 use finitediff::ndarr;
@@ -302,12 +302,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let g_central = ndarr::central_diff(&f);
                 let grad = g_central(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
@@ -322,12 +322,12 @@ impl<F: Float, Corr: CorrelationModel<F>> SparseGaussianProcess<F, Corr> {
         let f = |x: &Array1<f64>| -> std::result::Result<f64, anyhow::Error> {
             let x = x.to_owned().insert_axis(Axis(0)).mapv(|v| F::cast(v));
             let v = self.predict_var(&x).unwrap()[0];
-            Ok(unsafe { *(&v as *const F as *const f64) })
+            Ok(into_f64(&v))
         };
         Zip::from(drv.rows_mut())
             .and(x.rows())
             .for_each(|mut row, xi| {
-                let xi = xi.mapv(|v| unsafe { *(&v as *const F as *const f64) });
+                let xi = xi.mapv(|v| into_f64(&v));
                 let grad = ndarr::central_diff(&f)(&xi).unwrap().mapv(|v| F::cast(v));
                 row.assign(&grad);
             });
@@ -550,7 +550,7 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
                 &z,
                 self.nugget(),
             ) {
-                Ok(r) => unsafe { -(*(&r.0 as *const F as *const f64)) },
+                Ok(r) => -into_f64(&r.0),
                 Err(_) => f64::INFINITY,
             }
         };
-- 
2.43.0


From fbc0450dd1804b454b6c2b65cc70a11f46fab94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 24/40] fix: stop on the target cost only when a feasible point
 reaches it

---
 crates/ego/src/solver/egor_solver.rs | 16 ++++++++++++++++
 crates/ego/src/solver/egor_state.rs  | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index 860d3ee..eeb9ba6 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -435,6 +435,22 @@ where
 
         TerminationStatus::NotTerminated
     }
+
+    /// Same as the default implementation except that the target
+    /// has to be reached by a point which satisfies the constraints
+    fn terminate_internal(&mut self, state: &EgorState<f64>) -> TerminationStatus {
+        let solver_status = <Self as Solver<O, EgorState<f64>>>::terminate(self, state);
+        if solver_status.terminated() {
+            return solver_status;
+        }
+        if state.get_iter() >= state.get_max_iters() {
+            return TerminationStatus::Terminated(TerminationReason::MaxItersReached);
+        }
+        if state.is_best_feasible() && state.get_best_cost() <= state.get_target_cost() {
+            return TerminationStatus::Terminated(TerminationReason::TargetCostReached);
+        }
+        TerminationStatus::NotTerminated
+    }
 }
 
 impl<SB, C: CstrFn> EgorSolver<SB, C>
diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 677f19a..5000eaa 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -1,7 +1,7 @@
 /// Implementation of `argmin::IterState` for Egor optimizer
 use crate::{
     InfillObjData,
-    utils::{find_best_result_index, run_recorder::EgorRunData},
+    utils::{find_best_result_index, is_feasible, run_recorder::EgorRunData},
 };
 use egobox_moe::Clustering;
 
@@ -328,6 +328,18 @@ impl<F> EgorState<F>
 where
     F: Float + ArgminFloat,
 {
+    /// Whether the current best point satisfies all the constraints
+    pub(crate) fn is_best_feasible(&self) -> bool {
+        match (self.data.as_ref(), self.best_index) {
+            (Some((_, y_data, c_data)), Some(best_index)) => is_feasible(
+                &y_data.row(best_index),
+                &c_data.row(best_index),
+                &self.cstr_tol,
+            ),
+            _ => false,
+        }
+    }
+
     /// Allow hot start feature by extending current max_iters
     pub fn extend_max_iters(&mut self, ext_iters: u64) {
         self.max_iters += ext_iters;
-- 
2.43.0


From eb2829e41ceda7db98f2e81bca37115f62ee3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 25/40] fix: differentiate the configured kernel in
 predict_kth_derivatives

The method differentiated exp(-theta*d^2) whatever the kernel, while the squared
exponential kernel is exp(-theta^2*d^2/2), so its result disagreed with
predict_gradients and with finite differences of predict.
---
 crates/gp/src/algorithm.rs | 59 +-------------------------------------
 1 file changed, 1 insertion(+), 58 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index f22820d..c4640bc 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -445,64 +445,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>> GaussianProc
         x: &ArrayBase<impl Data<Elem = F>, Ix2>,
         kx: usize,
     ) -> Array1<F> {
-        let xnorm = (x - &self.xt_norm.mean) / &self.xt_norm.std;
-        let corr = self._compute_correlation(&xnorm);
-
-        let beta = &self.inner_params.beta;
-        let gamma = &self.inner_params.gamma;
-
-        let df_dx_kx = if self.inner_params.beta.nrows() <= 1 + self.xt_norm.data.ncols() {
-            // for constant or linear: df/dx = cst ([0] or [1]) for all x, so takes use x[0] to get the constant
-            let df = self.params.mean.jacobian(&x.row(0));
-            let df_dx = df.t().row(kx).dot(beta);
-            df_dx.broadcast((x.nrows(), 1)).unwrap().to_owned()
-        } else {
-            // for quadratic df/dx really depends on x
-            let mut dfdx = Array2::zeros((x.nrows(), 1));
-            Zip::from(dfdx.rows_mut())
-                .and(xnorm.rows())
-                .for_each(|mut dfxi, xi| {
-                    let df = self.params.mean.jacobian(&xi);
-                    let df_dx = (df.t().row(kx)).dot(beta);
-                    dfxi.assign(&df_dx);
-                });
-            dfdx
-        };
-
-        let nr = x.nrows();
-        let nc = self.xt_norm.data.nrows();
-        let d_dx_1 = &xnorm
-            .column(kx)
-            .to_owned()
-            .into_shape_with_order((nr, 1))
-            .unwrap()
-            .broadcast((nr, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx_2 = self
-            .xt_norm
-            .data
-            .column(kx)
-            .to_owned()
-            .as_standard_layout()
-            .into_shape_with_order((1, nc))
-            .unwrap()
-            .to_owned();
-
-        let d_dx = d_dx_1 - d_dx_2;
-
-        // Get pairwise componentwise L1-distances to the input training set
-        let theta = &self.theta.to_owned();
-        let d_dx_corr = d_dx * corr;
-
-        // (df(xnew)/dx).beta + (dr(xnew)/dx).R^-1(ytrain - f.beta)
-        // gamma = R^-1(ytrain - f.beta)
-        // Warning: squared exponential only
-        let res = (df_dx_kx - d_dx_corr.dot(gamma).map(|v| F::cast(2.) * theta[kx] * *v))
-            * self.yt_norm.std[0]
-            / self.xt_norm.std[kx];
-        res.column(0).to_owned()
+        self.predict_gradients(x).column(kx).to_owned()
     }
 
     /// Predict derivatives at a set of point `x` specified as a (n, nx) matrix where x has nx components.
-- 
2.43.0


From 356c0953ecdb1af2f41273dd845656a0436e4d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 26/40] fix: pair each active hyperparameter with its own
 bounds in partial tuning

---
 crates/gp/src/algorithm.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index c4640bc..849371c 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -855,12 +855,7 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
                 };
 
                 // Select init params and bounds wrt to activity
-                let active_bounds = bounds
-                    .iter()
-                    .enumerate()
-                    .filter(|(i, _)| active.contains(i))
-                    .map(|(_, &b)| b)
-                    .collect::<Vec<_>>();
+                let active_bounds = active.iter().map(|&i| bounds[i]).collect::<Vec<_>>();
                 let (theta_inits, bounds) = prepare_multistart(
                     self.n_start(),
                     &theta0.select(Axis(0), &active),
-- 
2.43.0


From 3365e410fc757d1bf2c5853fd46e715d2740bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 27/40] fix: expand a one-component initial guess in partial
 tuning

---
 crates/gp/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 849371c..65d0179 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -890,11 +890,11 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let opt_params = match self.theta_tuning() {
             ThetaTuning::Fixed(_) | ThetaTuning::Full { init: _, bounds: _ } => opt_params,
             ThetaTuning::Partial {
-                init,
+                init: _,
                 bounds: _,
                 active,
             } => {
-                let mut opt_theta = init.to_owned();
+                let mut opt_theta = theta0.to_owned();
                 std::iter::zip(active.clone(), opt_params)
                     .for_each(|(i, xi)| opt_theta[i] = F::cast(xi));
                 opt_theta
-- 
2.43.0


From ddf580d00109228478a8bf828fbc8732a16955c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 28/40] fix: keep fixed hyperparameters and accept bounds per
 component in sparse training

---
 crates/gp/src/sparse_algorithm.rs | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/crates/gp/src/sparse_algorithm.rs b/crates/gp/src/sparse_algorithm.rs
index 50a55a9..ededc44 100644
--- a/crates/gp/src/sparse_algorithm.rs
+++ b/crates/gp/src/sparse_algorithm.rs
@@ -503,11 +503,14 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         // Params consist in [theta1, ..., thetap, sigma2, [noise]]
         // where sigma2 is the variance of the gaussian process
         // where noise is the variance of the noise when it is estimated
-        let n = theta0.len() + 1 + is_noise_estimated as usize;
+        // and where theta is left out when it is fixed
+        let is_theta_fixed = matches!(self.theta_tuning(), ThetaTuning::Fixed(_));
+        let n_theta = if is_theta_fixed { 0 } else { theta0.len() };
+        let n = n_theta + 1 + is_noise_estimated as usize;
         let mut params_0 = Array1::zeros(n);
         params_0
-            .slice_mut(s![..n - 1 - is_noise_estimated as usize])
-            .assign(&theta0);
+            .slice_mut(s![..n_theta])
+            .assign(&theta0.slice(s![..n_theta]));
         params_0[n - 1 - is_noise_estimated as usize] = sigma2_0;
         if is_noise_estimated {
             // noise variance is estimated, noise0 is initial_guess
@@ -531,7 +534,11 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
             )
             .unwrap();
 
-            let theta = input.slice(s![..input.len() - 1 - is_noise_estimated as usize]);
+            let theta = if is_theta_fixed {
+                theta0.view()
+            } else {
+                input.slice(s![..n_theta])
+            };
             let sigma2 = input[input.len() - 1 - is_noise_estimated as usize];
             let noise = if is_noise_estimated {
                 input[input.len() - 1]
@@ -559,17 +566,25 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         // let mut bounds = vec![(F::cast(1e-16).log10(), F::cast(1.).log10()); params.ncols()];
         // Initial guess for theta
         let bounds_dim = bounds.len();
-        let bounds = if bounds_dim == 1 {
-            vec![bounds[0]; params_0.len()]
-        } else if theta0_dim == params_0.len() {
-            bounds.to_vec()
+        let start_bounds = if is_theta_fixed {
+            let (lo, up) = ThetaTuning::<F>::DEFAULT_BOUNDS;
+            (F::cast(lo), F::cast(up))
+        } else {
+            bounds[0]
+        };
+        let mut bounds = if bounds_dim == 1 {
+            vec![bounds[0]; n_theta]
+        } else if bounds_dim == w_star.ncols() {
+            bounds.slice(s![..n_theta]).to_vec()
         } else {
             panic!(
                 "Bounds for theta should be either 1-dim or dim of xtrain ({}), got {}",
                 w_star.ncols(),
-                theta0_dim
+                bounds_dim
             )
         };
+        // range where variances are initialized
+        bounds.resize(n, start_bounds);
 
         let (theta_inits, mut bounds) = prepare_multistart(self.n_start(), &params_0, &bounds);
 
@@ -610,9 +625,11 @@ impl<F: Float, Corr: CorrelationModel<F>, D: Data<Elem = F> + Sync>
         debug!("elapsed optim = {:?}", now.elapsed().as_millis());
         let opt_params = opt_params.1.mapv(|v| F::cast(base.powf(v)));
 
-        let opt_theta = opt_params
-            .slice(s![..n - 1 - is_noise_estimated as usize])
-            .to_owned();
+        let opt_theta = if is_theta_fixed {
+            theta0.to_owned()
+        } else {
+            opt_params.slice(s![..n_theta]).to_owned()
+        };
         let opt_sigma2 = opt_params[n - 1 - is_noise_estimated as usize];
         let opt_noise = if is_noise_estimated {
             opt_params[n - 1]
-- 
2.43.0


From a47bfb348206e421ac78c66578d109e7fb81a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 29/40] fix: expand a one-component fixed hyperparameter to the
 input dimension

---
 crates/gp/src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/gp/src/algorithm.rs b/crates/gp/src/algorithm.rs
index 65d0179..c1ea5e8 100644
--- a/crates/gp/src/algorithm.rs
+++ b/crates/gp/src/algorithm.rs
@@ -809,9 +809,9 @@ impl<F: Float, Mean: RegressionModel<F>, Corr: CorrelationModel<F>, D: Data<Elem
         let fx = self.mean().value(&xtrain.data);
 
         let opt_params = match self.theta_tuning() {
-            ThetaTuning::Fixed(init) => {
+            ThetaTuning::Fixed(_) => {
                 // Easy path no optimization
-                init.to_owned()
+                theta0.to_owned()
             }
             ThetaTuning::Full { init: _, bounds }
             | ThetaTuning::Partial {
-- 
2.43.0


From 890f6dcacd1bbfe427fd3e25bb685a867a289e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 30/40] fix: call function constraints with complete points in
 the user space

---
 crates/ego/src/solver/solver_computations.rs | 29 ++++++++++----------
 crates/ego/src/solver/solver_impl.rs         | 20 ++++----------
 crates/ego/src/solver/solver_infill_optim.rs | 24 ++++++++++++++++
 3 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 18c0e27..e14c603 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -492,6 +492,19 @@ where
             .expect("Objective evaluation")
     }
 
+    /// Return the given point as expected by user functions
+    pub(crate) fn to_user_space(&self, x: &[f64]) -> Vec<f64> {
+        if self.config.discrete() {
+            // We have to cast x to folded space as EgorSolver
+            // works internally in the continuous space while
+            // the constraint function expects discrete variable in folded space
+            let x = Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
+            to_discrete_space(&self.config.xtypes, &x).row(0).to_vec()
+        } else {
+            x.to_vec()
+        }
+    }
+
     /// Evaluate the constraints given as function at given x points
     pub fn eval_fcstrs(
         &self,
@@ -506,21 +519,7 @@ where
             .for_each(|mut r, xi| {
                 let cstr_vals = &fcstrs
                     .iter()
-                    .map(|cstr| {
-                        let xuser = if self.config.discrete() {
-                            let xary = xi.to_owned().insert_axis(Axis(0));
-                            // We have to cast x to folded space as EgorSolver
-                            // works internally in the continuous space while
-                            // the constraint function expects discrete variable in folded space
-                            to_discrete_space(&self.config.xtypes, &xary)
-                                .row(0)
-                                .into_owned();
-                            xary.into_iter().collect::<Vec<_>>()
-                        } else {
-                            xi.to_vec()
-                        };
-                        cstr(&xuser, None, &mut unused)
-                    })
+                    .map(|cstr| cstr(&self.to_user_space(&xi.to_vec()), None, &mut unused))
                     .collect::<Array1<_>>();
                 r.assign(cstr_vals)
             });
diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 231d4e1..4afa23b 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -2,7 +2,7 @@ use std::marker::PhantomData;
 
 use crate::errors::{EgoError, Result};
 use crate::find_best_result_index;
-use crate::gpmix::mixint::{as_continuous_limits, to_discrete_space};
+use crate::gpmix::mixint::as_continuous_limits;
 use crate::solver::solver_computations::MiddlePickerMultiStarter;
 use crate::solver::solver_infill_optim::InfillOptProblem;
 use crate::utils::{
@@ -738,19 +738,6 @@ where
                               gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            let x = if self.config.discrete() {
-                                let xary =
-                                    Array2::from_shape_vec((1, x.len()), x.to_vec()).unwrap();
-                                // We have to cast x to folded space as EgorSolver
-                                // works internally in the continuous space while
-                                // the constraint function expects discrete variable in folded space
-                                to_discrete_space(&self.config.xtypes, &xary)
-                                    .row(0)
-                                    .into_owned();
-                                &xary.into_iter().collect::<Vec<_>>()
-                            } else {
-                                x
-                            };
                             cstr(x, gradient, params) / scale_fc
                         }
                     })
@@ -784,7 +771,10 @@ where
 
                         let ck = cstr_funcs
                             .iter()
-                            .map(|cstr| cstr(&xk.to_vec(), None, &mut infill_data))
+                            .map(|cstr| {
+                                let x = self.to_user_space(&xk.to_vec());
+                                cstr(&x, None, &mut infill_data)
+                            })
                             .collect::<Vec<_>>();
                         c_dat = concatenate![
                             Axis(0),
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 31a4cd7..767b5ee 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -197,6 +197,30 @@ where
 
             // We merge metamodelized constraints and function constraints
             let mut cstr_refs: Vec<_> = cstrs.iter().map(|c| c.as_ref()).collect();
+            // Function constraints expect all the components in the user space
+            let cstr_funcs = cstr_funcs
+                .iter()
+                .map(|cstr| {
+                    let active = &active;
+                    move |x: &[f64],
+                          gradient: Option<&mut [f64]>,
+                          params: &mut InfillObjData<f64>|
+                          -> f64 {
+                        let mut xcoop = params.xbest.clone();
+                        coego::set_active_x(&mut xcoop, active, x);
+                        let xuser = self.to_user_space(&xcoop);
+
+                        if let Some(grad) = gradient {
+                            let mut g_cstr = vec![0.; xcoop.len()];
+                            let val = cstr(&xuser, Some(&mut g_cstr), params);
+                            std::iter::zip(grad, active).for_each(|(g, &i)| *g = g_cstr[i]);
+                            val
+                        } else {
+                            cstr(&xuser, None, params)
+                        }
+                    }
+                })
+                .collect::<Vec<_>>();
             let cstr_funcs = cstr_funcs
                 .iter()
                 .map(|cstr| cstr as &(dyn ObjFn<InfillObjData<f64>> + Sync))
-- 
2.43.0


From dda377ae75748ab7c797b5f09f41f7d1edd7149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 31/40] fix: scale function constraints gradient like the value

---
 crates/ego/src/solver/solver_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/solver/solver_impl.rs b/crates/ego/src/solver/solver_impl.rs
index 4afa23b..50e6294 100644
--- a/crates/ego/src/solver/solver_impl.rs
+++ b/crates/ego/src/solver/solver_impl.rs
@@ -735,10 +735,14 @@ where
                     .map(|(i, cstr)| {
                         let scale_fc = scale_fcstr[i];
                         move |x: &[f64],
-                              gradient: Option<&mut [f64]>,
+                              mut gradient: Option<&mut [f64]>,
                               params: &mut InfillObjData<f64>|
                               -> f64 {
-                            cstr(x, gradient, params) / scale_fc
+                            let val = cstr(x, gradient.as_deref_mut(), params);
+                            if let Some(grad) = gradient {
+                                grad.iter_mut().for_each(|g| *g /= scale_fc);
+                            }
+                            val / scale_fc
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From bf25c84f141bbf49548566c4d4de992226f3b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 32/40] fix: return CoEGO gradients in the order of active
 components

---
 crates/ego/src/solver/solver_computations.rs | 16 ++--------------
 crates/ego/src/solver/solver_infill_optim.rs |  8 +-------
 2 files changed, 3 insertions(+), 21 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index e14c603..676053e 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -208,13 +208,7 @@ where
                 .row(0)
                 .mapv(|v| v / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            std::iter::zip(grad, active).for_each(|(g, &i)| *g = grd[i]);
         }
         cstr_model.predict(&x.view()).unwrap()[0] / scale_cstr
     }
@@ -245,13 +239,7 @@ where
                 .row(0)
                 .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
                 .to_vec();
-            let grd_coop = grd
-                .iter()
-                .enumerate()
-                .filter(|(i, _)| active.contains(i))
-                .map(|(_, &g)| g)
-                .collect::<Vec<_>>();
-            grad[..].copy_from_slice(&grd_coop);
+            std::iter::zip(grad, active).for_each(|(g, &i)| *g = grd[i]);
         }
         (cstr_val + CSTR_DOUBT * sigma) / scale_cstr
     }
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index 767b5ee..ea594c8 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -112,13 +112,7 @@ where
                                 *scale_wb2,
                             )
                         };
-                        let g_infill_obj = g_infill_obj
-                            .iter()
-                            .enumerate()
-                            .filter(|(i, _)| active.contains(i))
-                            .map(|(_, &g)| g)
-                            .collect::<Vec<_>>();
-                        grad[..].copy_from_slice(&g_infill_obj);
+                        std::iter::zip(grad, &active).for_each(|(g, &i)| *g = g_infill_obj[i]);
                     }
                     if self.config.cstr_infill {
                         // Use constrained infill criterion
-- 
2.43.0


From 20ff4014d1520ab0f09bba87d7d4b18a3e2fca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 33/40] fix: apply sigma weight to the infill criterion
 gradient

---
 crates/ego/src/solver/solver_computations.rs | 44 +++++++++++++++-----
 crates/ego/src/solver/solver_infill_optim.rs |  1 +
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 676053e..6446625 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -370,13 +370,16 @@ where
         fmin: f64,
         scale: f64,
         scale_ic: f64,
+        sigma_weight: f64,
     ) -> Vec<f64> {
         let x_f = x.to_vec();
-        let grad =
-            -(self
-                .config
-                .infill_criterion
-                .grad(&x_f, obj_model, fmin, None, Some(scale_ic)));
+        let grad = -(self.config.infill_criterion.grad(
+            &x_f,
+            obj_model,
+            fmin,
+            Some(sigma_weight),
+            Some(scale_ic),
+        ));
         (grad / scale).to_vec()
     }
 
@@ -424,16 +427,30 @@ where
         sigma_weight: f64,
     ) -> Vec<f64> {
         if cstr_models.is_empty() {
-            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic)
+            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-                Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                Array1::from_vec(self.eval_grad_infill_obj(
+                    x,
+                    obj_model,
+                    fmin,
+                    scale,
+                    scale_ic,
+                    sigma_weight,
+                ))
             } else {
                 // when no feasible point is found, make the infill criterion gradient neutral factor
                 if self.config.infill_criterion.name() == "LogEI" {
                     Array1::zeros(x.len())
                 } else {
-                    Array1::from_vec(self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic))
+                    Array1::from_vec(self.eval_grad_infill_obj(
+                        x,
+                        obj_model,
+                        fmin,
+                        scale,
+                        scale_ic,
+                        sigma_weight,
+                    ))
                 }
             };
             if self.config.infill_criterion.name() == "LogEI" {
@@ -443,9 +460,14 @@ where
                 let (infill, infill_grad) = if feasibility {
                     (
                         self.eval_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight),
-                        Array1::from_vec(
-                            self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic),
-                        ),
+                        Array1::from_vec(self.eval_grad_infill_obj(
+                            x,
+                            obj_model,
+                            fmin,
+                            scale,
+                            scale_ic,
+                            sigma_weight,
+                        )),
                     )
                 } else {
                     // when no feasible point is found, make the grad infill criterion value neutral factor
diff --git a/crates/ego/src/solver/solver_infill_optim.rs b/crates/ego/src/solver/solver_infill_optim.rs
index ea594c8..757ec58 100644
--- a/crates/ego/src/solver/solver_infill_optim.rs
+++ b/crates/ego/src/solver/solver_infill_optim.rs
@@ -110,6 +110,7 @@ where
                                 *fmin,
                                 *scale_infill_obj,
                                 *scale_wb2,
+                                *sigma_weight,
                             )
                         };
                         std::iter::zip(grad, &active).for_each(|(g, &i)| *g = g_infill_obj[i]);
-- 
2.43.0


From 36b6d8722ea7a0a327923126f5c418c34b7faa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 34/40] fix: return a null infill gradient when the infill
 objective is neutral

---
 crates/ego/src/solver/solver_computations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 6446625..6c1315c 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -426,7 +426,7 @@ where
         feasibility: bool,
         sigma_weight: f64,
     ) -> Vec<f64> {
-        if cstr_models.is_empty() {
+        if cstr_models.is_empty() && feasibility {
             self.eval_grad_infill_obj(x, obj_model, fmin, scale, scale_ic, sigma_weight)
         } else {
             let infill_grad = if feasibility {
-- 
2.43.0


From 0d7aeb138651745bb64b97ea759e9ac730c3e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 35/40] fix: use each component of the variance gradient in the
 constraint trust bound

---
 crates/ego/src/solver/solver_computations.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/ego/src/solver/solver_computations.rs b/crates/ego/src/solver/solver_computations.rs
index 6c1315c..c3be5bc 100644
--- a/crates/ego/src/solver/solver_computations.rs
+++ b/crates/ego/src/solver/solver_computations.rs
@@ -231,13 +231,12 @@ where
         if let Some(grad) = gradient {
             let (pred_grad, var_grad) = cstr_model.predict_valvar_gradients(&x.view()).unwrap();
             let sigma_prime = if sigma < f64::EPSILON {
-                0.
+                Array1::zeros(x.ncols())
             } else {
-                var_grad[[0, 0]] / (2. * sigma)
+                var_grad.row(0).mapv(|v| v / (2. * sigma))
             };
-            let grd = pred_grad
-                .row(0)
-                .mapv(|v| (v + CSTR_DOUBT * sigma_prime) / scale_cstr)
+            let grd = (&pred_grad.row(0) + sigma_prime * CSTR_DOUBT)
+                .mapv(|v| v / scale_cstr)
                 .to_vec();
             std::iter::zip(grad, active).for_each(|(g, &i)| *g = grd[i]);
         }
-- 
2.43.0


From cdb74470d75ee06aecb1000ac73ca06282c3a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 36/40] fix: account for the tolerance in the probability of
 feasibility gradient

---
 crates/ego/src/utils/cstr_pof.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ego/src/utils/cstr_pof.rs b/crates/ego/src/utils/cstr_pof.rs
index 159439c..076bd20 100644
--- a/crates/ego/src/utils/cstr_pof.rs
+++ b/crates/ego/src/utils/cstr_pof.rs
@@ -39,8 +39,8 @@ fn pof_grad(x: &[f64], cstr_model: &dyn MixtureGpSurrogate, cstr_tol: f64) -> Ar
                 let y_prime = y_prime.row(0);
                 let sig_2_prime = var_prime.row(0);
                 let sig_prime = sig_2_prime.mapv(|v| v / (2. * sigma));
-                let arg_prime =
-                    y_prime.mapv(|v| v / (-sigma)) + sig_prime.mapv(|v| v * pred / (sigma * sigma));
+                let arg_prime = y_prime.mapv(|v| v / (-sigma))
+                    + sig_prime.mapv(|v| v * (pred - cstr_tol) / (sigma * sigma));
                 norm_pdf(arg) * arg_prime.to_owned()
             }
         }
-- 
2.43.0


From 20728b7db155c87bc6c6937567d995a6b2be4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 37/40] fix: sample a single point with optimized and maximin
 LHS

---
 crates/doe/src/lhs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/doe/src/lhs.rs b/crates/doe/src/lhs.rs
index 9024687..9b82681 100644
--- a/crates/doe/src/lhs.rs
+++ b/crates/doe/src/lhs.rs
@@ -118,6 +118,9 @@ impl<F: Float, R: Rng> Lhs<F, R> {
     }
 
     fn _maximin_ese(&self, lhs: &Array2<F>, outer_loop: usize, inner_loop: usize) -> Array2<F> {
+        if lhs.nrows() < 2 {
+            return lhs.to_owned();
+        }
         // hard-coded params
         let j_range = 20;
         let p = F::cast(10.);
@@ -279,6 +282,9 @@ impl<F: Float, R: Rng> Lhs<F, R> {
         } else {
             self._classic_lhs(ns)
         };
+        if ns < 2 {
+            return lhs;
+        }
         let mut max_dist = *pdist(&lhs).min().unwrap();
         let mut lhs_maximin = lhs;
         for _ in 0..max_iters - 1 {
-- 
2.43.0


From 132dbcd388df5000941b3061fe888521355ded61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 38/40] fix: discard function constraints values when reading a
 DOE

---
 crates/ego/src/solver/egor_solver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_solver.rs b/crates/ego/src/solver/egor_solver.rs
index eeb9ba6..fbcf80f 100644
--- a/crates/ego/src/solver/egor_solver.rs
+++ b/crates/ego/src/solver/egor_solver.rs
@@ -217,8 +217,10 @@ where
             } else {
                 // split doe in x and y
                 info!("Use specified DOE {} samples", doe.nrows());
+                // a DOE saved with function constraints has their values in the last columns
+                let ny_end = (self.xlimits.nrows() + 1 + self.config.n_cstr).min(doe.ncols());
                 (
-                    doe.slice(s![.., self.xlimits.nrows()..]).to_owned(),
+                    doe.slice(s![.., self.xlimits.nrows()..ny_end]).to_owned(),
                     doe.slice(s![.., ..self.xlimits.nrows()]).to_owned(),
                 )
             }
-- 
2.43.0


From 7533da2dc355a10b42455f271f17049563925d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 39/40] fix: account for the first added point as last best
 iteration

---
 crates/ego/src/solver/egor_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ego/src/solver/egor_state.rs b/crates/ego/src/solver/egor_state.rs
index 5000eaa..5b3d615 100644
--- a/crates/ego/src/solver/egor_state.rs
+++ b/crates/ego/src/solver/egor_state.rs
@@ -470,7 +470,7 @@ where
             std::mem::swap(&mut self.prev_best_cost, &mut self.best_cost);
             self.best_cost = Some(cost);
 
-            if best_index > self.doe_size {
+            if best_index >= self.doe_size {
                 if let Some(prev_best_index) = self.prev_best_index
                     && best_index != prev_best_index
                 {
-- 
2.43.0


From d0c2daa4082dd5b27feb345e56287efa689c1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 40/40] fix: pass the evaluation budget and the tuning of each
 cluster to sparse experts

A mixture of sparse Gaussian processes ignored the configured max_eval and
trained each expert with the hyperparameter tuning of the first cluster.
---
 crates/moe/src/algorithm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/moe/src/algorithm.rs b/crates/moe/src/algorithm.rs
index 123e508..3bad2fc 100644
--- a/crates/moe/src/algorithm.rs
+++ b/crates/moe/src/algorithm.rs
@@ -332,8 +332,13 @@ impl GpMixtureValidParams<f64> {
                 expert_params.sparse_method(*sparse_method);
                 expert_params.seed(seed);
                 expert_params.n_start(self.n_start());
+                expert_params.max_eval(self.max_eval());
                 expert_params.kpls_dim(self.kpls_dim());
-                expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                if nc > 0 && self.theta_tunings().len() == 1 {
+                    expert_params.theta_tuning(self.theta_tunings()[0].clone());
+                } else {
+                    expert_params.theta_tuning(self.theta_tunings()[nc].clone());
+                }
                 debug!("Train best expert...");
                 expert_params.train(&xtrain.view(), &ytrain.view())
             }
-- 
2.43.0

