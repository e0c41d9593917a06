From a9d915490de2d26a6fe0e3e7a29c3ad352794f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 1/4] fix: do not panic on a bundle whose rk is the identity

An action whose rk encoding is all zeroes parses, and then made the verifier
panic while it computed the public inputs of the proof.  The circuit represents
the identity as (0, 0), as is already done for cv_net.
---
 src/circuit.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..4a22cd0 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -840,14 +840,17 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
+        // The encoding of `rk` may be that of the identity, which has no affine
+        // coordinates and which the circuit represents as (0, 0).
         let rk = pallas::Point::from_bytes(&self.rk.clone().into())
             .unwrap()
             .to_affine()
-            .coordinates()
-            .unwrap();
+            .coordinates();
+        let (rk_x, rk_y) = Option::from(rk.map(|c| (*c.x(), *c.y())))
+            .unwrap_or((pallas::Base::zero(), pallas::Base::zero()));
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+        instance[RK_X] = rk_x;
+        instance[RK_Y] = rk_y;
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0


From bdb34639b7cd02c990e5b382e6be06dbeddb9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 2/4] Add model-checking hooks behind cfg(orchard_mc)

With the cfg off nothing changes. With it on, a harness can combine the private
inputs of two circuits and read the public inputs as field elements.
---
 src/circuit.rs    |  2 ++
 src/circuit/mc.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)
 create mode 100644 src/circuit/mc.rs

diff --git a/src/circuit.rs b/src/circuit.rs
index 4a22cd0..9c8ffd0 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -60,6 +60,8 @@ use halo2_gadgets::{
 };
 
 mod commit_ivk;
+#[cfg(orchard_mc)]
+mod mc;
 pub mod gadget;
 mod note_commit;
 
diff --git a/src/circuit/mc.rs b/src/circuit/mc.rs
new file mode 100644
index 0000000..c65f209
--- /dev/null
+++ b/src/circuit/mc.rs
@@ -0,0 +1,33 @@
+//! Access for an external model checker; compiled only with `--cfg orchard_mc`.
+
+use pasta_curves::pallas;
+
+use super::{Circuit, Instance};
+
+impl Circuit {
+    /// Returns this circuit with the private inputs selected by `mask` taken from `other`.
+    ///
+    /// This models a prover that is not bound by the constructors of [`Circuit`]. The bits
+    /// of `mask` select the private inputs in the order in which they are listed here.
+    pub fn mc_mix(&self, other: &Circuit, mask: u32) -> Circuit {
+        let mut c = self.clone();
+        let on = |i: u32| mask & (1 << i) != 0;
+        macro_rules! take {
+            ($($i:expr => $f:ident),*) => { $( if on($i) { c.$f = other.$f.clone(); } )* };
+        }
+        take!(
+            0 => path, 1 => pos, 2 => g_d_old, 3 => pk_d_old, 4 => v_old, 5 => rho_old,
+            6 => psi_old, 7 => rcm_old, 8 => cm_old, 9 => alpha, 10 => ak, 11 => nk,
+            12 => rivk, 13 => g_d_new, 14 => pk_d_new, 15 => v_new, 16 => psi_new,
+            17 => rcm_new, 18 => rcv
+        );
+        c
+    }
+}
+
+impl Instance {
+    /// Returns the public inputs as the proving system sees them.
+    pub fn mc_columns(&self) -> Vec<pallas::Base> {
+        self.to_halo2_instance()[0].to_vec()
+    }
+}
-- 
2.43.0


From 416c8893af076b2ed5a155862f1ce4688b06a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 3/4] fix: name outputs in the message for disabled outputs

---
 src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 37bdc38..7e30cf5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -145,7 +145,9 @@ impl Display for BuildError {
                 f.write_str("Bundle structure did not conform to requested bundle type.")
             }
             SpendsDisabled => f.write_str("Spends are not enabled for the requested bundle type."),
-            OutputsDisabled => f.write_str("Spends are not enabled for the requested bundle type."),
+            OutputsDisabled => {
+                f.write_str("Outputs are not enabled for the requested bundle type.")
+            }
             AnchorMismatch => {
                 f.write_str("All spends must share the anchor requested for the transaction.")
             }
-- 
2.43.0


From d8bf0eedbaddd880f0800efa5239773d83006ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 4/4] fix: report an invalid child index as such

---
 src/zip32.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zip32.rs b/src/zip32.rs
index 31f318b..59062c1 100644
--- a/src/zip32.rs
+++ b/src/zip32.rs
@@ -27,7 +27,10 @@ pub enum Error {
 
 impl fmt::Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "Seed produced invalid spending key.")
+        match self {
+            Error::InvalidSpendingKey => write!(f, "Seed produced invalid spending key."),
+            Error::InvalidChildIndex(i) => write!(f, "Child index {} is out of range.", i),
+        }
     }
 }
 
-- 
2.43.0

