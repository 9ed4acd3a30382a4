From de83e2b33c3ba9dc923f4194186943c70ed62236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 01/18] fix: no product of two nodes in a model with fewer than
 two nodes

---
 annealers/src/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..cb07fda 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -313,6 +313,9 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			Some(ret)
 		} else if self.indices.len() == 1 {
 			self.indices = vec![0, 1];
+			if self.size < 2 {
+				return None;
+			}
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[1] += 1;
 			Some(ret)
-- 
2.43.0


From e0df0faa0f513de35b754514c9cdeeab280379f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 02/18] fix: do not read uninitialised bytes in BinaryRepr

---
 annealers/src/repr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 6b320f7..2088776 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -22,9 +22,10 @@ impl BinaryRepr {
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
 		let size = (len + BYTESIZE - 1) / BYTESIZE;
-		let mut v = Vec::with_capacity(size);
-		v.set_len(size);
-		Self { state: v, len }
+		Self {
+			state: vec![0; size],
+			len,
+		}
 	}
 
 	pub fn from_vec(v: &[bool]) -> Self {
-- 
2.43.0


From 1fb9774c468e76ff662bb4dac23257955e2e4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 03/18] fix: lower bound of the default value range

---
 annealers/src/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..6eba631 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -59,7 +59,7 @@ pub trait SolverGenerator<'a, ProblemType: ModelView> {
 
 	fn value_range(&self) -> (get_real_typ!(ProblemType), get_real_typ!(ProblemType)) {
 		(
-			<get_real_typ!(ProblemType)>::MAX,
+			<get_real_typ!(ProblemType)>::MIN,
 			<get_real_typ!(ProblemType)>::MAX,
 		)
 	}
-- 
2.43.0


From 095ed6a5b8630f9c82f6a85a5e64ad981c64f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 04/18] fix: UnstructuredEdgeIter panicked when polled after
 its end

---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 6eba631..b6214bd 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From 6698d57c5ec5e3e6fe193821b7cd87ad18d28459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 05/18] fix: out-of-bounds read for models whose node numbers
 exceed their size

---
 classical_solver/src/algo.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..967397a 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -6,7 +6,7 @@ use annealers::variable::Real;
 use rand::prelude::*;
 
 #[inline]
-unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
+fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	node: &M,
 	prod: &S,
 	state: &BinaryRepr,
@@ -16,11 +16,11 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 		if i == index {
 			p
 		} else {
-			p * node.get_value(state.get_unchecked(i))
+			p * node.get_value(state.get(i))
 		}
 	});
 	let d = node.get_value(false) - node.get_value(true);
-	if state.get_unchecked(index) {
+	if state.get(index) {
 		d * term
 	} else {
 		-d * term
@@ -45,7 +45,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	for prod in model.prods() {
 		let weight = model.get_weight(&prod);
 		for i in prod.iter() {
-			energy_diffs[i] += unsafe { calculate_flip_cost(node, &prod, &state, i) } * weight;
+			energy_diffs[i] += calculate_flip_cost(node, &prod, &state, i) * weight;
 		}
 	}
 	for beta in beta_schedule.iter() {
@@ -69,7 +69,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 							let weight = model.get_weight(&neigh);
 							for j in neigh.iter() {
 								if i != j {
-									if stat != unsafe { state.get_unchecked(j) } {
+									if stat != state.get(j) {
 										energy_diffs[j] += dd * weight;
 									} else {
 										energy_diffs[j] -= dd * weight;
-- 
2.43.0


From 81ce107955d67e11febbdb4bda9d9b98e3e31a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 06/18] fix: flip costs of products with more than two nodes

---
 classical_solver/src/algo.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 967397a..a2a7b62 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -69,10 +69,15 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 							let weight = model.get_weight(&neigh);
 							for j in neigh.iter() {
 								if i != j {
+									// values of the other nodes in the product
+									let rest = neigh
+										.iter()
+										.filter(|k| *k != i && *k != j)
+										.fold(R::one(), |p, k| p * node.get_value(state.get(k)));
 									if stat != state.get(j) {
-										energy_diffs[j] += dd * weight;
+										energy_diffs[j] += dd * weight * rest;
 									} else {
-										energy_diffs[j] -= dd * weight;
+										energy_diffs[j] -= dd * weight * rest;
 									}
 								}
 							}
-- 
2.43.0


From ac5182c78794db5dffcad62cb96e9e4467ae4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 07/18] fix: beta schedule of one step was NaN

---
 classical_solver/src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..7d51f8b 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -78,7 +78,7 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count.max(2) as f64 - 1.0);
 	(0..count)
 		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
 		.collect()
-- 
2.43.0


From 5deb7ab7d10ec2126af69d7d2a8d6cc2b2896d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 08/18] fix: Expr::feed_dict did not reach constraints and
 penalties

---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..f67f5d7 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 04e9c616c5c33a0338c5a245d511a080fe456c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 09/18] fix: assignment operators swapped in an all-zero Expr

---
 src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index f67f5d7..67f8f0b 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,6 @@ use crate::wrapper::Placeholder;
 use crate::{TcType, TpType, TqType};
 use annealers::variable::{ConvertFrom, Real};
 use std::collections::{BTreeSet, HashMap};
-use std::mem::MaybeUninit;
 use std::ops::{Add, AddAssign, BitXor, BitXorAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 
 // TODO: hide the implementation from public
@@ -424,11 +423,8 @@ macro_rules! impl_assign_op {
 		{
 			#[inline]
 			fn $fun(&mut self, other: $rhs) {
-				let mut inner = unsafe { MaybeUninit::zeroed().assume_init() };
-				std::mem::swap(self, &mut inner);
-				let mut outer = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
-				std::mem::swap(self, &mut outer);
-				std::mem::forget(outer);
+				let inner = std::mem::replace(self, Expr::Number(R::from_i32(0)));
+				*self = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
 			}
 		}
 	};
-- 
2.43.0


From a61fb69577b121930c923c228e2bafff8befb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 10/18] fix: constraint strength of integer models was
 truncated to zero

---
 src/solve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..7359c9b 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,7 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						R::from_f64(*cnt as f64 * self.coeff_strength.as_f64() / size as f64)
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 188e567514496be52bfa45ceef0f874326f4c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 11/18] fix: order reduction left auxiliary qubits
 unconstrained

---
 src/compiled.rs |  6 ++++++
 src/expr.rs     | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..d2a6ebe 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,17 +202,23 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut strength = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						strength.extend(expanded.values().map(|e| e.abs_bound()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
 					new_expanded += expanded;
 				}
+				if let Some(constraint) = &constraint {
+					// Breaking the constraint changes the replaced terms by at most their strength
+					new_expanded += constraint.clone() * StaticExpr::Add(strength).simplify();
+				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
 					self.constraints
diff --git a/src/expr.rs b/src/expr.rs
index 67f8f0b..78c1f0d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -624,6 +624,16 @@ where
 		}
 	}
 
+	/// Upper bound of the absolute value (placeholders are not negative)
+	pub(crate) fn abs_bound(&self) -> Self {
+		match self {
+			Self::Placeholder(p) => Self::Placeholder(p.clone()),
+			Self::Add(v) => Self::Add(v.iter().map(|item| item.abs_bound()).collect()),
+			Self::Mul(v) => Self::Mul(v.iter().map(|item| item.abs_bound()).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 6e00316ad9d6f53807eb9670e68625e7a54dc8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 12/18] fix: derive no beta range from a model without non-zero
 weights

All weights zero made the range infinite and the schedule NaN.
---
 classical_solver/src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 7d51f8b..d7f5e5b 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -47,7 +47,7 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 				.sum()
 		})
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
-	if eg_max.is_finite() && eg_min.is_finite() {
+	if eg_max.is_finite() && eg_min.is_finite() && eg_min.as_f64() > 0.0 {
 		(
 			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
 			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
-- 
2.43.0


From 854b3a85ed98b015b29ec16478da3fb4e383afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 13/18] fix: nan_or is NaN for floating-point types

The literal arm of impl_nan_or never matched the forwarded expr fragment.
---
 annealers/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..2913a46 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From f70eb408e8a373fec5ca719effcaf69f0eb3d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 14/18] fix: the structured wrapper keeps the value range of
 the wrapped solver

---
 annealers/src/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index b6214bd..b835526 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -103,6 +103,9 @@ impl<'a, G: UnstructuredSolverGenerator<'a, P>, P: ModelView> SolverGenerator<'a
 {
 	type SolverType = G::SolverType;
 	type ErrorType = G::ErrorType;
+	fn value_range(&self) -> (get_real_typ!(P), get_real_typ!(P)) {
+		self.0.value_range()
+	}
 	fn generate(&self, model: &'a P) -> Result<Self::SolverType, Self::ErrorType> {
 		self.0.generate(model)
 	}
-- 
2.43.0


From 055ef53f434014780d5c7d20407ea45ba1d0e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 15/18] fix: local field of an unknown label panicked

---
 src/solution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solution.rs b/src/solution.rs
index 92c72e0..9fe729c 100644
--- a/src/solution.rs
+++ b/src/solution.rs
@@ -28,7 +28,8 @@ impl<Tq: TqType, R: Real> SolutionView<Tq, R> {
 	}
 
 	pub fn local_field(&self, q: &Tq) -> Option<R> {
-		self.0.local_field.as_ref().map(|v| v[self.1[q]])
+		let i = *self.1.get(q)?;
+		self.0.local_field.as_ref().map(|v| v[i])
 	}
 
 	pub fn keys(&self) -> impl Iterator<Item = &Tq> {
-- 
2.43.0


From 5ad261e610f5e3cba8bb3a3ca98d906e47a2f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 16/18] fix: choose the lowest sample by its exact energy

---
 src/solve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 7359c9b..2feb1de 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -174,13 +174,13 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
+				let min = fut_ret
 					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
+					.fold(R::nan_or(R::MAX), |m, v| v.energy.unwrap().min(m));
 				assert!(min.is_finite());
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
+					.filter(|r| r.energy.unwrap() == min)
 					.next()
 					.unwrap();
 				let energy = sol.energy.unwrap();
-- 
2.43.0


From a68751aadf3379f88e35f225d1a90aac0c42283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 17/18] fix: the number of weights of a fixed model must not
 overflow

---
 annealers/src/model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index cb07fda..47b794c 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -224,11 +224,17 @@ pub struct FixedSingleQuadricModel<NodeType: SingleNode> {
 
 impl<M: SingleNode> FixedSingleQuadricModel<M> {
 	pub fn new(node: M, size: usize) -> Self {
+		// unchecked accesses rely on the number of weights, so it must not overflow
+		let count = size
+			.checked_add(1)
+			.and_then(|n| n.checked_mul(size))
+			.expect("size is too large")
+			/ 2;
 		Self {
 			size,
 			node,
 			matrix: std::iter::repeat(<M::RealType as Default>::default())
-				.take(size * (size + 1) / 2)
+				.take(count)
 				.collect(),
 		}
 	}
-- 
2.43.0


From 4135ff8774109fcfe5793b4fe229452efcbad961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 18/18] fix: the number of bytes of a bit vector must not
 overflow

---
 annealers/src/repr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 2088776..3165137 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -21,7 +21,8 @@ impl BinaryRepr {
 	/// Given len is less than len()
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
-		let size = (len + BYTESIZE - 1) / BYTESIZE;
+		// `len + BYTESIZE - 1` would overflow for the largest lengths
+		let size = len / BYTESIZE + (len % BYTESIZE != 0) as usize;
 		Self {
 			state: vec![0; size],
 			len,
-- 
2.43.0

