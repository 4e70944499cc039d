From 2abdfe7022ea68cd47c1ef79d375f2b9a154bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:25 +0000
Subject: [PATCH 01/44] fix: total order on expressions, consistent with
 equality

Comparing undef with anything but a number (or with itself) recursed without
end, a sum and a product could each be the smaller one, and operands that are
equal up to their order compared as different.
---
 src/atom.rs | 119 ++++++++++++++++++++++++++++------------------------
 1 file changed, 65 insertions(+), 54 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 476d436..0b85778 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -180,16 +180,24 @@ impl PartialOrd for Atom {
     }
 }
 
-fn cmp_slice_rev(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
-    let args = lhs.iter().rev().zip(rhs.iter().rev());
-
-    for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
-        }
+/// compare the operands of two sums or two products, biggest operand first
+///
+/// the order in which the operands are stored is irrelevant, as it is for equality
+fn cmp_operands(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
+    fn sorted(args: &[Expr]) -> Vec<&Expr> {
+        let mut args: Vec<_> = args.iter().collect();
+        args.sort_unstable_by(|l, r| r.cmp(l));
+        args
+    }
+    sorted(lhs).cmp(&sorted(rhs))
+}
+/// compare a sum or product with something that is neither, as if that were
+/// a sum or product with a single operand
+fn cmp_operands_with(lhs: &[Expr], rhs: &Atom) -> cmp::Ordering {
+    match lhs.iter().max() {
+        Some(max) => max.atom().cmp(rhs).then(cmp::Ordering::Greater),
+        None => cmp::Ordering::Less,
     }
-
-    lhs.len().cmp(&rhs.len())
 }
 fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
@@ -218,52 +226,35 @@ impl Ord for Atom {
         }
 
         match (lhs, rhs) {
+            (A::Undef, A::Undef) => cmp::Ordering::Equal,
             (A::Var(l), A::Var(r)) => l.cmp(r),
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                cmp_slice_rev(lhs.args(), rhs.args())
-            }
-            (A::Pow(p1), A::Pow(p2)) => {
-                if p1.base() != p2.base() {
-                    p1.base().cmp(p2.base())
-                } else {
-                    p1.exponent().cmp(p2.exponent())
-                }
-            }
-            (A::Func(f1), A::Func(f2)) => {
-                let (n1, n2) = (f1.name(), f2.name());
-                if n1 != n2 {
-                    n1.cmp(&n2)
-                } else {
-                    cmp_slice(f1.args(), f2.args())
-                }
-            }
-            (A::Prod(_) | A::Sum(_), _) => {
-                if lhs.n_args() == 0 {
-                    cmp::Ordering::Less
-                } else if lhs.args().last().unwrap().atom() != rhs {
-                    lhs.args().last().unwrap().atom().cmp(rhs)
-                } else {
-                    cmp::Ordering::Greater
-                }
-            }
-            (A::Pow(p), _) => {
-                if p.base().atom() != rhs {
-                    p.base().atom().cmp(rhs)
-                } else {
-                    p.exponent().atom().cmp(&A::ONE)
-                }
-            }
-            (A::Func(f), A::Var(v)) => {
-                let n = f.name();
-                if n == *v.0 {
-                    cmp::Ordering::Greater
-                } else {
-                    n.as_str().cmp(&v.0)
-                }
-            }
-            (_, _) => {
-                rhs.cmp(lhs).reverse()
+                cmp_operands(lhs.args(), rhs.args())
             }
+            (A::Pow(p1), A::Pow(p2)) => cmp_slice(p1.args(), p2.args()),
+            (A::Func(f1), A::Func(f2)) => f1
+                .name()
+                .cmp(&f2.name())
+                .then_with(|| cmp_slice(f1.args(), f2.args())),
+
+            // products, then sums, then powers: the other side is viewed as one
+            // with a single operand (or the exponent 1), and comes first if equal
+            (A::Prod(_), _) => cmp_operands_with(lhs.args(), rhs),
+            (_, A::Prod(_)) => rhs.cmp(lhs).reverse(),
+            (A::Sum(_), _) => cmp_operands_with(lhs.args(), rhs),
+            (_, A::Sum(_)) => rhs.cmp(lhs).reverse(),
+            (A::Pow(p), _) => p
+                .base()
+                .atom()
+                .cmp(rhs)
+                .then_with(|| p.exponent().atom().cmp(&A::ONE))
+                .then(cmp::Ordering::Greater),
+            (_, A::Pow(_)) => rhs.cmp(lhs).reverse(),
+
+            (A::Func(f), A::Var(v)) => f.name().as_str().cmp(&v.0).then(cmp::Ordering::Greater),
+            (A::Var(_), A::Func(_)) => rhs.cmp(lhs).reverse(),
+            (A::Undef, _) => cmp::Ordering::Less,
+            (_, _) => cmp::Ordering::Greater,
         }
     }
 }
@@ -481,7 +472,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, Hash, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -506,6 +497,16 @@ impl fmt::Debug for Sum {
     }
 }
 
+impl PartialOrd for Sum {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Sum {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        cmp_operands(&self.args, &other.args)
+    }
+}
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
@@ -560,7 +561,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[derive(Clone, Hash, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -585,6 +586,16 @@ impl fmt::Debug for Prod {
     }
 }
 
+impl PartialOrd for Prod {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+impl Ord for Prod {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        cmp_operands(&self.args, &other.args)
+    }
+}
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-- 
2.43.0


From f89bb57ba2f1ebe9c58d0f2e225735a4397ceb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 02/44] fix: hash sums and products independent of operand
 order

Two equal expressions could hash differently, so the hash sets and maps keyed by
expressions held duplicates.
---
 src/atom.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 0b85778..736e867 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -199,6 +199,16 @@ fn cmp_operands_with(lhs: &[Expr], rhs: &Atom) -> cmp::Ordering {
         None => cmp::Ordering::Less,
     }
 }
+/// hash the operands of a sum or product, independent of the order they are stored in
+fn hash_operands<H: hash::Hasher>(args: &[Expr], state: &mut H) {
+    let sum = args.iter().fold(0u64, |sum, a| {
+        let mut hasher = fxhash::FxHasher::default();
+        hash::Hash::hash(a, &mut hasher);
+        sum.wrapping_add(hash::Hasher::finish(&hasher))
+    });
+    state.write_usize(args.len());
+    state.write_u64(sum);
+}
 fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
     let args = lhs.iter().zip(rhs.iter());
 
@@ -472,7 +482,7 @@ impl Func {
     }
 }
 
-#[derive(Clone, Hash, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Sum {
     pub args: Vec<Expr>,
 }
@@ -507,6 +517,11 @@ impl Ord for Sum {
         cmp_operands(&self.args, &other.args)
     }
 }
+impl hash::Hash for Sum {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_operands(&self.args, state)
+    }
+}
 impl Eq for Sum {}
 impl PartialEq for Sum {
     fn eq(&self, other: &Self) -> bool {
@@ -561,7 +576,7 @@ impl Sum {
     }
 }
 
-#[derive(Clone, Hash, Serialize, Deserialize)]
+#[derive(Clone, Serialize, Deserialize)]
 pub struct Prod {
     pub args: Vec<Expr>,
 }
@@ -596,6 +611,11 @@ impl Ord for Prod {
         cmp_operands(&self.args, &other.args)
     }
 }
+impl hash::Hash for Prod {
+    fn hash<H: hash::Hasher>(&self, state: &mut H) {
+        hash_operands(&self.args, state)
+    }
+}
 impl Eq for Prod {}
 impl PartialEq for Prod {
     fn eq(&self, other: &Self) -> bool {
-- 
2.43.0


From 89646b052263b05797c63781237639a60074a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 03/44] fix: compare numbers exactly

Distinct rationals with the same floating point approximation compared as equal.
---
 src/atom.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 736e867..2d4adcb 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -285,8 +285,14 @@ impl PartialOrd for Real {
 }
 impl Ord for Real {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        use ordered_float::OrderedFloat;
-        OrderedFloat(self.f64_approx()).cmp(&OrderedFloat(other.f64_approx()))
+        match (self, other) {
+            (Real::Rational(l), Real::Rational(r)) => l.cmp(r),
+            (Real::Irrational(l), Real::Irrational(r)) => l.cmp(r),
+            (Real::Rational(l), Real::Irrational(r)) => {
+                l.cmp(&r.lower_bound()).then(cmp::Ordering::Less)
+            }
+            (Real::Irrational(_), Real::Rational(_)) => other.cmp(self).reverse(),
+        }
     }
 }
 
@@ -344,6 +350,15 @@ impl Irrational {
             Irrational::PI => std::f64::consts::PI,
         }
     }
+
+    /// the 36 digit truncation
+    fn lower_bound(&self) -> Rational {
+        let digits: i128 = match self {
+            Irrational::E => 2_718281828459045235360287471352662497,
+            Irrational::PI => 3_141592653589793238462643383279502884,
+        };
+        Rational::new(digits, 10i128.pow(36))
+    }
 }
 
 #[derive(
-- 
2.43.0


From 5c1dd8eb051afd326c0eb5cdf8a3f0f33d7aea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 04/44] fix: sort the terms of a sum by a total order

The order used for terms was cyclic (a*b before a*d before c before a*b), which
left like terms uncollected.
---
 src/algos.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index fe78334..2bbe8c2 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -84,11 +84,7 @@ impl Sum {
     }
 
     fn cmp_args(lhs: &Expr, rhs: &Expr) -> cmp::Ordering {
-        match (lhs.atom(), rhs.atom()) {
-            (Atom::Prod(p1), Atom::Prod(p2)) => p1.cmp(p2),
-            (Atom::Var(a), Atom::Var(b)) => a.cmp(b),
-            _ => rhs.cmp(lhs),
-        }
+        lhs.cmp(rhs)
     }
 
     fn add_sorted(lhs: &Expr, rhs: &Expr) -> Sum {
-- 
2.43.0


From 3357f2c4ff838182f39ec2a8eca4a96919324462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 05/44] fix: divide the numerator by the denominator in
 Rational::div_rem

The operands were swapped, so (a + b)^(3/2) expanded to a + b.
---
 src/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index afb1547..8518ff8 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -402,7 +402,7 @@ impl Rational {
         let denom = self.denom();
         let num = self.numer();
         //let (num, den) = self.0.to_numerator_and_denominator();
-        let (quot, rem) = num::integer::div_rem(denom, num);
+        let (quot, rem) = num::integer::div_rem(num, denom);
         //let (quot, rem) = marith::DivRem::div_rem(num, den);
         (Self::new_int(quot), Self::new(rem, denom))
 
-- 
2.43.0


From 8b80fdf84c163b6254e9fbfea3cdca4a5ee8d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 06/44] fix: powers of rationals that cannot be calculated
 exactly

The remaining exponent of a fractional power lost its denominator, and raising
an integer to a power that does not fit panicked instead of staying a power.
---
 src/algos.rs    | 8 ++++++--
 src/rational.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 2bbe8c2..de98b68 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -776,8 +776,12 @@ impl Expr {
         match (base.atom(), exponent.atom()) {
             (A::Rational(b), A::Rational(e)) if b.is_int() && e.is_int() => {
                 let (pow, rem) = b.clone().pow(e.clone());
-                assert!(rem.is_zero());
-                Expr::from(pow)
+                if rem.is_zero() {
+                    Expr::from(pow)
+                } else {
+                    // too big to be calculated
+                    Expr::pow_raw(base, exponent)
+                }
             }
             (A::Pow(pow), A::Rational(e)) if e.is_int() => {
                 Expr::pow(pow.base(), exponent * pow.exponent())
diff --git a/src/rational.rs b/src/rational.rs
index 8518ff8..a7a28cb 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -459,7 +459,7 @@ impl Rational {
             let denom = rhs.denom();
             let (quot, rem) = num::integer::div_rem(numer, denom); //marith::DivRem::div_rem(num, den);
                                                                    //let rem_exp = Self(mal::Rational::from(rem));
-            let rem_exp = Self::new_int(rem);
+            let rem_exp = Self::new(rem, denom);
             if let Ok(apply_exp) = usize::try_from(quot) {
                 if let Some(pow) = num::checked_pow(self.0, apply_exp) {
                     return (Self(pow), rem_exp);
-- 
2.43.0


From 51924f9090dbe965ff05990653447f50d207a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 07/44] fix: 1/x has the numerator 1 in try_as_div

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 2d4adcb..53ef2b0 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -974,7 +974,7 @@ impl Expr {
 
     pub fn try_as_div(&self) -> Option<(Expr, Expr)> {
         if self.is_pow() && self.exponent().is_min_one() {
-            Some((Expr::min_one(), self.base().clone()))
+            Some((Expr::one(), self.base().clone()))
         } else if self.is_prod() {
             Some(
                 self.iter_args()
-- 
2.43.0


From 4b035e05bc0543e0762746fdf7e384ce48cc54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 08/44] fix: contract_trig no longer adds 1 to expanded
 products

The terms of a sum were folded starting from one instead of zero.
---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index de98b68..23456a5 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1477,7 +1477,7 @@ fn contract_trig_arg(e: &Expr) -> Expr {
             }
         }
 
-        Atom::Sum(s) => s.iter_args().fold(Expr::one(), |lhs, rhs| {
+        Atom::Sum(s) => s.iter_args().fold(Expr::zero(), |lhs, rhs| {
             if rhs.is_prod() || rhs.is_pow() {
                 lhs + contract_trig_arg(rhs)
             } else {
-- 
2.43.0


From 8b5d2f965e8e590efb672a0e57bbde198505466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 09/44] fix: contract_trig leaves powers of anything but sin
 and cos alone

Any positive integer power (x^2) and any other power of sin or cos panicked.
---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 23456a5..417640d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1498,7 +1498,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
     let f = p.base();
     let n = p.exponent();
 
-    if !(n.is_int() && n.is_pos()) && !(f.is_sin() || f.is_cos()) {
+    if !(n.is_int() && n.is_pos() && (f.is_sin() || f.is_cos())) {
         return p.clone();
     }
 
-- 
2.43.0


From 74b81af84bbbb03d1f5ca6af702fcc7b732eff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:34 +0000
Subject: [PATCH 10/44] fix: rationalize sums with an undefined term

The common denominator of undef is undef, never one: the recursion did not end.
---
 src/algos.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 417640d..f5314ce 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1051,6 +1051,9 @@ impl Expr {
 
     /// a/b + c/d -> (ad + cb) / (bd)
     fn rationalize_add(lhs: &Self, rhs: &Self) -> Expr {
+        if lhs.is_undef() || rhs.is_undef() {
+            return Expr::undef();
+        }
         let a = lhs.numerator();
         let b = lhs.denominator();
         let c = rhs.numerator();
-- 
2.43.0


From 15948597dcccf62ca694c1c58e5535cfbf34a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 11/44] fix: functions in variables() and in the monomial check

Both panicked with todo!(); a function is a generalized variable of its own, and
part of a coefficient if it is free of the variables.
---
 src/atom.rs       | 4 +++-
 src/polynomial.rs | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 53ef2b0..ecc832e 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1106,7 +1106,9 @@ impl Expr {
                 }
                 vars.insert(self.clone());
             }
-            A::Func(_) => todo!(),
+            A::Func(_) => {
+                vars.insert(self.clone());
+            }
         }
     }
 
diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9ca0afa..c9b0952 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -179,7 +179,7 @@ impl<'a> MonomialView<'a> {
 
         match self.monom.atom() {
             A::Undef => return false,
-            A::Irrational(_) | A::Rational(_) | A::Var(_) | A::Sum(_) => (),
+            A::Irrational(_) | A::Rational(_) | A::Var(_) | A::Sum(_) | A::Func(_) => (),
             A::Prod(Prod { args }) => {
                 for a in args {
                     if !a.as_monomial_view(self.vars).check() {
@@ -197,7 +197,6 @@ impl<'a> MonomialView<'a> {
                 }
                 _ => (),
             },
-            A::Func(_) => todo!(),
         }
         self.monom.free_of_set(self.vars.iter())
     }
-- 
2.43.0


From 440aedc9e6f3c7797ae9d3cac7503f093b606c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 12/44] fix: a sum that is itself the variable has degree 1 in
 it

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index c9b0952..59cd5b2 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -335,7 +335,7 @@ impl<'a> PolynomialView<'a> {
         if let A::Sum(Sum { args }) = self.poly.atom() {
             if self.vars.has(self.poly) {
                 let v = self.poly;
-                coeffs.insert([(v.clone(), 0)].into(), Expr::one());
+                coeffs.insert([(v.clone(), 1)].into(), Expr::one());
                 return coeffs;
             }
 
-- 
2.43.0


From fb1a3cc13cca181f892e2344060975f8c9c4cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 13/44] fix: the order of the factors does not distinguish
 monomials

x*y and y*x were kept apart as different monomials by coeffs and collect_terms.
---
 src/polynomial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 59cd5b2..9c7920f 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -96,10 +96,10 @@ impl VarPow {
     }
 
     fn mul(&mut self, v: GVar, d: Degree) {
-        if let Some(degree) = self.find_mut(&v) {
-            *degree += d;
-        } else {
-            self.var_deg.push((v, d))
+        // sorted, so that x*y and y*x have the same variable part
+        match self.var_deg.binary_search_by(|(var, _)| var.cmp(&v)) {
+            Ok(i) => self.var_deg[i].1 += d,
+            Err(i) => self.var_deg.insert(i, (v, d)),
         }
     }
 
-- 
2.43.0


From faba392113231855de6c368f248a3703041938ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:10 +0000
Subject: [PATCH 14/44] fix: coefficients of one variable among several

coeffs_of dropped the powers of the other variables, and all terms without v but
with another variable.
---
 src/polynomial.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 9c7920f..e5e9f6a 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -95,6 +95,11 @@ impl VarPow {
             .fold(Expr::one(), |prod, var| prod * var)
     }
 
+    fn remove(&mut self, v: &GVar) -> Option<Degree> {
+        let i = self.var_deg.iter().position(|(var, _)| var == v)?;
+        Some(self.var_deg.remove(i).1)
+    }
+
     fn mul(&mut self, v: GVar, d: Degree) {
         // sorted, so that x*y and y*x have the same variable part
         match self.var_deg.binary_search_by(|(var, _)| var.cmp(&v)) {
@@ -306,14 +311,10 @@ impl<'a> PolynomialView<'a> {
     }
 
     pub fn coeffs_of(&self, v: &GVar) -> HashMap<Degree, Coeff> {
-        let coeff = self.coeffs().into_iter().filter_map(|(d, c)| {
-            if let Some(d) = d.degree_of(v) {
-                Some((d.clone(), c))
-            } else if d.is_const() {
-                Some((0, c))
-            } else {
-                None
-            }
+        // everything but the power of v belongs to the coefficient
+        let coeff = self.coeffs().into_iter().map(|(mut vars, c)| {
+            let deg = vars.remove(v).unwrap_or(0);
+            (deg, c * vars.as_expr())
         });
 
         let mut res = HashMap::default();
-- 
2.43.0


From 6466317e71ebf4bc3f6729734a87006850c741c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 15/44] fix: collect_terms of a single monomial

It returned None for a monomial and the input for anything else.
---
 src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index e5e9f6a..f70394e 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -375,9 +375,9 @@ impl<'a> PolynomialView<'a> {
         } else {
             // self.poly != A::Sum(_)
             if self.poly.as_monomial_view(self.vars).check() {
-                return None;
-            } else {
                 return Some(self.poly.clone());
+            } else {
+                return None;
             }
         };
 
-- 
2.43.0


From 9fff40bfb87699091c16f53f3d9d280e9a8b3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 16/44] fix: check agrees with coeff on powers of monomials

(x*y)^2 has a coefficient and a degree in x and y, but was no monomial.
---
 src/polynomial.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f70394e..f8e24ad 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -193,12 +193,10 @@ impl<'a> MonomialView<'a> {
                 }
                 return true;
             }
-            A::Pow(pow) => match (pow.base(), pow.exponent().atom()) {
-                (base, A::Rational(r))
-                    // TODO: negative exponent?
-                    if self.vars.has(base) && r.is_int() && r >= &Rational::ONE =>
-                {
-                    return true;
+            A::Pow(pow) => match pow.exponent().atom() {
+                // TODO: negative exponent?
+                A::Rational(r) if r.is_int() && r >= &Rational::ONE => {
+                    return pow.base().as_monomial_view(self.vars).check();
                 }
                 _ => (),
             },
-- 
2.43.0


From 80a62a089360a9e9f046482646ea7c4c05b1d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 17/44] fix: expand of a fractional power of a sum

With the quotient and remainder of the exponent in the right order,
multiplying base^1 by base^(1/2) collects the power again and expanding
that product recursed forever.
---
 src/algos.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index f5314ce..1fe5ea5 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -564,10 +564,13 @@ impl Pow {
             }
             (A::Sum(sum), A::Rational(r)) if r > &Rational::ONE && sum.args.len() > 1 => {
                 let (div, rem) = r.div_rem();
-                return expand_mul(
-                    &expand_pow(self.base(), &Expr::from(div)),
-                    &expand_pow(self.base(), &Expr::from(rem)),
-                );
+                let lhs = expand_pow(self.base(), &Expr::from(div));
+                let rhs = expand_pow(self.base(), &Expr::from(rem));
+                if recurse {
+                    // a plain product would collect the two powers again
+                    return Prod::expand_mul(&lhs, &rhs);
+                }
+                return expand_mul(&lhs, &rhs);
             }
             (A::Prod(_), _) => {
                 return self
-- 
2.43.0


From ea59cb52c47a31f9aea0f3e43fccf0f3a26c0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 18/44] fix: reduce absorbs undef in functions and after powers
 of pi and e

undef * pi * pi reduced to pi^2 * undef (while pi * pi * undef reduced to
undef), and sin(undef) stayed sin(undef).
---
 src/atom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index ecc832e..0ee0126 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1327,7 +1327,8 @@ impl SymbolicExpr for Prod {
         let mut prod = Prod::reduce_rec(&self.args);
         if prod.is_one() {
             Expr::one()
-        } else if prod.is_undef() {
+        } else if prod.args.iter().any(|a| a.is_undef()) {
+            // undef is not always the first operand, (pi^2) * undef
             Expr::undef()
         } else if prod.args.len() == 1 {
             prod.args.remove(0)
@@ -1397,6 +1398,9 @@ impl SymbolicExpr for Func {
 
         //let mut e = self.clone();
         let e = self.clone().map_args(|a| *a = a.reduce());
+        if e.args().iter().any(|a| a.is_undef()) {
+            return Expr::undef();
+        }
         match e {
             F::Sin(x) => {
                 if x.is_zero() {
-- 
2.43.0


From 4158bd2d3c2676e86a422ea2ec7f223b779fe757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 19/44] fix: reduce of a product with a power of a product
 panicked

2*y * (2*y)^-1: merging the operands multiplied 2 with (2*y)^-1, which
splits the power, and the result was neither of the two operands
("Illegal reduction").
---
 src/algos.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 1fe5ea5..a35afce 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -324,6 +324,14 @@ impl Prod {
         if Self::cmp_args(lhs, rhs).is_ge() {
             std::mem::swap(&mut lhs, &mut rhs)
         }
+        let is_pow_of_prod = |e: &Expr| e.is_pow() && e.base().is_prod();
+        if !lhs.is_one() && !lhs.is_zero() && (is_pow_of_prod(lhs) || is_pow_of_prod(rhs)) {
+            // the result has to be one of the two or both, a power of a
+            // product can not be split here
+            return Prod {
+                args: vec![lhs.clone(), rhs.clone()],
+            };
+        }
         let mut mul = Prod::one();
         mul.mul_rhs(&lhs);
         mul.mul_rhs(&rhs);
-- 
2.43.0


From ab693fd0bc879ad934c721e852e626cbe5c7d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 20/44] fix: reduce collects the powers of a factor next to a
 sum

x^-1 < x + 1 < x^2, so in x^-1 * (x + 1) * x^2 the powers of x were not
neighbours and stayed uncollected for some orders of the factors.  Compare
powers before sums: everything is viewed as a power.
---
 src/atom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 0ee0126..42f634f 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -247,12 +247,10 @@ impl Ord for Atom {
                 .cmp(&f2.name())
                 .then_with(|| cmp_slice(f1.args(), f2.args())),
 
-            // products, then sums, then powers: the other side is viewed as one
+            // products, then powers, then sums: the other side is viewed as one
             // with a single operand (or the exponent 1), and comes first if equal
             (A::Prod(_), _) => cmp_operands_with(lhs.args(), rhs),
             (_, A::Prod(_)) => rhs.cmp(lhs).reverse(),
-            (A::Sum(_), _) => cmp_operands_with(lhs.args(), rhs),
-            (_, A::Sum(_)) => rhs.cmp(lhs).reverse(),
             (A::Pow(p), _) => p
                 .base()
                 .atom()
@@ -260,6 +258,8 @@ impl Ord for Atom {
                 .then_with(|| p.exponent().atom().cmp(&A::ONE))
                 .then(cmp::Ordering::Greater),
             (_, A::Pow(_)) => rhs.cmp(lhs).reverse(),
+            (A::Sum(_), _) => cmp_operands_with(lhs.args(), rhs),
+            (_, A::Sum(_)) => rhs.cmp(lhs).reverse(),
 
             (A::Func(f), A::Var(v)) => f.name().as_str().cmp(&v.0).then(cmp::Ordering::Greater),
             (A::Var(_), A::Func(_)) => rhs.cmp(lhs).reverse(),
-- 
2.43.0


From 4db7594f48bc80721aef7d02c1e99f881d6924fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 21/44] fix: reduce distributes integer powers over products

y * (x*y)^-1 stayed as it was, but twice that became 2 * x^-1 and like
terms were left uncollected.
---
 src/atom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/atom.rs b/src/atom.rs
index 42f634f..6372414 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1380,6 +1380,11 @@ impl SymbolicExpr for Pow {
                 pow.args[1] *= self.exponent();
                 pow.reduce()
             }
+            // (a * b)^n = a^n * b^n
+            (A::Prod(prod), A::Rational(e)) if e.is_int() => prod
+                .clone()
+                .map_args(|a| *a = Expr::pow(&*a, self.exponent()).reduce())
+                .reduce(),
             _ => A::Pow(self.clone()).into(),
         }
     }
-- 
2.43.0


From 3b143e6e00f305928bc62b3a9d5f5cee4d97ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 22/44] fix: numeric coefficients sort before pi and e

Ordered by value, 4 came after pi (and pi before e^x, away from e):
2*2*pi reduced to pi*4 in one order of the factors and to 4*pi in another,
and 2 * (pi*4) kept both numbers.
---
 src/atom.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 6372414..fb41c23 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -226,18 +226,16 @@ impl Ord for Atom {
         use Atom as A;
         let (lhs, rhs) = (self, other);
 
-        let (r1, r2) = (lhs.try_as_real(), rhs.try_as_real());
-        if let (Some(l), Some(r)) = (&r1, &r2) {
-            return l.cmp(r);
-        } else if r1.is_some() {
-            return cmp::Ordering::Less
-        } else if r2.is_some() {
-            return cmp::Ordering::Greater
-        }
-
         match (lhs, rhs) {
             (A::Undef, A::Undef) => cmp::Ordering::Equal,
+            (A::Rational(l), A::Rational(r)) => l.cmp(r),
+            (A::Irrational(l), A::Irrational(r)) => l.cmp(r),
             (A::Var(l), A::Var(r)) => l.cmp(r),
+
+            // the numeric coefficient comes before everything else
+            (A::Rational(_), _) => cmp::Ordering::Less,
+            (_, A::Rational(_)) => cmp::Ordering::Greater,
+
             (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
                 cmp_operands(lhs.args(), rhs.args())
             }
@@ -263,6 +261,8 @@ impl Ord for Atom {
 
             (A::Func(f), A::Var(v)) => f.name().as_str().cmp(&v.0).then(cmp::Ordering::Greater),
             (A::Var(_), A::Func(_)) => rhs.cmp(lhs).reverse(),
+            (A::Irrational(_), _) => cmp::Ordering::Less,
+            (_, A::Irrational(_)) => cmp::Ordering::Greater,
             (A::Undef, _) => cmp::Ordering::Less,
             (_, _) => cmp::Ordering::Greater,
         }
-- 
2.43.0


From a92772f2955ff192a59dadf7613eeb32e662c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 23/44] fix: reduce the exponent of a nested power

(x^(2*y))^(1/2) reduced to x^(1*y).
---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index fb41c23..b911b60 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1377,7 +1377,7 @@ impl SymbolicExpr for Pow {
             //TODO: rule?
             (A::Pow(pow), _) => {
                 let mut pow = pow.clone();
-                pow.args[1] *= self.exponent();
+                pow.args[1] = (pow.exponent() * self.exponent()).reduce();
                 pow.reduce()
             }
             // (a * b)^n = a^n * b^n
-- 
2.43.0


From b82aaca0a820a7b36d4e589eb860068de1ad20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 24/44] fix: reduce of like terms that collect to a sum

1/2*(x+1) + 1/2*(x+1) + 1/x panicked ("Illegal reduction") and with a
number or an x left the terms of x + 1 uncollected.
---
 src/algos.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index a35afce..d2a6fc7 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -108,17 +108,17 @@ impl Sum {
         }
 
         match lhs.atom() {
-            Atom::Sum(sum) => {
-                let mut sum = sum.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    sum.add_rhs(&a);
-                });
-                sum
-            }
+            Atom::Sum(sum) => Sum::merge_args(&sum.args, &rhs.args),
             _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
+                if let Some(first) = rhs.args.first() {
+                    // rhs may start with what a collected term was made of,
+                    // 1/2 + (1 + x)
+                    let h = Sum::reduce_rec(&[lhs.clone(), first.clone()]).args;
+                    if h.len() != 2 || &h[0] != lhs || &h[1] != first {
+                        return Sum::merge_args(slice::from_ref(lhs), &rhs.args);
+                    }
+                }
+                rhs.args.insert(0, lhs.clone());
                 rhs
             }
         }
@@ -166,7 +166,8 @@ impl Sum {
                     // println!("  merge_args2: {p:?} (+) {q_rest:?} -> {rhs:?}");
                     rhs
                 } else {
-                    panic!("Illegal reduction: {q:?} + {p:?} -> h")
+                    // p1 and q1 are like terms and were collected to a sum
+                    return Sum::merge_args(&h, &Sum::merge_args(p_rest, q_rest).args);
                 };
 
                 // println!("flat_merge: {:?} (+) {:?}", h[0], rhs);
@@ -200,8 +201,11 @@ impl Sum {
             {
                 //} else if lhs.term() == rhs.term() && lhs.term().is_some() {
                 let e = lhs.rational_coeff().unwrap() + rhs.rational_coeff().unwrap();
-                Sum {
-                    args: vec![(Expr::from(e) * lhs.non_rational_term().unwrap()).reduce()],
+                let term = (Expr::from(e) * lhs.non_rational_term().unwrap()).reduce();
+                match term.atom() {
+                    // 1/2 * (a + b) + 1/2 * (a + b)
+                    Atom::Sum(sum) => sum.clone(),
+                    _ => Sum { args: vec![term] },
                 }
             } else {
                 Sum::add_sorted(lhs, rhs)
-- 
2.43.0


From 48741094d1039d3385f87cde40fdc97e617df500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 25/44] fix: reduce of powers that collect to a product

(x*y)^(1/2) * (x*y)^(1/2) * pi panicked ("Illegal reduction"), and with
an x the factors of x*y were left uncollected.
---
 src/algos.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index d2a6fc7..519a143 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -428,17 +428,17 @@ impl Prod {
             return rhs;
         }
         match lhs.atom() {
-            Atom::Prod(prod) => {
-                let mut prod = prod.clone();
-                rhs.args.into_iter().for_each(|a| {
-                    prod.mul_rhs(&a);
-                });
-                prod
-            }
+            Atom::Prod(prod) => Prod::merge_args(&prod.args, &rhs.args),
             _ => {
-                let mut res = vec![lhs.clone()];
-                res.append(&mut rhs.args);
-                rhs.args = res;
+                if let Some(first) = rhs.args.first() {
+                    // rhs may start with what a collected power was made of,
+                    // 1/2 * (2 * x)
+                    let h = Prod::reduce_rec(&[lhs.clone(), first.clone()]).args;
+                    if h.len() != 2 || &h[0] != lhs || &h[1] != first {
+                        return Prod::merge_args(slice::from_ref(lhs), &rhs.args);
+                    }
+                }
+                rhs.args.insert(0, lhs.clone());
                 rhs
             }
         }
@@ -482,7 +482,8 @@ impl Prod {
                     //assert!(q1 == &h[0], "{:?} != {:?}", q1, h[0]);
                     Prod::merge_args(p, q_rest)
                 } else {
-                    panic!("Illegal reduction: {q:?} * {p:?} -> h")
+                    // p1 and q1 are powers that were collected to a product
+                    return Prod::merge_args(&h, &Prod::merge_args(p_rest, q_rest).args);
                 };
 
                 Prod::flat_merge(&h[0], rhs)
@@ -520,8 +521,11 @@ impl Prod {
                 res
             } else if lhs.base() == rhs.base() {
                 let e = (lhs.exponent() + rhs.exponent()).reduce();
-                Prod {
-                    args: vec![Expr::pow(lhs.base(), e).reduce()],
+                let pow = Expr::pow(lhs.base(), e).reduce();
+                match pow.atom() {
+                    // (a * b)^(1/2) * (a * b)^(1/2)
+                    Atom::Prod(prod) => prod.clone(),
+                    _ => Prod { args: vec![pow] },
                 }
             } else {
                 let mut lhs = lhs.clone();
-- 
2.43.0


From 54ca67c925d8a2753b2e7e08dc8fe06b110aa925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 26/44] fix: 0 / 0 is undefined

x / 0 is, but equal operands were divided to 1 before looking at them.
---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 519a143..6cfd6ed 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -718,7 +718,7 @@ impl Expr {
     pub fn div(lhs: impl Borrow<Expr>, rhs: impl Borrow<Expr>) -> Expr {
         let (lhs, rhs) = (lhs.borrow(), rhs.borrow());
 
-        if lhs.is_undef() || rhs.is_undef() {
+        if lhs.is_undef() || rhs.is_undef() || rhs.is_zero() {
             Expr::undef()
         } else if lhs == rhs {
             Expr::one()
-- 
2.43.0


From d57bcabc4318fc67a4aa4118c23131a76c5f7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 27/44] fix: derivative of the first power of zero

---
 src/algos.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6cfd6ed..ed8fc3d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -855,6 +855,10 @@ impl Expr {
             A::Pow(pow) => {
                 let v = pow.base();
                 let w = pow.exponent();
+                if w.is_one() {
+                    // v^(w - 1) is not defined for v = 0
+                    return v.derivative(x);
+                }
                 // d(v^w)/dx = w * v^(w - 1) * dv/dx + dw/dx * v^w * ln(v)
                 w * Expr::pow(v, w - Expr::one()) * v.derivative(x)
                     + w.derivative(x) * Expr::pow(v, w) * Expr::ln(v)
-- 
2.43.0


From e4cc51cb09fc02152240eebf2d1cca5807283b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 28/44] fix: common factors with an empty sum or product

---
 src/algos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index ed8fc3d..34d7a2b 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1144,7 +1144,7 @@ impl Expr {
                 let (y, (b, u)) = Self::factorize_common_terms(&by, &uy);
                 (x * y, (a * b, u))
             }
-            (_, A::Prod(_)) => {
+            (_, A::Prod(prod)) if !prod.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
@@ -1187,7 +1187,7 @@ impl Expr {
                 //println!("");
                 (xy, (a * b + &c * d, ua * c))
             }
-            (_, A::Sum(_)) => {
+            (_, A::Sum(sum)) if !sum.args.is_empty() => {
                 let (fac, (r, l)) = Self::factorize_common_terms(rhs, lhs);
                 (fac, (l, r))
             }
-- 
2.43.0


From 3079d41452a76a1f0e18c69abda9dee1f57514f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 29/44] fix: numerator and denominator of negative powers

---
 src/atom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index b911b60..baa8f7e 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -921,7 +921,7 @@ impl Expr {
             A::Undef => self.clone(),
             A::Rational(r) => r.numer().into(),
             A::Pow(pow) => {
-                if pow.exponent().is_min_one() {
+                if pow.exponent().is_neg() {
                     Expr::one()
                 } else {
                     self.clone()
@@ -940,8 +940,8 @@ impl Expr {
             A::Undef => self.clone(),
             A::Rational(r) => r.denom().into(),
             A::Pow(pow) => {
-                if pow.exponent().is_min_one() {
-                    pow.base().clone()
+                if pow.exponent().is_neg() {
+                    Expr::pow(pow.base(), Expr::min_one() * pow.exponent())
                 } else {
                     Expr::one()
                 }
-- 
2.43.0


From 047a6bf45d8595574464cb6b57549b5cfbb6672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 30/44] fix: contract_trig of products with odd powers

---
 src/algos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 34d7a2b..68a87d3 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1608,7 +1608,7 @@ fn contract_trig_pow(p: &Expr) -> Expr {
             _ => unreachable!(),
         }
     };
-    func().unwrap_or(p.clone())
+    func().map_or(p.clone(), |e| e.expand_main_op())
 }
 fn contract_trig_prod(p: &[Expr]) -> Expr {
     if p.is_empty() {
-- 
2.43.0


From 5184f282fa518c1f16a74dcc1189f58cc9625dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 31/44] fix: compare expressions in polynomial time

---
 src/atom.rs | 120 ++++++++++++++++++++++++++++------------------------
 1 file changed, 64 insertions(+), 56 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index baa8f7e..710bbb0 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -180,53 +180,50 @@ impl PartialOrd for Atom {
     }
 }
 
-/// compare the operands of two sums or two products, biggest operand first
+/// an expression with the operands of all its sums and products sorted, biggest first
 ///
-/// the order in which the operands are stored is irrelevant, as it is for equality
-fn cmp_operands(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
-    fn sorted(args: &[Expr]) -> Vec<&Expr> {
-        let mut args: Vec<_> = args.iter().collect();
+/// The order in which operands are stored is irrelevant for comparisons. This sorts
+/// every sum and product once, instead of again at every level of a comparison.
+struct Sorted<'a> {
+    atom: &'a Atom,
+    args: Vec<Sorted<'a>>,
+}
+
+impl<'a> Sorted<'a> {
+    fn new(atom: &'a Atom) -> Self {
+        let args = match atom {
+            Atom::Sum(_) | Atom::Prod(_) => Self::operands(atom.args()),
+            _ => atom.args().iter().map(|a| Self::new(a.atom())).collect(),
+        };
+        Sorted { atom, args }
+    }
+    fn operands(args: &'a [Expr]) -> Vec<Self> {
+        let mut args: Vec<_> = args.iter().map(|a| Self::new(a.atom())).collect();
         args.sort_unstable_by(|l, r| r.cmp(l));
         args
     }
-    sorted(lhs).cmp(&sorted(rhs))
 }
-/// compare a sum or product with something that is neither, as if that were
-/// a sum or product with a single operand
-fn cmp_operands_with(lhs: &[Expr], rhs: &Atom) -> cmp::Ordering {
-    match lhs.iter().max() {
-        Some(max) => max.atom().cmp(rhs).then(cmp::Ordering::Greater),
-        None => cmp::Ordering::Less,
+
+impl PartialEq for Sorted<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other).is_eq()
     }
 }
-/// hash the operands of a sum or product, independent of the order they are stored in
-fn hash_operands<H: hash::Hasher>(args: &[Expr], state: &mut H) {
-    let sum = args.iter().fold(0u64, |sum, a| {
-        let mut hasher = fxhash::FxHasher::default();
-        hash::Hash::hash(a, &mut hasher);
-        sum.wrapping_add(hash::Hasher::finish(&hasher))
-    });
-    state.write_usize(args.len());
-    state.write_u64(sum);
-}
-fn cmp_slice(lhs: &[Expr], rhs: &[Expr]) -> cmp::Ordering {
-    let args = lhs.iter().zip(rhs.iter());
-
-    for (l, r) in args {
-        if !l.cmp(r).is_eq() {
-            return l.cmp(r)
-        }
+impl Eq for Sorted<'_> {}
+impl PartialOrd for Sorted<'_> {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.cmp(other))
     }
-
-    lhs.len().cmp(&rhs.len())
 }
-
-impl Ord for Atom {
+impl Ord for Sorted<'_> {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
         use Atom as A;
         let (lhs, rhs) = (self, other);
+        if std::ptr::eq(lhs.atom, rhs.atom) {
+            return cmp::Ordering::Equal;
+        }
 
-        match (lhs, rhs) {
+        match (lhs.atom, rhs.atom) {
             (A::Undef, A::Undef) => cmp::Ordering::Equal,
             (A::Rational(l), A::Rational(r)) => l.cmp(r),
             (A::Irrational(l), A::Irrational(r)) => l.cmp(r),
@@ -236,27 +233,30 @@ impl Ord for Atom {
             (A::Rational(_), _) => cmp::Ordering::Less,
             (_, A::Rational(_)) => cmp::Ordering::Greater,
 
-            (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) => {
-                cmp_operands(lhs.args(), rhs.args())
+            (A::Prod(_), A::Prod(_)) | (A::Sum(_), A::Sum(_)) | (A::Pow(_), A::Pow(_)) => {
+                lhs.args.cmp(&rhs.args)
             }
-            (A::Pow(p1), A::Pow(p2)) => cmp_slice(p1.args(), p2.args()),
             (A::Func(f1), A::Func(f2)) => f1
                 .name()
                 .cmp(&f2.name())
-                .then_with(|| cmp_slice(f1.args(), f2.args())),
+                .then_with(|| lhs.args.cmp(&rhs.args)),
 
             // products, then powers, then sums: the other side is viewed as one
             // with a single operand (or the exponent 1), and comes first if equal
-            (A::Prod(_), _) => cmp_operands_with(lhs.args(), rhs),
+            (A::Prod(_), _) => match lhs.args.first() {
+                Some(max) => max.cmp(rhs).then(cmp::Ordering::Greater),
+                None => cmp::Ordering::Less,
+            },
             (_, A::Prod(_)) => rhs.cmp(lhs).reverse(),
-            (A::Pow(p), _) => p
-                .base()
-                .atom()
+            (A::Pow(_), _) => lhs.args[0]
                 .cmp(rhs)
-                .then_with(|| p.exponent().atom().cmp(&A::ONE))
+                .then_with(|| lhs.args[1].cmp(&Sorted::new(&A::ONE)))
                 .then(cmp::Ordering::Greater),
             (_, A::Pow(_)) => rhs.cmp(lhs).reverse(),
-            (A::Sum(_), _) => cmp_operands_with(lhs.args(), rhs),
+            (A::Sum(_), _) => match lhs.args.first() {
+                Some(max) => max.cmp(rhs).then(cmp::Ordering::Greater),
+                None => cmp::Ordering::Less,
+            },
             (_, A::Sum(_)) => rhs.cmp(lhs).reverse(),
 
             (A::Func(f), A::Var(v)) => f.name().as_str().cmp(&v.0).then(cmp::Ordering::Greater),
@@ -268,6 +268,22 @@ impl Ord for Atom {
         }
     }
 }
+/// hash the operands of a sum or product, independent of the order they are stored in
+fn hash_operands<H: hash::Hasher>(args: &[Expr], state: &mut H) {
+    let sum = args.iter().fold(0u64, |sum, a| {
+        let mut hasher = fxhash::FxHasher::default();
+        hash::Hash::hash(a, &mut hasher);
+        sum.wrapping_add(hash::Hasher::finish(&hasher))
+    });
+    state.write_usize(args.len());
+    state.write_u64(sum);
+}
+
+impl Ord for Atom {
+    fn cmp(&self, other: &Self) -> cmp::Ordering {
+        Sorted::new(self).cmp(&Sorted::new(other))
+    }
+}
 
 #[derive(Clone, PartialEq, Eq, Hash, Debug, Display, From, Serialize, Deserialize)]
 #[from(forward)]
@@ -529,7 +545,7 @@ impl PartialOrd for Sum {
 }
 impl Ord for Sum {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        cmp_operands(&self.args, &other.args)
+        Sorted::operands(&self.args).cmp(&Sorted::operands(&other.args))
     }
 }
 impl hash::Hash for Sum {
@@ -544,11 +560,7 @@ impl PartialEq for Sum {
             return false;
         }
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        self.cmp(other).is_eq()
     }
 }
 
@@ -623,7 +635,7 @@ impl PartialOrd for Prod {
 }
 impl Ord for Prod {
     fn cmp(&self, other: &Self) -> cmp::Ordering {
-        cmp_operands(&self.args, &other.args)
+        Sorted::operands(&self.args).cmp(&Sorted::operands(&other.args))
     }
 }
 impl hash::Hash for Prod {
@@ -638,11 +650,7 @@ impl PartialEq for Prod {
             return false;
         }
 
-        let mut largs = self.args.clone();
-        largs.sort();
-        let mut rargs = other.args.clone();
-        rargs.sort();
-        largs == rargs
+        self.cmp(other).is_eq()
     }
 }
 
-- 
2.43.0


From 70e3ae541bdda750c4065dffd3eec352ad5abb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 32/44] fix: seq_substitude does not search the replacement

---
 src/algos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 68a87d3..c541656 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1287,10 +1287,13 @@ impl Expr {
     {
         let mut res = self.clone();
         subs.into_iter().for_each(|(from, to)| {
-            res.for_each_compl_sub_expr(|sub_expr| {
+            res.try_for_each_compl_sub_expr(|sub_expr| {
                 if sub_expr == from {
+                    // the replacement itself is not searched
                     *sub_expr = to.clone();
+                    return ops::ControlFlow::Break(());
                 }
+                ops::ControlFlow::Continue(())
             });
         });
         res
-- 
2.43.0


From dc153d6678608adc66e2d6abf5f95e6e3f4e902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 33/44] fix: 0 / undef is undefined in div_raw

---
 src/algos.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index c541656..beb15ea 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -761,6 +761,11 @@ impl Expr {
         Atom::Prod(prod).into()
     }
     pub fn div_raw(lhs: impl Borrow<Expr>, rhs: impl Borrow<Expr>) -> Expr {
+        let rhs = rhs.borrow();
+        if rhs.is_undef() {
+            // 0 / undef
+            return Expr::undef();
+        }
         let min_one = Expr::min_one();
         let one_div_rhs = Expr::pow_raw(rhs, min_one);
         Expr::mul_raw(lhs, one_div_rhs)
-- 
2.43.0


From 795d5d74b85e77d9919eea4f8b0d82a2a1c0c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 34/44] fix: print a multiplication sign in front of a number

---
 src/sym_fmt.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sym_fmt.rs b/src/sym_fmt.rs
index d2bfcb3..d011348 100644
--- a/src/sym_fmt.rs
+++ b/src/sym_fmt.rs
@@ -443,12 +443,9 @@ impl fmt::Display for FmtAtom {
 pub fn implicit_prefix_mul(e: &FmtAtom) -> bool {
     use FmtAtom as F;
     match e {
-        F::Var(_)
-        | F::Rational(_)
-        | F::Irrational(_)
-        | F::Sum(_)
-        | F::Func(_, _)
-        | F::Pow(_, _) => true,
+        F::Var(_) | F::Irrational(_) | F::Sum(_) | F::Func(_, _) => true,
+        // the digits of a number would continue the number before it
+        F::Pow(b, _) => !b.is_rational(),
         _ => false,
     }
 }
-- 
2.43.0


From 4bc216da413c89ed7d440b57b99d68ac76dc0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 35/44] fix: a printed logarithm shows its argument

---
 src/atom.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/atom.rs b/src/atom.rs
index 710bbb0..ff671c0 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -394,7 +394,7 @@ impl Irrational {
 )]
 #[unwrap(ref)]
 #[try_unwrap(ref)]
-#[display("{}({_0})", self.name())]
+#[display("{}({})", self.name(), self.args()[0])]
 pub enum Func {
     Sin(Expr),
     ArcSin(Expr),
@@ -416,7 +416,6 @@ pub enum Func {
     ArcCsc(Expr),
 
     //Exp(Expr),
-    #[display("{}{_1}", self.name())]
     Log(Real, Expr),
 }
 
-- 
2.43.0


From 6ce7e7e2e0f2bd7e3af5636699dea498df7ef3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 36/44] fix: a fractional power is its own generalized variable

---
 src/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index ff671c0..791bf37 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1106,7 +1106,7 @@ impl Expr {
             }
             A::Pow(pow) => {
                 if let A::Rational(r) = pow.exponent().atom() {
-                    if r >= &Rational::ONE {
+                    if r.is_int() && r >= &Rational::ONE {
                         vars.insert(pow.base().clone());
                         return;
                     }
-- 
2.43.0


From 4f5ca621d89647d877fba6345d96702dc2fbc78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 37/44] fix: fractions that are read in are brought to lowest
 terms

---
 src/rational.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rational.rs b/src/rational.rs
index a7a28cb..9be8cc7 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -279,9 +279,19 @@ impl From<Int> for Rational {
 )]
 #[arith_ops(ref, self.0)]
 #[debug("{}", self.0)]
-pub struct Rational(pub(crate) num_rational::Ratio<Int>);
+pub struct Rational(
+    #[serde(deserialize_with = "lowest_terms")] pub(crate) num_rational::Ratio<Int>,
+);
 //pub struct Rational(pub(crate) mal::Rational);
 
+/// what is read in may be any fraction
+fn lowest_terms<'de, D>(d: D) -> Result<num_rational::Ratio<Int>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    num_rational::Ratio::deserialize(d).map(|r: num_rational::Ratio<Int>| r.reduced())
+}
+
 impl Rational {
     //pub const MINUS_TWO: Self = Rational(mal::Rational::const_from_signed(-2));
     //pub const MINUS_ONE: Self = Rational(mal::Rational::const_from_signed(-1));
-- 
2.43.0


From d22bf8b146aebcddfbc18afb1e72055e0b02b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 38/44] fix: a sign in expr! covers the power behind it

---
 macros/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e3c21b4..5dd0ce0 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -120,11 +120,13 @@ impl Expr {
         }
     }
 
-    fn parse_unary_expr(s: ParseStream) -> syn::Result<Expr> {
+    fn parse_unary_expr(s: ParseStream, prec_in: i32) -> syn::Result<Expr> {
         if let Ok(op) = Op::parse(s) {
             match op.kind {
                 OpKind::Sub => {
-                    let operand = Self::parse_operand(s)?;
+                    // -x^2 is -(x^2)
+                    let prec = prec_in.max(OpKind::Pow.precedence());
+                    let operand = Self::parse_bin_expr(s, prec)?;
                     Ok(if let Expr::Num(n) = operand {
                         Expr::Num(-1 * n)
                     } else {
@@ -142,7 +144,7 @@ impl Expr {
         }
     }
     fn parse_bin_expr(s: ParseStream, prec_in: i32) -> syn::Result<Expr> {
-        let mut expr = Self::parse_unary_expr(s)?;
+        let mut expr = Self::parse_unary_expr(s, prec_in)?;
         loop {
             if s.is_empty() {
                 break;
-- 
2.43.0


From ed9e576d2757851d810c0bd9d1606ae295cd8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 39/44] fix: dividing a power by itself leaves one, whatever
 its base

---
 src/algos.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index beb15ea..e1f117d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1202,13 +1202,15 @@ impl Expr {
                 {
                     let e = std::cmp::min(r1, r2).clone();
                     let b = rhs.base();
-                    (
-                        Expr::pow(&b, Expr::from(e.clone())),
-                        (
-                            Expr::pow(&b, Expr::from(r1.clone() - &e)),
-                            Expr::pow(&b, Expr::from(r2.clone() - e)),
-                        ),
-                    )
+                    // what is left of the power after dividing by b^e
+                    let rest = |r: &Rational| {
+                        if *r == e {
+                            Expr::one()
+                        } else {
+                            Expr::pow(&b, Expr::from(r.clone() - &e))
+                        }
+                    };
+                    (Expr::pow(&b, Expr::from(e.clone())), (rest(r1), rest(r2)))
                 }
                 _ => (Expr::one(), (lhs.clone(), rhs.clone())),
             },
-- 
2.43.0


From 262b74c686ca32ff0ca2c97edf865cb2250eb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 40/44] fix: the derivative of a sum of constants is zero

---
 src/algos.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index e1f117d..ca3d6bf 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -840,6 +840,9 @@ impl Expr {
                 args.iter()
                     .map(|a| a.derivative(x))
                     .for_each(|a| res.add_rhs(&a));
+                if res.args.is_empty() {
+                    return Expr::zero();
+                }
                 Atom::Sum(res).into()
             }
             A::Prod(prod) => {
-- 
2.43.0


From 09623a4b69f25e2132da4de7708450cbefa4ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 41/44] Guarded hook for calling the built-in functions of the
 rule language (cfg calcu_mc)

---
 src/rubi.rs | 71 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/rubi.rs b/src/rubi.rs
index b9e5cb8..b93b870 100644
--- a/src/rubi.rs
+++ b/src/rubi.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use crate::atom::{Atom, Expr, Real};
 use crate::rational::Rational;
 
@@ -471,3 +473,72 @@ impl WlfrmBuiltins {
     //TimeConstrained,
     }
 }
+
+/// Calls the built-in functions by name; only for the checks of these functions.
+#[cfg(calcu_mc)]
+pub mod mc {
+    use super::{Expr, WlfrmAtom, WlfrmBuiltins as B, WlfrmFuncArgs};
+
+    #[derive(Debug, Clone)]
+    pub enum Val {
+        None,
+        Bool(bool),
+        Expr(Expr),
+    }
+
+    impl From<Val> for WlfrmAtom {
+        fn from(v: Val) -> Self {
+            match v {
+                Val::None => WlfrmAtom::None,
+                Val::Bool(b) => WlfrmAtom::Bool(b),
+                Val::Expr(e) => WlfrmAtom::Expr(e),
+            }
+        }
+    }
+
+    pub fn call(name: &str, args: Vec<Val>) -> Option<Val> {
+        let args: Vec<WlfrmAtom> = args.into_iter().map(|a| a.into()).collect();
+        let args = match <[WlfrmAtom; 1]>::try_from(args) {
+            Ok([a]) => WlfrmFuncArgs::One(a),
+            Err(args) => match <[WlfrmAtom; 2]>::try_from(args) {
+                Ok(a) => WlfrmFuncArgs::Two(a),
+                Err(args) => match <[WlfrmAtom; 3]>::try_from(args) {
+                    Ok(a) => WlfrmFuncArgs::Three(a),
+                    Err(args) => WlfrmFuncArgs::Var(args),
+                },
+            },
+        };
+        let r = match name {
+            "FalseQ" => B::FalseQ(args),
+            "TrueQ" => B::TrueQ(args),
+            "IntegerQ" => B::IntegerQ(args),
+            "FractionQ" => B::FractionQ(args),
+            "NumberQ" => B::NumberQ(args),
+            "EvenQ" => B::EvenQ(args),
+            "OddQ" => B::OddQ(args),
+            "ProductQ" => B::ProductQ(args),
+            "SumQ" => B::SumQ(args),
+            "PowQ" => B::PowQ(args),
+            "AtomQ" => B::AtomQ(args),
+            "ComplexNumberQ" => B::ComplexNumberQ(args),
+            "Sin" => B::Sin(args),
+            "ArcSin" => B::ArcSin(args),
+            "Cos" => B::Cos(args),
+            "ArcCos" => B::ArcCos(args),
+            "Tan" => B::Tan(args),
+            "ArcTan" => B::ArcTan(args),
+            "Sqrt" => B::Sqrt(args),
+            "Log" => B::Log(args),
+            "Exp" => B::Exp(args),
+            "Not" => B::Not(args),
+            "Derivative" => B::Derivative(args),
+            "Expand" => B::Expand(args),
+            _ => return None,
+        };
+        Some(match r {
+            WlfrmAtom::None => Val::None,
+            WlfrmAtom::Bool(b) => Val::Bool(b),
+            WlfrmAtom::Expr(e) => Val::Expr(e),
+        })
+    }
+}
-- 
2.43.0


From ec495dfc90b79c594483c7cfbc9444658917f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 42/44] fix: TrueQ tested for false

---
 src/rubi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rubi.rs b/src/rubi.rs
index b93b870..d6d660c 100644
--- a/src/rubi.rs
+++ b/src/rubi.rs
@@ -131,7 +131,7 @@ impl WlfrmBuiltins {
     }
 
     TrueQ(arg: WArgs) {
-        arg!(arg) == WA::FALSE
+        arg!(arg) == WA::TRUE
     }
 
     IntegerQ(arg: WArgs) {
-- 
2.43.0


From afa8ee3f1462beccbe9108c307eb3c1abf45aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 43/44] fix: exp of a product that is multiplied out kept its
 integer factor

---
 src/algos.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index ca3d6bf..1ef18d4 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -1390,6 +1390,11 @@ fn expand_exponential_arg(a: &Expr) -> Expr {
             return Prod { args }.into();
         }
         Atom::Prod(p) => {
+            // multiplying out may leave the integer behind other factors
+            let mut p = p.clone();
+            if let Some(i) = p.args.iter().position(|a| a.is_int()) {
+                p.args[..=i].rotate_right(1);
+            }
             let (p1, p2) = p.as_binary_mul();
             if p1.is_int() {
                 return Expr::pow_raw(exp_args(&p2), p1);
-- 
2.43.0


From 11ef07f2efaef4ecdcf4545091d13acb463a66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 44/44] fix: reducing nested functions took exponential time

---
 src/atom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/atom.rs b/src/atom.rs
index 791bf37..8b39438 100644
--- a/src/atom.rs
+++ b/src/atom.rs
@@ -1289,7 +1289,11 @@ impl SymbolicExpr for Var {}
 impl SymbolicExpr for Expr {
     fn reduce(&self) -> Self {
         use Atom as A;
-        let res = self.clone().map_args(|a| *a = a.reduce());
+        let res = match self.atom() {
+            // reduces its arguments itself
+            A::Func(func) => return func.reduce(),
+            _ => self.clone().map_args(|a| *a = a.reduce()),
+        };
         match res.atom() {
             A::Irrational(_) | A::Undef | A::Rational(_) | A::Var(_) => res,
             A::Sum(sum) => sum.reduce(),
-- 
2.43.0

