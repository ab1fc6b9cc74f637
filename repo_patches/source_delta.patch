From 8731a369e196bcc283802a5ec16cb4671fc3ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:02 +0000
Subject: [PATCH 01/15] fix: fifa penalty shootout scored the second team from
 the wrong perspective

---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 9f6f5da1243189b434bc0ab6b5bd4bed27a7c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:09 +0000
Subject: [PATCH 02/15] fix: egf_rating_period could return a rating below the
 minimum of -900

---
 src/egf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..471954a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,8 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        // The absolute minimum rating is set to be -900.
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 82706611163e7baef798978f4bb9d0bb1325b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:15 +0000
Subject: [PATCH 03/15] fix: uscf_rating_period could return a rating below the
 minimum of 100

---
 src/uscf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..7ba6029 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -413,7 +413,8 @@ pub fn uscf_rating_period(
             avg_opponent_rating,
             wins,
             losses,
-        );
+        )
+        .max(100.0);
 
         return USCFRating {
             rating: new_rating,
@@ -435,7 +436,8 @@ pub fn uscf_rating_period(
         score,
         exp_sum,
         *config,
-    );
+    )
+    .max(100.0);
 
     USCFRating {
         rating: new_rating,
-- 
2.43.0


From 3b2613c1fbbee28bc20d1428f9ab206137a3f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:13 +0000
Subject: [PATCH 04/15] fix: ingo_rating_period returned NaN for an empty
 rating period

---
 src/ingo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..5b510c5 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,10 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From 0e9d2c45a39bb77bf9f5ca0014702a6d82bd2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:20 +0000
Subject: [PATCH 05/15] fix: ingo expected scores were not limited to values
 between 0.0 and 1.0

---
 src/ingo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingo.rs b/src/ingo.rs
index 5b510c5..6552573 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -335,7 +335,7 @@ pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)
 /// assert!((exp1 + exp2 - 1.0).abs() < f64::EPSILON);
 /// ```
 pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64, f64) {
-    let exp_one = 0.5 + (player_two.rating - player_one.rating) / 100.0;
+    let exp_one = (0.5 + (player_two.rating - player_one.rating) / 100.0).clamp(0.0, 1.0);
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
@@ -376,7 +376,7 @@ pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64,
 pub fn expected_score_rating_period(player: &IngoRating, opponents: &[IngoRating]) -> Vec<f64> {
     opponents
         .iter()
-        .map(|o| 0.5 + (o.rating - player.rating) / 100.0)
+        .map(|o| (0.5 + (o.rating - player.rating) / 100.0).clamp(0.0, 1.0))
         .collect()
 }
 
-- 
2.43.0


From ba9bcd7484499cde1469447e64f0504e79e66ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 06/15] fix: dwz development coefficient dropped to 0 for
 players with an index of 0

---
 src/dwz.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dwz.rs b/src/dwz.rs
index 2a3fb3f..330d1e0 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -638,9 +638,8 @@ fn e_value(rating: f64, age: usize, score: f64, expected_score: f64, index: usiz
     if e <= 5.0 {
         e = 5.0;
     } else if b == 0.0 {
-        if e >= 30.0_f64.min(5.0 * index as f64) {
-            e = 30.0_f64.min(5.0 * index as f64);
-        }
+        // The development coefficient is never lower than 5.0, even with an index of 0.
+        e = e.min((5.0 * index as f64).clamp(5.0, 30.0));
     } else if e >= 150.0 {
         e = 150.0;
     }
-- 
2.43.0


From 285c5125af6a727b9ef8b18974ea64366c6bc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:34 +0000
Subject: [PATCH 07/15] fix: weng_lin win probabilities overflowed to NaN for
 ratings that are large compared to the uncertainties

---
 src/weng_lin.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..187484c 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -971,10 +971,8 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
-
-    let exp_one = e1 / (e1 + e2);
+    // Only the difference matters, the exponentials of the ratings themselves could overflow.
+    let exp_one = (1.0 + ((rating_two - rating_one) / c_value).exp()).recip();
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
-- 
2.43.0


From f438119a4c3282fdad51e147e0e3a0cfda54ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:42 +0000
Subject: [PATCH 08/15] fix: weng_lin expected_score_multi_team overflowed to
 NaN for ratings that are large compared to the uncertainties

---
 src/weng_lin.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 187484c..5993fdf 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Shifting by the highest rating, so that the exponentials cannot overflow.
+    let max_rating = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - max_rating) / c).exp();
         exps.push(e);
         sum += e;
     }
-- 
2.43.0


From 294614b02ec05e37907532c68a5c83b92fe2b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:49 +0000
Subject: [PATCH 09/15] fix: trueskill_multi_team panicked with a single team

---
 src/trueskill/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..056d145 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,14 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // A team without any opponents keeps its ratings.
+    if teams_and_ranks.len() == 1 {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From 9bd2133d6bdaacd81f8b0d40f138891241d82757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:56 +0000
Subject: [PATCH 10/15] fix: trueskill match_quality_multi_team panicked with
 two teams

---
 src/trueskill/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 056d145..a58cf9a 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1158,7 +1158,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From 5d10c2204a929735dca4f32b241d8f77aeecba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:03 +0000
Subject: [PATCH 11/15] fix: trueskill match_quality_multi_team panicked with a
 single team

---
 src/trueskill/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index a58cf9a..be61211 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1125,7 +1125,8 @@ pub fn match_quality_multi_team(
     config: &TrueSkillConfig,
     weights: Option<&[&[f64]]>,
 ) -> Result<f64, WeightError> {
-    if teams.is_empty() {
+    // There is no match to speak of with less than two teams.
+    if teams.len() < 2 {
         return Ok(0.0);
     }
 
-- 
2.43.0


From 6cb811e49a270e521a95093b89d6e21f415e243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:11 +0000
Subject: [PATCH 12/15] fix: trueskill_multi_team returned NaN for players with
 a weight of 0.0

---
 src/trueskill/factor_graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..f26f08c 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,16 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+        if coeff == 0.0 {
+            // The sum does not depend on this term, so there is nothing to learn about it.
+            return self.terms[index]
+                .borrow_mut()
+                .update_message(self.id, Gaussian::default());
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0


From 90b18c867d5def9fda94bd20647de52cd79fec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:18 +0000
Subject: [PATCH 13/15] fix: trueskill expected_score_multi_team returned NaN
 with a single team

---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index be61211..171337e 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1362,6 +1362,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A team without any opponents cannot lose.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From 9ea873569b0e4bcbc7dc487acb034e04699d4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:20 +0000
Subject: [PATCH 14/15] fix: trueskill match_quality_multi_team ignored the
 ratings with two teams

---
 src/trueskill/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..e24e05d 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The minor of a 1x1 matrix is empty.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
-- 
2.43.0


From b29c6b83e1be8d5332831fb364bbd01103a3ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:03 +0000
Subject: [PATCH 15/15] fix: trueskill_multi_team returned NaN for a result in
 the far tails

---
 src/trueskill/factor_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index f26f08c..1fd5199 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -269,7 +269,8 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        let denom = 1.0 - w;
+        // In the far tails w is exactly 1.0, and dividing by 0.0 would turn the ratings into NaN.
+        let denom = (1.0 - w).max(f64::EPSILON.sqrt());
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
-- 
2.43.0

