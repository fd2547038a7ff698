From c865c3af33e0b89127303060a3acbcc662358434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 01/27] fix: decimal rounding overflows for precision of 10
 digits and more

10_u32.pow(precision) overflows u32 for precision >= 10 (panic in debug, a
wrapped factor in release). Asset precisions come from the exchange.
---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..e691793 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -45,12 +45,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From c97749d95dbb68282b9f18765c62fa81bc410851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 02/27] fix: ceil_multiple loses precision above 2^53

Going through f64 rounds large values and can return a result that is below
the value or not a multiple. Use integer arithmetic.
---
 juno/src/math.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index e691793..a585517 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -1,5 +1,8 @@
 pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
-    f64::ceil(value as f64 / multiple as f64) as u64 * multiple
+    match value % multiple {
+        0 => value,
+        rem => value - rem + multiple,
+    }
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-- 
2.43.0


From 9ab907abbfd3dff189436a65956c60377fb19c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 03/27] fix: lerp endpoints are swapped

lerp(a, b, 0) returned b and lerp(a, b, 1) returned a, so a trending take
profit used its max threshold without any trend and its min threshold in the
strongest one.
---
 juno/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index a585517..d565b31 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -87,7 +87,7 @@ pub fn annualized(duration: u64, value: f64) -> f64 {
 }
 
 pub fn lerp(a: f64, b: f64, t: f64) -> f64 {
-    t * a + (1.0 - t) * b
+    (1.0 - t) * a + t * b
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9bda511ef1edcdff43ec31a3f2d565aaa5e9de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 04/27] fix: Timestamp::ceil moves an exact month start to the
 next month

---
 juno/src/primitives/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8b12e79 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,9 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            if self.floor(interval) == *self {
+                return *self;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From f34454773ca84db74cc0ff78bf967c93ce4baca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 05/27] fix: dates before 1970 parse to far future timestamps

A negative number of milliseconds wrapped around in the cast to u64.
---
 juno/src/primitives/timestamp.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index 8b12e79..5abebf0 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -24,6 +24,13 @@ fn datetime_timestamp_ms(dt: OffsetDateTime) -> u64 {
     (dt.unix_timestamp_nanos() / 1_000_000) as u64
 }
 
+fn datetime_try_timestamp_ms(dt: OffsetDateTime) -> Result<u64, super::ParseError> {
+    dt.unix_timestamp_nanos()
+        .div_euclid(1_000_000)
+        .try_into()
+        .map_err(|_| super::ParseError {})
+}
+
 fn datetime_utcfromtimestamp_ms(timestamp: u64) -> OffsetDateTime {
     OffsetDateTime::from_unix_timestamp_nanos(timestamp as i128 * 1_000_000).unwrap()
 }
@@ -105,22 +112,14 @@ impl FromStr for Timestamp {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Err(())
-            .or_else(|_| {
-                OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
-            })
+        OffsetDateTime::parse(s, &Rfc3339)
             .or_else(|_| {
-                Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
-                        .unwrap()
-                        .assume_offset(UtcOffset::UTC)
-                        .unix_timestamp_nanos()
-                        / 1_000_000) as u64
-                })
+                Date::parse(s, &DATE_FORMAT)
+                    .map(|x| x.with_hms(0, 0, 0).unwrap().assume_offset(UtcOffset::UTC))
             })
-            .map(Self)
             .map_err(|_| Self::Err {})
+            .and_then(datetime_try_timestamp_ms)
+            .map(Self)
     }
 }
 
-- 
2.43.0


From 6d6a3594daf8500af89ab06c37d5df76bf5202dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 06/27] fix: malformed intervals panic or parse as zero

An unknown unit or a number which does not fit panicked, and anything without
a valid group (an empty string, say) was accepted as an interval of 0 ms.
Return ParseError for these.
---
 juno/src/primitives/interval.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..94cad56 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -35,13 +35,11 @@ static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
 
 static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+fn calc_interval_group(group: &str) -> Option<u64> {
+    let i = group.find(char::is_alphabetic)?;
+    let count = group[..i].parse::<u64>().ok()?;
+    let factor = INTERVAL_FACTOR_MAP.get(&group[i..])?;
+    count.checked_mul(*factor)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +85,21 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        let mut total = 0u64;
+        let mut end = 0;
+        for group in INTERVAL_GROUP_RE.find_iter(s) {
+            if group.start() != end {
+                return Err(Self::Err {});
+            }
+            total = calc_interval_group(group.as_str())
+                .and_then(|value| total.checked_add(value))
+                .ok_or(Self::Err {})?;
+            end = group.end();
+        }
+        if end == 0 || end != s.len() {
+            return Err(Self::Err {});
+        }
+        Ok(Self(total))
     }
 }
 
-- 
2.43.0


From 4bdcfcdcc260dbeccf722a308b7d2d6cc0edcedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:26 +0000
Subject: [PATCH 07/27] fix: evolving a population of two panics

With a selection rate below 1.0 a population of two has a single offspring,
which has no other offspring to be crossed with.
---
 juno/src/genetics/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..5eef381 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -136,6 +136,11 @@ where
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
+            if is_last && i == 0 {
+                // There is no one to pair a single offspring with.
+                self.mutation.mutate(rng, &mut offsprings[0].chromosome, ctx);
+                continue;
+            }
             let (chromosome1, chromosome2) = if is_last {
                 let (a, b) = offsprings.split_at_mut(i);
                 (&mut b[0].chromosome, &mut a[0].chromosome)
-- 
2.43.0


From 80aaed104fc0d4eda57e8e01db336ca470ed437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:36 +0000
Subject: [PATCH 08/27] fix: tournament selection can't be constructed and
 picks the worst

The range check was inverted so that new() rejected every valid rate. The
winner was the max by descending fitness, that is, the least fit one. A
population too small for the rate led to an empty tournament and a panic.
---
 juno/src/genetics/selection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..06c9207 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -1,5 +1,6 @@
 use super::{Chromosome, Individual};
 use rand::prelude::*;
+use std::cmp::max;
 
 pub trait Selection {
     fn select<T: Chromosome>(
@@ -51,7 +52,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
@@ -81,13 +82,16 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size = max(
+            (parents.len() as f32 * self.tournament_size_rate) as usize,
+            1,
+        );
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From 372d4e80104d377d087f31b0ff7a263ae6eaedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 09/27] fix: a seeded optimization is not reproducible

Easings were chosen by index from the keys of a hash map, whose iteration
order is random per process.
---
 juno/src/easing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..26405e7 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,13 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+// The order of hash map keys differs between processes. It must not affect which easing a seeded
+// generator picks.
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    let mut choices: Vec<Easing> = EASINGS.keys().copied().collect();
+    choices.sort_by_key(|easing| *easing as u8);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From b5c60ca04ce3e6944f29c187be4298bcff7f8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 10/27] fix: individuals generated by elite reinsertion are
 never evaluated

They kept the placeholder fitness, so they could neither be selected nor
enter the hall of fame on merit, and showed up in it with a fitness of
f64::MIN when it was as large as the population.
---
 juno/src/genetics/algorithm.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5eef381..64b5c0b 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -168,7 +168,16 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // Reinsertion may generate new individuals. They are last as they have no fitness yet.
+        let unevaluated = offsprings
+            .iter()
+            .position(|ind| ind.fitness == f64::MIN)
+            .unwrap_or(offsprings.len());
+        if unevaluated < offsprings.len() {
+            self.evaluation.evaluate(&mut offsprings[unevaluated..]);
+            offsprings.sort_by(Individual::fitness_desc);
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
-- 
2.43.0


From 831e96560b032cf3d639afc40868e9a231753310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 11/27] fix: statistics panic when a run has no volatility or
 no losing day

The standard deviation of the daily returns is 0 for a single day, and NaN
for the downside when no day has a negative return. Both ended up in the
assertion that the ratio is finite. Treat them as 0.0, as the comment said.
---
 juno/src/statistics/extended.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..60f5a82 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,17 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// If there is no risk (no neg returns for sortino ratio, say), the ratio becomes infinite or not a
+// number. We will consider it to be 0.0 instead because that is usually a bad run anyway.
+fn ratio(annualized_return: f64, annualized_risk: f64) -> f64 {
+    let ratio = annualized_return / annualized_risk;
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -177,7 +188,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        ratio(annualized_return, annualized_volatility)
     };
 
     // Sortino ratio.
@@ -190,13 +201,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
             .filter(|&v| v < 0.0)
             .collect::<Vec<f64>>();
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
-        // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
-        // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        ratio(annualized_return, annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -295,7 +300,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        ratio(annualized_return, annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -373,11 +378,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        ratio(annualized_return, annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 604fd0baf066c42ebff4d28d8e5f35ac169a2897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 12/27] fix: DX, DI and stochastic become NaN in a flat market

0/0 was not handled, and the NaN then stayed in the running sums of the
moving averages built on top (ADX, stochastic %K and %D) for good.
---
 juno/src/indicators/di.rs    | 17 +++++++++++------
 juno/src/indicators/dx.rs    |  7 ++++++-
 juno/src/indicators/stoch.rs |  7 ++++++-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/juno/src/indicators/di.rs b/juno/src/indicators/di.rs
index 070e06e..dfe36f1 100644
--- a/juno/src/indicators/di.rs
+++ b/juno/src/indicators/di.rs
@@ -47,13 +47,18 @@ impl DI {
             self.atr += calc_truerange(self.prev_close, high, low);
         }
 
-        if self.t == self.t2 {
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
-        } else if self.t >= self.t3 {
+        if self.t >= self.t3 {
             self.atr = self.atr * self.per + calc_truerange(self.prev_close, high, low);
-            self.plus_value = 100.0 * self.dm.plus_value / self.atr;
-            self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+        }
+
+        if self.t >= self.t2 {
+            if self.atr == 0.0 {
+                self.plus_value = 0.0;
+                self.minus_value = 0.0;
+            } else {
+                self.plus_value = 100.0 * self.dm.plus_value / self.atr;
+                self.minus_value = 100.0 * self.dm.minus_value / self.atr;
+            }
         }
 
         self.prev_close = close;
diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..918c328 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,12 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            self.value = if sum == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / sum * 100.0
+            };
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..e91e7fa 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,12 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            let fast_k = if range == 0.0 {
+                0.0
+            } else {
+                100.0 * (close - min_low) / range
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 71f8acccbc4660ebbd8ea639d19c49a6f9180b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 13/27] fix: ADX drops to zero on a DX of zero and reports a
 wrong maturity

A DX of 0 (no direction) is a value to smooth like any other; the test for it
was only meant to skip the updates before DX is mature. The moving average
starts with the first mature DX, so the two maturities add up.
---
 juno/src/indicators/adx.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..b7780dc 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,7 +20,7 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
@@ -30,11 +29,9 @@ impl Adx {
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From 70c656aa7f66b9a0b08cf4cc6bff714b4f9ad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 14/27] fix: EMA2 reports maturity one update before it has a
 value

The update counter was incremented last, so after period updates it was
mature with a value of 0.0, and the seeding SMA ended one update late.
---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 5341c7c59248ce1d36789f5083400903b6c1a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 15/27] fix: four week rule advises based on an immature moving
 average

The moving average may need more candles than the price channel. Its value
was 0.0 until then, which liquidated short positions at once.
---
 juno/src/strategies/four_week_rule.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..bae4a06 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,13 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1: max(params.period + 1, ma.maturity()),
+            ma,
         }
     }
 }
-- 
2.43.0


From 67d6027bd1071ba1272dd23f94fdeaaf9ed11f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 16/27] fix: buffered candles drift off their buffer interval

After a gap the first candle was kept with its own time instead of the start
of its buffer interval, so that it absorbed candles of the next one. Week and
month intervals, which are not aligned to the epoch, ended at wrong times.
---
 juno/src/utils/buffered_candle.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..6fd000d 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -38,35 +38,22 @@ impl BufferedCandle {
             return Some(Cow::Borrowed(candle));
         }
 
+        let time = candle.time.floor(self.buffer_interval);
+
         let ret = match self.buffer_candle {
-            None => {
-                self.buffer_candle = Some(Candle {
-                    time: candle.time.floor(self.buffer_interval),
-                    open: candle.open,
-                    high: candle.high,
-                    low: candle.low,
-                    close: candle.close,
-                    volume: candle.volume,
-                });
+            Some(ref mut buffer_candle) if buffer_candle.time == time => {
+                *buffer_candle += candle;
                 None
             }
-            Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
-                    Some(*buffer_candle)
-                } else {
-                    *buffer_candle += candle;
-                    None
-                }
-            }
+            _ => self.buffer_candle.replace(Candle { time, ..*candle }),
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let is_last = (candle.time + self.interval).floor(self.buffer_interval) > time;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 1507156c7f54a8e2cda3042c5a0b298c6b78decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 17/27] fix: optimize response numbers generations after
 filtering

The number is there to tell which generations were filtered out for having no
change in the hall of fame, but it was assigned after the filter.
---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0


From 7e3db8c638330e59c052e6bf250ad04eefd8df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 18/27] fix: missing spans reach outside of the requested span

An existing span which ends before the start moved the start back, and one
which begins after the end extended the last missing span up to it.
---
 juno/src/utils/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..eef256d 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -61,9 +61,12 @@ pub fn generate_missing_spans(
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
         if existing_start > missing_start {
-            result.push((missing_start, existing_start));
+            result.push((missing_start, existing_start.min(missing_end)));
+        }
+        missing_start = missing_start.max(existing_end);
+        if missing_start >= missing_end {
+            break;
         }
-        missing_start = existing_end;
     }
 
     if missing_start < missing_end {
-- 
2.43.0


From fa783f8dbd1676ca4084e796886f641f2d98d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 19/27] fix: rounding down to step can return a size or price
 below min

---
 juno/src/filters.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..0e3f7c9 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -18,6 +18,10 @@ impl Price {
         if self.step > 0.0 {
             price = (price / self.step).floor() * self.step;
         }
+        // Min is not necessarily a multiple of step.
+        if price < self.min {
+            return 0.0;
+        }
 
         price
     }
@@ -48,6 +52,10 @@ impl Size {
         if self.step > 0.0 {
             size = (size / self.step).floor() * self.step;
         }
+        // Min is not necessarily a multiple of step.
+        if size < self.min {
+            return 0.0;
+        }
 
         size
     }
-- 
2.43.0


From 0e0f36661127646047c6e24aab67e9d890dd7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 20/27] fix: server drops the connection on a request it can't
 compute

An unknown symbol, a population of one or upstream data which doesn't fit the
request panicked in the handler, and the client got no response at all. Answer
with the JSON error other failures get.
---
 juno_axum/src/exchange.rs        |  4 ++++
 juno_axum/src/routes/backtest.rs |  4 ++--
 juno_axum/src/routes/mod.rs      | 21 +++++++++++++++++++++
 juno_axum/src/routes/optimize.rs |  2 +-
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/juno_axum/src/exchange.rs b/juno_axum/src/exchange.rs
index 8c000e8..c9cefd7 100644
--- a/juno_axum/src/exchange.rs
+++ b/juno_axum/src/exchange.rs
@@ -16,6 +16,10 @@ pub async fn gather_exchange_info_candles_prices(
     HashMap<String, HashMap<Interval, Vec<Candle>>>,
     HashMap<String, Vec<f64>>,
 )> {
+    for symbol in symbols {
+        anyhow::ensure!(symbol.contains('-'), "invalid symbol {symbol}");
+    }
+
     let exchange_info_task = client.get_exchange_info(juno_core::GetExchangeInfo { exchange });
 
     let candle_tasks = try_join_all(symbols.iter().flat_map(|symbol| {
diff --git a/juno_axum/src/routes/backtest.rs b/juno_axum/src/routes/backtest.rs
index 3bac6dc..8b2737a 100644
--- a/juno_axum/src/routes/backtest.rs
+++ b/juno_axum/src/routes/backtest.rs
@@ -56,7 +56,7 @@ async fn post(
 
     // Backtest in parallel.
     info!("backtesting");
-    let backtest_result = tokio_rayon::spawn(move || {
+    let backtest_result = super::spawn(move || {
         par_backtest(
             exchange_info,
             candles,
@@ -66,7 +66,7 @@ async fn post(
             args.quote,
         )
     })
-    .await;
+    .await?;
 
     Ok((StatusCode::OK, Json(backtest_result)))
 }
diff --git a/juno_axum/src/routes/mod.rs b/juno_axum/src/routes/mod.rs
index 933c73d..4a230f4 100644
--- a/juno_axum/src/routes/mod.rs
+++ b/juno_axum/src/routes/mod.rs
@@ -3,3 +3,24 @@ mod optimize;
 
 pub use backtest::routes as backtest;
 pub use optimize::routes as optimize;
+
+use std::panic::{catch_unwind, AssertUnwindSafe};
+
+// Runs a computation on the rayon thread pool. A panic in it (because there is no exchange info for
+// a symbol, for example) becomes an error instead of tearing down the connection of the client.
+async fn spawn<F, T>(func: F) -> anyhow::Result<T>
+where
+    F: FnOnce() -> T + Send + 'static,
+    T: Send + 'static,
+{
+    tokio_rayon::spawn(|| catch_unwind(AssertUnwindSafe(func)))
+        .await
+        .map_err(|panic| {
+            let message = panic
+                .downcast_ref::<String>()
+                .map(String::as_str)
+                .or_else(|| panic.downcast_ref::<&str>().copied())
+                .unwrap_or("unknown error");
+            anyhow::anyhow!("computation failed: {message}")
+        })
+}
diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 24003bf..bbae7f8 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -104,7 +104,7 @@ async fn post(
     // Optimize in parallel.
     info!("optimizing");
     let optimize_result =
-        tokio_rayon::spawn(move || par_optimize(&args, &exchange_info, &candles, &prices)).await;
+        super::spawn(move || par_optimize(&args, &exchange_info, &candles, &prices)).await?;
 
     Ok((StatusCode::OK, Json(optimize_result)))
 }
-- 
2.43.0


From 0b02601a06b966a28093e5a2ed3aaf2d0dec85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 21/27] fix: open short positions are valued as if they were
 long

The borrowed base asset was added to the holdings of the portfolio until the
position was closed, so that a short lost value on a falling price day by day
and regained it on close. Sharpe and sortino ratios of runs with shorts were
those of the opposite exposure.
---
 juno/src/statistics/extended.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 60f5a82..f413225 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -2,7 +2,7 @@ use super::SQRT_365;
 use crate::{
     math::{mean, std_deviation},
     trading::{Position, TradingSummary},
-    Interval, SymbolExt, Timestamp,
+    Fill, Interval, SymbolExt, Timestamp,
 };
 // use ndarray::prelude::*;
 // use ndarray_stats::CorrelationExt;
@@ -67,13 +67,14 @@ fn map_period_deltas_from_summary(
                 pos.base_cost(),
                 pos.gain(),
             ),
+            // The borrowed base is sold on open and bought back on close. In between it is owed.
             Position::Short(pos) => (
                 pos.open_time,
-                pos.cost(),
-                pos.base_gain(),
+                Fill::total_fee(&pos.open_fills) - Fill::total_quote(&pos.open_fills),
+                -pos.borrowed,
                 pos.close_time,
-                pos.base_cost(),
-                pos.gain(),
+                -pos.borrowed,
+                -Fill::total_quote(&pos.close_fills),
             ),
         };
         // Open.
-- 
2.43.0


From 24cf5ba2679f6630b8105eb761c48ab86dba9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 22/27] fix: EMA of period 1 ignores its smoothing

---
 juno/src/indicators/ema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema.rs b/juno/src/indicators/ema.rs
index 515f418..c9c11eb 100644
--- a/juno/src/indicators/ema.rs
+++ b/juno/src/indicators/ema.rs
@@ -1,6 +1,6 @@
 use super::MA;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct EmaParams {
@@ -45,7 +45,8 @@ impl MA for Ema {
     }
 
     fn update(&mut self, price: f64) {
-        self.t = min(self.t + 1, self.t1);
+        // Only the first price is taken as is, even if mature with it.
+        self.t = min(self.t + 1, max(self.t1, 2));
         self.value = match self.t {
             1 => price,
             _ => (price - self.value) * self.a + self.value,
-- 
2.43.0


From b15267f509d5359dd4743f7369be6c3cb209c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 23/27] fix: evolving for zero generations runs four of them

---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 64b5c0b..48b5cd9 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From a94e71d224e5d9ef7f2dbf265bea14093fbf142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 24/27] fix: an empty range has an empty missing span

---
 juno/src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index eef256d..ff90088 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,7 +60,7 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
-        if existing_start > missing_start {
+        if existing_start > missing_start && missing_start < missing_end {
             result.push((missing_start, existing_start.min(missing_end)));
         }
         missing_start = missing_start.max(existing_end);
-- 
2.43.0


From 92228697fdce7001b64326d69cdb6150edf52aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:16 +0000
Subject: [PATCH 25/27] fix: paging very long ranges or without a limit misses
 the end or overflows

---
 juno/src/utils/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index ff90088..231eecb 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -78,11 +78,11 @@ pub fn generate_missing_spans(
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
     let total_size = (end - start) / interval;
-    let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let max_count = limit.saturating_mul(interval);
+    let page_size = total_size / limit + u64::from(total_size % limit > 0);
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
-        let page_end = u64::min(page_start + max_count, end);
+        let page_end = u64::min(page_start.saturating_add(max_count), end);
         (page_start, page_end)
     })
 }
-- 
2.43.0


From 19e38bf26ec715570ac35f3c9f6062b2fe4d5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:27 +0000
Subject: [PATCH 26/27] fix: sizes can't be rounded up or validated without a
 maximum or step

---
 juno/src/filters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 0e3f7c9..2c9722b 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -65,12 +65,20 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        size >= self.min
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From 1885a01967fcf81dae242bb76e95b9928b0bb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:02 +0000
Subject: [PATCH 27/27] fix: backtesting a period which is shorter than the
 candle interval panics

---
 juno/src/trading/traders.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/juno/src/trading/traders.rs b/juno/src/trading/traders.rs
index 238a7a7..19b7dce 100644
--- a/juno/src/trading/traders.rs
+++ b/juno/src/trading/traders.rs
@@ -57,7 +57,8 @@ pub fn trade(params: &TradingParams, input: &TradeInput) -> TradingSummary {
 
     let candles_len = input.candles.len();
     let (start, end) = if candles_len == 0 {
-        (0.into(), Timestamp(interval.0))
+        // No time has passed. There may not be a price for each day of an interval either.
+        (Timestamp(0), Timestamp(0))
     } else {
         (
             input.candles[0].time,
-- 
2.43.0

