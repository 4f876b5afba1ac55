From 4587e65ebc403558cf3b4d8162c14cf01c9bf5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 01/16] fix: do not overflow on a root of negative value when
 compiling a diagram

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From 87fb2a933fdcebe3e4af644f2ff1b7693801e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/16] fix: do not claim exactness when an approximate diagram
 runs empty

---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..14b6eaf 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,7 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             match input.comp_type {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..f9eddd7 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,7 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             if depth > root_depth && !self.barriers[depth].read().is_empty() {
-- 
2.43.0


From 1a0efd19333f3ba1599a6cb0c7abee64207f0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 03/16] fix: keep exact terminal nodes in the frontier cutset

---
 src/mdd/with_all.rs     | 7 +++++++
 src/mdd/with_barrier.rs | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 14b6eaf..7a97436 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -482,6 +482,13 @@ where
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
                 visit.push(id);
+
+                // an exact terminal node has no inexact successor: it must be
+                // part of the frontier or the solutions it stands for are lost
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
             }
 
             while !visit.is_empty() {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index f9eddd7..e530d21 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -544,6 +544,9 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                // an exact terminal node has no inexact successor: it must be
+                // part of the frontier or the solutions it stands for are lost
+                self.cutset.push(*node_id);
             }
         }
 
-- 
2.43.0


From aa635b64683150839bba44327412d5ae50d60d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 04/16] fix: account for ongoing, open and found subproblems in
 the upper bound of an interrupted run

---
 src/solver/barrier.rs  | 8 +++++---
 src/solver/parallel.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..b09e599 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -346,7 +346,8 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            // what is being processed, what is still open, and what was found
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -355,9 +356,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..2cfab69 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -316,7 +316,8 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            // what is being processed, what is still open, and what was found
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -325,9 +326,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let open_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = ongoing_ub.max(open_ub).max(critical.best_lb);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From e5358df0dffb1b42a71c8a2d4841758c97937098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 05/16] fix: an interrupted run does not become complete when
 its last subproblem ends

---
 src/solver/barrier.rs  | 10 +++++++---
 src/solver/parallel.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index b09e599..59ff192 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -334,6 +334,12 @@ where
             critical.lowest_active_layer += 1;
         }
 
+        // Was the run interrupted ? The fringe has then been emptied, which does
+        // not mean that the search is complete.
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -341,9 +347,7 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
             // what is being processed, what is still open, and what was found
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 2cfab69..6692753 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -304,6 +304,12 @@ where
     {
         let mut critical = shared.critical.lock();
 
+        // Was the run interrupted ? The fringe has then been emptied, which does
+        // not mean that the search is complete.
+        if critical.interrupted {
+            return WorkLoad::Interruption;
+        }
+
         // Are we done ?
         if critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
@@ -311,9 +317,7 @@ where
         }
 
         // Do we need to stop
-        if critical.interrupted {
-            return WorkLoad::Interruption;
-        } else if interrupt() {
+        if interrupt() {
             critical.interrupted = true;
 
             // what is being processed, what is still open, and what was found
-- 
2.43.0


From 9c81c282020c49bf35f337d98b96420cf8cba8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 06/16] fix: make room for the bounds of all workers when their
 number changes

---
 src/solver/barrier.rs  | 1 +
 src/solver/parallel.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 59ff192..549ec62 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 6692753..647ef0a 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,7 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
     }
 
-- 
2.43.0


From a746e2efe0329940908b5306e221e2a466649600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/16] fix: run with at least one worker thread

---
 src/solver/barrier.rs  | 4 ++++
 src/solver/parallel.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 549ec62..812f30f 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -154,6 +154,8 @@ where
         cutset_type: CutsetType,
         nb_threads: usize,
     ) -> Self {
+        // without any worker nothing would be explored
+        let nb_threads = nb_threads.max(1);
         let mut barriers = vec![];
         for _ in 0..=problem.nb_variables() {
             barriers.push(RwLock::new(Default::default()));
@@ -189,6 +191,8 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        // without any worker nothing would be explored
+        let nb_threads = nb_threads.max(1);
         self.nb_threads = nb_threads;
         self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 647ef0a..a876f83 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -146,6 +146,8 @@ where
         fringe: &'a mut F,
         nb_threads: usize,
     ) -> Self {
+        // without any worker nothing would be explored
+        let nb_threads = nb_threads.max(1);
         ParallelSolver {
             shared: Shared {
                 problem,
@@ -172,6 +174,8 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        // without any worker nothing would be explored
+        let nb_threads = nb_threads.max(1);
         self.nb_threads = nb_threads;
         self.shared.critical.get_mut().upper_bounds.resize(nb_threads, isize::MAX);
         self
-- 
2.43.0


From 0b1788a600141727e9a64356a552a5e233c09b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 08/16] fix: compute the gap for every pair of bounds

---
 src/xputils.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..430b896 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,11 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    if lb == ub {
+        return 0.0;
+    }
 
-    (u - l) as f32 / u as f32
+    ub.abs_diff(lb) as f32 / ub.unsigned_abs().max(lb.unsigned_abs()) as f32
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From fbd935e93a8ad825cb3d94042f21dbf2071a00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 09/16] fix: estimate the right number of optional cities in
 the TSPTW example

---
 examples/tsptw/model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index ce66323..5152730 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -190,7 +190,8 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        let mut complete_tour = self.nb_variables() - state.depth as usize;
+        // the number of cities left to visit before going back to the depot
+        let mut complete_tour = self.nb_variables().saturating_sub(state.depth as usize + 1);
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -198,7 +199,7 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
-            complete_tour -= 1;
+            complete_tour = complete_tour.saturating_sub(1);
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
  
-- 
2.43.0


From 65798c3aa41be32408def352c10ee12621611c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 10/16] fix: let merged TSPTW states wait no longer than the
 last of them

---
 examples/tsptw/model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index 5152730..fcac3da 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -163,9 +163,10 @@ impl Problem for Tsptw {
                 } else {
                     0
                 },
-            ElapsedTime::FuzzyAmount{earliest, ..} => 
-                if (earliest + travel_time) < twj.earliest {
-                    twj.earliest - (earliest + travel_time)
+            // whoever arrives last among the merged states waits the least
+            ElapsedTime::FuzzyAmount{latest, ..} => 
+                if (latest + travel_time) < twj.earliest {
+                    twj.earliest - (latest + travel_time)
                 } else {
                     0
                 }
@@ -295,7 +296,7 @@ impl Tsptw {
           },
           ElapsedTime::FuzzyAmount{mut earliest, mut latest} => {
             earliest = earliest.max(twj.earliest);
-            latest   = latest.min(twj.latest);
+            latest   = latest.min(twj.latest).max(earliest);
 
             if earliest.eq(&latest) {
                 ElapsedTime::FixedAmount{duration: earliest}
-- 
2.43.0


From 8cb255f4065bf151ae543017ce1c0ef631eac034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 11/16] fix: read TSPTW instances without rounding errors

---
 examples/tsptw/instance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/examples/tsptw/instance.rs b/examples/tsptw/instance.rs
index adacdc5..5aca42b 100644
--- a/examples/tsptw/instance.rs
+++ b/examples/tsptw/instance.rs
@@ -21,7 +21,7 @@
 //! and turn it into a structs usable in Rust. Chances are high that this 
 //! module will be of little to no interest to you.
 
-use std::{f32, fs::File, io::{BufRead, BufReader, Lines, Read}};
+use std::{fs::File, io::{BufRead, BufReader, Lines, Read}};
 
 use engineering::Matrix;
 
@@ -85,19 +85,19 @@ impl <B: BufRead> From<Lines<B>> for TsptwInstance {
            else if (1..=nb_nodes).contains(&lc) {
                let i = (lc - 1) as usize;
                for (j, distance) in line.split_whitespace().enumerate() {
-                    let distance = distance.to_string().parse::<f32>().unwrap();
-                    let distance = (distance * 10000.0) as usize;
+                    let distance = distance.to_string().parse::<f64>().unwrap();
+                    let distance = (distance * 10000.0).round() as usize;
                     distances[(i, j)] = distance;
                }
            }
            // Finally, the last 'nb_nodes' lines impose the time windows constraints
            else {
                let mut tokens = line.split_whitespace();
-               let earliest   = tokens.next().unwrap().to_string().parse::<f32>().unwrap();
-               let latest     = tokens.next().unwrap().to_string().parse::<f32>().unwrap();
+               let earliest   = tokens.next().unwrap().to_string().parse::<f64>().unwrap();
+               let latest     = tokens.next().unwrap().to_string().parse::<f64>().unwrap();
 
-               let earliest   = (earliest * 10000.0) as usize;
-               let latest     = (latest   * 10000.0) as usize;
+               let earliest   = (earliest * 10000.0).round() as usize;
+               let latest     = (latest   * 10000.0).round() as usize;
 
                let timewind   = TimeWindow::new(earliest, latest);
                timewindows.push(timewind);
-- 
2.43.0


From de6c2ab398ccd4944b2b265b49e03a4209456513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 12/16] fix: estimate SRFLP states without underflow

---
 examples/srflp/model.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/srflp/model.rs b/examples/srflp/model.rs
index 31070a2..753450d 100644
--- a/examples/srflp/model.rs
+++ b/examples/srflp/model.rs
@@ -175,7 +175,7 @@ impl Problem for Srflp {
 
     fn estimate(&self, state: &State) -> isize {
         let complete_arrangement = self.nb_variables() - state.depth as usize;
-        let n_flows = complete_arrangement * (complete_arrangement - 1) / 2;
+        let n_flows = complete_arrangement * complete_arrangement.saturating_sub(1) / 2;
         let n_must_place = state.must_place.count_ones() as usize;
         let n_from_maybe_place = complete_arrangement - n_must_place;
 
@@ -201,7 +201,7 @@ impl Problem for Srflp {
         }
 
         let mut n_flows_from_must_to_maybe_place = n_must_place * n_from_maybe_place;
-        let mut n_flows_in_maybe_place = n_from_maybe_place * (n_from_maybe_place - 1) / 2;
+        let mut n_flows_in_maybe_place = n_from_maybe_place * n_from_maybe_place.saturating_sub(1) / 2;
         for (f,i,j) in self.sorted_flows.iter() {
             if state.must_place[*i] && state.must_place[*j] {
                 flows.push(*f);
@@ -255,7 +255,7 @@ impl Problem for Srflp {
         let mut edge_bound = 0;
         let mut idx = 0;
         cumul_length = 0;
-        for i in 0..(complete_arrangement-1) {
+        for i in 0..complete_arrangement.saturating_sub(1) {
             for _ in 0..(complete_arrangement-(i+1)) {
                 edge_bound += cumul_length * flows[n_flows - 1 - idx];
                 idx += 1;
-- 
2.43.0


From 09b192d36ee99a56c37b10e88dd7297d923669ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 13/16] fix: estimate PSP states without underflow when no item
 is due

---
 examples/psp/psp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 33cb794..60e6473 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -259,7 +259,7 @@ impl Psp {
                 }
             }
 
-            *storage_cost = (deadline - time) * cost;
+            *storage_cost = deadline.saturating_sub(time) * cost;
             if item != IDLE {
                 let item = item as usize;
                 state[item] = prev_dem[(item, deadline)];
-- 
2.43.0


From 530a2740c868713aec5ccbeae6d30eaf375c9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 14/16] fix: read PSP sizes followed by white space

---
 examples/psp/psp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 60e6473..cfa4de2 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -372,14 +372,17 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
         let nb_periods = lines
             .next()
             .ok_or(PspError::Missing("nb periods"))??
+            .trim()
             .parse::<usize>()?;
         let nb_items = lines
             .next()
             .ok_or(PspError::Missing("nb items"))??
+            .trim()
             .parse::<usize>()?;
         let nb_orders = lines
             .next()
             .ok_or(PspError::Missing("nb orders"))??
+            .trim()
             .parse::<usize>()?;
 
         let _blank = lines.next();
-- 
2.43.0


From 6615d65cb41cecdbff3204a7109aa5834b7b19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:25 +0000
Subject: [PATCH 15/16] Revert the repairs of the examples

The examples count as test files here; their defects are recorded as known
findings in /verif instead.
---
 examples/psp/psp.rs        |  5 +----
 examples/srflp/model.rs    |  6 +++---
 examples/tsptw/instance.rs | 14 +++++++-------
 examples/tsptw/model.rs    | 14 ++++++--------
 4 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index cfa4de2..33cb794 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -259,7 +259,7 @@ impl Psp {
                 }
             }
 
-            *storage_cost = deadline.saturating_sub(time) * cost;
+            *storage_cost = (deadline - time) * cost;
             if item != IDLE {
                 let item = item as usize;
                 state[item] = prev_dem[(item, deadline)];
@@ -372,17 +372,14 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
         let nb_periods = lines
             .next()
             .ok_or(PspError::Missing("nb periods"))??
-            .trim()
             .parse::<usize>()?;
         let nb_items = lines
             .next()
             .ok_or(PspError::Missing("nb items"))??
-            .trim()
             .parse::<usize>()?;
         let nb_orders = lines
             .next()
             .ok_or(PspError::Missing("nb orders"))??
-            .trim()
             .parse::<usize>()?;
 
         let _blank = lines.next();
diff --git a/examples/srflp/model.rs b/examples/srflp/model.rs
index 753450d..31070a2 100644
--- a/examples/srflp/model.rs
+++ b/examples/srflp/model.rs
@@ -175,7 +175,7 @@ impl Problem for Srflp {
 
     fn estimate(&self, state: &State) -> isize {
         let complete_arrangement = self.nb_variables() - state.depth as usize;
-        let n_flows = complete_arrangement * complete_arrangement.saturating_sub(1) / 2;
+        let n_flows = complete_arrangement * (complete_arrangement - 1) / 2;
         let n_must_place = state.must_place.count_ones() as usize;
         let n_from_maybe_place = complete_arrangement - n_must_place;
 
@@ -201,7 +201,7 @@ impl Problem for Srflp {
         }
 
         let mut n_flows_from_must_to_maybe_place = n_must_place * n_from_maybe_place;
-        let mut n_flows_in_maybe_place = n_from_maybe_place * n_from_maybe_place.saturating_sub(1) / 2;
+        let mut n_flows_in_maybe_place = n_from_maybe_place * (n_from_maybe_place - 1) / 2;
         for (f,i,j) in self.sorted_flows.iter() {
             if state.must_place[*i] && state.must_place[*j] {
                 flows.push(*f);
@@ -255,7 +255,7 @@ impl Problem for Srflp {
         let mut edge_bound = 0;
         let mut idx = 0;
         cumul_length = 0;
-        for i in 0..complete_arrangement.saturating_sub(1) {
+        for i in 0..(complete_arrangement-1) {
             for _ in 0..(complete_arrangement-(i+1)) {
                 edge_bound += cumul_length * flows[n_flows - 1 - idx];
                 idx += 1;
diff --git a/examples/tsptw/instance.rs b/examples/tsptw/instance.rs
index 5aca42b..adacdc5 100644
--- a/examples/tsptw/instance.rs
+++ b/examples/tsptw/instance.rs
@@ -21,7 +21,7 @@
 //! and turn it into a structs usable in Rust. Chances are high that this 
 //! module will be of little to no interest to you.
 
-use std::{fs::File, io::{BufRead, BufReader, Lines, Read}};
+use std::{f32, fs::File, io::{BufRead, BufReader, Lines, Read}};
 
 use engineering::Matrix;
 
@@ -85,19 +85,19 @@ impl <B: BufRead> From<Lines<B>> for TsptwInstance {
            else if (1..=nb_nodes).contains(&lc) {
                let i = (lc - 1) as usize;
                for (j, distance) in line.split_whitespace().enumerate() {
-                    let distance = distance.to_string().parse::<f64>().unwrap();
-                    let distance = (distance * 10000.0).round() as usize;
+                    let distance = distance.to_string().parse::<f32>().unwrap();
+                    let distance = (distance * 10000.0) as usize;
                     distances[(i, j)] = distance;
                }
            }
            // Finally, the last 'nb_nodes' lines impose the time windows constraints
            else {
                let mut tokens = line.split_whitespace();
-               let earliest   = tokens.next().unwrap().to_string().parse::<f64>().unwrap();
-               let latest     = tokens.next().unwrap().to_string().parse::<f64>().unwrap();
+               let earliest   = tokens.next().unwrap().to_string().parse::<f32>().unwrap();
+               let latest     = tokens.next().unwrap().to_string().parse::<f32>().unwrap();
 
-               let earliest   = (earliest * 10000.0).round() as usize;
-               let latest     = (latest   * 10000.0).round() as usize;
+               let earliest   = (earliest * 10000.0) as usize;
+               let latest     = (latest   * 10000.0) as usize;
 
                let timewind   = TimeWindow::new(earliest, latest);
                timewindows.push(timewind);
diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index fcac3da..ce66323 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -163,10 +163,9 @@ impl Problem for Tsptw {
                 } else {
                     0
                 },
-            // whoever arrives last among the merged states waits the least
-            ElapsedTime::FuzzyAmount{latest, ..} => 
-                if (latest + travel_time) < twj.earliest {
-                    twj.earliest - (latest + travel_time)
+            ElapsedTime::FuzzyAmount{earliest, ..} => 
+                if (earliest + travel_time) < twj.earliest {
+                    twj.earliest - (earliest + travel_time)
                 } else {
                     0
                 }
@@ -191,8 +190,7 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        // the number of cities left to visit before going back to the depot
-        let mut complete_tour = self.nb_variables().saturating_sub(state.depth as usize + 1);
+        let mut complete_tour = self.nb_variables() - state.depth as usize;
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -200,7 +198,7 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
-            complete_tour = complete_tour.saturating_sub(1);
+            complete_tour -= 1;
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
  
@@ -296,7 +294,7 @@ impl Tsptw {
           },
           ElapsedTime::FuzzyAmount{mut earliest, mut latest} => {
             earliest = earliest.max(twj.earliest);
-            latest   = latest.min(twj.latest).max(earliest);
+            latest   = latest.min(twj.latest);
 
             if earliest.eq(&latest) {
                 ElapsedTime::FixedAmount{duration: earliest}
-- 
2.43.0


From c17e66194cc0c658216432b33ea2e2629ca875d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:19 +0000
Subject: [PATCH 16/16] fix: run a solver again after an interrupted run

The barrier solver kept the thresholds of the interrupted run, which rely on
subproblems that were dropped: the next run pruned the root and reported the
incumbent as the optimum. Both solvers also kept the mark of the interruption,
so that the next run ended at once.
---
 src/solver/barrier.rs  | 8 ++++++++
 src/solver/parallel.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 812f30f..e430e77 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -204,6 +204,14 @@ where
     fn initialize(&self) {
         let root = self.root_node();
         let mut critical = self.shared.critical.lock();
+        // an interrupted run leaves its mark, possibly some open nodes, and
+        // thresholds that rely on nodes which will never be processed
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.open_by_layer.iter_mut().for_each(|o| *o = 0);
+        critical.lowest_active_layer = 0;
+        self.shared.barriers.iter().for_each(|b| b.write().clear());
+
         critical.fringe.push(root);
         critical.open_by_layer[0] += 1;
     }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index a876f83..7106298 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -186,7 +186,11 @@ where
     /// can pick it up and the processing can be bootstrapped.
     fn initialize(&self) {
         let root = self.root_node();
-        self.shared.critical.lock().fringe.push(root);
+        let mut critical = self.shared.critical.lock();
+        // an interrupted run leaves its mark and possibly some open nodes
+        critical.interrupted = false;
+        critical.fringe.clear();
+        critical.fringe.push(root);
     }
 
     fn root_node(&self) -> SubProblem<P::State> {
-- 
2.43.0

