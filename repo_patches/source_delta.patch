From 0e564cc4d9c531da0db4403a62c5e07046e21897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 01/51] fix: a true literal whose level is low enough is not
 implied a second time

---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..98c4a8a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+      return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From 15e21138cfcae7b07c0f04b88585f01e1ce62f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 02/51] fix: solve_limited stops when the conflict limit is
 reached

---
 src/solver/NapSAT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..c3b141e 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -413,6 +413,9 @@ status NapSAT::solve()
         }
         break;
       }
+      // the conflict limit was reached
+      if (_status == status::UNKNOWN)
+        break;
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From 312aabc7b1d4594a95878c25c6c394c6299b9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 03/51] fix: the literal buffer holds clauses with repeated
 literals

---
 src/solver/NapSAT-utils.cpp | 21 +++++++++++++++------
 src/solver/NapSAT.cpp       |  7 +++----
 src/solver/NapSAT.hpp       | 11 +++++++++++
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..6b102c6 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -339,14 +339,23 @@ void NapSAT::var_allocate(Tvar var)
 
   _watches.resize(2 * var.value + 2);
   _binary_watches.resize(2 * var.value + 2);
-  // reallocate the literal buffer to make sure it is big enough
+  // make sure the literal buffer is big enough, also for the clauses built by the conflict analysis, which may
+  // repeat literals
+  reserve_lit_buffer(2 * _vars.size().value + 1);
+}
+
+void NapSAT::reserve_lit_buffer(unsigned capacity)
+{
+  if (capacity <= _lit_buffer_capacity)
+    return;
   // TODO replace with std::vector
-  Tlit* new_literal_buffer = new Tlit[_vars.size().value + 1];
-  assert(_lit_buffer);
-  std::memcpy(new_literal_buffer, _lit_buffer,
-              _lit_buffer_size * sizeof(Tlit));
-  delete[] _lit_buffer;
+  Tlit* new_literal_buffer = new Tlit[capacity];
+  if (_lit_buffer) {
+    std::copy(_lit_buffer, _lit_buffer + _lit_buffer_size, new_literal_buffer);
+    delete[] _lit_buffer;
+  }
   _lit_buffer = new_literal_buffer;
+  _lit_buffer_capacity = capacity;
 }
 
 void NapSAT::allocate_chunks(size_t n_chunks)
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index c3b141e..2ccace4 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -256,9 +256,6 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _clauses.reserve(n_clauses);
   _activities.reserve(n_clauses);
 
-  // TODO replace this with an std::vector
-  _lit_buffer = new Tlit[2*n_var+1];
-  _lit_buffer_size = 0;
   var_allocate(n_var + 1);
 
   if (options.build_proof)
@@ -521,7 +518,9 @@ void NapSAT::add_literal(Tlit lit)
   ASSERT(_writing_clause);
   Tvar var = lit.var();
   var_allocate(var);
-  ASSERT(_lit_buffer_size < _vars.size().value);
+  // the input may repeat literals
+  if (_lit_buffer_size >= _lit_buffer_capacity)
+    reserve_lit_buffer(2 * _lit_buffer_size + 1);
   _lit_buffer[_lit_buffer_size++] = lit;
 }
 
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..4be20fc 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -817,6 +817,10 @@ public:
      * to write.
      */
     unsigned _lit_buffer_size = 0;
+    /**
+     * @brief Number of literals that fit in the buffer.
+     */
+    unsigned _lit_buffer_capacity = 0;
 
     /**
      * @brief Flag recording whether the most recent conflict is due to the user
@@ -1548,6 +1552,13 @@ public:
      */
     void var_allocate(Tvar var);
 
+    /**
+     * @brief Makes sure that the literal buffer can hold the given number of
+     * literals.
+     * @param capacity number of literals
+     */
+    void reserve_lit_buffer(unsigned capacity);
+
     /**
      * @brief Allocates new chunks and rescale all variable chunks.
      */
-- 
2.43.0


From fec9e0b4d8619a3e31cf44308302d64d1ed68cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 04/51] fix: the proof derives the empty clause and the clauses
 stripped of root literals

---
 src/solver/NapSAT-clauses.cpp | 11 +++++++----
 src/solver/NapSAT.cpp         | 16 ++++++++++++++++
 src/solver/NapSAT.hpp         | 10 ++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..fd00a53 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -190,6 +190,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
 
   if (clause_size == 0) {
+    if (_proof && external)
+      _proof->input_clause(id, lits_input, input_size);
+    if (_proof && n_removed > 0)
+      prove_root_literal_removal(id, lits_input, input_size);
     _status = status::UNSAT;
     return id;
   }
@@ -226,11 +230,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (_proof && external) {
     _proof->input_clause(id, lits_input, input_size);
-    // Remove the literals falsified at level 0 in the proof
-    if (n_removed > 0) {
-      _proof->remove_root_literals(id);
-    }
   }
+  // Remove the literals falsified at level 0 in the proof
+  if (_proof && n_removed > 0)
+    prove_root_literal_removal(id, lits_input, input_size);
   if (_dependency_tracker && external) {
     _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 2ccace4..d90c678 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -62,6 +62,22 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
   }
 }
 
+void napsat::NapSAT::prove_root_literal_removal(Tclause cl, const Tlit* lits, unsigned size)
+{
+  ASSERT(_proof);
+  vector<Tlit> removed;
+  vector<Tlit> kept;
+  for (unsigned i = 0; i < size; i++)
+    (lit_level(lits[i]) == LEVEL_ROOT ? removed : kept).push_back(lits[i]);
+
+  _proof->start_resolution_chain();
+  _proof->link_resolution(LIT_UNDEF, cl);
+  prove_root_literal_removal(removed.data(), removed.size());
+  // the clause needs to be deactivated to be able to replace it
+  _proof->deactivate_clause(cl);
+  _proof->finalize_resolution(cl, kept.data(), kept.size());
+}
+
 void NapSAT::restart()
 {
   NOTIFY_STAT(_n_restart);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 4be20fc..44a37ae 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -2374,6 +2374,16 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Replace a clause in the proof system by the clause without its
+     * literals falsified at level 0.
+     * @param cl clause to replace, registered in the proof system
+     * @param lits the literals of the clause in the proof system
+     * @param size number of literals
+     * @pre the proof system is enabled
+     */
+    void prove_root_literal_removal(Tclause cl, const Tlit* lits, unsigned size);
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From c6767ccf02166dbc08e5a8b2fc63494d71e4aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 05/51] fix: a learned clause may contain a literal implied at
 level 0 by another learned clause

---
 src/solver/NapSAT-clauses.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index fd00a53..2410587 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,10 +127,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
+      // a learned clause only contains such a literal if the literal was implied at level 0 after the clause was
+      // learned, when several conflicts are repaired at once
+      ASSERT(external || _options.graph_backtracking,
         "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
-      // The solver should not generate redundant literals and clauses
       satisfied_at_root |= lit_true(l);
       n_removed++;
     }
-- 
2.43.0


From 56f1ecee95703373a7602ddd500b35dcc7cc4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 06/51] fix: a decision implied at level 0 leaves no lazy
 reason nor stale missed implication

---
 src/solver/NapSAT-imply.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 98c4a8a..0c3aaf5 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -161,9 +161,15 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].decision = Tvar();
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
+    // the missed implications do not depend on this chunk anymore
+    for (TSchunk& chunk : _chunks)
+      chunk.missed_implication.set(ck, false);
     _decision_index.resize(_decision_index.size() - 1);
   }
 
+  // the literal is not a decision anymore, and the lazy reason cannot do better than the root level
+  lit_lazy_reason(lit) = CLAUSE_UNDEF;
+
   // update the level of the literal to root
   lit_level(lit) = LEVEL_ROOT;
   NOTIFY(update_level, lit, LEVEL_ROOT);
-- 
2.43.0


From accd7dfd2cd16794b321557f0a30748acd3c0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 07/51] fix: lazy reasons do not assume ordered literals in
 graph backtracking

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 44a37ae..6198479 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1425,6 +1425,9 @@ public:
       ASSERT(lit_level(lit) > LEVEL_ROOT);
       ASSERT(check_clause_implying(l_reason));
       ASSERT(clause_size(l_reason) > 1);
+      // in GB, the levels change without reordering the literals
+      if (_options.graph_backtracking)
+        return implication_level(l_reason);
       ASSERT(lit_is_max_literal(lits[1], lits + 1, clause_size(l_reason) - 1));
       return lit_level(lits[1]);
     }
-- 
2.43.0


From b1ad740d8a70061f6f6b936f29eaffc5d40bd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 08/51] fix: solving again is allowed when unused variables are
 ignored

---
 src/solver/NapSAT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index d90c678..e76a817 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -411,7 +411,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
-- 
2.43.0


From 91bd90649dea539884cfa7a4421164e2212ce457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 09/51] fix: forget only the assumption itself, and tolerate
 assumptions implied at level 0

---
 src/solver/NapSAT-assumptions.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..218fbea 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -49,13 +49,11 @@ bool NapSAT::forget_assumption(Tlit assumption)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    if (!lit_locked(assumption)) {
+    if (!lit_locked(assumption) || !lit_true(assumption)) {
       // the assumption was not added
       return false;
     }
-    ASSERT(lit_decision(assumption));
-    // unlock the chunk of the literal
-    ASSERT(lit_chunks(assumption).count() == 1);
+    // unlock the chunk of the literal (it has none if it was implied at root level in the meantime)
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
@@ -70,13 +68,11 @@ void NapSAT::forget_assumption()
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    // unlock all locked chunks
-    for (auto it = _locked_chunks.cbegin(); it != _locked_chunks.cend(); ++it) {
-      Tvar var = _chunks[*it].decision;
-      Tlit lit(var, var_value(var));
-      ASSERT(lit_decision(lit));
-      lit_unlock(lit);
-    }
+    // unlock all locked literals
+    // those implied at root level after they were assumed do not have a chunk anymore
+    for (Tlit lit : _trail)
+      if (lit_locked(lit))
+        lit_unlock(lit);
     _locked_chunks.clear();
   }
   if (_status == status::UNSAT) {
-- 
2.43.0


From 9c2d3ab071723d1fff2bc1056825b6ee756e69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 10/51] fix: assumptions do not hide that the clauses are
 unsatisfiable

---
 src/solver/NapSAT-assumptions.cpp | 7 ++++---
 src/solver/NapSAT-clauses.cpp     | 1 +
 src/solver/NapSAT-conflict.cpp    | 2 ++
 src/solver/NapSAT.hpp             | 6 ++++++
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 218fbea..53874d9 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -57,7 +57,7 @@ bool NapSAT::forget_assumption(Tlit assumption)
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && !_unsat_without_assumptions) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -75,7 +75,7 @@ void NapSAT::forget_assumption()
         lit_unlock(lit);
     _locked_chunks.clear();
   }
-  if (_status == status::UNSAT) {
+  if (_status == status::UNSAT && !_unsat_without_assumptions) {
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -299,7 +299,8 @@ bool NapSAT::add_assumption_GB_false(Tlit lit)
 bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  _status = status::UNKNOWN;
+  if (_status == status::SAT)
+    _status = status::UNKNOWN;
   ASSERT(!lits.empty());
   ASSERT(_options.graph_backtracking);
   ASSERT(all_of(lits.begin(), lits.end(),
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 2410587..dccb16f 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -195,6 +195,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     if (_proof && n_removed > 0)
       prove_root_literal_removal(id, lits_input, input_size);
     _status = status::UNSAT;
+    _unsat_without_assumptions = true;
     return id;
   }
 
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..7a35827 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -430,6 +430,7 @@ bool NapSAT::root_level_conflict()
     if (clause_level(conflict) == LEVEL_ROOT) {
       // the conflict cannot be repaired
       _status = status::UNSAT;
+      _unsat_without_assumptions = true;
       if (_proof) {
         _proof->start_resolution_chain();
         _proof->link_resolution(LIT_UNDEF, conflict);
@@ -1227,6 +1228,7 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
 
     if (_lit_buffer_size == 0) {
       _status = status::UNSAT;
+      _unsat_without_assumptions = true;
       return;
     }
     _lit_buffer_size = 0;
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 6198479..13b0e1a 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -829,6 +829,12 @@ public:
      */
     bool _just_learned_from_user = false;
 
+    /**
+     * @brief True if the clauses are unsatisfiable on their own. In that case,
+     * forgetting assumptions does not help.
+     */
+    bool _unsat_without_assumptions = false;
+
     /**  ACTIVITY HEAP  **/
     /**
      * @brief Activity increment for variables. This value is multiplied by the
-- 
2.43.0


From 0626ce1a9faf4795f75116a4de93a8437991f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 11/51] fix: assume on contradictory clauses reports the
 failure

---
 src/solver/NapSAT-assumptions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 53874d9..c20e0f1 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -26,6 +26,12 @@ bool NapSAT::assume(Tlit assumption)
     ASSERT(false);
   }
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  // the clauses added by the user may be in conflict, and the conflicts may not survive the assumption
+  if (_status != status::UNSAT && !_conflicts.empty())
+    repair_conflicts();
+  // the clauses already contradict the current assumptions
+  if (_status == status::UNSAT)
+    return false;
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
   bool success = true;
   if (_options.graph_backtracking) {
-- 
2.43.0


From 2beb43a5e4f87c238dad2a7414e3b4234385ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 12/51] fix: allocate a chunk for an assumption when none is
 free

---
 src/solver/NapSAT-assumptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index c20e0f1..c5ecaae 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -236,6 +236,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
    * 4. update the levels of all literals above `level` in the trail (because we added a decision)
    */
   bitset lit_chunk = lit_chunks(lit);
+  if (_free_chunks.empty())
+    allocate_chunks(2 * _n_allocated_chunks);
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
-- 
2.43.0


From 5e5a45bac9f30319cb72af96402f805c065d7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 13/51] fix: assuming an implied literal updates everything
 that depends on its chunks

---
 src/solver/NapSAT-assumptions.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index c5ecaae..1372134 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -241,7 +241,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
-  lit_lazy_reason(lit) = lit_reason(lit);
+  if (_options.lazy_chunk_merging)
+    lit_lazy_reason(lit) = lit_reason(lit);
   lit_reason(lit) = CLAUSE_UNDEF;
   NOTIFY(update_reason, lit, CLAUSE_UNDEF);
   lit_level(lit) = level+1;
@@ -253,11 +254,20 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
 
   lit_chunks(lit).set(ck, true);
   _chunks[ck].decision = lit.var();
-  _chunks[ck].missed_implication = lit_chunk;
   _locked_chunks.set(ck, true);
 
   lit_lock(lit);
 
+  // what depended on the chunks of the literal may now depend on its new chunk
+  for (Tlit l : _trail)
+    if (lit_cross_chunks(l) >= lit_chunk)
+      lit_cross_chunks(l).set(ck, true);
+  for (TSchunk& chunk : _chunks)
+    if (chunk.missed_implication >= lit_chunk)
+      chunk.missed_implication.set(ck, true);
+  if (_options.lazy_chunk_merging)
+    _chunks[ck].missed_implication = lit_chunk;
+
   // update the chunks and levels of all literals above `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
     Tlit l = _trail[i];
@@ -272,7 +282,7 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
       NOTIFY(update_level, l, lit_level(l));
     }
     // update chunks if necessary
-    if (lit_chunk >= lit_chunks(l)) {
+    if (!lit_decision(l) && lit_chunks(l) >= lit_chunk) {
       Tlevel recomputed_level = LEVEL_ROOT;
       lit_chunks(l).clear();
       const Tclause reason = lit_reason(l);
-- 
2.43.0


From c07b45679a7d3fd73026211af5dd2dd4f5997278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 14/51] fix: restarts keep the assumptions

---
 src/solver/NapSAT.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index e76a817..b75b9ab 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -83,7 +83,17 @@ void NapSAT::restart()
   NOTIFY_STAT(_n_restart);
   if (_options.graph_backtracking) {
     unsigned tmp = _n_propagated_lits;
-    backtrack(LEVEL_ROOT);
+    if (_n_assumptions == 0) {
+      backtrack(LEVEL_ROOT);
+    } else {
+      // the assumptions stay on the trail
+      bitset unlocked(_n_allocated_chunks);
+      for (Tlevel level = 1; level <= solver_level(); level++)
+        if (!lit_locked(decision_lit(level)))
+          unlocked |= lit_chunks(decision_lit(level));
+      if (!unlocked.empty())
+        backtrack(unlocked);
+    }
     _n_propagated_lits = min(tmp, _n_propagated_lits);
     size_t i = _trail.size();
     while (i > 0) {
-- 
2.43.0


From 6511a70e4fdd89cf393d670d599b656c095da2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 15/51] fix: the unsat core contains the assumptions that imply
 the conflict

---
 src/solver/NapSAT-assumptions.cpp | 44 ++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 1372134..b0f94ae 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -92,28 +92,36 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding literals.
+  // chunks only. Return the assumptions that falsify one of them.
   std::vector<Tlit> failed;
-  bitset conflict_chunks(_n_allocated_chunks);
   for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      for (unsigned i = 0; i < size; i++) {
-        Tlit lit = lits[i];
-        if (lit_decision(lit) && lit_locked(lit)) {
-          failed.push_back(lit);
-        }
-      }
-      return failed;
+    if (!(clause_chunks(conflict) <= _locked_chunks))
+      continue;
+    // all chunks in the conflict are locked, the assumption failed
+    // search the assumptions that imply the negation of the literals of the conflict
+    std::vector<bool> involved(_vars.size().value, false);
+    auto involve = [&](Tclause cl) {
+      for (unsigned i = 0; i < clause_size(cl); i++)
+        involved[clause_lits(cl)[i].var().value] = true;
+    };
+    involve(conflict);
+    for (size_t i = _trail.size(); i-- > 0;) {
+      Tlit lit = _trail[i];
+      if (!involved[lit.var().value])
+        continue;
+      if (lit_decision(lit))
+        failed.push_back(lit);
+      else
+        involve(lit_reason(lit));
     }
+    return failed;
   }
-  ASSERT(false);
+  // Either the clauses are unsatisfiable without the assumptions, or no single
+  // conflict explains the failure (lazy chunk merging): blame all assumptions.
+  if (!_unsat_without_assumptions)
+    for (Tlit lit : _trail)
+      if (lit_locked(lit))
+        failed.push_back(lit);
   return failed;
 }
 
-- 
2.43.0


From 63a16b00adcffda5eaef27222977742e0d2f3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 16/51] fix: an assumption is not merged into another decision
 while it is locked

---
 src/solver/NapSAT-imply.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 0c3aaf5..195e479 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -321,8 +321,8 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
 
   lit_cross_chunks(c1) |= lit_chunks(c2);
 
-  if (!lit_decision(c2)) {
-    //nothing to do here
+  if (!lit_decision(c2) || lit_locked(c2)) {
+    // nothing to do here: an assumption stays a decision as long as it is locked
     return;
   }
 
-- 
2.43.0


From 627fafbc93e3f5f75a5c9c56b20b0724d709869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 17/51] fix: the conflict that reaches the limit is repaired
 before the solver gives up

---
 src/solver/NapSAT.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index b75b9ab..a8f6e2d 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -392,15 +392,16 @@ bool NapSAT::propagate()
 
     if (!_conflicts.empty()) {
       _conflict_count++;
-      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
-        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
-        return false;
-      }
       repair_conflicts();
 
       if (_status == status::UNSAT) {
         return false;
       }
+      // the conflict must be repaired before giving up: clauses added in the meantime could change the trail
+      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
+        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        return false;
+      }
       if (_options.delete_clauses && _n_learned_clauses >= _next_clause_elimination){
         simplify_clause_set();
       }
-- 
2.43.0


From 51c1d883f18a4f8a3f530c4545fe3ea029ad8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 18/51] fix: create exactly the variables asked for

---
 src/solver/NapSAT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index a8f6e2d..e2cba02 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -282,7 +282,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
   _clauses.reserve(n_clauses);
   _activities.reserve(n_clauses);
 
-  var_allocate(n_var + 1);
+  var_allocate(n_var);
 
   if (options.build_proof)
     _proof = new napsat::proof::resolution_proof();
@@ -298,7 +298,7 @@ napsat::NapSAT::NapSAT(unsigned n_var, unsigned n_clauses, napsat::options& opti
 Tvar napsat::NapSAT::new_variable()
 {
   Tvar var = _vars.size();
-  var_allocate(_vars.size() + 1);
+  var_allocate(var);
   return var;
 }
 
-- 
2.43.0


From 63bd502650f3f6559dc5f77c2dd824f325ae5413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 19/51] fix: a truncated xz file is not read as a shorter
 formula

---
 src/utils/decoder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..657eeaf 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -108,6 +108,7 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -125,11 +126,18 @@ bool decompress_xz(const char* filename, ostringstream& output)
       ret = lzma_code(&strm, LZMA_RUN);
       if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
         print_error_message(ret);
+        lzma_end(&strm);
         return false;
       }
       output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
     } while (strm.avail_out == 0);
   } while (ret != LZMA_STREAM_END);
+  lzma_end(&strm);
+
+  if (ret != LZMA_STREAM_END) {
+    LOG_ERROR("the compressed file is truncated");
+    return false;
+  }
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
 
   return true;
-- 
2.43.0


From abb826a139e9adc9c713baa1c138103d7326e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 20/51] fix: a clause over variables the last model leaves open
 needs a new search

---
 src/solver/NapSAT-clauses.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index dccb16f..498b586 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -258,8 +258,12 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
   if (external && _options.ignore_unused_variables) {
     // mark all the variables in the clause as constrained
-    for (unsigned i = 0; i < clause.size; i++)
+    for (unsigned i = 0; i < clause.size; i++) {
       var_mark_constrained(lits[i].var());
+      // the last model did not have to assign the variable
+      if (_status == status::SAT && lit_undef(lits[i]))
+        _status = status::UNKNOWN;
+    }
   }
 
   if (clause.size == 1) {
-- 
2.43.0


From 0ab9d0bd1b48752987f0bb785eaf0bcb2592ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 21/51] fix: a clause of a DIMACS file may span lines, and a
 line may hold several

---
 src/solver/NapSAT-utils.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 6b102c6..eb2a870 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -181,12 +181,10 @@ bool NapSAT::parse_dimacs(const char* filename)
     }
     first_line = false;
 
+    // a clause ends with 0; it may span several lines, and a line may hold several clauses
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while (ss >> token) {
       int lit;
       try {
         size_t pos;
@@ -195,17 +193,24 @@ bool NapSAT::parse_dimacs(const char* filename)
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
+        _writing_clause = false;
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (!_writing_clause)
+        start_clause();
+      if (lit != 0) {
+        add_literal(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      finalize_clause();
+      if (_status != status::UNKNOWN)
+        return true;
     }
-    finalize_clause();
-    if (_status != status::UNKNOWN)
-      return true;
   }
+  // the last clause may lack its 0
+  if (_writing_clause)
+    finalize_clause();
   return true;
 }
 
-- 
2.43.0


From b9c06b5f28dfb7f0fc7fed4d66c5dc8f4584e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 22/51] fix: a file read after an answer is read to its end

---
 src/solver/NapSAT-utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index eb2a870..cbb86c2 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -204,7 +204,9 @@ bool NapSAT::parse_dimacs(const char* filename)
         continue;
       }
       finalize_clause();
-      if (_status != status::UNKNOWN)
+      // nothing more to learn from the file; an answer to an earlier call (SAT, or UNSAT under assumptions) does
+      // not stop the reading
+      if (_status == status::UNSAT && _unsat_without_assumptions)
         return true;
     }
   }
-- 
2.43.0


From eb0837ccb292e6cb95d3f53cee0b54fc350e55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 23/51] fix: a DIMACS file declares exactly its variables

---
 src/solver/NapSAT-utils.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index cbb86c2..8532848 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -106,7 +106,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != var_string.size())
             throw invalid_argument(var_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
           // done, next line
           continue;
@@ -146,7 +146,7 @@ bool NapSAT::parse_dimacs(const char* filename)
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
           if (var >= _vars.size())
-            var_allocate(var + 1);
+            var_allocate(var);
           var_weight(var) = weight;
           // done, next line
           continue;
@@ -169,8 +169,12 @@ bool NapSAT::parse_dimacs(const char* filename)
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
         unsigned n_var, n_clauses;
-        sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
-        if (n_var > _vars.size().value) {
+        if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
+          LOG_ERROR("The problem line " << line << " is malformed.");
+          _status = status::ERROR;
+          return false;
+        }
+        if (n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
           var_allocate(n_var);
         }
-- 
2.43.0


From 096004d30732577eccd01e774460f88da2c9f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 24/51] fix: input files with short names can be read

---
 src/solver/NapSAT-utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 8532848..b542524 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -51,7 +51,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (string(filename).ends_with(".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +60,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (string(filename).ends_with(".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From 8d3cab80328589bd6b1c810b6afc357405e711ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 25/51] fix: a bit set whose first block is empty is not empty

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 56f2d6fa20e3dea0b318221779a649d9d77f18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 26/51] fix: removing from the heap keeps it ordered

---
 src/utils/heap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..f94a536 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,11 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
+  // the element that takes the place may come from another subtree
+  if (i < _heap.size()) {
+    heapify_up(i);
     heapify_down(i);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From ce2e5aeb8f730dbf039ddbe732256ec9b57ee1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 27/51] fix: a value out of range is a malformed value

---
 src/utils/options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..78c479d 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -151,7 +151,7 @@ namespace napsat
     try {
       _storage = stod(next_token);
     }
-    catch (const std::invalid_argument&) {
+    catch (const std::logic_error&) { // not a number, or out of range
       LOG_WARNING("option " << tokens[i] << " requires a floating point number value.");
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
-- 
2.43.0


From f3d3a703d4bc119911b86cea122f8caaf5bc9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 28/51] fix: a resolution over a pivot that does not occur is
 rejected

---
 src/proof/proof.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..4d81940 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -180,10 +180,16 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
       continue;
 
     unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
+    if (pivot_index == tmp_lits.size()) {
+      LOG_ERROR("The pivot " << pivot.to_string() << " is not in the clauses resolved");
+      return false;
+    }
     tmp_lits.erase(pivot_index + tmp_lits.begin());
     unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
+    if (neg_pivot_index == tmp_lits.size()) {
+      LOG_ERROR("The negation of the pivot " << pivot.to_string() << " is not in the clauses resolved");
+      return false;
+    }
     tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
   }
 
-- 
2.43.0


From 131d1ebdacdf1e286964eb5eb1d927ecca3b8387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 29/51] fix: checking a wrong proof again rejects it again

---
 src/proof/proof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 4d81940..c7652eb 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -290,12 +290,12 @@ bool resolution_proof::check_proof(void)
   assert(empty_clause_id != 0xFFFFFFFF);
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  bool correct = true;
+  while(correct && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
     clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    correct = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
       if (!clauses[link.second].marked)
@@ -303,7 +303,7 @@ bool resolution_proof::check_proof(void)
   }
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return correct;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From 4a260dafbf157d14c7fe9b71f5fbd237a9312ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 30/51] fix: the proof checker resolves away the pivot only

---
 src/proof/proof.cpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index c7652eb..4a0fa7f 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -167,30 +167,26 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
-    for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
-
-    if (pivot == LIT_UNDEF)
-      continue;
-
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    if (pivot_index == tmp_lits.size()) {
-      LOG_ERROR("The pivot " << pivot.to_string() << " is not in the clauses resolved");
-      return false;
+    bool resolved = pivot == LIT_UNDEF;
+    if (!resolved) {
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size()) {
+        LOG_ERROR("The pivot " << pivot.to_string() << " is not in the clause resolved so far");
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
+    // only the negation of the pivot is removed from the resolvent
+    for (unsigned i = 0; i < cl.size; i++) {
+      if (pivot != LIT_UNDEF && cl.lits[i] == ~pivot)
+        resolved = true;
+      else
+        binary_insert(tmp_lits, cl.lits[i]);
     }
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    if (neg_pivot_index == tmp_lits.size()) {
-      LOG_ERROR("The negation of the pivot " << pivot.to_string() << " is not in the clauses resolved");
+    if (!resolved) {
+      LOG_ERROR("The negation of the pivot " << pivot.to_string() << " is not in the clause to resolve with");
       return false;
     }
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From edb5be57299e8edd7d15e9afe7994e23937f7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 31/51] fix: printing a proof follows each clause once

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 4a0fa7f..e07de78 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -373,7 +373,8 @@ void resolution_proof::print_proof(void)
     clause &c = clauses[index];
     c.marked = true;
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      clauses_to_check.push_back(link.second);
+      if (!clauses[link.second].marked)
+        clauses_to_check.push_back(link.second);
   }
 
   for (unsigned index = 0; index < clauses.size(); index++) {
-- 
2.43.0


From 83e6f521a0c948af6eefeb89d719f018ea7290f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 32/51] fix: an environment option takes its value with it

---
 src/solver/SAT-options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..84de1a7 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -83,9 +83,11 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
       if (next_token != "" && next_token[0] != '-') {
         if (next_token == "on") {
           *bool_options[token] = true;
+          i++;
         }
         else if (next_token == "off") {
           *bool_options[token] = false;
+          i++;
         }
         else {
           LOG_WARNING("option " << token << " requires a boolean value (on/off).");
-- 
2.43.0


From 827178742513e344b8ced616b77a623d725f1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 33/51] fix: compressed files of several streams are read to
 their end

---
 src/utils/decoder.cpp | 68 ++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index 657eeaf..0a4c2d4 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -100,7 +100,7 @@ static string byte_size_to_string(uint64_t n_bytes) {
 bool decompress_xz(const char* filename, ostringstream& output)
 {
   lzma_stream strm = LZMA_STREAM_INIT;
-  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, 0);
+  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, LZMA_CONCATENATED);
   if (ret != LZMA_OK) {
     LOG_ERROR("failed to initialize the decompression stream");
     return false;
@@ -115,30 +115,28 @@ bool decompress_xz(const char* filename, ostringstream& output)
   char buffer_in[buff_size];
   char buffer_out[buff_size];
 
+  // the file may consist of several streams: it ends where the input ends
+  lzma_action action = LZMA_RUN;
   do {
-    strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
-    if (strm.avail_in == 0)
-      break;
-    strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
-    do {
-      strm.avail_out = sizeof(buffer_out);
-      strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
-      ret = lzma_code(&strm, LZMA_RUN);
-      if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
-        print_error_message(ret);
-        lzma_end(&strm);
-        return false;
-      }
-      output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
-    } while (strm.avail_out == 0);
+    if (strm.avail_in == 0 && action == LZMA_RUN) {
+      file.read(buffer_in, sizeof(buffer_in));
+      strm.avail_in = file.gcount();
+      strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
+      if (strm.avail_in == 0)
+        action = LZMA_FINISH;
+    }
+    strm.avail_out = sizeof(buffer_out);
+    strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
+    ret = lzma_code(&strm, action);
+    if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
+      print_error_message(ret);
+      lzma_end(&strm);
+      return false;
+    }
+    output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
   } while (ret != LZMA_STREAM_END);
-  lzma_end(&strm);
-
-  if (ret != LZMA_STREAM_END) {
-    LOG_ERROR("the compressed file is truncated");
-    return false;
-  }
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
@@ -161,16 +159,32 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
         return false;
     }
 
+    bool success = false;
     while (bzError == BZ_OK) {
         int bytesRead = BZ2_bzRead(&bzError, bzFile, buffer, bufferSize);
-        if (bytesRead > 0) {
+        if ((bzError == BZ_OK || bzError == BZ_STREAM_END) && bytesRead > 0) {
             output.write(buffer, bytesRead);
         }
+        if (bzError != BZ_STREAM_END)
+            continue;
+        // the file may consist of several streams: look for what follows this one
+        void* unused = nullptr;
+        int nUnused = 0;
+        BZ2_bzReadGetUnused(&bzError, bzFile, &unused, &nUnused);
+        string rest(static_cast<char*>(unused), nUnused);
+        BZ2_bzReadClose(&bzError, bzFile);
+        bzFile = nullptr;
+        int next = rest.empty() ? fgetc(file) : 0;
+        if (next == EOF) {
+            success = true;
+            break;
+        }
+        if (rest.empty())
+            ungetc(next, file);
+        bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, rest.data(), rest.size());
     }
-
-    bool success = (bzError == BZ_STREAM_END);
-
-    BZ2_bzReadClose(&bzError, bzFile);
+    if (bzFile)
+        BZ2_bzReadClose(&bzError, bzFile);
     fclose(file);
 
     return success;
-- 
2.43.0


From 8febbc3f6c1d4b88ca12a8724f5b90b91189be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 34/51] fix: negative numbers in problem lines and weight
 comments are malformed

---
 src/solver/NapSAT-utils.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b542524..7862528 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <algorithm>
 
 #define ORANGE "\033[0;33m"
@@ -102,9 +103,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !alias.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           if (var >= _vars.size())
             var_allocate(var);
           sentinel::wrapper::set_variable_alias(_sentinel, var, alias);
@@ -139,9 +141,10 @@ bool NapSAT::parse_dimacs(const char* filename)
       if (!var_string.empty() && !weight_string.empty() && rest.empty()) {
         try {
           size_t pos;
-          Tvar var = stoi(var_string, &pos);
-          if (pos != var_string.size())
+          int number = stoi(var_string, &pos);
+          if (pos != var_string.size() || number <= 0)
             throw invalid_argument(var_string);
+          Tvar var = number;
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
@@ -168,15 +171,16 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
-        if (sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses) != 2) {
+        long long n_var, n_clauses;
+        if (sscanf(line.c_str(), "p cnf %lld %lld", &n_var, &n_clauses) != 2
+          || n_var < 0 || n_var > numeric_limits<int>::max() || n_clauses < 0) {
           LOG_ERROR("The problem line " << line << " is malformed.");
           _status = status::ERROR;
           return false;
         }
-        if (n_var >= _vars.size().value) {
+        if ((unsigned)n_var >= _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
-          var_allocate(n_var);
+          var_allocate((unsigned)n_var);
         }
       } else {
         LOG_ERROR("Misplaced string \'p cnf\' found. Must be the first non-comment line.");
@@ -193,7 +197,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        if (pos != token.size() || lit == numeric_limits<int>::min())
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
-- 
2.43.0


From 1b21e3255adb7624fbcfd1f5b5dc0556dce339e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 35/51] fix: an empty clause may be added before any variable
 exists

Adding the empty clause to a solver without variables aborted in debug
builds (and so did a DIMACS file whose only clause is empty and
--all-models on a formula without variables).
---
 src/solver/NapSAT-clauses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 498b586..f59c1ad 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -108,7 +108,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             bool external,
                                             Tclause id)
 {
-  ASSERT(lits_input != nullptr);
+  ASSERT(lits_input != nullptr || input_size == 0);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
   if (external) {
-- 
2.43.0


From f4a9f81d2f92eb371c81ee0faca8951e51c82932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 36/51] fix: chunks allocated beyond the first ones exist and
 fit their sets

---
 src/solver/NapSAT-assumptions.cpp | 2 +-
 src/solver/NapSAT-utils.cpp       | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index b0f94ae..92b5303 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -243,9 +243,9 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
    * 3. update the chunks of all literals whose chunks are superset of the chunk of the assumed literal (before the change)
    * 4. update the levels of all literals above `level` in the trail (because we added a decision)
    */
-  bitset lit_chunk = lit_chunks(lit);
   if (_free_chunks.empty())
     allocate_chunks(2 * _n_allocated_chunks);
+  bitset lit_chunk = lit_chunks(lit);
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 7862528..512e381 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -379,8 +379,8 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  for (Tchunk i = 1; i <= n_chunks - _n_allocated_chunks; i++) {
+    _free_chunks.push_back(n_chunks - i);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -390,9 +390,10 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _chunks.size().value; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
+  _locked_chunks.resize(_n_allocated_chunks);
 }
 
 unsigned NapSAT::utility_heuristic(Tlit lit)
-- 
2.43.0


From eed570eac9c42d401283eee7f7cf9a85fae98ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 37/51] fix: an assumption that was implied may be merged with
 what implied it

---
 src/solver/NapSAT-assumptions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 92b5303..5aae397 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -273,8 +273,10 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   for (TSchunk& chunk : _chunks)
     if (chunk.missed_implication >= lit_chunk)
       chunk.missed_implication.set(ck, true);
-  if (_options.lazy_chunk_merging)
+  if (_options.lazy_chunk_merging) {
     _chunks[ck].missed_implication = lit_chunk;
+    _chunks[ck].is_reimplied = true;
+  }
 
   // update the chunks and levels of all literals above `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
-- 
2.43.0


From dd87fda25e9553bd09aadb085207d1566130af18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 38/51] fix: chunks merged lazily may be backtracked together
 with what reimplies them

---
 src/solver/NapSAT-conflict.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 7a35827..aec63cf 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -102,12 +102,14 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
       merged_chunks -= _locked_chunks;
     }
 
+    if (current.has_intersection(merged_chunks)) {
+      // a chunk that reimplies this one is already in the combination, any larger combination will be subsumed
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
+      return;
+    }
+
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
       Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
       next_current.set(c2, true);
       compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-- 
2.43.0


From 73cc9549d801c9ede30e94fde439564664f5c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 39/51] fix: the trail can be printed while nothing is assigned
 above the root level

---
 src/utils/printer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..d6fd9b4 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -57,6 +57,7 @@ static inline unsigned log10(int n)
 string pad(unsigned n, unsigned max_int)
 {
   n = max(n, 1u);
+  max_int = max(max_int, 1u);
   int max_digits = log10(max_int);
   int digits = log10(n);
   string s = "";
-- 
2.43.0


From 68446160be87bc393de258cc5a7e14030f18827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 40/51] fix: a clause learned interactively may make the
 formula unsatisfiable

---
 src/solver/NapSAT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index e2cba02..45849cc 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -475,7 +475,8 @@ status NapSAT::solve()
     else
 #endif
       decide();
-    ASSERT(_status != status::UNSAT);
+    // a clause learned interactively may be falsified at the root level
+    ASSERT(_options.interactive || _status != status::UNSAT);
     if (_status == status::SAT)
       break;
   }
-- 
2.43.0


From 1565fa888c77c65271278486e41556158e9080ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 41/51] fix: assuming an implied literal shifts only the levels
 above it

---
 src/solver/NapSAT-assumptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 5aae397..8594ec8 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -287,7 +287,7 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
       _decision_index[lit_level(l)] = i;
     }
     // update level
-    if (lit_level(l) >= level) {
+    if (lit_level(l) > level) {
       lit_level(l)++;
       NOTIFY(update_level, l, lit_level(l));
     }
-- 
2.43.0


From a68c1db9280a7ba0e4ed3a81aeecd5a4e0c607dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 42/51] fix: the approximate chunk weights use the chunks of
 the literal at hand

---
 src/solver/NapSAT-conflict.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index aec63cf..b1dab8a 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -541,7 +541,6 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       lit_chunks_set = lit_chunks(lit);
       lit_chunks_set &= counted_chunks;
       count = lit_chunks_set.count();
-    } else {
       last_chunks = &lit_chunks(lit);
     }
     // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
-- 
2.43.0


From 508cf377e753b4ed277b15becc942b04b37f9a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 43/51] fix: the sum of the chunk weights counts literals that
 belong to all chunks

---
 src/solver/NapSAT-conflict.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index b1dab8a..d8021a2 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -544,7 +544,8 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       last_chunks = &lit_chunks(lit);
     }
     // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
-    if (count == 0 || count == counted_chunk_size)
+    // (the sum counts it once for each chunk of a set, such that only the literals in none of them can be skipped)
+    if (count == 0 || (count == counted_chunk_size && !_options.use_sum_approximate_cost_estimation))
       continue;
 
     double lit_cost = literal_cost(lit);
-- 
2.43.0


From 64f36a2688ce1d03802b50a7a7c3881682d4695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 44/51] fix: malformed arguments of interactive commands are
 refused

---
 src/solver/NapSAT-utils.cpp | 78 +++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 16 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 512e381..25a0c07 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -979,6 +979,40 @@ void NapSAT::print_watch_lists(Tlit lit) const
   }
 }
 
+/**
+ * @brief Reads a number given as an argument of a command.
+ * @return false if the token is not a number.
+ */
+static bool read_number(const std::string& token, int& number)
+{
+  try {
+    size_t end = 0;
+    number = stoi(token, &end);
+    if (end == token.size())
+      return true;
+  } catch (const std::exception&) {
+  }
+  LOG_WARNING("The argument \"" << token << "\" is not a number. This command is ignored.");
+  return false;
+}
+
+/**
+ * @brief Reads a literal over the variables 1 to n_vars - 1, given as an argument of a command.
+ * @return false if the token is not such a literal.
+ */
+static bool read_literal(const std::string& token, size_t n_vars, Tlit& lit)
+{
+  int number = 0;
+  if (!read_number(token, number))
+    return false;
+  if (number == 0 || number == numeric_limits<int>::min() || (size_t) abs(number) >= n_vars) {
+    LOG_WARNING("The literal " << token << " does not exist. This command is ignored.");
+    return false;
+  }
+  lit = Tlit(abs(number), number > 0);
+  return true;
+}
+
 bool NapSAT::parse_command(std::string input)
 {
   if (input == "") {
@@ -1015,8 +1049,9 @@ bool NapSAT::parse_command(std::string input)
     if (tokens.size() == 1)
       decide();
     else if (tokens.size() == 2) {
-      int lit_int = stoi(tokens[1]);
-      Tlit lit = Tlit(abs(lit_int), lit_int > 0);
+      Tlit lit;
+      if (!read_literal(tokens[1], _vars.size().value, lit))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
@@ -1033,8 +1068,9 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!read_literal(tokens[1], _vars.size().value, lit))
+      return false;
     if (!assume(lit)) {
       LOG_WARNING("The assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
@@ -1045,8 +1081,9 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    int lit_int = stoi(tokens[1]);
-    Tlit lit(abs(lit_int), lit_int > 0);
+    Tlit lit;
+    if (!read_literal(tokens[1], _vars.size().value, lit))
+      return false;
     if (!forget_assumption(lit)) {
       LOG_WARNING("The forgetting of assumption of literal " << lit_to_string(lit) << " failed.");
       return false;
@@ -1054,21 +1091,25 @@ bool NapSAT::parse_command(std::string input)
   }
   else if (tokens[0] == "HINT") {
     if (tokens.size() == 2) {
-      int lit = stoi(tokens[1]);
+      Tlit lit;
+      if (!read_literal(tokens[1], _vars.size().value, lit))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
       }
-      hint(Tlit(abs(lit), lit > 0));
+      hint(lit);
     }
     else if (tokens.size() == 3) {
-      int lit = stoi(tokens[1]);
+      Tlit lit;
+      int level = 0;
+      if (!read_literal(tokens[1], _vars.size().value, lit) || !read_number(tokens[2], level))
+        return false;
       if (!lit_undef(lit)) {
         LOG_WARNING("The literal " << lit_to_string(lit) << " is not undefined. This command is ignored.");
         return false;
       }
-      Tlevel level = stoi(tokens[2]);
-      hint(Tlit(abs(lit), lit > 0), level);
+      hint(lit, level);
     }
     else {
       LOG_WARNING("Wrong number of arguments (expected 0 or 1). This command is ignored.");
@@ -1076,11 +1117,13 @@ bool NapSAT::parse_command(std::string input)
     }
   }
   else if (tokens[0] == "LEARN") {
+    vector<Tlit> lits(tokens.size() - 1);
+    for (unsigned i = 1; i < tokens.size(); i++)
+      if (!read_literal(tokens[i], numeric_limits<int>::max(), lits[i - 1]))
+        return false;
     start_clause();
-    for (unsigned i = 1; i < tokens.size(); i++) {
-      int lit = stoi(tokens[i]);
-      add_literal(Tlit(abs(lit), lit > 0));
-    }
+    for (Tlit lit : lits)
+      add_literal(lit);
     finalize_clause();
   }
   else if (tokens[0] == "EXIT") {
@@ -1107,7 +1150,10 @@ bool NapSAT::parse_command(std::string input)
       LOG_WARNING("Wrong number of arguments (expected 1). This command is ignored.");
       return false;
     }
-    Tclause cl = stoi(tokens[1]);
+    int number = 0;
+    if (!read_number(tokens[1], number))
+      return false;
+    Tclause cl = number;
     if (cl < 0 || cl >= _clauses.size()) {
       LOG_WARNING("The clause " << cl << " does not exist. This command is ignored.");
       return false;
-- 
2.43.0


From 17f0431910bcd9004d8fad9df1cf40811f9a1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 45/51] fix: the chunks that reimply a decision follow the
 chunks of its lazy reason

---
 src/solver/NapSAT-assumptions.cpp |  9 +++------
 src/solver/NapSAT-imply.cpp       |  2 ++
 src/solver/NapSAT.hpp             | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 8594ec8..5ac6be6 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -270,13 +270,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   for (Tlit l : _trail)
     if (lit_cross_chunks(l) >= lit_chunk)
       lit_cross_chunks(l).set(ck, true);
-  for (TSchunk& chunk : _chunks)
-    if (chunk.missed_implication >= lit_chunk)
-      chunk.missed_implication.set(ck, true);
-  if (_options.lazy_chunk_merging) {
-    _chunks[ck].missed_implication = lit_chunk;
+  if (_options.lazy_chunk_merging)
     _chunks[ck].is_reimplied = true;
-  }
 
   // update the chunks and levels of all literals above `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
@@ -311,6 +306,8 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
       NOTIFY(update_level, l, recomputed_level);
     }
   }
+  if (_options.lazy_chunk_merging)
+    recompute_missed_implications();
 }
 
 bool NapSAT::add_assumption_GB_false(Tlit lit)
diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 195e479..292cb62 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -270,6 +270,8 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
         }
       }
     }
+    if (_options.lazy_chunk_merging)
+      recompute_missed_implications();
   }
 
   ASSERT(check_decision_index_consistency());
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 13b0e1a..5f99d89 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1512,6 +1512,22 @@ public:
       }
     }
 
+    /**
+     * @brief Recomputes the chunks that reimply the decisions, after the chunks of implied literals changed.
+     */
+    inline void recompute_missed_implications() {
+      for (Tlit lit : _trail) {
+        const Tclause lazy_reason = lit_lazy_reason(lit);
+        if (!lit_decision(lit) || lazy_reason == CLAUSE_UNDEF)
+          continue;
+        bitset& missed = _chunks[*lit_chunks(lit).cbegin()].missed_implication;
+        const Tlit* lits = clause_lits(lazy_reason);
+        missed.clear();
+        for (size_t i = 1; i < clause_size(lazy_reason); i++)
+          missed |= lit_chunks(lits[i]);
+      }
+    }
+
 
     /** OTHERS **/
     /**
-- 
2.43.0


From 8c936c5f81d19848fbca1b2c4e0a7ea55b04c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 46/51] fix: nothing is learned from chunks that are implied
 again after backtracking

---
 src/solver/NapSAT-conflict.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index d8021a2..9ca520c 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1147,6 +1147,7 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _dependency_tracker->start_tracking();
 
     T bt_save = bt;
+    bool reimplied_uip = false;
     do {
       analyze_conflict(bt);
 
@@ -1161,6 +1162,13 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
         break;
       }
 
+      if (_options.graph_backtracking) {
+        // the UIP was the only literal in the backtracked chunks, and it is implied again after backtracking.
+        // No literal would be left in these chunks, therefore there is nothing to learn from them
+        reimplied_uip = true;
+        break;
+      }
+
       // we need to continue the analysis with the missed implication
       // fill in the literal buffer
       if (_proof)
@@ -1183,6 +1191,15 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     } while (true);
     bt = bt_save;
 
+    if (reimplied_uip) {
+      if (_proof)
+        _proof->cancel_resolution_chain();
+      if (_dependency_tracker)
+        _dependency_tracker->cancel_tracking();
+      _lit_buffer_size = 0;
+      continue;
+    }
+
     // check if the clause is new
 
     for (unsigned j = 0; j < _lit_buffer_size; j++) { lit_mark(_lit_buffer[j]); }
-- 
2.43.0


From 52d76999f11911168bba18a196c909e6d8360bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 47/51] fix: synchronize the literals moved in the trail by an
 eager reimplication

---
 src/solver/NapSAT-imply.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 292cb62..2cca3ef 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -522,6 +522,8 @@ void NapSAT::eager_decision_reimplication(Tlit decision, Tclause reason)
   }
   // we have partially defragmented the order
   _current_order = current_order;
+  // literals that are not synchronized may have moved before the ones that are
+  _sync_validity_index = min(_sync_validity_index, decision_position);
   // we removed a decision, we need to update the decision index
   _decision_index.resize(_decision_index.size() - 1);
 
-- 
2.43.0


From 4833f46321de947d3a32f236f2c581e190de67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 48/51] fix: conflicts of clauses added after the clauses
 became unsatisfiable are not repaired

---
 src/solver/NapSAT-conflict.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 9ca520c..3226892 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -909,6 +909,9 @@ void NapSAT::fix_watched_literals(Tclause conflict)
 
 void NapSAT::repair_conflicts()
 {
+  // the clauses are already known to be unsatisfiable (without assumptions), the trail does not need to be repaired
+  if (_unsat_without_assumptions)
+    return;
   synchronize();
   NOTIFY_STAT(_n_conflict_repair);
   auto start = chrono::high_resolution_clock::now();
-- 
2.43.0


From b211238c91bfa42de8cc34e14326bce81466d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 49/51] fix: the identifier of the proof's empty clause is
 available to the next clause

---
 src/solver/NapSAT-conflict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 3226892..d95fe3f 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -438,6 +438,8 @@ bool NapSAT::root_level_conflict()
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
         _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        // the identifier is not reserved for the empty clause, the next clause added to the solver will take it
+        _proof->deactivate_clause(_clauses.size());
       }
       return true;
     }
-- 
2.43.0


From 197c0ec517cde51e098509a609bf444ca7a7ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 50/51] fix: a repair undoes decisions that are not needed to
 resolve the conflicts

---
 src/solver/NapSAT-conflict.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index d95fe3f..797716d 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -177,8 +177,7 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
     bitset& prefix = p.second;
     prefixes.pop();
 
-    // by virtue of the priority queue, we know that future prefixes cannot subsum older ones.
-    // But it can still be the case that an older prefix subsumes a newer one
+    // an older possibility may subsume this prefix
     if (any_of(possibilities.begin(), possibilities.end(),
         [prefix](const bitset& p){ return p <= prefix; }
       )) {
@@ -187,6 +186,10 @@ void NapSAT::compute_backtrack_possibilities(vector<bitset>& possibilities) cons
     }
     if (p.first == prefix.count()) {
       // all conflicts are solved, we can stop
+      // the possibilities found before may undo decisions that are not needed
+      possibilities.erase(remove_if(possibilities.begin(), possibilities.end(),
+          [&prefix](const bitset& p){ return prefix <= p; }
+        ), possibilities.end());
       possibilities.push_back(prefix);
       continue;
     }
-- 
2.43.0


From 9864da421d0add94a35790c190b4c02394519e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 51/51] fix: --all-models without an input file prints the
 usage instead of aborting

---
 main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.cpp b/main.cpp
index ea4c76a..ac31f28 100644
--- a/main.cpp
+++ b/main.cpp
@@ -46,6 +46,10 @@ int main(int argc, char** argv)
       argv[i] = argv[i + 1];
     }
     argc--;
+    if (argc < 2) {
+      cout << "Usage: " << argv[0] << " --all-models <input_file> [options]" << endl;
+      return 1;
+    }
   }
 
   vector<string> tokens(argv + 2, argv + argc);
-- 
2.43.0

