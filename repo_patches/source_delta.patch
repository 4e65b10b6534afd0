From e324aa159e76f003dccf7e8be9ba6fa03dd317bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 01/54] fix: keep the phase of Pauli products exact for large
 exponents

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..28d88f2 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1449,7 +1449,7 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * ans[-1])
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From 0f71f7e34c3bbed29ffe2962f79da43bb18f7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 02/54] fix: account for removed qubits in multi-target
 destructive measurements

---
 src/plaquette/pauli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 28d88f2..d963d1f 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -489,8 +489,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
-
     if isinstance(targets, int):
         targets = [targets]
 
@@ -536,7 +534,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From 07bb1ca53d6c050fbb5d5c85d6e373c375453406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 03/54] fix: accept numpy arrays as operators in
 pauli.apply_operator

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index d963d1f..801654c 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -133,7 +133,7 @@ def apply_operator(op: Tableau, state: Tableau) -> Tableau:
     if state.ndim != 2:
         raise ValueError("`state` must be a 2D numpy array")
 
-    if isinstance(op, np.ndarray):
+    if not isinstance(op, np.ndarray):
         raise TypeError("`op` must be a numpy array")
 
     if op.ndim == 1:
-- 
2.43.0


From 5cd7c0045e497fe9462681b84d4c4089993cb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 04/54] fix: insert new qubits in the |0> state at the
 requested positions

---
 src/plaquette/pauli.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 801654c..6ddc142 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,15 +408,14 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
-    if (pos > number_of_qubits).any():
+    pos = np.sort(np.atleast_1d(pos))
+    if ((pos > number_of_qubits) | (pos < 0)).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
+    number_of_missing_qubits = len(pos)
+    h_pos = np.concatenate((pos, pos + number_of_qubits))
     v_pos = np.concatenate(
         (
             [number_of_qubits] * number_of_missing_qubits,
@@ -426,9 +425,12 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
 
     state = np.insert(state, h_pos, 0, axis=1)
     state = np.insert(state, v_pos, 0, axis=0)
+    # indices of the new qubits, and of their (de)stabilisers, after the insertion
+    new_columns = pos + np.arange(number_of_missing_qubits)
+    new_rows = number_of_qubits + np.arange(number_of_missing_qubits)
     number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+    state[new_rows, new_columns] = 1
+    state[new_rows + number_of_qubits, new_columns + number_of_qubits] = 1
     return state
 
 
-- 
2.43.0


From 0f3721af1aa01506264f047608d439e086997ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 05/54] fix: measure operators which commute with the whole
 tableau

---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 6ddc142..c18b42d 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -702,7 +702,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if (nonzero >= number_of_qubits).any():
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From d7c05c11f0a83af8be5817bd98906c6b01d0ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 06/54] fix: handle the identity and reject invalid terms in
 pauli.dict_to_pauli

---
 src/plaquette/pauli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index c18b42d..4dbb4c4 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -342,10 +342,15 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
 
     Raises:
         ValueError: when ``qubits`` is less than the inferred number of qubits taken
-            from ``ops``'s keys.
+            from ``ops``'s keys, when a key is negative, or when a value is not one
+            of ``I``, ``X``, ``Y``, ``Z``.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    if any(q < 0 for q in ops.keys()):
+        raise ValueError("Qubits indices can't be negative")
+    if any(o not in ("I", "X", "Y", "Z") for o in ops.values()):
+        raise ValueError("Only I, X, Y, or Z are allowed as operators")
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
-- 
2.43.0


From 4d2bcbec130a768f2e5cf815646b824b365a3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 07/54] fix: reject malformed operator strings in
 pauli.string_to_pauli

---
 src/plaquette/pauli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 4dbb4c4..3b9f166 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1032,6 +1032,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
+        if not re.fullmatch(r"[-+]?([XYZI][0-9]+)+", op_str):
+            raise ValueError(f"'{op_str}' is not a valid operator in short form")
         short_string_re = re.compile(r"([-+])?(([XYZI])(\d+))")
         # Split op_str into single-qubit operator strings
         # for a string like "+X11Z33Y4" the result would be
@@ -1046,9 +1048,13 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
         if op_str_components[0][0] == "-":
             initial_phase = 1
         operator_dict: PauliDict = {int(i): o for _, _, o, i in op_str_components}
+        if len(operator_dict) != len(op_str_components):
+            raise ValueError(f"'{op_str}' acts more than once on the same qubit")
     else:
         # Otherwise, this is the canonical representation. We first remove the sign
         # if present at all
+        if not re.fullmatch(r"[-+]?[XYZI]+", op_str):
+            raise ValueError(f"'{op_str}' is not a valid operator in canonical form")
         if op_str[0] in "+-":
             initial_phase = 1 if op_str[0] == "-" else 0
             op_str = op_str[1:]
-- 
2.43.0


From 9eb464f9b9e4fb0942ebd38df16ff9470d7cbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 08/54] fix: find and check destabilisers modulo 2 in
 pauli.string_to_state

---
 src/plaquette/pauli.py | 57 +++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3b9f166..5576aed 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1069,6 +1069,39 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     return binary_operator
 
 
+def _find_destabilisers(stabilisers: Tableau) -> Tableau:
+    """Find destabilisers for the given independent and commuting stabilisers.
+
+    Raises:
+        ValueError: if the stabilisers are not independent of each other.
+    """
+    x, z, _ = unpack_tableau(stabilisers)
+    n, columns = len(stabilisers), 2 * x.shape[1]
+    # Row-reduce the commutation matrix modulo 2, keeping track of the row operations
+    reduced = np.hstack((z, x, np.eye(n, dtype="u1")))
+    pivots: list[int] = []
+    for column in range(columns):
+        rank = len(pivots)
+        candidates = np.nonzero(reduced[rank:, column])[0]
+        if candidates.size == 0:
+            continue
+        reduced[[rank, rank + candidates[0]]] = reduced[[rank + candidates[0], rank]]
+        others = np.nonzero(reduced[:, column])[0]
+        reduced[others[others != rank]] ^= reduced[rank]
+        pivots.append(column)
+    if len(pivots) < n:
+        raise ValueError("The stabilisers are not independent of each other")
+
+    destabilisers = np.zeros_like(stabilisers)
+    destabilisers[:, pivots] = reduced[:, columns:].T
+    # Adding stabilisers makes the destabilisers commute with each other
+    for j in range(n):
+        for i in range(j):
+            if commutator_sign(destabilisers[i], destabilisers[j]):
+                destabilisers[j, :-1] ^= stabilisers[i, :-1]
+    return destabilisers
+
+
 def string_to_state(
     stabilisers: Sequence[str],
     destabilisers: Optional[Sequence[str]] = None,
@@ -1133,28 +1166,18 @@ def string_to_state(
             )
     else:
         # If no destabilisers are given, we need to calculate them
-        ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
-        # attach an empty column for the sign info
-        binary_destabilisers = np.hstack(
-            (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-        )
+        binary_destabilisers = _find_destabilisers(binary_stabilisers)
 
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
         for j, d in enumerate(binary_destabilisers):
-            if i < j:  # avoid calculating things twice
-                continue
             # reuse the indices to also check commutation relations among
-            # stabilisers and destabilisers themselves
-            if commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
+            # stabilisers and destabilisers themselves (but avoid doing that twice)
+            if i > j and commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
                 raise ValueError(f"Stabiliser {i} does not commute with stabiliser {j}")
-            if commutator_sign(binary_destabilisers[i], binary_destabilisers[j]):
+            if i > j and commutator_sign(
+                binary_destabilisers[i], binary_destabilisers[j]
+            ):
                 raise ValueError(
                     f"Destabiliser {i} does not commute with destabiliser {j}"
                 )
@@ -1165,7 +1188,7 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
+            elif i != j and commutator_sign(s, d):
                 # different indices should commute instead
                 raise ValueError(
                     f"Destabiliser {j} does not commute with stabiliser {i}"
-- 
2.43.0


From 6805adb9deb4dbcd6b56d7c55f8d277cab64fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 09/54] fix: flip qubits for every Pauli operator in
 reset_qubits_to_eigenstate

---
 src/plaquette/pauli.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 5576aed..a71bfda 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1293,8 +1293,6 @@ def reset_qubits_to_eigenstate(
     """
     if not isinstance(state, np.ndarray):
         raise TypeError(f"`state` must be a numpy array, not '{type(state)}'.")
-    # No Ys yet please
-    # What have thei done to iou?
     if isinstance(targets, int):
         targets = [targets]
 
@@ -1305,9 +1303,9 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
+            if pauli[-1] == "Z":
                 state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
+            else:
                 state = z(state, qubit)
     return state
 
-- 
2.43.0


From d3266961ebcd4f2801f710293e9b702fa3b85248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 10/54] fix: apply Pauli gates to targets given as one-shot
 iterators

---
 src/plaquette/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index a71bfda..40ea14f 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1366,6 +1366,7 @@ def x(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
     """
     if isinstance(qubits, int):
         qubits = [qubits]
+    qubits = list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
@@ -1389,6 +1390,8 @@ def y(state: Tableau, qubits: int | Iterable[int]) -> Tableau:
         state: The state in the tableau representation
         qubits: The indices of the target qubit
     """
+    if not isinstance(qubits, int):
+        qubits = list(qubits)
     return z(x(state, qubits), qubits)
 
 
@@ -1506,6 +1509,7 @@ def z(state: Tableau, qubits: int | Iterable[int] | Tableau):
     """
     if isinstance(qubits, int):
         qubits = [qubits]
+    qubits = list(qubits)
     number_of_qubits = state.shape[1] // 2
 
     if any(map(lambda q: q >= number_of_qubits, qubits)):
-- 
2.43.0


From 04754444a15e63758dbf6099e53dc73b34f40864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 11/54] fix: tolerate rounding when Pauli channel probabilities
 sum to one

---
 src/plaquette/device/_circuitsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index 9de78f2..ff91207 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -161,14 +161,14 @@ class CircuitSimulator(device.AbstractSimulator):
                     # Apply I, X, Y or Z with 25% probability each.
                     self._apply_pauli_from_int(qubit, plaquette.rng.integers(0, 4))
             case "E_PAULI":
-                p = (1 - sum(args[:3]), *args[:3])
+                p = (max(0.0, 1 - sum(args[:3])), *args[:3])
                 qubit = args[3]
                 sample = plaquette.rng.choice(range(4), p=p)
                 self._apply_pauli_from_int(qubit, sample)
             case "E_PAULI2":
                 # Order of probabilities is:
                 # 0...15: II IX IY IZ XI XX ... ZY ZZ
-                p = (1 - sum(args[:15]), *args[:15])
+                p = (max(0.0, 1 - sum(args[:15])), *args[:15])
                 qubits = args[15:]
                 sample = plaquette.rng.choice(range(16), p=p)
                 p1, p2 = divmod(sample, 4)
-- 
2.43.0


From 39d57362b710211e86c2ec00b391e91802318d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 12/54] fix: convert DEPOLARIZE to the instruction which Stim
 knows

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..8959023 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,7 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                res.append("DEPOLARIZE1", args, 1.0)
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 433419270a0ffcd1aadb05390e66d13a49314edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 13/54] fix: allow circuits without measurements in the Stim
 backend

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 8959023..3f594e2 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -148,7 +148,7 @@ class StimSimulator(device.AbstractSimulator):
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
         self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
-- 
2.43.0


From d4d9562e7b413ba37331dd7cb950839800bec0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 14/54] fix: rebuild the Stim sampler when the circuit has
 changed

---
 src/plaquette/device/_stimsim.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 3f594e2..e87f929 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -145,10 +145,6 @@ class StimSimulator(device.AbstractSimulator):
                 "Only a Circuit or a CircuitBuilder can be used in a simulator"
             )
         self.batch_size = batch_size
-        # Convert the circuit to Stim format. A sampler is not built until an RNG
-        # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
@@ -164,15 +160,22 @@ class StimSimulator(device.AbstractSimulator):
         """
         if new_seed is not None:
             self.stim_seed = new_seed
+        # Convert the circuit to Stim format.
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         self.stim_sampler = self.stim_circ.compile_sampler(seed=self.stim_seed)
+        self._compiled_from = self.circ, len(self.circ.gates)
         # Erase current batch (if any)
         self.batch = None
         self.batch_remaining = 0
 
     def run(self, *, after_reset=True):  # noqa: D102
-        # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if self._compiled_from != (self.circ, len(self.circ.gates)):
+            # The circuit was replaced or extended since the sampler was built
+            self.reset()
+        # Sample a new batch if necessary.
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From bcd4a4479d096c38c5398f409e91d7a20f17391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 15/54] fix: prepare an eigenstate of logical operators which
 contain Pauli X

---
 src/plaquette/circuit/generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..7aa8390 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -356,6 +356,15 @@ class QECCircuitGenerator:
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
         self.measure_logical_ops(logop_indices)
+        if not self.logical_ancilla:
+            # Undo the basis change, such that the prepared state is an eigenstate of
+            # the measured logical operators
+            for i in logop_indices:
+                for edge in self.lat.logical_ops[i].edges:
+                    if edge.factor == lattice.Pauli.X:
+                        self.apply_gate_and_error(
+                            "H", edge.data.equbit_idx, None, with_errors=False
+                        )
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
-- 
2.43.0


From 553d803d268db14c8ea1c07a8f43198ac2538820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 16/54] fix: do not modify the error dictionaries passed to the
 circuit generator

---
 src/plaquette/circuit/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 7aa8390..3dcc0e7 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -103,11 +103,11 @@ class QECCircuitGenerator:
             raise KeyError("There is an invalid key in the gate errors dictionary.")
 
         self.code = code
-        self.qubit_errors = qubit_errordata
+        self.qubit_errors = qubit_errordata.copy()
         for key in QubitErrorsDict.__optional_keys__:
             self.qubit_errors.setdefault(key, {})  # type: ignore
 
-        self.gate_errors = gate_errordata
+        self.gate_errors = gate_errordata.copy()
         for key in GateErrorsDict.__optional_keys__:
             self.gate_errors.setdefault(key, {})  # type: ignore
 
-- 
2.43.0


From 5a7ba5dad03b0f4a58f1efc5d71137c702398f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 17/54] fix: unpack logical measurement results by the weight
 of the measured operators

---
 src/plaquette/device/__init__.py | 38 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..9a8a296 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -31,6 +31,7 @@ array into different parts (this assumes that the circuit was generated using
 """
 
 import abc
+import itertools
 from dataclasses import dataclass
 from typing import Iterable, Optional, Sequence
 
@@ -234,28 +235,31 @@ class MeasurementSample:
         """
         if not logical_ancilla:
             # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
-
+            # Each logical operator is measured by measuring all of the qubits it acts on.
+            # Which ones were measured follows from the number of results.
+            n_results, odd = divmod(
+                len(raw_results) - (code.n_rounds + 1) * code.n_stabgens, 2
+            )
+            weights = count_qubits(code.logical_ops, include_identities=False)
+            candidates = {
+                sizes
+                for sizes in itertools.product(*zip(weights[::2], weights[1::2]))
+                if sum(sizes) == n_results
+            }
+            if odd or len(candidates) != 1:
+                raise ValueError(
+                    "Cannot match the number of measurement results with the code"
+                )
+            bounds = np.cumsum(candidates.pop())[:-1]
             logical_op_initial = np.array(
-                [
-                    np.sum(raw_results[i * code_distance : (i + 1) * code_distance]) % 2
-                    for i in range(code.n_logical_qubits)
-                ],
+                [np.sum(r) % 2 for r in np.split(raw_results[:n_results], bounds)],
                 dtype=int,
             )
-            # fmt: off
             logical_op_final = np.array(
-                [
-                    np.sum(
-                        raw_results[len(raw_results) - (i * code_distance)
-                            - code_distance : len(raw_results) - (i * code_distance)]  # noqa
-                    ) % 2 for i in range(code.n_logical_qubits)
-                ][::-1], dtype=int,
-            )
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits * code_distance : -code.n_logical_qubits * code_distance] # noqa
+                [np.sum(r) % 2 for r in np.split(raw_results[-n_results:], bounds)],
+                dtype=int,
             )
-            # fmt: on
+            ancillas = np.array(raw_results[n_results:-n_results])
         else:
             # Alternative behavior
             logical_op_initial = np.array(raw_results[: code.n_logical_qubits])
-- 
2.43.0


From 8289685beaf85db8bf7f4b123713a209b3f6a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 18/54] fix: update the operators of a code when fabrication
 errors change its lattice

---
 src/plaquette/codes/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..11d716c 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -290,6 +290,10 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        self.stabilisers = self.lattice.stabilisers
+        self.logical_ops = self.lattice.logical_operators
+        self.logical_x = self.logical_ops[::2]
+        self.logical_z = self.logical_ops[1::2]
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 762f9708bc15e857a23a964adf26dc1d2c151ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 19/54] fix: measure all parts of superstabilizers after
 fabrication errors

---
 src/plaquette/codes/latticebase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..65f6a57 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -828,6 +828,10 @@ class CodeLattice:
             # NB: disable_qubit() removes entries from self.equbits. All the indices
             # are no longer valid after the first call to remove_dataqubit().
             self.remove_dataqubit(qubit)
+        if remove_qubits:
+            # Edges of superstabilizers have no time step, so stabilizers cannot be
+            # measured in parallel anymore
+            self.n_time_steps = None
         self.assign_indices()
 
     def _fabrication_errors_get_remove_qubits(
-- 
2.43.0


From 04154ae2990dd1a39398ad4ab631af21013a42e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 20/54] fix: account for erasures of qubits whose edges are
 disabled duplicates

---
 src/plaquette/syngraph/__init__.py | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..0c5af62 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -632,6 +632,7 @@ class SyndromeGraph:
         self._init_vertices()
         self._init_qubit_error_edges(stabgens)
         self._init_measurement_error_edges()
+        self._init_parallel_edges()
         self._edge_weights = np.nan * np.zeros([len(self.edges)])
         if weights is not None:
             self.set_edge_weights(**weights)
@@ -743,6 +744,20 @@ class SyndromeGraph:
                     )
                 )
 
+    def _init_parallel_edges(self) -> None:
+        """Find, for each edge, all the edges which connect the same vertices.
+
+        Only one of them is enabled (see :attr:`_disable_duplicate_edges`).
+        """
+        groups: dict[tuple[int, ...], list[Edge]] = {}
+        for edge in self.edges:
+            key = tuple(v.vertex_idx for v in edge.vertices)
+            groups.setdefault(key or (-1 - edge.edge_idx,), []).append(edge)
+        self._parallel_edges: list[list[Edge]] = [[]] * len(self.edges)
+        for edges in groups.values():
+            for edge in edges:
+                self._parallel_edges[edge.edge_idx] = edges
+
     def _check_edges_infweight(self) -> None:
         """Disable any edges with infinite weight.
 
@@ -916,7 +931,11 @@ class SyndromeGraph:
         for edge in self.edges:
             if isinstance(edge, QubitErrorEdge):
                 edge.set_erased(qubit_erased[edge.time_step, edge.qubit_idx])
-                edge_erased[edge.edge_idx] = edge.erased
+        for edge in self.edges:
+            # An enabled edge also stands for its disabled duplicates
+            edge_erased[edge.edge_idx] = any(
+                parallel.erased for parallel in self._parallel_edges[edge.edge_idx]
+            )
         for comp in self.components_with_edges:
             comp.set_erasure(edge_erased[comp.parent_edge_idx])
 
@@ -994,7 +1013,15 @@ class SyndromeGraph:
         error_op_selection = np.zeros([len(self.error_ops)], dtype=bool)
         for edge in self.edges:
             if isinstance(edge, QubitErrorEdge):
-                error_op_selection[edge.error_op_idx] ^= edge.decoder_result
+                if edge.decoder_result and not edge.erased:
+                    # Prefer a disabled duplicate of this edge if that one is erased
+                    for parallel in self._parallel_edges[edge.edge_idx]:
+                        if parallel.erased:
+                            edge = parallel
+                            break
+                    error_op_selection[edge.error_op_idx] ^= True
+                else:
+                    error_op_selection[edge.error_op_idx] ^= edge.decoder_result
         return error_op_selection
 
     def result_as_pauli_frame(self) -> Tableau:
-- 
2.43.0


From 5c11e26843ce7f86430deed59212fb9fd27c62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 21/54] fix: do not modify the error data passed to decoders

---
 src/plaquette/decoders/decoderbase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..cf2d67f 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import warnings
 from typing import NoReturn, Optional, Sequence, Type
 
@@ -347,9 +348,11 @@ class DecoderInterface:
             "z": 1e-15,
         }
         if errordata is not None:
+            # Do not modify the data of the caller
+            errordata = copy.deepcopy(errordata)
             if "pauli" not in errordata:
                 errordata["pauli"] = {
-                    q: _default_pauli_errors
+                    q: _default_pauli_errors.copy()
                     for q in range(len(code.lattice.dataqubits))
                 }
             else:
@@ -358,7 +361,7 @@ class DecoderInterface:
                     # We give a default value to all qubits, regardless of
                     # whether they were originally specified or not
                     if not errordata["pauli"].get(q):
-                        errordata["pauli"][q] = _default_pauli_errors
+                        errordata["pauli"][q] = _default_pauli_errors.copy()
                     else:
                         # If the qubit has some errors specified, we need to
                         # modify/add only the wrong/missing ones
@@ -376,7 +379,7 @@ class DecoderInterface:
         else:
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
-                    q: _default_pauli_errors
+                    q: _default_pauli_errors.copy()
                     for q in range(len(code.lattice.dataqubits))
                 }
             }
-- 
2.43.0


From b293d03073b66bf6da496c55382cf52bb91b5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 22/54] fix: allow decoders to be created with user-defined
 weights

---
 src/plaquette/decoders/decoderbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index cf2d67f..bd7c1a9 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -376,7 +376,7 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
+        elif weights is None:
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
                     q: _default_pauli_errors.copy()
-- 
2.43.0


From 52c338700b8e04881369faa99158b3abf761ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 23/54] fix: draw gaussian error rates within [0, 1] from the
 global generator

---
 src/plaquette/errors/__init__.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..3f2e52c 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -229,6 +229,9 @@ def generate_gaussian_errors(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
 
+    if std_dev == 0.0:
+        return np.full(len(qubit_list), fill_value=mean)
+
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
     )
@@ -1195,10 +1198,10 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    mean=qubit_error_config[0][label][1],
+                    std_dev=qubit_error_config[0][label][2],
+                    qubit_list=qubit_pd.index.to_numpy(),
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1261,10 +1264,10 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                mean=params[2],
+                                std_dev=params[3],
+                                qubit_list=list(lattice.stabgens),
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1312,10 +1315,10 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                mean=params[2],
+                                std_dev=params[3],
+                                qubit_list=on_qubits[::2],
                             )
 
                             for ind, p in enumerate(probs):
-- 
2.43.0


From 616974d6eb2793645dd4c82e2c97bf182674dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 24/54] fix: accept gaussian two-qubit gate errors from
 configurations

---
 src/plaquette/errors/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 3f2e52c..ee6aff8 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -940,7 +940,11 @@ class ErrorData:  # noqa: D101
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        induced_errors = row.induced_errors
+                        if isinstance(induced_errors, str):
+                            # Gaussian errors, see :func:`assimilate_gate_errors`
+                            induced_errors = [induced_errors]
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -948,7 +952,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From 5a68b20210ed16427731850c23cf1bc1a77e1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 25/54] fix: save error data to files which can be loaded again

---
 src/plaquette/errors/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index ee6aff8..21c45ce 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -184,11 +184,11 @@ def delimited_string_list_to_series(
     data: list[list[str]] | list[list[int]] | list[list[float]]
     match exp_type:
         case "str":
-            data = [(val.split(delimiter)) for val in values]
+            data = [str(val).split(delimiter) for val in values]
         case "int":
-            data = [[int(x) for x in val.split(delimiter)] for val in values]
+            data = [[int(x) for x in str(val).split(delimiter)] for val in values]
         case "float":
-            data = [[float(x) for x in val.split(delimiter)] for val in values]
+            data = [[float(x) for x in str(val).split(delimiter)] for val in values]
         case _:
             raise ValueError(
                 f"{exp_type} is not supported. Use one of int, str or float."
@@ -864,8 +864,23 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        qubit_errors = self.qubit_errors
+        if qubit_errors.empty:
+            qubit_errors = qubit_errors.reindex(columns=["qubit_id", "qubit_type"])
+        qubit_errors.to_csv(qubit_error_path, index=False)
+
+        # Columns of lists are stored as delimited strings, see :meth:`from_csv`
+        gate_errors = self.gate_errors.reindex(
+            columns=["gate", "on_qubits", "induced_errors", "probs"]
+        )
+        for key in ("on_qubits", "induced_errors", "probs"):
+            gate_errors[key] = [
+                values
+                if isinstance(values, str)
+                else "|".join(str(val) for val in values)
+                for values in gate_errors[key]
+            ]
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
-- 
2.43.0


From d4029f2cd0e142f49fc98c6fad7c4b46984e1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 26/54] fix: update the tables of error data from data frames
 and files

---
 src/plaquette/errors/__init__.py | 39 +++++++++++++-------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 21c45ce..ce1b6a9 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -750,18 +750,22 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
-            if overwrite:
+        if qubit_errors is not None:
+            qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
+            if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors
             else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
+                columns = list(self.qubit_errors.columns)
+                columns += [c for c in qubit_errors.columns if c not in columns]
+                updated = qubit_errors.combine_first(self.qubit_errors)[columns]
+                updated["qubit_id"] = updated.index
+                for col in columns[2:]:
+                    default = "available" if col == "fabrication" else 0.0
+                    updated[col] = updated[col].where(updated[col].notna(), default)
+                self.qubit_errors = updated
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
@@ -787,29 +791,18 @@ class ErrorData:  # noqa: D101
         Returns:
             None, updates in-place.
         """
+        qubit_errors: pd.DataFrame | None = None
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.columns:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
 
+        gate_errors: pd.DataFrame | None = None
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
-            if overwrite:
-                self.gate_errors = gate_errors
-            else:
-                self.gate_errors = pd.concat(
-                    [self.gate_errors, gate_errors], ignore_index=True
-                )
-            self.enabled_gate_errors = set(self.gate_errors.gate.unique())
+
+        self.update(qubit_errors, gate_errors, overwrite)
 
     @property
     def error_data_dict(self) -> ErrorDataDict:
-- 
2.43.0


From 4eea90f32abc69399287e9ff07e31b3bacba139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 27/54] fix: reject error data whose values are not
 probabilities

---
 src/plaquette/errors/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index ce1b6a9..648a926 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -151,6 +151,23 @@ supported_errors = set(QubitErrorsDict.__optional_keys__).union(
 )
 
 
+def _check_probabilities(error_name: str, qubits, params: dict) -> None:
+    """Check that the values of an error are valid probabilities.
+
+    Args:
+        error_name: Name of the error or gate, for the error message.
+        qubits: Index or indices of the affected qubits, for the error message.
+        params: Dictionary whose values are probabilities.
+
+    Raises:
+        ValueError: If a value is not between 0 and 1.
+    """
+    if not all(0.0 <= p <= 1.0 for p in params.values()):
+        raise ValueError(
+            f"{error_name} qubit {qubits!r}: Invalid probabilities {params!r}"
+        )
+
+
 def delimited_string_list_to_series(
     values: list[str], exp_type: str = "str", index=None, delimiter: str = "|"
 ) -> pd.Series:
@@ -1039,6 +1056,7 @@ class ErrorData:  # noqa: D101
                 raise ValueError(
                     f"{name} qubit {equbit_idx!r}: Invalid keys {invalid!r}"
                 )
+            _check_probabilities(name, equbit_idx, params)
 
     def _check_single_stab_qubit_error(
         self, error_dict: dict, code: LatticeCode, name: str, allowed_keys: set
@@ -1070,6 +1088,7 @@ class ErrorData:  # noqa: D101
                 raise ValueError(
                     f"{name} qubit {equbit_idx!r}: Invalid keys {invalid!r}"
                 )
+            _check_probabilities(name, equbit_idx, params)
 
     def _check_twoqubit_gate_error(
         self, error_dict: dict, code: LatticeCode, gate: str
@@ -1102,6 +1121,7 @@ class ErrorData:  # noqa: D101
             )
             if not invalid:
                 raise ValueError(f"Invalid keys in gate: {gate!r}")
+            _check_probabilities(gate, qubits, errors)
 
     def _check_onequbit_gate_error(
         self, error_dict: dict, code: LatticeCode, gate: str
@@ -1131,6 +1151,7 @@ class ErrorData:  # noqa: D101
 
             if not invalid:
                 raise ValueError(f"Invalid keys for gate: {gate!r}")
+            _check_probabilities(gate, equbit_idx, errors)
 
     def cache_full_code_indices(self, code: LatticeCode):
         """Cache the indices of the full code without fabrication errors.
-- 
2.43.0


From b97d65ed716ae68c2af48eeef4feffa50513f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 28/54] fix: do not modify the dictionaries from which
 configurations are read

---
 src/plaquette/frontend/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..1031d2d 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -150,6 +150,7 @@ class CodeConfig:
             >>> print(code_conf)
             CodeConfig(name='FiveQubitCode', rounds=1, size=-1)
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("rounds", 1)
         config_dict.setdefault("size", -1)
 
@@ -323,6 +324,7 @@ class _QubitErrorMetadata:
             _QubitErrorMetadata(distribution='gaussian', params=[0.1, 0.04], enabled=True)
         """  # noqa : E501
 
+        metadata = dict(metadata)
         metadata.setdefault("enabled", True)
         metadata.setdefault("params", [])
 
@@ -560,6 +562,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -880,6 +883,7 @@ class _GateErrorMetadata:
                                params=[],
                                enabled=True)
         """
+        metadata = dict(metadata)
         metadata.setdefault("enabled", True)
         metadata.setdefault("induced_errors", [])
         metadata.setdefault("params", [])
@@ -1144,6 +1148,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1479,7 +1484,7 @@ class CircuitConfig:
         Returns:
             A :class:`~CircuitConfig` object.
         """
-        config_dict = cast(dict, config_dict)
+        config_dict = dict(config_dict or {})
         for f in fields(cls):
             match f.name:
                 case "has_errors" | "circuit_provided":
@@ -1627,6 +1632,7 @@ class DeviceConfig:
         Returns:
             A :class:`~DeviceConfig` object.
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("name", "clifford")
         config_dict.setdefault("shots", 1024)
         return cls(
@@ -1704,6 +1710,7 @@ class DecoderConfig:
         Args:
             config_dict: Dict containing decoder configurations.
         """
+        config_dict = dict(config_dict)
         config_dict.setdefault("name", "PyMatchingDecoder")
         config_dict.setdefault("weighted", False)
         return cls(
@@ -2090,6 +2097,7 @@ class ExperimentConfig:
                 'device': {'name': 'stim', 'shots': 10000}
             }
         """  # noqa
+        config_dict = dict(config_dict)
         config_dict.setdefault("device", {})
         config_dict.setdefault("errors", {})
         config_dict.setdefault("decoder", {})
-- 
2.43.0


From 4af977b91d6ba84e7a1dd1c7070c2d382a5473ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 29/54] fix: use the default general settings when a
 configuration has none

---
 src/plaquette/frontend/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 1031d2d..7264ae5 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2103,8 +2103,14 @@ class ExperimentConfig:
         config_dict.setdefault("decoder", {})
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
+        config_dict.setdefault(
+            "general",
+            GeneralConfig(
+                logical_op="X", qec_property=["logical_error_rate"], seed=12345
+            ),
+        )
         return cls(
-            general_conf=cast(GeneralConfig, config_dict.get("general")),
+            general_conf=cast(GeneralConfig, dict(config_dict["general"])),
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
             circuit_conf=CircuitConfig.from_dict(
                 cast(dict, config_dict.get("circuit"))
-- 
2.43.0


From 68c3c997eb979143f00f2cd83750ad2f2d767cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 30/54] fix: keep the fabrication settings of gate errors

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 7264ae5..5ba0b2b 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1179,6 +1179,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From 7498767f1d41166246ac0e6eaedd1ace8663ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 31/54] fix: write and validate configurations in the form in
 which they are read

---
 src/plaquette/frontend/__init__.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 5ba0b2b..d2b4bc7 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2125,13 +2125,18 @@ class ExperimentConfig:
 
     def as_dict(self) -> dict[str, Any]:
         """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
-
-        return return_dict
+        code_conf = self.code_conf.as_dict()
+        if self.code_conf.size == -1:
+            # The size of this code is fixed
+            del code_conf["size"]
+        return {
+            "general": dict(self.general_conf),
+            "device": self.device_conf.as_dict(),
+            "circuit": self.circuit_conf.as_dict(),
+            "code": code_conf,
+            "errors": asdict(self.errors_conf),
+            "decoder": self.decoder_conf.as_dict(),
+        }
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
@@ -2256,12 +2261,12 @@ class ExperimentConfig:
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            toml.dump(self.as_dict(), file)
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            json.dump(self.as_dict(), file)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From 6f7f9aafc1b97e99eda3dfab3552410120e7c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 32/54] fix: reject code configurations whose size or rounds
 are not positive

---
 src/plaquette/frontend/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index d2b4bc7..81191a3 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -118,16 +118,18 @@ class CodeConfig:
 
         if self.name in self.VALID_CODES[4:]:
             self.size = -1
-        elif (
-            (self.size < 0 or self.rounds < 0)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
-        ):
+            valid = isinstance(self.rounds, int) and self.rounds > 0
+        else:
+            valid = (
+                isinstance(self.size, int)
+                and isinstance(self.rounds, int)
+                and self.size > 0
+                and self.rounds > 0
+            )
+        if not valid:
             raise ValueError(
                 "For the given code, size and round must be positive integers!"
             )
-        else:
-            self.size = cast(int, self.size)
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> CodeConfig:
-- 
2.43.0


From 606bc4b6ca180913a29b6117238dd92ab252c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 33/54] fix: validate configurations when they are updated

---
 src/plaquette/frontend/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 81191a3..c84922e 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -679,6 +679,8 @@ class QubitErrorsConfig:
             if hasattr(self, key):
                 setattr(self, key, value)
 
+        self.__post_init__()
+
     def __str__(self):  # noqa: D105
         return pformat(self)
 
@@ -802,7 +804,7 @@ class _GateErrorMetadata:
 
     VALID_INDUCED_ERRORS: ClassVar[set[str]] = (
         set(["".join(i) for i in product("XYZI", repeat=2)])
-        .difference("II")
+        .difference({"II"})
         .union(["X", "Y", "Z"])
     )
     """
@@ -942,6 +944,8 @@ class _GateErrorMetadata:
             if hasattr(self, key):
                 setattr(self, key, value)
 
+        self.__post_init__()
+
     def is_empty(self):
         """Check if the metadata is void.
 
@@ -1286,6 +1290,8 @@ class GateErrorsConfig:
             if hasattr(self, key):
                 setattr(self, key, value)
 
+        self.__post_init__()
+
     @property
     def simulated_errors(self) -> tuple[dict, str] | None:
         """Simulated gate errors as tuple.
@@ -1522,6 +1528,8 @@ class CircuitConfig:
             if hasattr(self, key):
                 setattr(self, key, value)
 
+        self.__post_init__()
+
     def instantiate(
         self,
         code: LatticeCode | None = None,
@@ -1625,6 +1633,8 @@ class DeviceConfig:
             if hasattr(self, key):
                 setattr(self, key, value)
 
+        self.__post_init__()
+
     @classmethod
     def from_dict(cls, config_dict: dict) -> DeviceConfig:
         """Instantiate :class:`~DeviceConfig` object from config dictionary.
-- 
2.43.0


From a22925575f76fbead6320a712ed042ead044e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 34/54] fix: check whether the device of an experiment was
 built

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index c84922e..20e9f0b 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1884,7 +1884,7 @@ class ExperimentConfig:
     @property
     def device(self):
         """The built :class:`~.AbstractSimulator` object in the experiment."""
-        if self._circuit is None:
+        if self._device is None:
             raise ValueError(
                 "Simulator has not been instantiated yet, use build() or "
                 + "build_device() method to do so!"
-- 
2.43.0


From 159dbeccdf9834af931438e82137c410f45456a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 35/54] fix: compare codes with different numbers of operators
 or qubits

---
 src/plaquette/codes/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 11d716c..9c62b8f 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -114,17 +114,15 @@ class StabilizerCode:
         if not isinstance(other, StabilizerCode):
             return NotImplemented
         return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
+            len(self.stabilisers) == len(other.stabilisers)
+            and len(self.logical_ops) == len(other.logical_ops)
+            and all(
+                np.array_equal(s1, s2)
+                for s1, s2 in zip(self.stabilisers, other.stabilisers)
             )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
+            and all(
+                np.array_equal(l1, l2)
+                for l1, l2 in zip(self.logical_ops, other.logical_ops)
             )
         )
 
-- 
2.43.0


From 95a70e6dc51c6fd6beba5e0fd6566b2184aa7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 36/54] fix: reset targets given as numpy integers in
 reset_qubits_to_eigenstate

---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 40ea14f..ab7c569 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1304,9 +1304,9 @@ def reset_qubits_to_eigenstate(
         )
         if meas_outcome:
             if pauli[-1] == "Z":
-                state = x(state, qubit)
+                state = x(state, [qubit])
             else:
-                state = z(state, qubit)
+                state = z(state, [qubit])
     return state
 
 
-- 
2.43.0


From a4650219aad587357acb9fd4229f4a57ebfe5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 37/54] fix: keep destabilisers commuting when qubits are
 traced out

---
 src/plaquette/pauli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index ab7c569..e51ee47 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -595,6 +595,12 @@ def _ptrace(state: Tableau, target: int, measured_base: str) -> Tableau:
         )
         state[first_stab], _ = multiply(state[i], state[first_stab])
 
+    # Destabilisers have to commute with each other also without the target qubit
+    conjugate = _z if measured_base == "X" else _x
+    for i in np.where(conjugate[:number_of_qubits, target] > 0)[0]:
+        if i != first_stab:
+            state[i], _ = multiply(state[i], state[first_stab])
+
     a = np.delete(state, [first_stab, first_stab + number_of_qubits], axis=0)
     b = np.delete(a, [target, target + number_of_qubits], axis=1)
     state = b  # should have one less qubit
-- 
2.43.0


From 04c7cdd65d5fca5c4f64455eae451c92f0cd5207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 38/54] fix: keep the backend when the circuit of a builder is
 run again

---
 src/plaquette/device/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index 9a8a296..8daa4e5 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -411,6 +411,8 @@ class Device:
         # backend is None in the case of a local simulator, but now we
         # can actually create one, since we have a circuit
         if self._backend_name in local_simulators:
+            if isinstance(circuit, plaq_circuit.CircuitBuilder):
+                circuit = circuit.circ
             if self._backend is None or self.circuit is not circuit:
                 self._backend = self._backend_class(
                     circuit, *self._args, **self._kwargs
-- 
2.43.0


From c1dde461946898669d6a97f409ebb3689bbb33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 39/54] fix: allow codes with more operators than data qubits

---
 src/plaquette/codes/latticebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 65f6a57..53a6b44 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -935,7 +935,10 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        rows = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((rows, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 84d0fdbd065e5f3a783be81b3770df2e93ba76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 40/54] fix: check the rank of the check matrix when it is
 requested

---
 src/plaquette/codes/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 9c62b8f..c0d6030 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -198,11 +198,26 @@ class StabilizerCode:
         assert np.all(
             commutator_sign(self.stabilisers, self.stabilisers) == 0
         ), "Stabilizer generators do not commute with themselves"
-        # if rank:
-        #     assert (
-        #         self.stabilisers.check_matrix_rank()
-        #         == self.n_data_qubits - self.n_logical_qubits
-        #     ), "Rank of the check matrix is incorrect"
+        if rank:
+            assert (
+                self._check_matrix_rank() == self.n_data_qubits - self.n_logical_qubits
+            ), "Rank of the check matrix is incorrect"
+
+    def _check_matrix_rank(self) -> int:
+        """Rank of the check matrix modulo 2."""
+        # The last element of each row is the sign of the operator
+        matrix = np.array(self.stabilisers, dtype=bool)[:, :-1]
+        rank = 0
+        for column in range(matrix.shape[1]):
+            pivots = rank + np.flatnonzero(matrix[rank:, column])
+            if len(pivots) == 0:
+                continue
+            matrix[[rank, pivots[0]]] = matrix[[pivots[0], rank]]
+            for row in range(len(matrix)):
+                if row != rank and matrix[row, column]:
+                    matrix[row] ^= matrix[rank]
+            rank += 1
+        return rank
 
     def logical_ops_to_indices(self, logical_ops: str | Sequence[int]) -> Sequence[int]:
         """Convert specification of logical operators to index sequence.
-- 
2.43.0


From fcc0f16bc26fbff95276a7b0057f5d40f3a43f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 41/54] fix: measure overlapping logical operators in the right
 bases

---
 src/plaquette/circuit/generator.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 3dcc0e7..33ceeb0 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -238,7 +238,7 @@ class QECCircuitGenerator:
             self.apply_measurement_error(op)
         self.apply_gate_and_error("M", ancilla, None, with_errors)
 
-    def measure_logical_ops(self, logop_indices: Sequence[int]):
+    def measure_logical_ops(self, logop_indices: Sequence[int]) -> list[int]:
         """Measure logical operators.
 
         Args:
@@ -246,15 +246,25 @@ class QECCircuitGenerator:
                 Specifies which logical operators should be measured. See
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
+
+        Returns:
+            Data qubits whose basis has been changed for the measurements.
         """
+        bases: dict[int, lattice.Pauli] = {}
         for i in logop_indices:
             op = self.lat.logical_ops[i]
 
             if not self.logical_ancilla:
                 for edge in op.edges:
                     dataqubit = edge.data.equbit_idx
+                    known_basis = dataqubit in bases
+                    if bases.setdefault(dataqubit, edge.factor) != edge.factor:
+                        raise ValueError(
+                            "Logical operators which need measurements of a data qubit "
+                            "in different bases require ancilla qubits"
+                        )
                     match edge.factor:
-                        case lattice.Pauli.X:
+                        case lattice.Pauli.X if not known_basis:
                             # Apply Hadamard gate, since we measure in Z-basis
                             self.apply_gate_and_error(
                                 "H", dataqubit, None, with_errors=False
@@ -264,6 +274,7 @@ class QECCircuitGenerator:
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
             else:
                 self.measure_op(op, with_errors=False)
+        return [qubit for qubit, basis in bases.items() if basis == lattice.Pauli.X]
 
     def measure_stabgens(self, with_errors: bool):
         """Measure all stabilizer generators sequentially or in parallel.
@@ -355,16 +366,11 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
-        if not self.logical_ancilla:
-            # Undo the basis change, such that the prepared state is an eigenstate of
-            # the measured logical operators
-            for i in logop_indices:
-                for edge in self.lat.logical_ops[i].edges:
-                    if edge.factor == lattice.Pauli.X:
-                        self.apply_gate_and_error(
-                            "H", edge.data.equbit_idx, None, with_errors=False
-                        )
+        rotated_qubits = self.measure_logical_ops(logop_indices)
+        # Undo the basis change, such that the prepared state is an eigenstate of the
+        # measured logical operators
+        for dataqubit in rotated_qubits:
+            self.apply_gate_and_error("H", dataqubit, None, with_errors=False)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
-- 
2.43.0


From 32927098dc2246a5a1c61b052b0f3cab5223222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 42/54] fix: accept weights that are all zero in the union-find
 decoder

---
 src/plaquette/decoders/unionfind_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/unionfind_decoder.py b/src/plaquette/decoders/unionfind_decoder.py
index 9e15703..f1518c1 100644
--- a/src/plaquette/decoders/unionfind_decoder.py
+++ b/src/plaquette/decoders/unionfind_decoder.py
@@ -606,7 +606,8 @@ class UnionFindNoWeights:
                 for edge in self.graph.edges:
                     edge.set_weight(2, 1)
         else:
-            weights = self._c * weights / np.min(weights[weights != 0])
+            if weights.any():
+                weights = self._c * weights / np.min(weights[weights != 0])
             self._set_weights(weights)
             self.weighted = True
 
-- 
2.43.0


From 8211cd4ceee09b15e0a0d3ab22f6a23777876409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 43/54] fix: ignore missing values in tables of qubit errors

---
 src/plaquette/errors/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 648a926..7702b48 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -907,7 +907,10 @@ class ErrorData:  # noqa: D101
                             if self.qubit_errors["qubit_type"][idx] == "data"
                         }
                     for k, v in qubit_errors["pauli"].items():
-                        v[f"{e.casefold()}"] = self.qubit_errors[e][k]  # type: ignore
+                        if pd.notna(self.qubit_errors[e][k]):
+                            v[f"{e.casefold()}"] = self.qubit_errors[  # type: ignore
+                                e
+                            ][k]
 
                 case "erasure":
                     if qubit_errors.get("erasure") is None:
@@ -915,6 +918,7 @@ class ErrorData:  # noqa: D101
                             idx: ErrorValueDict()
                             for idx in self.qubit_errors["qubit_id"]
                             if self.qubit_errors["qubit_type"][idx] == "data"
+                            and pd.notna(self.qubit_errors[e][idx])
                         }
 
                     for key, val in qubit_errors["erasure"].items():
@@ -928,6 +932,7 @@ class ErrorData:  # noqa: D101
                                 for idx in self.qubit_errors["qubit_id"]
                                 if self.qubit_errors["qubit_type"][idx]
                                 in ("stab", "ancilla")
+                                and pd.notna(self.qubit_errors[e][idx])
                             }
                         )
                     for key, val in qubit_errors["measurement"].items():
-- 
2.43.0


From 8238491df9787d8fc02e656f84b3c38bc6e89ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 44/54] fix: run experiments on local simulators

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 20e9f0b..739a616 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2288,7 +2288,7 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
-- 
2.43.0


From 79dcec59fdb2a09ff563452b040601fd4c6ced19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 45/54] fix: draw lattices with Pauli Y factors

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..5cf07a1 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -241,6 +241,7 @@ class LatticeVisualizer:
     #: Plotly options for drawing edges
     edge_kw = {
         "X": dict(name="Pauli X", line=dict(color="cornflowerblue", dash="solid")),
+        "Y": dict(name="Pauli Y", line=dict(color="goldenrod", dash="dot")),
         "Z": dict(name="Pauli Z", line=dict(color="yellowgreen", dash="5px 5px")),
     }
 
@@ -420,6 +421,7 @@ class LatticeVisualizer:
     #: Matplotlib options for drawing edges
     mpl_edge_kw = {
         "X": dict(label="Pauli X", linestyle="solid", color="cornflowerblue"),
+        "Y": dict(label="Pauli Y", linestyle="dotted", color="goldenrod"),
         "Z": dict(label="Pauli Z", linestyle="dashed", color="yellowgreen"),
     }
 
-- 
2.43.0


From cf94c05e601dd04bc33d63324e47e9b21a301756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:15 +0000
Subject: [PATCH 46/54] fix: draw circuits without measurements

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 5cf07a1..2c6a600 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -473,6 +473,8 @@ class CircuitVisualizer:
         qsm = openqasm.convert_to_openqasm(circuit).split("\n")
         qsm[0] = "OPENQASM 3.0;"
         qsm[1] = 'include "stdgates.inc";'
+        # OpenQASM 3.0 has no empty registers.
+        qsm = [line for line in qsm if line not in ("qreg q[0];", "creg c[0];")]
         qsm = "\n".join(qsm)
         self._circuit: qiskit.circuit.quantumcircuit.QuantumCircuit = qasm3.loads(qsm)
 
-- 
2.43.0


From cf670904e8a1b16f41a0e832bb4a4db553f5dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 47/54] fix: update weights of union-find decoders as they are
 set

A changed weight was passed on unchecked, and a graph without weights
passed NaN on, which made decoding fail.
---
 src/plaquette/decoders/unionfind_interfaces.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/plaquette/decoders/unionfind_interfaces.py b/src/plaquette/decoders/unionfind_interfaces.py
index 9b1e7a6..cfd45b6 100644
--- a/src/plaquette/decoders/unionfind_interfaces.py
+++ b/src/plaquette/decoders/unionfind_interfaces.py
@@ -47,12 +47,7 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         self.sgraph = sgraph
         graph = erasure_dec.Graph(self.sgraph.n_vertices, self.sgraph.edges)
         self.decoder = self._get_union_find(graph)
-        if self.sgraph.is_weighted(support_mixed=False):
-            weights = self.sgraph.edge_weights
-            decoderbase.check_weights_sane(weights)
-        else:
-            weights = None
-        self.decoder.set_weights(weights)
+        self.update_weights()
 
     def update_weights(self):
         """Update weights.
@@ -64,7 +59,12 @@ class UnionFindBase(decoderbase.DecoderBackendInterface, metaclass=abc.ABCMeta):
         """
         assert self.sgraph is not None
         assert self.decoder is not None
-        self.decoder.set_weights(self.sgraph.edge_weights)
+        if self.sgraph.is_weighted(support_mixed=False):
+            weights = self.sgraph.edge_weights
+            decoderbase.check_weights_sane(weights)
+        else:
+            weights = None
+        self.decoder.set_weights(weights)
 
     def decode(self):
         """Decode erasure and syndrome."""
-- 
2.43.0


From 3af5ff01bb6bed25479be359405c7ef9e66e9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 48/54] fix: begin a new circuit for each call of
 QECCircuitGenerator.get_circuit

---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 33ceeb0..df3a727 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -365,6 +365,8 @@ class QECCircuitGenerator:
         lcomm = commutator_sign(logical_ops_op, logical_ops_op)
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
+        # Start a new circuit, because circuits returned earlier belong to the caller
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         # Measure logical operators for state preparation
         rotated_qubits = self.measure_logical_ops(logop_indices)
         # Undo the basis change, such that the prepared state is an eigenstate of the
-- 
2.43.0


From 4d02d57f2483ae3c2edaef060af0f17362cb367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:34 +0000
Subject: [PATCH 49/54] fix: sample configured errors in an order that does not
 depend on the process

---
 src/plaquette/frontend/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 739a616..8a604ff 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -721,7 +721,7 @@ class QubitErrorsConfig:
         if not self.sample:
             return None
         sim_qub_errors_distr: dict = dict()
-        for key in self.QUBIT_KEYS:
+        for key in sorted(self.QUBIT_KEYS):
             qubit_metadata = cast(_QubitErrorMetadata, getattr(self, key))
             if qubit_metadata.enabled and not qubit_metadata.is_empty():
                 if qubit_metadata.distribution == "user":
@@ -1338,7 +1338,7 @@ class GateErrorsConfig:
             return None
 
         sim_gate_errors_distr: dict = dict()
-        for key in self.GATE_KEYS:
+        for key in sorted(self.GATE_KEYS):
             gate_metadata = cast(_GateErrorMetadata, getattr(self, key))
             if not gate_metadata.is_empty() and gate_metadata.enabled:
                 if isinstance(gate_metadata.distribution, str):
-- 
2.43.0


From 1ad10703cecf014f94c2c46e3a57d4acf812d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 50/54] fix: leave the table given to ErrorData as it is

---
 src/plaquette/errors/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 7702b48..9cc0f2b 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -416,7 +416,8 @@ class ErrorData:  # noqa: D101
 
     def __post_init__(self):  # noqa: D105
         if not self.qubit_errors.empty:
-            self.qubit_errors.set_index(["qubit_id"], drop=False, inplace=True)
+            # A new table, the one of the caller stays as it is
+            self.qubit_errors = self.qubit_errors.set_index(["qubit_id"], drop=False)
             if not self.enabled_qubit_errors:
                 self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
 
-- 
2.43.0


From 1e6940a0a2a1fef0a80482a2e209c719ed02841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 51/54] fix: return corrections that can be modified without
 changing the decoder

---
 src/plaquette/syngraph/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index 0c5af62..a05f21c 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -1034,7 +1034,9 @@ class SyndromeGraph:
         operators = [self.error_ops[i] for i in selection]
         if not operators:
             return np.zeros(2 * self.n_qubits + 1, dtype="u1")
-        return multiply(*operators)[0]  # discard complex phase
+        # Discard complex phase. The product of one operator is this operator itself,
+        # which has to remain as it is if the result is modified.
+        return multiply(*operators)[0].copy()
 
     def get_statistics(self) -> dict[str, int | list[int]]:
         """Get statistics on syndrome graph structure."""
-- 
2.43.0


From 504000062dd38f4d84160bd7c7c6c2ff54e3ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 52/54] fix: leave the configuration given to
 ErrorData.from_lattice as it is

---
 src/plaquette/errors/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 9cc0f2b..82d3a12 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -1229,17 +1229,14 @@ def assimilate_qubit_errors(
         qubit_csv_df = pd.DataFrame()
 
     for label in qubit_error_config[0].keys():
-        if not qubit_error_config[0].get(label):
-            qubit_error_config[0][label] = ("constant", 0.01)
-        match qubit_error_config[0][label][0]:
+        params = qubit_error_config[0].get(label) or ("constant", 0.01)
+        match params[0]:
             case "constant":
-                qubit_pd[label] = np.full(
-                    qubit_pd.shape[0], qubit_error_config[0][label][1]
-                )
+                qubit_pd[label] = np.full(qubit_pd.shape[0], params[1])
             case "gaussian":
                 qubit_pd[label] = generate_gaussian_errors(
-                    mean=qubit_error_config[0][label][1],
-                    std_dev=qubit_error_config[0][label][2],
+                    mean=params[1],
+                    std_dev=params[2],
                     qubit_list=qubit_pd.index.to_numpy(),
                 )
             case "user":
-- 
2.43.0


From 34b1ff6bdc3d9d31f9a9e59f7aa6cfcec7a11f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 53/54] fix: draw lattices in colour again after a grey drawing
 failed

---
 src/plaquette/visualizer/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 2c6a600..6ab9aa3 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -374,10 +374,11 @@ class LatticeVisualizer:
         vdf = pd.concat((vdf, self._mk_pauliframe_df(error, correction, only_pauli)))
         if grey:
             self._set_grey()
-        fig = self._draw(vdf, edf, height, margin)
-        if grey:
-            self._reset_grey()
-        return fig
+        try:
+            return self._draw(vdf, edf, height, margin)
+        finally:
+            if grey:
+                self._reset_grey()
 
     #: Matplotlib options for drawing vertices
     mpl_vertex_kw = {
-- 
2.43.0


From ab518106804e5e42c701943d4255f75cc4196a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 54/54] fix: removing a data qubit without stabilisers with
 keep_gauge="half" failed

After earlier defects a data qubit may have no stabiliser edges left; the
handling of half of the gauge operators then raised an IndexError.
---
 src/plaquette/codes/latticebase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 53a6b44..df88bf2 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -731,7 +731,9 @@ class CodeLattice:
                 for edges in edgegroups:
                     self.create_superstab_from_edges(edges)
             elif self.fabrication_err_keep_gauge == "half":
-                self.create_superstab_from_edges(edgegroups[0])
+                # There are no edges at all if previous defects removed them.
+                for edges in edgegroups[:1]:
+                    self.create_superstab_from_edges(edges)
                 for edges in edgegroups[1:]:
                     self.remove_edge(edges[0])
                     self.remove_edge(edges[1])
-- 
2.43.0

