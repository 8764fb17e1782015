From bcbe17e8fee9171e2438b11a0dab4af51c0fc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 01/27] fix: rotosolve rotates by half the angle for every
 Pauli word, not angle/2**k

rotosolve assumes E(theta) for exp(-i theta/2 P); dividing by 2**k for k-qubit
words made the step miss the minimum, and even raise the energy, for k > 1.
---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..32f4d51 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1289,17 +1289,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From 7a18a10045d0f52843b76bbf544cf7967e8ed944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:28 +0000
Subject: [PATCH 02/27] fix: project onto the unitary group when the unitarity
 check fails, not when it passes

---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 32f4d51..42d9334 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From 83819b10a854b8b37d218dce34fb3c3457082e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:19 +0000
Subject: [PATCH 03/27] fix: get_lie_algebra_directions passes PennyLane
 observables

Layers that keep their observables as full matrices crashed on obs.matrix.
---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 42d9334..b0dc668 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -32,6 +32,7 @@ class LieLayer(object):
         self.obs_qnode = qml.QNode(circuit_observable_from_unitary, device)
         self.su_state = None
         self.nqubits = nqubits
+        self.qml_observables = observables
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
 
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.qml_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From 5ec5bbce538fb19895752d0811c5a11961c4f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:19 +0000
Subject: [PATCH 04/27] fix: CustomDirectionLieAlgebraLayer with
 directions=None uses the Pauli matrices, not their keys

---
 oranssi/opt_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index b0dc668..9e7e57f 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -239,14 +239,14 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
         self.lastate = AlgebraSU4(self.nqubits, add_su2=True)
         self.lastate.get_all_directions_and_qubits()
         self.directions =list(self.lastate.full_paulis.keys())
-        self.paulis = self.lastate.full_paulis
+        self.paulis = list(self.lastate.full_paulis.values())
         if directions is not None:
             assert all(d in self.lastate.directions for d in directions), \
                 f'Supplied Lie algebra directions are invalid, ' \
                 f'expected {self.lastate.directions}, received {directions}'
             new_directions = []
             new_paulis = []
-            for d, pauli in self.paulis.items():
+            for d, pauli in self.lastate.full_paulis.items():
                 print(d)
                 if d[0] in directions:
                     new_directions.append(d)
-- 
2.43.0


From 5ab2f0e85a5b2f585090e8a149473c2f49cb9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:19 +0000
Subject: [PATCH 05/27] fix: AlgebraSU4 random directions no longer raise
 NotImplementedError

The implementation below the raise is what StochasticLieAlgebraLayer relies on.
---
 oranssi/opt_tools.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 9e7e57f..aa496ad 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1158,7 +1158,6 @@ class AlgebraSU4():
         Returns:
 
         """
-        raise NotImplementedError
         idx = np.where(self.qubits_left == 0)[0].tolist()
         # allow SU(4) samples
         if not idx:
-- 
2.43.0


From 9ce0d3c19ad8a0f0cb759032738ab0d0066b4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:19 +0000
Subject: [PATCH 06/27] fix: AdaptVQELayer appends new parameters to a copy of
 the caller's list

---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index aa496ad..02a5a63 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -529,7 +529,7 @@ class AdaptVQELayer(LieLayer):
 
     def __call__(self, circuit_unitary, *args, **kwargs):
         phi = self.state_qnode(unitary=circuit_unitary)[:, np.newaxis]
-        params_ext = kwargs.get('params')
+        params_ext = list(kwargs.get('params'))
         ps_optimizer = kwargs.get('optimizer')
         omegas = {}
         layer_omegas = {}
-- 
2.43.0


From 26a12c2636a1868ca5696a82e7594813961d7151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:19 +0000
Subject: [PATCH 07/27] fix: ZassenhausLayer without an SU(8) candidate returns
 the unitary unchanged

The step used an unbound k_max and raised UnboundLocalError.
---
 oranssi/opt_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 02a5a63..86cb83b 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -824,6 +824,11 @@ class ZassenhausLayer(LieLayer):
                         B = omegas_su8_k[k]
                         k_max = k
                         break
+            else:
+                # no SU(8) candidate with a finite gradient, continue with SU(4) steps.
+                self.counter = 0
+                self.su_state = 'su4'
+                return circuit_unitary
             # k_max = max(omegas_su8, key=omegas_su8.get)
             # omegas_sorted = sorted(omegas_su8, key=omegas_su8.get)
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
-- 
2.43.0


From 11f22b17bc7d71cc3352166c0852bb1a7ae93a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 08/27] fix: ZassenhausLayer does not divide by a vanishing
 line-search angle

A second-phase step after a line search that ended at angle 0 computed an
infinite angle and raised in the matrix exponential.
---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 86cb83b..087c1f8 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -815,7 +815,7 @@ class ZassenhausLayer(LieLayer):
             print(omegas_su8)
             print(omegas_su4)
             for k,v in omegas_su8.items():
-                if abs(v)>1e-3:
+                if abs(v)>1e-3 and abs(omegas_A)>1e-3:
                     print(k,v)
                     if abs(omegas_su4[omegas_su8_k[k]])>0:
                         print("Gate A:",self.current_pauli, omegas_A)
-- 
2.43.0


From 3aa10f69cd0adf55630623dd517cc01ee09a5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 09/27] fix: ZassenhausLayer skips commutators outside the
 SU(8) algebra

With add_su2 but not add_su4 the commutator of a one- and a two-qubit word was
looked up unconditionally and raised KeyError.
---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 087c1f8..76a18be 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -794,7 +794,7 @@ class ZassenhausLayer(LieLayer):
                         *[p.alpha for p in p_ab])
                 else:
                     continue
-                if 'I' in AB[0]:
+                if AB not in self.lastates[2].full_paulis:
                     continue
                 omegas_su8[AB] = 0
                 pauli = self.lastates[2].full_paulis[AB]
-- 
2.43.0


From e67688a79e3eadce60b9cc120b88706544c8b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 10/27] fix: plot_su16_directions_separate calls
 get_all_su_n_directions with its actual signature

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..8fecf8a 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From 3018c881f1c7d35959aebef9cd57c734603f6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 11/27] fix: state_to_spherical clips rounding errors at the
 poles instead of returning NaN

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 8fecf8a..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From 97483e2964f46ba70fb5657d5add8e32e9fceaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 12/27] fix: products of PauliMonomials use the monomials'
 coefficients

Coefficients set on a monomial (commutator, simplify, scalar_mul) were dropped,
so nested commutators and products of scaled sums were wrong.
---
 oranssi/pauli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..2a1172f 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -133,16 +133,20 @@ class PauliMonomial(object):
         sites_other_unique = set_other_locations - sites_in_common
         # Take the product of the common paulis and add them
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            new_monomial.append(Pauli(i, self[self.locations.index(i)].gamma)
+                                * Pauli(i, other[other.locations.index(i)].gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        # the coefficients live on the monomials, and may differ from those of the individual paulis
+        product.coeff = product.coeff * (self.coeff * other.coeff)
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
-- 
2.43.0


From c1913b7ef4b33e8816162bca724263b3fd555f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 13/27] fix: PauliMonomial.conj also conjugates the coefficient
 of the monomial

---
 oranssi/pauli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 2a1172f..70a7f70 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -222,6 +222,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From 546d74b39d7ba74bfdbb7a10e545c525c3e04b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 14/27] fix: PauliSum copies its monomials so that arithmetic
 does not change the operands

---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 70a7f70..4068862 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -264,7 +264,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # copy the monomials, their coefficients are changed by `simplify` and `scalar_mul`
+        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]
         self.simplify()
 
     def __getitem__(self, item):
@@ -308,7 +309,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = PauliSum(other.pauli_sum)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From a9ff56915acf0bfde8441afd6f5bec4d03e287af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 15/27] fix: PauliMonomial ordering places complex coefficients
 before real ones consistently

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 4068862..a2ed3bc 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -180,7 +180,7 @@ class PauliMonomial(object):
             if (~np.isreal(self.coeff) & np.isreal(other.coeff)):
                 return True
             elif (np.isreal(self.coeff) & ~np.isreal(other.coeff)):
-                return True
+                return False
             # if the coefficients are in the same domain, we simply decide by sign.
             else:
                 # can now be either +-a + i0 < +-a' + i0 or 0 + +-ib < 0 + +-ib'
-- 
2.43.0


From a05a17b792b41c0dc4e00574af21e849e50ce6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 16/27] fix: Pauli hash ignores the coefficient, as equality
 does

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index a2ed3bc..4398955 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -84,7 +84,7 @@ class Pauli(object):
 
     def __hash__(self):
         # unique hash representation of the object
-        return hash(repr(self))
+        return hash(self.__repr__(coeff=False))
 
     def tex(self):
         # method access to tex
-- 
2.43.0


From 1e294cd8571eadf6e0f0fa8392fd7d8457321b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 17/27] fix: save_path_creator tolerates a directory created
 concurrently

---
 oranssi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/utils.py b/oranssi/utils.py
index e94cee0..d01f5f5 100644
--- a/oranssi/utils.py
+++ b/oranssi/utils.py
@@ -118,5 +118,5 @@ def operator_2_norm(R: np.ndarray) -> float:
 def save_path_creator(path, experiment_name):
     save_path = os.path.join(path, experiment_name)
     if not os.path.exists(save_path):
-        os.makedirs(save_path)
+        os.makedirs(save_path, exist_ok=True)
     return save_path
-- 
2.43.0


From b24e1ca3e247a40b71c7198ef70c9653d80ef5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 18/27] fix: parameter_shift_optimizer validates return_params

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..812652c 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From 4664123f8aafa1c38af7640291add2b3dfff2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 19/27] fix: get_commuting_set returns non-overlapping edges of
 the input for every graph

Two colors are too few for odd cycles and for nodes with more than two edges:
the result overlapped or the heuristic raised.
---
 oranssi/circuit_tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..bbef26d 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,11 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        # a node with degree D requires D colors
+        applyHeuristic(g, max(degree for _, degree in g.degree()), 50, 50)
+        # The heuristic can fail to find a proper coloring, so overlapping edges are skipped.
+        edge_coloring = []
+        for e in sorted(edge_list, key=lambda e: g[e[0]][e[1]]['color']):
+            if not any(set(e) & set(f) for f in edge_coloring):
+                edge_coloring.append(e)
         return edge_coloring
-- 
2.43.0


From 30c56643067c993312908de31c844ed3228f9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 20/27] fix: get_ops_from_qnode keeps state preparations

They were dropped silently, so optimizers started from another state than the circuit's.
---
 oranssi/circuit_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index bbef26d..1d272bc 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -117,7 +117,13 @@ def get_ops_from_qnode(circuit, params: List, device: qml.Device) -> Tuple[
     qnode.construct([params], {})
     circuit_as_numpy_ops = []
     circuit_as_numpy_wires = []
-    for op in qnode.qtape._ops:
+    ops = list(qnode.qtape._ops)
+    # state preparations have no matrix, so we extract the gates that they decompose into.
+    for prep in reversed(qnode.qtape._prep):
+        prep_tape = prep.expand().expand(depth=qnode.max_expansion,
+                                         stop_at=lambda op: device.supports_operation(op.name))
+        ops = prep_tape.operations + ops
+    for op in ops:
         circuit_as_numpy_ops.append(op.matrix)
         circuit_as_numpy_wires.append(op.wires.labels)
     return circuit_as_numpy_ops, circuit_as_numpy_wires
-- 
2.43.0


From 527d8f8fe0d520a313dfc220906463ae7490c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 21/27] fix: approximate_lie_optimizer supports commuting
 SquaredLieAlgebraLayer steps

The layer needs an optimizer and returns its gates next to the unitary.
---
 oranssi/optimizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index 812652c..39dd598 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -7,7 +7,7 @@ import itertools as it
 
 from oranssi.circuit_tools import get_full_operator, get_ops_from_qnode, circuit_state_from_unitary, \
     circuit_observable_from_unitary, param_shift_comm
-from oranssi.opt_tools import AdaptVQELayer, LieLayer
+from oranssi.opt_tools import AdaptVQELayer, LieLayer, SquaredLieAlgebraLayer
 
 
 def parameter_shift_optimizer(circuit, params: List, observables: List, device: qml.Device,
@@ -344,6 +344,10 @@ def approximate_lie_optimizer(circuit, params: List, observables: List, device:
         if isinstance(layer, AdaptVQELayer):
             circuit_unitary, params = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
                                             params=params, **kwargs)
+        elif isinstance(layer, SquaredLieAlgebraLayer) and kwargs.get('commute', False):
+            circuit_unitary, gate = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
+                                          **kwargs)
+            gates.append(gate)
         else:
             circuit_unitary = layer(circuit_unitary, **kwargs)
 
-- 
2.43.0


From 8cbf9eca6182e12cd2947a4a6ee28e7ec951824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:01 +0000
Subject: [PATCH 22/27] fix: save_path_creator reports a file in the way
 instead of returning it as a directory

---
 oranssi/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/utils.py b/oranssi/utils.py
index d01f5f5..5cf3ee6 100644
--- a/oranssi/utils.py
+++ b/oranssi/utils.py
@@ -117,6 +117,6 @@ def operator_2_norm(R: np.ndarray) -> float:
 
 def save_path_creator(path, experiment_name):
     save_path = os.path.join(path, experiment_name)
-    if not os.path.exists(save_path):
+    if not os.path.isdir(save_path):
         os.makedirs(save_path, exist_ok=True)
     return save_path
-- 
2.43.0


From 521cb7735dfee37ce962f118999e01d2742c2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:37 +0000
Subject: [PATCH 23/27] fix: get_full_operator rejects negative wires

---
 oranssi/circuit_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index 1d272bc..bfe42eb 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -37,6 +37,7 @@ def get_full_operator(op: np.ndarray, wires: Tuple[int, ...], nqubits: int) -> n
     """
     assert max(
         wires) < nqubits, f'Operator is acting on qubit {max(wires)}, but nqubits is {nqubits}'
+    assert min(wires) >= 0, f'Operator is acting on qubit {min(wires)}, wires must be non-negative'
     opsize = int(np.log2(op.shape[0]))
     assert opsize == len(
         wires), f'Operator is shape {op.shape} acting on {opsize} qubits, but wires = {wires}'
-- 
2.43.0


From d8861629de7354d4608bac13b5809418c70c7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:00 +0000
Subject: [PATCH 24/27] fix: document the orientation plot_bloch_sphere_2d
 expects of the cost matrix

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 1e0c7d4..7dbf96b 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -34,7 +34,7 @@ def plot_bloch_sphere_2d(phi: np.ndarray, theta: np.ndarray, costs: np.ndarray,
     Args:
         phi: Vector with `K` polar angles
         theta: Vector with `L` azimuthal angles
-        costs: K x L matrix with costs at points (phi_k, theta_l)
+        costs: L x K matrix with costs at points (phi_k, theta_l)
         ax: Matplotlib axes
         fig: Matplotlib figure
 
-- 
2.43.0


From 82d2dd0863935ac2cd87512017871564d05eaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 25/27] fix: Pauli stores its index as a Python int, so
 unsigned numpy indices multiply correctly

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 4398955..6ad3971 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -28,7 +28,7 @@ class Pauli(object):
             assert gamma in pauli_idx_str2int_map.values(), 'gamma index must be ' \
                                                             f'`{sorted(list(pauli_idx_str2int_map.values()))}`, ' \
                                                             'received `{gamma}`'
-            self.gamma = gamma
+            self.gamma = int(gamma)
         # TODO: add support for symbolic coefficients here. Maybe with sympy?
         # For now we cast to numpy for consistency down the road
         if not isinstance(coeff, (sp.Symbol, sp.Mul, sp.Pow)):
-- 
2.43.0


From b9897ed30eb0a50b6838207dbba601bfa734dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 26/27] fix: a layer with an empty list of directions takes no
 step instead of raising AttributeError

---
 oranssi/opt_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 76a18be..d46e6c6 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -193,7 +193,8 @@ class LocalLieAlgebraLayer(LieLayer):
                     for j, pauli in enumerate(full_paulis):
                         omegas.append(phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi)
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
-                    self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
+                    self.op = sum((omegas[i] * full_paulis[i] for i in range(len(full_paulis))),
+                                  np.zeros_like(self.op))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
                     if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
@@ -287,7 +288,8 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omegas.append(phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi)
                     print(k, omegas[-1])
                 self.op = sum(
-                    omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
+                    (omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values())),
+                    np.zeros_like(self.op))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
                 if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
-- 
2.43.0


From 06e2be5da0740937b3eb351b000ea26d6153b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 27/27] fix: keep simplifying a Pauli sum when merged terms
 equal another term

---
 oranssi/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 6ad3971..fc61a32 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -291,6 +291,8 @@ class PauliSum(object):
                 # combine all coefficients into the first occurence
                 self.pauli_sum[remove_idx[0]].coeff = coeff
         self.pauli_sum = [ps for ps in self.pauli_sum if ~np.isclose(ps.coeff,0.0)]
+        # complex coefficients can add up to a real one, which may equal another term
+        self.simplify()
 
     def __len__(self):
         return len(self.pauli_sum)
-- 
2.43.0

