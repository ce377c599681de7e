From fa55c18f40a9ab85881c4ce0c3a761325b735da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 01/25] fix: use the second state index in the compiled
 electron-phonon Lindblad jump term

The term L_ba rho_aa' L*_b'a' was evaluated with a instead of a' in the second
jump matrix element, so the compiled kernel differed from the Python one and
did not conserve probability.
---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From 38a556df067f90190211bf300c2749bf917dc28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 02/25] fix: keep the indexing consistent when coherences are
 removed

remove_coherences left booldm0 and inddm0 describing the removed elements and did not flag the
states as changed: compiled kernels then wrote outside their arrays, a second removal
looked up the wrong pair of states, and a prepared approach kept arrays of the old size.
---
 qmeq/builder/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..ea281a7 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -261,6 +261,7 @@ def remove_coherences(self, dE):
             b, bp = si.inddm0[ind]
             if abs(E[b]-E[bp]) > dE:
                 si.mapdm0[i] = -1
+                si.booldm0[i] = False
             else:
                 ilst.append(i)
                 indlst.append(ind)
@@ -278,8 +279,13 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        b_bp = si.inddm0[si.mapdm0[ilst[i]]]
         si.mapdm0[ilst[i]] = indlst[i]
+        inddm0[indlst[i]] = b_bp
+    si.inddm0 = inddm0
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From 4878c662735f08931717141dba62d4cf0a8e6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 03/25] fix: get_phi0 and get_phi1 for Pauli, many-body
 builders and removed states

funcp.kerntype never holds the kerntype of the approach, so the Pauli branch was not reached and
coherences raised IndexError. The charge was taken from the Fock state, which
does not exist for systems built from many-body states, and for removed states the value of
another matrix element was returned.
---
 qmeq/builder/various.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index ea281a7..a0e5cc5 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -27,6 +27,29 @@ def get_charge(self, b):
     return sum(self.si.get_state(b))
 
 
+def get_charge_dm(self, b):
+    """
+    Get charge index of the many-body state b, which is kept in the calculations.
+
+    Parameters
+    ----------
+    self : Builder or Approach.
+        The system given as Builder or Approach object.
+    b : int
+        Label of the many-body state.
+
+    Returns
+    -------
+    int
+        Index of the list in si.statesdm, which contains the state b,
+        or None if the state is removed from the calculations.
+    """
+    for charge in range(self.si.ncharge):
+        if b in self.si.statesdm[charge]:
+            return charge
+    return None
+
+
 def multiarray_sort(arr, srt=[0]):
     """
     Sort rows of a two-dimensional array for a given
@@ -101,10 +124,12 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_charge_dm(self, b)
+    bpcharge = get_charge_dm(self, bp)
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
+    if bcharge is None or bpcharge is None:
+        return phi0bbp
+    if self.kerntype in {'Pauli', 'pyPauli'}:
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -141,14 +166,16 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.phi1 is None:
         return None
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_charge_dm(self, c)
+        bcharge = get_charge_dm(self, b)
         phi1cb = 0.0
+        if ccharge is None or bcharge is None:
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0


From 5746ef666cf3b4764d4f3d9d068ecd09a180fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 04/25] fix: charge bookkeeping of many-body builders and
 get_phi0 for RTD

BuilderManyBody left chargelst of the zero-orbital system in place, indexed
statesdm by the absolute charge, and remove_states sized its list by nsingle.
get_phi0 treated RTD as having coherences.
---
 qmeq/builder/builder_base.py | 4 +++-
 qmeq/builder/various.py      | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..fe06493 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -347,7 +347,7 @@ class BuilderManyBody(BuilderBase):
 
         statesdm = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
+            statesdm[Na[i]-nmin].append(i)
 
         self.Na = Na
         self.si.nmany = nmany
@@ -356,4 +356,6 @@ class BuilderManyBody(BuilderBase):
         self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
         self.si.lenlst = np.zeros(ncharge, dtype=longnp)
         self.si.dictdm = np.zeros(nmany, dtype=longnp)
+        self.si.chargelst = [list(states) for states in statesdm]
+        self.si.states_order = list(range(nmany))
         self.si.set_statesdm(statesdm)
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index a0e5cc5..605da3c 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -129,7 +129,7 @@ def get_phi0(self, b_, bp_):
     phi0bbp = 0.0
     if bcharge is None or bpcharge is None:
         return phi0bbp
-    if self.kerntype in {'Pauli', 'pyPauli'}:
+    if self.kerntype in {'Pauli', 'pyPauli', 'RTD', 'pyRTD'}:
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -331,7 +331,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From 8f736a95e612de6c72d6e533b96eeb17b8fcb77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 05/25] fix: size the per-thread RTD kernels for the states
 actually in use

The number of copies was fixed at construction, before BuilderManyBody or
remove_states set the states, and threads then wrote out of bounds.
---
 qmeq/approach/base/c_RTD.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..addd2f8 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -83,6 +81,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # For parallel
+        self.nbr_Wdd2_copies = min(kern_size, openmp.omp_get_max_threads())
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
-- 
2.43.0


From eab4427a50d33e819a26136192d84d022a6702b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 06/25] fix: compare the symmetry option by value and do not
 modify the caller's state list

---
 qmeq/baths.py    | 2 +-
 qmeq/indexing.py | 4 ++--
 qmeq/leadstun.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..22116d3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -718,7 +718,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1096,7 +1096,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From 7e045a13a126c60c55911579ed72fcb2bb94d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 07/25] fix: keep tleads_array current and expand symmetries
 when the couplings are changed

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..3601151 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -471,7 +471,7 @@ class LeadsTunneling(object):
                         self.tleads[j0] += tleads[j0]
                     else:
                         self.tleads.update({j0: tleads[j0]})
-                self.tleads_array = make_tleads_array(self.tleads, self.si)
+                self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             self.Tba0 = construct_Tba(self, tleads, self.Tba0)
 
     def change(self, tleads=None, mulst=None, tlst=None, dlst=None):
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array[:] = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From 6b2686a0ee3f8d2144710ea2eeb2b8366d8536f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 08/25] fix: keep the many-body states when the indexing object
 is replaced or Fock states are removed again

Switching between 2vN and the other approaches lost removed states, the
states of many-body builders and, with phonons, the baths. The phonon indexing
ignored the many-body states and use_all_states, and a second
remove_fock_states with 'Lin' indexing removed the wrong states.
---
 qmeq/builder/builder_base.py |  1 +
 qmeq/builder/builder_elph.py | 15 +++++++++++++--
 qmeq/indexing.py             | 24 +++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index fe06493..a6b1133 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -167,6 +167,7 @@ class BuilderBase(object):
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self.si.copy_states(si)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..7962fb2 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -111,7 +111,11 @@ class BuilderElPh(BuilderBase):
         self.create_si_elph()
 
     def change_si(self):
+        baths = self.baths
         BuilderBase.change_si(self)
+        self.si.nbaths = baths.si.nbaths
+        self.baths = baths
+        self.baths.si = self.si
         self.create_si_elph()
 
     def create_si_elph(self):
@@ -119,6 +123,7 @@ class BuilderElPh(BuilderBase):
         si_elph = StateIndexingDMc(si.nsingle, si.indexing,
                                    si.symmetry, si.nleads)
         si_elph.nbaths = si.nbaths
+        si_elph.copy_states(si)
         self.si_elph = si_elph
 
     def add(self,
@@ -139,6 +144,10 @@ class BuilderElPh(BuilderBase):
         BuilderBase.remove_states(self, dE)
         self.si_elph.set_statesdm(self.si.statesdm)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm)
+
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
@@ -166,7 +175,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
                  itype=0, dqawc_limit=10000, mfreeq=False, phi0_init=None,
                  mtype_qd=complex, mtype_leads=complex,
                  symmetry=None, herm_hs=True, herm_c=False, m_less_n=True,
-                 bath_func=None, eps_elph=1.0e-6):
+                 bath_func=None, eps_elph=1.0e-6, itype_ph=0):
 
         nleads = Tba.shape[0] if Tba is not None else 0
         nbaths = Vbbp.shape[0] if Vbbp is not None else 0
@@ -176,13 +185,15 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             nleads=nleads, mulst=mulst, tlst=tlst, dband=dband,
             nbaths=nbaths, tlst_ph=tlst_ph, dband_ph=dband_ph, kpnt=kpnt,
             kerntype=kerntype, symq=symq, norm_row=norm_row, solmethod=solmethod,
-            itype=itype, dqawc_limit=dqawc_limit, mfreeq=mfreeq, phi0_init=phi0_init,
+            itype=itype, itype_ph=itype_ph, dqawc_limit=dqawc_limit,
+            mfreeq=mfreeq, phi0_init=phi0_init,
             mtype_qd=mtype_qd, mtype_leads=mtype_leads,
             symmetry=symmetry, herm_hs=herm_hs, herm_c=herm_c, m_less_n=m_less_n,
             bath_func=bath_func, eps_elph=eps_elph,
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self.si_elph.copy_states(self.si)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 22116d3..838a94f 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -1,5 +1,6 @@
 """Module for indexing many-body states using Lin tables."""
 
+import copy
 import itertools
 
 import numpy as np
@@ -606,6 +607,23 @@ class StateIndexing(object):
             print("WARNING: No indexing by 'sz' or 'ssq'. Returning charge list.")
             return self.chargelst[charge]
 
+    def copy_states(self, si):
+        """
+        Use the same many-body states as another indexing for the density matrix elements.
+
+        Parameters
+        ----------
+        si : StateIndexingDM or StateIndexingDMc
+            Indexing from which the many-body states are copied.
+        """
+        for name in vars(StateIndexing(si.nsingle, si.indexing)):
+            setattr(self, name, copy.copy(getattr(si, name)))
+        self.shiftlst0 = np.zeros(self.ncharge+1, dtype=longnp)
+        self.shiftlst1 = np.zeros(self.ncharge, dtype=longnp)
+        self.lenlst = np.zeros(self.ncharge, dtype=longnp)
+        self.dictdm = np.zeros(self.nmany, dtype=longnp)
+        self.set_statesdm(si.statesdm[0:si.ncharge])
+
     def remove_fock_states(self, lin_state_indices):
         """
         Remove Fock states.
@@ -625,7 +643,10 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        if self.indexing == 'Lin':
+            chargelst_lin = construct_chargelst(self.nsingle)
+        else:
+            chargelst_lin = self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
@@ -662,6 +683,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From 60edc0fdf15e4d6f80b6764ceaf83873e27e620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 09/25] fix: make the solution method options consistent and
 use the matrix-free solution for the currents

Changing mfreeq after a solution left the arrays of the other mode in place,
setting solmethod before the first solution failed for the compiled
approaches, and the matrix-free currents were calculated from the last trial
vector of the root finder.
---
 qmeq/approach/aprclass.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..9b434c8 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -66,13 +66,17 @@ class Approach(object):
     @solmethod.setter
     def solmethod(self, value):
         self.funcp.solmethod = value
-        self.prepare_solver()
+        if self.is_prepared:
+            self.prepare_solver()
 
     @property
     def mfreeq(self):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -197,14 +201,15 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            if solmethod is None or solmethod in {'solve', 'lsqr'}:
+                solmethod = 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        if solmethod not in {'solve', 'lsqr'}:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
@@ -352,6 +357,9 @@ class Approach(object):
             self.phi0.fill(0.0)
             self.success = False
 
+        # The last vector used by the solver is in general not the solution
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0


From ea3e9112d175b91ada6f0b55a23063b035a8d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 10/25] fix: accept Coulomb matrix elements as an array and let
 change() set them to zero

---
 qmeq/qdot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..31e0a8c 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -648,8 +650,9 @@ def make_coulomb_dict(qd, coulomb):
     elif isinstance(coulomb, (list, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
-            m, n, k, l, U = j0
-            if U != 0:
+            m, n, k, l = [int(np.real(j1)) for j1 in j0[0:4]]
+            U = j0[4]
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +840,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From a9f23bf01598b3ec1a4c601bd9ce0b6a81c63e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 11/25] fix: do not modify the dictionaries passed to
 QuantumDot, LeadsTunneling and PhononBaths

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 2 +-
 qmeq/qdot.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 9bc9b95..4affd7c 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -149,7 +149,7 @@ def make_velph_dict(velph, si, add_zeros=False):
         velph[(bath, state1, state2)] gives the coupling.
     """
     if isinstance(velph, dict):
-        velph_dict = velph
+        velph_dict = dict(velph)
     elif isinstance(velph, list):
         velph_dict = {}
         for j0 in velph:
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 3601151..a2e5a23 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -268,7 +268,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
         tleads[(lead, state)] gives the tunneling amplitude.
     """
     if isinstance(tleads, dict):
-        tleads_dict = tleads
+        tleads_dict = dict(tleads)
     elif isinstance(tleads, list):
         tleads_dict = {}
         for j0 in tleads:
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 31e0a8c..44f9f82 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -595,7 +595,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
     si = qd.si
     #
     if isinstance(hsingle, dict):
-        hsingle_dict = hsingle
+        hsingle_dict = dict(hsingle)
     elif isinstance(hsingle, list):
         hsingle_dict = {}
         for j0 in hsingle:
@@ -646,7 +646,7 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
     si = qd.si
     #
     if isinstance(coulomb, dict):
-        coulomb_dict = coulomb
+        coulomb_dict = dict(coulomb)
     elif isinstance(coulomb, (list, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
-- 
2.43.0


From 04b89486c391ea0f1b38c4b5affde4be1f955f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 12/25] fix: make the spin expansion of Coulomb elements
 independent of the input order

---
 qmeq/qdot.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 44f9f82..024cbaa 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -664,14 +664,16 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
         for j0 in coulomb_dict:
             m, n, k, l = j0
             U = coulomb_dict[j0]
-            # up, down, down, up
-            if not herm_c or (l, k+nss, n+nss, m) not in coulomb_dict_spin.keys():
-                coulomb_dict_spin.update({(m, n+nss, k+nss, l): U})
-            # down, up, up, down
+            keys = [(m, n+nss, k+nss, l)]  # up, down, down, up
             if m_less_n:
-                if not herm_c or (k, l+nss, m+nss, n) not in coulomb_dict_spin.keys():
-                    coulomb_dict_spin.update({(n, m+nss, l+nss, k): U})
-            else:
+                keys.append((n, m+nss, l+nss, k))  # down, up, up, down
+            for key in keys:
+                # Of an element and its conjugate only one is kept, irrespective of the input order
+                if herm_c and key[::-1] < key:
+                    coulomb_dict_spin.update({key[::-1]: U.conjugate()})
+                else:
+                    coulomb_dict_spin.update({key: U})
+            if not m_less_n:
                 coulomb_dict_spin.update({(m+nss, n, k, l+nss): U})
             # down, down, down, down
             coulomb_dict_spin.update({(m+nss, n+nss, k+nss, l+nss): U})
-- 
2.43.0


From 9ced1ad31279d18696cd53c2d23ca6b54977b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 13/25] fix: same equal-temperature threshold in the Python and
 compiled integralX

---
 qmeq/specfunc/specfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..84681ae 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -542,7 +542,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
+    TMIN = 1e-5
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
-- 
2.43.0


From 721216f8519129d5875f7aa8e79e819cd8b8da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 14/25] fix: overflow guards of bose and diff_fermi follow the
 sign of the exponent

---
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..d820210 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -100,7 +100,7 @@ cdef double_t fermi_func(double_t x) nogil:
 @cython.cdivision(True)
 cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
     """Calculates the derivative of the Fermi function."""
-    if x > 354.885:
+    if sign*x > 354.885:
         return 0.0
     cdef double_t e = exp(sign*x)
     return -sign*e / ((e + 1.0)**2)
@@ -109,7 +109,7 @@ cdef double_t diff_fermi(double_t x, double_t sign=1) nogil:
 @cython.cdivision(True)
 cdef double_t bose(double_t x, double_t sign=1) nogil:
     """Calculates the Bose distribution function at x."""
-    if x > 709.77: #To avoid overflow in the denominator.
+    if sign*x > 709.77: #To avoid overflow in the denominator.
         return 0.0
     cdef double_t e = exp( sign * x )
     return 1.0 / (e - 1.0)
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 84681ae..75590a6 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -213,7 +213,7 @@ def diff_fermi(x, sign=1):
     double
         The function value
     """
-    if x > 709.77 / 2:  # To avoid overflow in the denominator
+    if sign * x > 709.77 / 2:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return -sign * e / ((e + 1.0) ** 2)
@@ -234,7 +234,7 @@ def bose(x, sign=1):
     double
         The function value
     """
-    if x > 709.77:  # To avoid overflow in the denominator
+    if sign * x > 709.77:  # To avoid overflow in the denominator
         return 0.0
     e = np.exp(sign * x)
     return 1 / (e - 1)
-- 
2.43.0


From c777f1f89f8df3f5a4c46eef67f6c521c139c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 15/25] fix: let the compiled approaches use input arrays that
 were replaced between two solutions

---
 qmeq/approach/base/c_RTD.pyx | 14 ++++++--------
 qmeq/approach/c_aprclass.pxd |  2 ++
 qmeq/approach/c_aprclass.pyx |  9 +++++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index addd2f8..3c7f13a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -120,14 +120,7 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.set_input_arrays()
 
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
@@ -140,6 +133,11 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
+    cdef void set_input_arrays(self):
+        Approach.set_input_arrays(self)
+        self._tleads_array = self.leads.tleads_array
+
+
     cdef void clean_arrays(self):
         self.ImGamma = False
 
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..ec6f704 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -62,6 +62,8 @@ cdef class Approach:
 
     cdef void prepare_arrays(self)
 
+    cdef void set_input_arrays(self)
+
     cdef void clean_arrays(self)
 
     cpdef void solve_kern(self)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..60ae8f6 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -103,6 +103,7 @@ cdef class Approach:
 
     cpdef void prepare_kern(self):
         if self.is_prepared and not self.si.states_changed:
+            self.set_input_arrays()
             self.clean_arrays()
             return
 
@@ -141,6 +142,10 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
+        self.set_input_arrays()
+
+    cdef void set_input_arrays(self):
+        # The arrays can be replaced by other ones between two solutions
         self._tlst = self.leads.tlst
         self._mulst = self.leads.mulst
         self._dlst = self.leads.dlst
@@ -286,6 +291,10 @@ cdef class ApproachElPh(Approach):
         self._kernel_handler.elph = self.kernel_handler_elph
 
     cdef void prepare_arrays(self):
+        self.set_input_arrays()
+
+    cdef void set_input_arrays(self):
+        Approach.set_input_arrays(self)
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
-- 
2.43.0


From d6883ce57d45423121807800a1b3acc74fc9af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 16/25] fix: regenerate the Ozaki expansion of RTD when the
 bandwidth or temperature changes

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..4b50fdf 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -929,7 +929,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 3c7f13a..af9d41d 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -963,6 +963,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From 1ca887efcdf6c912302d7453b63a063402fd4b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 17/25] fix: allow switching the off-diagonal corrections of
 RTD on after a solution without them

---
 qmeq/approach/base/RTD.py       | 7 +++++++
 qmeq/approach/base/c_RTD.pyx    | 7 +++++++
 qmeq/approach/kernel_handler.py | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 4b50fdf..a3980a9 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -47,6 +47,13 @@ class ApproachPyRTD(Approach):
     def prepare_kernel_handler(self):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
+    def prepare_kern(self):
+        # The arrays for the off-diagonal corrections exist only if these were included
+        self.off_diag_corrections = self.funcp.off_diag_corrections
+        if self.off_diag_corrections and self.ReWnd is None:
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index af9d41d..702576b 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -70,6 +70,13 @@ cdef class ApproachRTD(Approach):
         ApproachPyRTD.restart(self)
 
 
+    cpdef void prepare_kern(self):
+        # The arrays for the off-diagonal corrections exist only if these were included
+        if self.funcp.off_diag_corrections and self.ReWnd is None:
+            self.is_prepared = False
+        Approach.prepare_kern(self)
+
+
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
         cdef KernelHandlerRTD kh = self._kernel_handler
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..0344a2c 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -255,6 +255,9 @@ class KernelHandlerMatrixFree(KernelHandler):
 class KernelHandlerRTD(KernelHandler):
     """Class used for inserting matrix elements into the matrices used in the RTD approach."""
 
+    # Used only if the off-diagonal corrections are included
+    ReWdn, ImWdn, ReWnd, ImWnd, Lnn = None, None, None, None, None
+
     def set_matrix_list(self):
         self.mats = [self.Wdd, self.WE1, self.WE2, self.ReWdn, self.ImWdn, self.ReWnd, self.ImWnd, self.Lnn]
 
-- 
2.43.0


From 7499fa33d0a15d3939c86d28ece747accfd836db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 18/25] fix: ignore mfreeq=True in the RTD approach, which
 crashed the compiled implementation

---
 qmeq/approach/base/RTD.py    | 3 +++
 qmeq/approach/base/c_RTD.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a3980a9..221505e 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -48,6 +48,9 @@ class ApproachPyRTD(Approach):
         self.kernel_handler = KernelHandlerRTD(self.si)
 
     def prepare_kern(self):
+        if self.funcp.mfreeq:
+            print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+            self.funcp.mfreeq = False
         # The arrays for the off-diagonal corrections exist only if these were included
         self.off_diag_corrections = self.funcp.off_diag_corrections
         if self.off_diag_corrections and self.ReWnd is None:
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 702576b..db3cb7a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -71,6 +71,9 @@ cdef class ApproachRTD(Approach):
 
 
     cpdef void prepare_kern(self):
+        if self.funcp.mfreeq:
+            print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+            self.funcp.mfreeq = False
         # The arrays for the off-diagonal corrections exist only if these were included
         if self.funcp.off_diag_corrections and self.ReWnd is None:
             self.is_prepared = False
-- 
2.43.0


From c05a1ee2426ede557ece1ad3e4587f8d1a6f8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 19/25] fix: let make_kern_copy take effect on an approach that
 is already prepared

---
 qmeq/approach/c_aprclass.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 60ae8f6..4ece79b 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -87,6 +87,8 @@ cdef class Approach:
     @make_kern_copy.setter
     def make_kern_copy(self, value):
         self._make_kern_copy = value
+        if self.is_prepared:
+            self.prepare_solver()
 
     #endregion Properties
 
-- 
2.43.0


From 56ef2dc42aaf8662e99a993e0cc9be4afe13222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 20/25] fix: use the energies of the kept states, in the order
 of the kernel, for the RTD energy current

---
 qmeq/approach/base/RTD.py    | 18 +++++++++++++++++-
 qmeq/approach/base/c_RTD.pyx |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 221505e..32cae87 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -201,6 +201,22 @@ class ApproachPyRTD(Approach):
                     charge_lst.append(2 * charge)
         self.LN = np.array(charge_lst)
 
+    def generate_LE(self):
+        """Generates the diagonal of the anti-commutator Liouvillian for the Hamiltonian of the dot. The entries
+        are ordered as the diagonal elements of the density matrix.
+
+        Returns
+        -------
+        LE : ndarray
+            the diagonal entries of the anti-commutator Liouvillian. The array has npauli entries.
+        """
+        si, E = self.si, self.qd.Ea
+        LE = np.zeros(self.get_kern_size(), dtype=doublenp)
+        for charge in range(si.ncharge):
+            for a in si.statesdm[charge]:
+                LE[si.get_ind_dm0(a, a, charge)] = 2 * E[a]
+        return LE
+
     def generate_current(self):
         r""" Calculates currents for the RTD approach.
 
@@ -223,7 +239,7 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = self.generate_LE()
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index db3cb7a..516da6a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -269,7 +269,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From 7353e47f584c9db8e805e8c2241f8c991eea4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 21/25] fix: leave removed coherences out of the off-diagonal
 corrections of RTD instead of writing out of place

---
 qmeq/approach/c_kernel_handler.pyx | 3 +++
 qmeq/approach/kernel_handler.py    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..c16d14b 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,9 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        # Removed coherences
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 0344a2c..073e05b 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -296,6 +296,9 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        # Removed coherences
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -395,7 +398,11 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        # Removed coherence
+        if indx == -1:
+            return
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From 7db793652eb9d425b9121b8196a5e9e8d56d3370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 22/25] fix: set up the Ozaki expansion of pyRTD whenever the
 temperatures differ

---
 qmeq/approach/base/RTD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 32cae87..fef625b 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -132,7 +132,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
-- 
2.43.0


From 4f38fed14179e7e4b03125a354151e8ef8d98282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 23/25] fix: leave removed coherences out of the 2vN equations
 instead of writing out of place

---
 qmeq/approach/base/c_neumann2.pyx |  6 ++++--
 qmeq/approach/base/neumann2.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..ec8209f 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -173,11 +173,13 @@ cdef class TermsCalculator2vN:
             for j in range(bcount):
                 b1 = statesdm[bcharge, j]
                 b1b = kh.get_ind_dm0(b1, b, bcharge)
-                kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
+                if b1b != -1:
+                    kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
             for j in range(ccount):
                 c1 = statesdm[ccharge, j]
                 cc1 = kh.get_ind_dm0(c, c1, ccharge)
-                kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
+                if cc1 != -1:
+                    kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
             # ---------------------------------------------------------------------------
             # Phi[1] terms
             # 2nd and 7th terms
diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 4e69f90..ecfcdf9 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -289,6 +289,8 @@ class Approach2vN(ApproachBase2vN):
             for b, bp in itertools.combinations_with_replacement(statesdm[charge], 2):
                 bbp = si.get_ind_dm0(b, bp, charge)
                 bpb = si.get_ind_dm0(bp, b, charge)
+                if bbp == -1 or bpb == -1:
+                    continue
                 shuffle[bbp, bpb] = 1
                 shuffle[bpb, bbp] = 1
         phi1_phi0_conj = np.dot(np.conjugate(phi1_phi0), shuffle)
@@ -300,6 +302,8 @@ class Approach2vN(ApproachBase2vN):
             ccharge = charge+1
             for b, bp in itertools.product(statesdm[bcharge], statesdm[bcharge]):
                 bbp = si.get_ind_dm0(b, bp, bcharge)
+                if bbp == -1:
+                    continue
                 kern[bbp, bbp] = E[b]-E[bp]
 
                 for a1 in statesdm[acharge]:
@@ -482,10 +486,12 @@ class TermsCalculator2vN(object):
                 # Phi[0] terms
                 for b1 in statesdm[bcharge]:
                     b1b = si.get_ind_dm0(b1, b, bcharge)
-                    kern0[cb, b1b] += +Tba[l, c, b1]*fp
+                    if b1b != -1:
+                        kern0[cb, b1b] += +Tba[l, c, b1]*fp
                 for c1 in statesdm[ccharge]:
                     cc1 = si.get_ind_dm0(c, c1, ccharge)
-                    kern0[cb, cc1] += -Tba[l, c1, b]*fm
+                    if cc1 != -1:
+                        kern0[cb, cc1] += -Tba[l, c1, b]*fm
                 # ---------------------------------------------------------------------------
                 # Phi[1] terms
                 # 2nd and 7th terms
-- 
2.43.0


From e091a27d576f128c240bcb93f563b4dfe76a17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 24/25] fix: extend the 2vN energy grid to the two-electron
 energies also for asymmetric bands

---
 qmeq/approach/base/neumann2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index ecfcdf9..fa9960c 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -168,8 +168,8 @@ class Approach2vN(ApproachBase2vN):
                 lst.append(dmin-E[b]+E[bp])
         for charge in range(si.ncharge-2):
             for d, b in itertools.product(si.statesdm[charge+2], si.statesdm[charge]):
-                lst.append(dmin+E[d]-E[b])
-                lst.append(dmax+E[d]-E[b])
+                lst.append(E[d]-E[b]-dmin)
+                lst.append(E[d]-E[b]-dmax)
 
         self.funcp.emax = max(lst)
         self.funcp.emin = min(lst)
-- 
2.43.0


From 36847d60c3b2774b806c98304615967e24291437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:41 +0000
Subject: [PATCH 25/25] fix: report a norm_row outside of the kernel instead of
 writing out of bounds in the compiled approaches

---
 qmeq/approach/c_aprclass.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 4ece79b..4de1917 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -217,6 +217,11 @@ cdef class Approach:
 
     cpdef generate_vec(self, phi0):
         cdef long_t norm_row = self._norm_row
+        cdef long_t size = self._dphi0_dt.shape[0]
+        if norm_row < 0:
+            norm_row += size
+        if norm_row < 0 or norm_row >= size:
+            raise IndexError("norm_row is outside of the kernel.")
 
         cdef KernelHandlerMatrixFree kh = self._kernel_handler
         kh.set_phi0(phi0)
@@ -244,6 +249,14 @@ cdef class Approach:
         cdef double_t [:] bvec = self._bvec
 
         cdef long_t norm_row = self._norm_row if self._symq else kern.shape[0] - 1
+        if norm_row < 0:
+            norm_row += kern.shape[0]
+        if norm_row < 0 or norm_row >= kern.shape[0]:
+            self.funcp.print_error("norm_row is outside of the kernel.")
+            self._phi0[::1] = 0.0
+            self._success = False
+            return
+
         kern[norm_row, :] = self._norm_vec
         bvec[norm_row] = 1
 
-- 
2.43.0

