From 06670ac5c2b2778f5f7303b6c4247295342ad39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 01/76] fix: accumulate the terms of voltage-defined elements
 in the MNA

A controlled voltage source whose sensing nodes coincide with its output
nodes (or any voltage-defined element with both terminals on one node)
overwrote terms already stamped instead of adding to them.
---
 ahkab/dc_analysis.py | 14 +++++++-------
 ahkab/symbolic.py    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..e5be7e9 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1029,11 +1029,11 @@ def generate_mna_and_N(circ, verbose=3):
             mna = utilities.expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = utilities.expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = 1.0
-            mna[elem.n2, index] = -1.0
+            mna[elem.n1, index] += 1.0
+            mna[elem.n2, index] += -1.0
             # KVL
-            mna[index, elem.n1] = +1.0
-            mna[index, elem.n2] = -1.0
+            mna[index, elem.n1] += +1.0
+            mna[index, elem.n2] += -1.0
             if isinstance(elem, components.sources.VSource) and not elem.is_timedependent:
                 # corretto, se e' def una parte tempo-variabile ci pensa
                 # mdn_solver a scegliere quella giusta da usare.
@@ -1041,14 +1041,14 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                mna[index, elem.sn1] += -1.0 * elem.alpha
+                mna[index, elem.sn2] += +1.0 * elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
             elif isinstance(elem, components.sources.HVSource):
                 index_source = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes+index_source] = 1.0 * elem.alpha
+                mna[index, n_of_nodes+index_source] += 1.0 * elem.alpha
             else:
                 print("dc_analysis.py: BUG - found an unknown voltage_def elem.")
                 print(elem)
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..2d3f379 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -471,11 +471,11 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             mna = _expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = _expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = +1
-            mna[elem.n2, index] = -1
+            mna[elem.n1, index] += +1
+            mna[elem.n2, index] += -1
             # KVL
-            mna[index, elem.n1] = +1
-            mna[index, elem.n2] = -1
+            mna[index, elem.n1] += +1
+            mna[index, elem.n2] += -1
             if isinstance(elem, components.sources.VSource):
                 if elem.is_symbolic:
                     VDC = _symbol_factory(elem.part_id.upper())
@@ -491,8 +491,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                mna[index, elem.sn1] += -alpha
+                mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
@@ -501,7 +501,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 else:
                     alpha = elem.alpha
                 source_index = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes + source_index] = +alpha
+                mna[index, n_of_nodes + source_index] += +alpha
             elif isinstance(elem, components.Inductor):
                 if ac:
                     if elem.is_symbolic:
-- 
2.43.0


From 9bb9cbbeb217240314669ce84ba343d73e0a74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 02/76] fix: symbolic analysis uses the values non-symbolic
 elements have

---
 ahkab/symbolic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 2d3f379..e4ea931 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -412,7 +412,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
@@ -510,15 +510,15 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
                     # already so: commented out
                     # N[index,0] = 0
             else:
-                raise circuit.CircuitError('Element %s is not supported. ' +
-                                           'Please report this bug.' %
+                raise circuit.CircuitError(('Element %s is not supported. ' +
+                                            'Please report this bug.') %
                                            elem.__class__)
 
     for elem in circ:
@@ -533,7 +533,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
-- 
2.43.0


From d761b2d9674182ecb39451e6150c3b9ba42d020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 03/76] fix: symbolic substitutions of resistors also apply
 when formulating with conductances

---
 ahkab/symbolic.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index e4ea931..507d5e8 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -585,9 +585,9 @@ def _parse_substitutions(sdict):
 
     .. note::
 
-        For what regards the resistors, the method will check the value
-        of ``options.symb_formulate_with_gs`` and convert the resistors
-        to conductances as needed, according to the option value.
+        The resistors are substituted as such also when
+        ``options.symb_formulate_with_gs`` is set: the conversion to
+        conductances is performed when building the equations.
 
     **Parameters:**
 
@@ -604,12 +604,10 @@ def _parse_substitutions(sdict):
     """
     subs = {}
     for v1, v2 in py3compat.iteritems(sdict):
-        if v1[0].upper() == 'R' and options.symb_formulate_with_gs:
-            letter_id1 = 'G' + _COND_POSTFIX
-            letter_id2 = 'G' + _COND_POSTFIX
-        else:
-            letter_id1 = v1[0].upper()
-            letter_id2 = v2[0].upper()
+        # the resistors are converted to conductances, if needed, when the MNA
+        # is built, after the substitution.
+        letter_id1 = v1[0].upper()
+        letter_id2 = v2[0].upper()
         if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
             s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
         else:
-- 
2.43.0


From 42e2e521106f62cf9f2b26ca2235400fc553c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/76] fix: swapped MOS devices stamp their conductances with
 drain and source exchanged

---
 ahkab/mosq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..06c2d62 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -378,7 +378,7 @@ class mosq_device(object):
                           (-gmd, -gmg, gmd + gmg + gmb, -gmb),
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
-            stamp = self.mosq_model.T1*stamp*self.mosq_model.T2
+            stamp = self.mosq_model.T1.dot(stamp).dot(self.mosq_model.T2)
         if (self.opdict['state'] != ports_v[0]).any():
             self.opdict = {'state':ports_v[0]}
         self.opdict.update({'gmd': stamp[0, 0]})
-- 
2.43.0


From 41bc267e9f1a39944b66e2cdcc77bfc5728320f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 05/76] fix: non-linear devices whose output port is shorted to
 ground

---
 ahkab/dc_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index e5be7e9..c62aead 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -844,6 +844,8 @@ def _update_J_and_Tx(J, Tx, x, elem, time):
     out_ports = elem.get_output_ports()
     for index in range(len(out_ports)):
         n1, n2 = out_ports[index]
+        if not (n1 or n2):
+            continue  # both nodes grounded: no equation is affected
         n1m1, n2m1 = n1 - 1, n2 - 1
         dports = elem.get_drive_ports(index)
         v_dports = []
-- 
2.43.0


From 836cec9b131d71dfdaf8e4adb0c04d73c6864e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 06/76] fix: residual of the brute-force steady state with
 dense matrices

---
 ahkab/bfpss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..d23b2ec 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -233,7 +233,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                             elem.g(opindex, v_ports, dpindex)
 
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
-- 
2.43.0


From fc74fcd85dd0d4d2a3a6d2f2f859f8c53fb85273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 07/76] fix: pole-zero analysis of non-linear circuits called a
 missing function

---
 ahkab/pz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..92a85ed 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -210,7 +210,11 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
+            J = np.zeros((MNA.shape[0] - 1, MNA.shape[0] - 1))
+            Tx = np.zeros((MNA.shape[0] - 1, 1))
+            for elem in mc:
+                if elem.is_nonlinear:
+                    dc_analysis._update_J_and_Tx(J, Tx, x0, elem, time=0.)
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
     MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
-- 
2.43.0


From f55dd9b851d6c548574c58f7098ab5b0fec5faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:03 +0000
Subject: [PATCH 08/76] fix: brute-force steady state indexed arrays with
 floats

---
 ahkab/bfpss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index d23b2ec..cb721e6 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -158,9 +158,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_1 = circ.get_nodes_number() - 1
     ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
+        nv_indices += (i * mna.shape[0] * np.ones(nv_1, dtype=int) + \
                       np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
+        ni_indices += (i * mna.shape[0] * np.ones(ni, dtype=int) + \
                       np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
-- 
2.43.0


From 4b30a0bd22f245da96aaf3489b255e096f779a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:52 +0000
Subject: [PATCH 09/76] fix: report each voltage source's power with its own
 branch current

---
 ahkab/results.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..5358a09 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -339,7 +339,6 @@ class op_solution(solution, _mutable_data):
     def _get_elements_op(self, circ, x):
         """Returns"""
         tot_power = 0
-        i_index = 0
         nv_1 = circ.get_nodes_number() - 1
         op_info = {}
         op_keys = {}
@@ -404,8 +403,8 @@ class op_solution(solution, _mutable_data):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
+                i_index = circ.find_vde_index(elem.part_id, verbose=0)
                 tot_power = tot_power - v*x[nv_1 + i_index, 0]
-                i_index = i_index + 1
             elif isinstance(elem, components.sources.FISource):
                 local_i_index = 0
                 found_source = False
@@ -432,8 +431,6 @@ class op_solution(solution, _mutable_data):
                 local_i_index2 = circ.find_vde_index(elem.part_id)
                 tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
                                         x[nv_1 + local_i_index2, 0]
-            elif circuit.is_elem_voltage_defined(elem):
-                i_index = i_index + 1
 
         #op_info.append("TOTAL POWER: %e W\n" % (tot_power,))
         return op_keys, op_info, tot_power
-- 
2.43.0


From 5aced63c41ea4e43c81f7e30edc01f90fa9ee647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:52 +0000
Subject: [PATCH 10/76] fix: compute a VCCS's power from its sensing nodes

---
 ahkab/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 5358a09..2e78c25 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -390,8 +390,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
-- 
2.43.0


From 70798349ff160121380e6677673fba12812c699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:55 +0000
Subject: [PATCH 11/76] fix: report the power of a CCCS sensing any branch
 current

---
 ahkab/results.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 2e78c25..83a2edf 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -406,16 +406,9 @@ class op_solution(solution, _mutable_data):
                 i_index = circ.find_vde_index(elem.part_id, verbose=0)
                 tot_power = tot_power - v*x[nv_1 + i_index, 0]
             elif isinstance(elem, components.sources.FISource):
-                local_i_index = 0
-                found_source = False
-                for e in circ:
-                    if circuit.is_elem_voltage_defined(e):
-                        if isinstance(e, components.sources.VSource) and e.part_id.lower() == elem.source_id.lower():
-                            found_source = True
-                            break
-                        else:
-                            local_i_index += 1
-                if not found_source:
+                try:
+                    local_i_index = circ.find_vde_index(elem.source_id)
+                except ValueError:
                     raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
                                        (elem.source_id, elem.part_id))
                 v = 0.
-- 
2.43.0


From 0bf77061101a62235add4635b044a3660cb786e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 12/76] fix: apply element initial conditions that are zero or
 across ground

---
 ahkab/dc_analysis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index c62aead..1e80ad1 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1172,13 +1172,17 @@ def modify_x0_for_ic(circ, x0):
 
     # setup voltages this may _not_ work properly
     for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+        if isinstance(elem, (components.Capacitor, diode.diode)) and \
+                elem.ic is not None:
+            if elem.n1:
+                v2 = x0[elem.n2 - 1, 0] if elem.n2 else 0.
+                x0[elem.n1 - 1, 0] = v2 + elem.ic
+            elif elem.n2:
+                x0[elem.n2 - 1, 0] = -elem.ic
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
-- 
2.43.0


From 8ee0e2ff9e4ca5201e3d06c4a28eb63dc2502eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:37 +0000
Subject: [PATCH 13/76] fix: restore the swept source when a DC sweep ends in
 an error

---
 ahkab/dc_analysis.py | 50 +++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 1e80ad1..25acf64 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -560,38 +560,36 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
-            source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
+    try:
+        for sweep_value in dc_iter:
+            index = index + 1
+            if isinstance(source_elem, components.sources.VSource):
+                source_elem.dc_value = sweep_value
             else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+                source_elem.dc_value = sweep_value
+            # silently calculate the op
+            x = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if x is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", start + index * step)
+                    solved = False
+                    break
+                else:
+                    print("Skipping sweep value:", start + index * step)
+                    continue
+            solved = True
+            sol.add_op(sweep_value, x)
+
+            tick.step()
+    finally:
+        # clean up
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From 4aa5bce6b04a5beb53befa5b4834ac8b3d4135d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:37 +0000
Subject: [PATCH 14/76] fix: a DC sweep with no solved point yields no result

---
 ahkab/dc_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 25acf64..ef32bf1 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -560,6 +560,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
+    solved = False
     try:
         for sweep_value in dc_iter:
             index = index + 1
-- 
2.43.0


From e60f42d8d486de5ec8375fc7da90abbb9d598657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:42 +0000
Subject: [PATCH 15/76] fix: do not clear a diode model's RS, or cache
 conductances without it, while solving

---
 ahkab/diode.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..014fd81 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -372,13 +372,8 @@ class diode_model(object):
         # obj fn derivative for newton
         # first term
         ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
+        # second term, with no RS
+        ret += self._get_gm(vext-x)*dev.AREA
         return ret
 
     def _safe_exp(self, x):
@@ -394,17 +389,20 @@ class diode_model(object):
         
         return k_inj*i_fwd+i_rec+i_rev
 
-    @utilities.memoize
-    def get_gm(self, op_index, ports_v, port_index, dev):
-        if dev.T != self.T:
-            self.set_temperature(dev.T)
-        v=ports_v[0]
-        gm = self.IS / (self.N * self.VT) *\
+    def _get_gm(self, v):
+        # junction conductance: no RS, no AREA
+        return self.IS / (self.N * self.VT) *\
             self._safe_exp(v / (self.N * self.VT)) +\
             -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
             self.ISR / (self.NR * self.VT) *\
             self._safe_exp(v / (self.NR * self.VT))
-        
+
+    @utilities.memoize
+    def get_gm(self, op_index, ports_v, port_index, dev):
+        if dev.T != self.T:
+            self.set_temperature(dev.T)
+        gm = self._get_gm(ports_v[0])
+
         if self.RS != 0.0:
             gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
         return dev.AREA * gm
-- 
2.43.0


From 8063fb3a2b74bfe3b0ac0d0fbf32035409272e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:41 +0000
Subject: [PATCH 16/76] fix: scale the current of a diode with series
 resistance by its area

---
 ahkab/diode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 014fd81..66b6e66 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -360,20 +360,20 @@ class diode_model(object):
             vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
             vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
                         args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
+            i = self._get_i(vext-vd) * dev.AREA
             dev.last_vd = vd
         return i
 
     def _obj_irs(self, x, vext, dev):
         # obj fn for newton
-        return x/self.RS-self._get_i(vext-x)*dev.AREA
+        return x/self.RS-self._get_i(vext-x)
 
     def _obj_irs_prime(self, x, vext, dev):
         # obj fn derivative for newton
         # first term
         ret = 1./self.RS
         # second term, with no RS
-        ret += self._get_gm(vext-x)*dev.AREA
+        ret += self._get_gm(vext-x)
         return ret
 
     def _safe_exp(self, x):
-- 
2.43.0


From 1ba283bb9058c5ffad302900e2da07327e0c45c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:41 +0000
Subject: [PATCH 17/76] fix: restore numpy print options when printing fails

---
 ahkab/printing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index e08f460..dcbd5e0 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -529,8 +529,10 @@ def printoptions(*args, **kwargs):
     """A context manager for ``numpy.set_printoptions``"""
     original = np.get_printoptions()
     np.set_printoptions(*args, **kwargs)
-    yield
-    np.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        np.set_printoptions(**original)
 
 locale = os.getenv('LANG')
 if not locale:
-- 
2.43.0


From e2a9c2d4b3fad985b3c7af48b10f3936419737d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:41 +0000
Subject: [PATCH 18/76] fix: add_model leaves the caller's parameters alone

---
 ahkab/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index eead870..fccee51 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -426,6 +426,7 @@ class Circuit(list):
 
         """
 
+        model_parameters = dict(model_parameters)
         if 'name' not in model_parameters:
             model_parameters.update({'name':model_label})
         if model_type == "ekv":
-- 
2.43.0


From 37956d4df81d256c576baed48f96d2fe2948320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 19/76] fix: diode evaluations no longer change the temperature
 of a shared model

---
 ahkab/diode.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 66b6e66..913ac6e 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -33,6 +33,8 @@ This module contains a diode element and its model class.
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
+
 from math import e as E, isinf, sqrt
 import numpy as np
 
@@ -351,19 +353,27 @@ class diode_model(object):
 
     @utilities.memoize
     def get_i(self, vext, dev):
-        if dev.T != self.T:
-            self.set_temperature(dev.T)
-        if not self.RS:
-            i = self._get_i(vext) * dev.AREA
+        model = self._at_temperature(dev.T)
+        if not model.RS:
+            i = model._get_i(vext) * dev.AREA
             dev.last_vd = vext
         else:
-            vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
+            vd = dev.last_vd if dev.last_vd is not None else 10*model.VT
+            vd = newton(model._obj_irs, vd, fprime=model._obj_irs_prime,
                         args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd) * dev.AREA
+            i = model._get_i(vext-vd) * dev.AREA
             dev.last_vd = vd
         return i
 
+    def _at_temperature(self, T):
+        # the model may be shared by devices at different temperatures: never
+        # update it in place
+        if T == self.T:
+            return self
+        model = copy.copy(self)
+        model.set_temperature(T)
+        return model
+
     def _obj_irs(self, x, vext, dev):
         # obj fn for newton
         return x/self.RS-self._get_i(vext-x)
@@ -399,12 +409,11 @@ class diode_model(object):
 
     @utilities.memoize
     def get_gm(self, op_index, ports_v, port_index, dev):
-        if dev.T != self.T:
-            self.set_temperature(dev.T)
-        gm = self._get_gm(ports_v[0])
+        model = self._at_temperature(dev.T)
+        gm = model._get_gm(ports_v[0])
 
-        if self.RS != 0.0:
-            gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
+        if model.RS != 0.0:
+            gm = 1. / (model.RS + 1. / (gm + 1e-3*options.gmin))
         return dev.AREA * gm
 
     def __str__(self):
-- 
2.43.0


From f0c6bb809c8484682f6897fa7213204aed4988ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 20/76] fix: cached device evaluations do not survive a change
 of the model, the device or the options

---
 ahkab/utilities.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..626836a 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -719,10 +719,14 @@ def memoize(f):
     class memodict(collections.OrderedDict):
         __slots__ = ()
         @wraps(f)
-        def __getitem__(self, *key):
-            return dict.__getitem__(self, key)
-        def __missing__(self, key):
-            ret = self[key] = f(*key)
+        def __getitem__(self, *args):
+            # the models and the devices are mutable and the options may be
+            # changed between two evaluations: their state is part of the key.
+            key = args + tuple(_get_state(arg) for arg in args) + \
+                  (options.gmin, options.iea, options.vea)
+            if key in self:
+                return dict.__getitem__(self, key)
+            ret = self[key] = f(*args)
             # set options.cache_len to None to disable any size limit.
             if options.cache_len is not None and len(self) > options.cache_len:
                 self.popitem() #FIFO pop
@@ -730,3 +734,19 @@ def memoize(f):
     return memodict().__getitem__
 
 
+def _get_state(obj):
+    """The attributes of a model or device in hashable form, for :func:`memoize`.
+
+    The starting point of the iterative evaluations, ``last_vd``, is not
+    included: it does not define the result.
+    """
+    state = []
+    for k, v in getattr(obj, '__dict__', {}).items():
+        if k == 'last_vd':
+            continue
+        if isinstance(v, np.ndarray):
+            v = v.tobytes()
+        elif isinstance(v, list):
+            v = tuple(v)
+        state.append((k, v))
+    return tuple(state)
-- 
2.43.0


From f9d4fb910ce2de16cbb7ce68fa9cf286eaae8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:16 +0000
Subject: [PATCH 21/76] fix: diode conductance is the derivative of the current
 with IKF, NBV and BV

---
 ahkab/diode.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 913ac6e..c7fde7e 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -401,11 +401,18 @@ class diode_model(object):
 
     def _get_gm(self, v):
         # junction conductance: no RS, no AREA
-        return self.IS / (self.N * self.VT) *\
-            self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
-            self.ISR / (self.NR * self.VT) *\
+        i_fwd = self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
+        g_fwd = self.IS / (self.N * self.VT) * \
+            self._safe_exp(v / (self.N * self.VT))
+        g_rec = self.ISR / (self.NR * self.VT) * \
             self._safe_exp(v / (self.NR * self.VT))
+        g_rev = self.IS / (self.NBV * self.VT) * \
+            self._safe_exp(-(v+self.BV) / (self.NBV * self.VT))
+        if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
+            g_fwd *= sqrt(self.IKF/(self.IKF+i_fwd)) * \
+                (1 - .5*i_fwd/(self.IKF+i_fwd))
+
+        return g_fwd + g_rec + g_rev
 
     @utilities.memoize
     def get_gm(self, op_index, ports_v, port_index, dev):
-- 
2.43.0


From 7415b222dae8e9942b4f77559a65c57bc671e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:04 +0000
Subject: [PATCH 22/76] fix: mosq conductances are the derivatives of the drain
 current

---
 ahkab/mosq.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 06c2d62..1947f16 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -689,24 +689,19 @@ class mosq_mos_model(object):
         vsqrt2 = max(2*self.PHI, 0.)
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
-        gmb = 0
+        # -dVT/d(VB-VS)
+        dvt = self.GAMMA / (2 * vsqrt1**.5) if vsqrt1 > 0 else 0.
         if vgs < VT:
-            pass # gmb = 0
+            gmb = options.iea * (vgs + vds) / VT**2 / 100 * dvt
         else:
-            if vds < vgs - VT:
-                if vsqrt1 > 0:
-                    gmb = self.KP * self.GAMMA * vds * device.W / \
-                          (2 * device.L * vsqrt1 ** .5)
+            if vds < vgs - VT -0.5*self.LAMBDA*(VT - vgs)**2:
+                gmb = self.KP * device.W / device.L * vds * dvt
             else:
-                if vsqrt1 > 0:
-                    gmb += -0.25*self.KP*self.GAMMA*self.LAMBDA*device.W * (vsqrt1 > 0) * \
-                           (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 / \
-                           (device.L * vsqrt1**.5)
-                    gmb += +0.5*self.KP*self.GAMMA*device.W*(self.LAMBDA* \
-                            (self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                            (-self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) \
-                            + vgs - self.VTO) / (device.L * vsqrt1**.5)
-        gmb = self.NPMOS * (1 + skp) * gmb * device.M / device.N
+                gmb = self.KP * device.W / device.L * (vgs - VT) * \
+                      (1 + self.LAMBDA * (vds - 1.5*(vgs - VT) +
+                       0.5*self.LAMBDA*(VT - vgs)**2)) * dvt
+            gmb = (1 + skp) * gmb
+        gmb = gmb * device.M / device.N
         if debug:
             print("gmb %g" % gmb)
         return gmb
@@ -750,7 +745,8 @@ class mosq_mos_model(object):
             else:
                 gmd = 0.5 * self.KP * self.LAMBDA * device.W / device.L * \
                       (vgs - VT)**2
-        gmd = (1 + skp) * gmd * device.M / device.N
+            gmd = (1 + skp) * gmd
+        gmd = gmd * device.M / device.N
         if debug:
             print("gmd %g" % gmd)
         return gmd
@@ -791,13 +787,14 @@ class mosq_mos_model(object):
         if vgs < VT:
             gm = options.iea / VT / 100
         else:
-            if vds < vgs - VT:
+            if vds < vgs - VT -0.5*self.LAMBDA*(VT - vgs)**2:
                 gm = self.KP * device.W / device.L * vds
             else:
-                gm = -0.5*self.KP*self.LAMBDA * device.W/device.L * (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 \
-                     +0.5*self.KP * device.W/device.L *(self.LAMBDA*( self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                     (-2 * self.GAMMA * (-vsqrt2**.5 + vsqrt1**.5) + 2*vgs - 2*self.VTO)
-        gm = (1 + skp) * gm * device.M / device.N
+                gm = self.KP * device.W / device.L * (vgs - VT) * \
+                     (1 + self.LAMBDA * (vds - 1.5*(vgs - VT) +
+                      0.5*self.LAMBDA*(VT - vgs)**2))
+            gm = (1 + skp) * gm
+        gm = gm * device.M / device.N
         if debug:
             print("gmg %g" % gm)
         return gm
-- 
2.43.0


From 96a61b78a973d33cb7b0fc2ce8e6c7b7b2113f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:27 +0000
Subject: [PATCH 23/76] fix: switch transconductance is proportional to the
 voltage across the switch

---
 ahkab/switch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..06524de 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -394,7 +394,7 @@ class vswitch_model:
         """Returns the source to output transconductance or d(I)/d(Vsn1-Vsn2)."""
         (vout, vin) = xxx_todo_changeme2
         self._update_status(vin, dev)
-        gm = self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
+        gm = vout * self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
             self.A * math.tanh(self.SLOPE * (self.V - vin)) - self.B) ** 2
         return gm + options.gmin
 
-- 
2.43.0


From 5cca6d687088ac96bebe3844208d59abf736adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 24/76] fix: the starting guess of a diode or tunnel junction
 with an initial condition is a list

---
 ahkab/components/TunnelJunction.py | 2 +-
 ahkab/diode.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/components/TunnelJunction.py b/ahkab/components/TunnelJunction.py
index eec5268..8e50bc1 100644
--- a/ahkab/components/TunnelJunction.py
+++ b/ahkab/components/TunnelJunction.py
@@ -55,7 +55,7 @@ class TunnelJunction(Component):
 
         if self.ic is not None:  # fixme
             print("(W): ic support in tunnel junctions is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
 
     def i(self, op_index, ports_v, time=0):  # with gmin added
         '''It returns the current flowing into the element if the voltages specified in the voltages_vector are applied to its ports, at the time given.'''
diff --git a/ahkab/diode.py b/ahkab/diode.py
index c7fde7e..57beab6 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -94,7 +94,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             print("(W): ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From 21340ba88e4968e5ab749b777273b4732844e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 25/76] fix: a shorted port does not shift the starting guesses
 of the following ports

---
 ahkab/dc_guess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ahkab/dc_guess.py b/ahkab/dc_guess.py
index e300003..947217e 100644
--- a/ahkab/dc_guess.py
+++ b/ahkab/dc_guess.py
@@ -92,8 +92,7 @@ def get_dc_guess(circ, verbose=3):
             if not one_element_with_dc_guess_found:
                 one_element_with_dc_guess_found = True
             if elem.is_nonlinear:
-                port_index = 0
-                for (n1, n2) in elem.ports:
+                for port_index, (n1, n2) in enumerate(elem.ports):
                     if n1 == n2:
                         continue
                     if index:
@@ -104,7 +103,6 @@ def get_dc_guess(circ, verbose=3):
                     M[index, n1] = +1
                     M[index, n2] = -1
                     T[index] = elem.dc_guess[port_index]
-                    port_index = port_index + 1
                     index = index + 1
             else:
                 if elem.n1 == elem.n2:
-- 
2.43.0


From 84bf7ec3ee48e14f66eb04cb8fde23d9c852b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 26/76] fix: source and gmin stepping end at the circuit that
 was asked for

---
 ahkab/dc_analysis.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index ef32bf1..ea7f413 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -262,10 +262,15 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         elif gmin_stepping["enabled"]:
             # print "gmin index:", str(gmin_stepping["index"])+", gmin:", str(
             # 10**(gmin_stepping["factors"][gmin_stepping["index"]]))
-            printing.print_info_line(
-                ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
-            mna_to_pass = build_gmin_matrix(
-                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+            if gmin_stepping["index"] < len(gmin_stepping["factors"]):
+                gmin_value = 10 ** gmin_stepping["factors"][gmin_stepping["index"]]
+                printing.print_info_line(
+                    ("Setting Gmin to: " + str(gmin_value), 6), verbose)
+                mna_to_pass = build_gmin_matrix(
+                    circ, gmin_value, mna_size, verbose) + mna
+            else:
+                # the last step is the circuit we were asked to solve
+                mna_to_pass = mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif source_stepping["enabled"]:
             printing.print_info_line(
@@ -309,10 +314,12 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            if (source_stepping["enabled"] and
+                source_stepping["index"] != len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif (gmin_stepping["enabled"] and
+                  gmin_stepping["index"] != len(gmin_stepping["factors"])):
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -449,12 +456,12 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
+    g_indices = list(range(int(np.log10(options.gmin)), 0))
     g_indices.reverse()
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From 29bf883c3a3787d60bffa45bdb08e63aa2603819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 27/76] fix: do not damp the only step taken on a linear
 circuit

---
 ahkab/dc_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index ea7f413..f2dc775 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -826,11 +826,13 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
+            # one full step solves a linear circuit: no damping
+            x = x + dx
             converged = True
             break
-        elif convergence_check(x, dx, residuo, nv - 1)[0]:
+        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From 46ec59564b0d401c452cc25a8a80689a56f89792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 28/76] fix: do not solve the last step of a failed strategy
 again and report it

---
 ahkab/dc_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index f2dc775..7bad1bc 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -303,10 +303,10 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             if n_iter == MAXIT - 1:
                 printing.print_general_error(
                     "Error: MAXIT exceeded (" + str(MAXIT) + ")")
-            if more_solve_methods_available(standard_solving, gmin_stepping, source_stepping):
-                standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
-                    standard_solving, gmin_stepping, source_stepping, verbose)
-            else:
+            # the current method has failed: mark it before looking for another
+            standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
+                standard_solving, gmin_stepping, source_stepping, verbose)
+            if not more_solve_methods_available(standard_solving, gmin_stepping, source_stepping):
                 # print "Giving up."
                 x = None
                 error = None
-- 
2.43.0


From e05a06901a1b204d4ae15e73f3b2a87303484a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 29/76] fix: shooting judges branch currents with the current
 tolerances

---
 ahkab/shooting.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..df984ba 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -217,8 +217,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
             x[index] = td*dx[index] + x[index]
         dx.append(dxN)
 
-        if (_vector_norm_wrapper(dx, vector_norm) < min(options.ver, options.ier) *
-                _vector_norm_wrapper(x, vector_norm) + min(options.vea, options.iea)):
+        if _convergence_check(dx, x, circ.get_nodes_number() - 1, vector_norm):
             # and (dc_analysis.vector_norm(residuo) <
             # options.er*dc_analysis.vector_norm(x) + options.ea):
             if conv_counter == 3:
@@ -260,6 +259,18 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
     return sol
 
 
+def _convergence_check(dx, x, nv_1, vector_norm):
+    """Voltages are judged with the voltage tolerances, currents with theirs"""
+    for group, er, ea in ((slice(None, nv_1), options.ver, options.vea),
+                          (slice(nv_1, None), options.ier, options.iea)):
+        if not len(x[0][group]):
+            continue
+        if not (_vector_norm_wrapper([dxi[group] for dxi in dx], vector_norm) <
+                er * _vector_norm_wrapper([xi[group] for xi in x], vector_norm) + ea):
+            return False
+    return True
+
+
 def _vector_norm_wrapper(vector, norm_fun):
     _max = 0
     for elem in vector:
-- 
2.43.0


From 4f16123c05d246da3c833d94d339b770b679fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 30/76] fix: malformed netlists are reported as parse errors

---
 ahkab/ekv.py            |   4 +-
 ahkab/mosq.py           |   2 +-
 ahkab/netlist_parser.py | 159 ++++++++++++++++++++++++----------------
 3 files changed, 99 insertions(+), 66 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..8cea46b 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -168,7 +168,7 @@ class ekv_device:
 
         devcheck, reason = self.ekv_model._device_check(self.device)
         if not devcheck:
-            raise Exception(reason + " out of boundaries.")
+            raise ValueError(reason + " out of boundaries.")
 
     def get_drive_ports(self, op):
         """Returns a tuple of tuples of ports nodes, as:
@@ -439,7 +439,7 @@ class ekv_mos_model:
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
 
     def set_device_temperature(self, T):
         """Change the temperature of the device.
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 1947f16..0d611a1 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -502,7 +502,7 @@ class mosq_mos_model(object):
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
         self.T1 = np.array(((0, 0, 1, 0),
                             (0, 1, 0, 0),
                             (1, 0, 0, 0),
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..06c937b 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -178,6 +178,7 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
     current_subckt_temp = []
     within_subckt = False
     line_n = 0
+    line = ""
 
     try:
         while ffile is not None:
@@ -243,14 +244,8 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
             ffile = get_next_file_and_close_current(file_list, file_index)
             # print file_list
 
-    except NetlistParseError as npe:
-        (msg,) = npe.args
-        if len(msg):
-            printing.print_general_error(msg)
-        printing.print_parse_error(line_n, line)
-        # if not read_netlist_from_stdin:
-            # ffile.close()
-        raise NetlistParseError(msg)
+    except _MALFORMED as error:
+        _parse_error(error, line_n, line)
 
     # if not read_netlist_from_stdin:
         # ffile.close()
@@ -263,7 +258,10 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
     # instantiated in the netlist file.
     subckts_dict = {}
     for subckt_temp in subckts_list_temp:
-        subckt_obj = parse_sub_declaration(subckt_temp)
+        try:
+            subckt_obj = parse_sub_declaration(subckt_temp)
+        except _MALFORMED as error:
+            _parse_error(error, subckt_temp[0][1], subckt_temp[0][0])
         if subckt_obj.name not in subckts_dict:
             subckts_dict.update({subckt_obj.name: subckt_obj})
         else:
@@ -300,18 +298,13 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
             # appropriate parsing function
             # we always use normal convention V opposite to I
             # n1 is +, n2 is -, current flows from + to -
-            try:
-                elements += parse_function[line[0]](line)
-            except KeyError:
+            if line[0] not in parse_function:
                 raise NetlistParseError("Parser: do not know how to parse" +
                                         " '%s' elements." % line[0])
+            elements += parse_function[line[0]](line)
     #   Handle errors from individual parse functions
-    except NetlistParseError as npe:
-        (msg,) = npe.args
-        if len(msg):
-            printing.print_general_error(msg)
-        printing.print_parse_error(line_n, line)
-        raise NetlistParseError(msg)
+    except _MALFORMED as error:
+        _parse_error(error, line_n, line)
 
     return elements
 
@@ -330,42 +323,63 @@ def get_next_file_and_close_current(file_list, file_index):
 def parse_models(models_lines):
     models = {}
     for line, line_n in models_lines:
-        tokens = line.replace("(", "").replace(")", "").split()
-        if len(tokens) < 3:
-            raise NetlistParseError("parse_models(): syntax error in model" +
-                                    " declaration on line " + str(line_n) +
-                                    ".\n\t" + line)
-        model_label = tokens[2]
-        model_type = tokens[1]
-        model_parameters = {}
-        for index in range(3, len(tokens)):
-            if tokens[index][0] == "*":
-                break
-            (label, value) = parse_param_value_from_string(tokens[index])
-            model_parameters.update({label.upper(): value})
-        if model_type == "ekv":
-            model_iter = ekv.ekv_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "mosq":
-            model_iter = mosq.mosq_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "diode" or model_type == 'd':
-            model_parameters.update({'name': model_label})
-            model_iter = diode.diode_model(**model_parameters)
-        elif model_type == "sw":
-            model_parameters.update({'name': model_label})
-            model_iter = switch.vswitch_model(**model_parameters)
-        # elif model_type == "csw":
-        #   model_parameters.update({'name':model_label})
-        #   model_iter = switch.iswitch_model(**model_parameters)
-        else:
-            raise NetlistParseError("parse_models(): Unknown model (" +
-                                    model_type + ") on line " + str(line_n) +
-                                    ".\n\t" + line,)
-        models.update({model_label: model_iter})
+        try:
+            models.update(parse_model(line, line_n))
+        except _MALFORMED as error:
+            _parse_error(error, line_n, line)
     return models
 
 
+def parse_model(line, line_n):
+    """Parses a model declaration.
+
+    **Parameters:**
+
+    line : string
+        The netlist line.
+    line_n : int
+        Its number, for the error messages.
+
+    **Returns:**
+
+    model : dict
+        A one-element dictionary: the model, under its label.
+    """
+    tokens = line.replace("(", "").replace(")", "").split()
+    if len(tokens) < 3:
+        raise NetlistParseError("parse_models(): syntax error in model" +
+                                " declaration on line " + str(line_n) +
+                                ".\n\t" + line)
+    model_label = tokens[2]
+    model_type = tokens[1]
+    model_parameters = {}
+    for index in range(3, len(tokens)):
+        if tokens[index][0] == "*":
+            break
+        (label, value) = parse_param_value_from_string(tokens[index])
+        model_parameters.update({label.upper(): value})
+    if model_type == "ekv":
+        model_iter = ekv.ekv_mos_model(**model_parameters)
+        model_iter.name = model_label
+    elif model_type == "mosq":
+        model_iter = mosq.mosq_mos_model(**model_parameters)
+        model_iter.name = model_label
+    elif model_type == "diode" or model_type == 'd':
+        model_parameters.update({'name': model_label})
+        model_iter = diode.diode_model(**model_parameters)
+    elif model_type == "sw":
+        model_parameters.update({'name': model_label})
+        model_iter = switch.vswitch_model(**model_parameters)
+    # elif model_type == "csw":
+    #   model_parameters.update({'name':model_label})
+    #   model_iter = switch.iswitch_model(**model_parameters)
+    else:
+        raise NetlistParseError("parse_models(): Unknown model (" +
+                                model_type + ") on line " + str(line_n) +
+                                ".\n\t" + line,)
+    return {model_label: model_iter}
+
+
 def parse_elem_resistor(line, circ):
     """Parses a resistor from the line supplied, adds its nodes to the circuit
     instance circ and returns a list holding the resistor element.
@@ -1212,7 +1226,8 @@ def parse_time_function(ftype, line_elements, stype):
         assigned = False
         for t in prot_params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                fun_params.update({t['dest']: convert(value, t['type'])})
+                fun_params.update({t['dest']: convert(value, t['type'],
+                                        raise_exception=True)})
                 assigned = True
                 break
         if assigned:
@@ -1380,7 +1395,8 @@ def parse_postproc(circ, postproc_direc):
                     assigned = False
                     for t in params:
                         if (label is None and t['pos'] == i) or label == t['label']:
-                            fpv.update({t['dest']: convert(value, t['type'])})
+                            fpv.update({t['dest']: convert(value, t['type'],
+                                        raise_exception=True)})
                             assigned = True
                             break
                     if assigned:
@@ -1406,12 +1422,8 @@ def parse_postproc(circ, postproc_direc):
             else:
                 raise NetlistParseError("Unknown postproc directive %s." %
                                         line_elements[0])
-        except NetlistParseError as npe:
-            (msg,) = npe.args
-            if len(msg):
-                printing.print_general_error(msg)
-            printing.print_parse_error(line_n, line)
-            raise NetlistParseError(msg)
+        except _MALFORMED as error:
+            _parse_error(error, line_n, line)
     return postproc_list
 
 
@@ -1421,7 +1433,10 @@ def parse_ics(directives):
         if line[0] != '.':
             continue
         if line[:3] == '.ic':
-            ics += [parse_ic_directive(line)]
+            try:
+                ics += [parse_ic_directive(line)]
+            except _MALFORMED as error:
+                _parse_error(error, line_n, line)
     return ics
 
 
@@ -1445,8 +1460,10 @@ def parse_analysis(circ, directives):
     for line, line_n in directives:
         if line[0] != '.' or line[:3] == '.ic':
             continue
-        line_elements = line.split()
-        an += [parse_single_analysis(line)]
+        try:
+            an += [parse_single_analysis(line)]
+        except _MALFORMED as error:
+            _parse_error(error, line_n, line)
     return an
 
 
@@ -1500,7 +1517,8 @@ def parse_single_analysis(line):
         assigned = False
         for t in params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                an.update({t['dest']: convert(value, t['type'])})
+                an.update({t['dest']: convert(value, t['type'],
+                                        raise_exception=True)})
                 assigned = True
                 break
         if assigned:
@@ -1649,6 +1667,21 @@ class NetlistParseError(Exception):
     pass
 
 
+# What parsing malformed text may run into: a missing field, a value that is
+# not a number, an unknown parameter, a file that cannot be included, ...
+_MALFORMED = (NetlistParseError, ValueError, LookupError, TypeError,
+              AttributeError, ArithmeticError, RuntimeError, EnvironmentError)
+
+
+def _parse_error(error, line_n, line):
+    """Report the error and the line and raise it as a NetlistParseError."""
+    msg = str(error)
+    if len(msg):
+        printing.print_general_error(msg)
+    printing.print_parse_error(line_n, line)
+    raise NetlistParseError(msg)
+
+
 def convert_boolean(value):
     """Converts the following strings to a boolean:
     yes, 1, true to True
-- 
2.43.0


From f0a923481544a1c83f16f6db6e094bce11c12696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 31/76] fix: diode lines in a netlist: T reaches the device and
 OFF is accepted

---
 ahkab/netlist_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 06c937b..ef27b98 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -762,15 +762,15 @@ def parse_elem_diode(line, circ, models=None):
     for index in range(4, len(line_elements)):
         if line_elements[index][0] == '*':
             break
-        param, value = parse_param_value_from_string(line_elements[index])
+        param, value = parse_param_value_from_string(line_elements[index],
+                                                     rtype=str)
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
             if not len(value):
                 off = True
@@ -787,7 +787,7 @@ def parse_elem_diode(line, circ, models=None):
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
-- 
2.43.0


From 064a383a0c6db5f32d469cc34ef40dac81da3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 32/76] fix: Circuit.add_switch passes its initial condition to
 the switch

---
 ahkab/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index fccee51..259f214 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -967,7 +967,7 @@ class Circuit(list):
             raise ModelError("Unknown switch model id: " + model_label)
 
         elem = switch.switch_device(part_id=part_id, n1=n1, n2=n2, sn1=sn1,
-                                    sn2=sn2, model=models[model_label])
+                                    sn2=sn2, model=models[model_label], ic=ic)
 
         self.append(elem)
 
-- 
2.43.0


From f3f787cf3f236438537b38e850adc53041986f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 33/76] fix: .FFT START and STOP are not swapped

---
 ahkab/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 3740f30..aa31bd5 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -53,7 +53,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'stop',
+                          'dest':'start',
                           'default':None
                          },
                          {
@@ -61,7 +61,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'start',
+                          'dest':'stop',
                           'default':None
                          },
                          {
-- 
2.43.0


From 082e0582ea71dfaef8b5bd7afc9c86983f31fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 34/76] fix: Fourier post-processing uses integer counts and
 slices

---
 ahkab/fourier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index aa31bd5..3729634 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -202,11 +202,11 @@ def fourier(label, tran_results, fund):
     stop = tran_results.tstop
     # 10 points, remember?
     sampling = 1./(2*10*fund)
-    t = np.linspace(start, stop, (stop-start)//sampling, endpoint=False)
+    t = np.linspace(start, stop, int((stop-start)//sampling), endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(), data, k=2)
     f = fft.fftfreq(len(t), sampling)[::nperiods]
     F = fft.rfft(idata(t))[:-1:nperiods]
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     THD = np.sqrt(sum(abs(F[2:])**2))/abs(F[1])
     return f, F, THD
 
@@ -388,7 +388,7 @@ def spicefft(label, tran_results, freq=None, **args):
         # of periods
         start = stop - nperiods/freq
         sampling = 1./(2*freq*nperiods)
-        t = np.linspace(start, stop, ((stop-start)//sampling + 1),
+        t = np.linspace(start, stop, int((stop-start)//sampling + 1),
                         endpoint=False)
     else:
         sampling = (stop-start)/np2
@@ -404,7 +404,7 @@ def spicefft(label, tran_results, freq=None, **args):
               options.GAUSS_WINDOW: lambda x: gaussian(x, std=alpha),
               options.KAISER_WINDOW: lambda x: kaiser(x, beta=alpha)}
     f = fft.fftfreq(len(t), sampling)
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     F = fft.rfft(idata(t)*window[window_type](len(t)))[:-1]
     if freq:
         # downsample
-- 
2.43.0


From 6b0b8af8922ec884c4bc1711e048367f18610c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 35/76] fix: .FFT uses the documented default of 1024 points

---
 ahkab/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 3729634..48f7c93 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -86,7 +86,7 @@ specs = {'fft':{'tokens':({
                           'type':float,
                           'needed':False,
                           'dest':'np',
-                          'default':0
+                          'default':1024
                          },
                          {
                           'label':'format',
-- 
2.43.0


From 904cc1a9de1b956aaa924cd0a7c30dcb9807114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 36/76] fix: .FOUR uses a whole number of periods as a slice
 step

---
 ahkab/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 48f7c93..053fa07 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -194,7 +194,7 @@ def fourier(label, tran_results, fund):
             label = '%s - %s' % (label[0], label[1])
     ps = []
     for i in range(1, 10, 2):
-        ps += [(tran_results.tstop - tran_results.tstart) // (i/fund)]
+        ps += [int((tran_results.tstop - tran_results.tstart) // (i/fund))]
     ps = [i for i in ps if i > 0]
     nperiods = ps[int(np.ceil(len(ps)-1))]
     # setup start & stop accordingly
-- 
2.43.0


From 13c3e67e109a6d04c5086c4e528e9c19b323ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 37/76] fix: Fourier post-processing samples a whole number of
 periods

---
 ahkab/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 053fa07..41d7239 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -202,7 +202,7 @@ def fourier(label, tran_results, fund):
     stop = tran_results.tstop
     # 10 points, remember?
     sampling = 1./(2*10*fund)
-    t = np.linspace(start, stop, int((stop-start)//sampling), endpoint=False)
+    t = np.linspace(start, stop, int(round((stop-start)/sampling)), endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(), data, k=2)
     f = fft.fftfreq(len(t), sampling)[::nperiods]
     F = fft.rfft(idata(t))[:-1:nperiods]
@@ -388,7 +388,7 @@ def spicefft(label, tran_results, freq=None, **args):
         # of periods
         start = stop - nperiods/freq
         sampling = 1./(2*freq*nperiods)
-        t = np.linspace(start, stop, int((stop-start)//sampling + 1),
+        t = np.linspace(start, stop, int(round((stop-start)/sampling)),
                         endpoint=False)
     else:
         sampling = (stop-start)/np2
-- 
2.43.0


From cb13c7487e991d41a8ce2937b89c88b8863dafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 38/76] fix: time functions take every documented field and
 default

---
 ahkab/netlist_parser.py | 48 +++++++++++++++++++++++++----------------
 ahkab/time_functions.py | 14 +++++++++---
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index ef27b98..f9dc926 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -595,23 +595,21 @@ def parse_elem_vsource(line, circ):
             elif value == 'exp':
                 param_number = 6
             elif value == 'sin':
-                param_number = 5
+                param_number = 6
             elif value == 'sffm':
-                param_number = 5
+                param_number = 6
             elif value == 'am':
                 param_number = 5
             else:
                 raise NetlistParseError("parse_elem_vsource(): unknown signal" +
                                         "type %s" % value)
             if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number
-                                                             + 1],
-                                               "voltage")
-                index = index + param_number
+                fields = _get_time_function_fields(
+                    line_elements[index + 1:index + param_number + 1])
+                function = parse_time_function(value, fields, "voltage")
+                index = index + len(fields)
                 # continue
-            elif function is not None:
+            elif param_number:
                 raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
         elif label == 'vdc':
             dc_value = convert_units(value)
@@ -667,7 +665,7 @@ def parse_elem_isource(line, circ):
 
     index = 3
     while True:  # for index in range(3, len(line_elements)):
-        if index == len(line_elements):
+        if index >= len(line_elements):
             break
         if line_elements[index][0] == '*':
             break
@@ -684,20 +682,19 @@ def parse_elem_isource(line, circ):
             elif value == 'exp':
                 param_number = 6
             elif value == 'sin':
-                param_number = 5
+                param_number = 6
             elif value == 'sffm':
-                param_number = 5
+                param_number = 6
             elif value == 'am':
                 param_number = 5
             else:
                 raise NetlistParseError("parse_elem_isource(): unknown signal type.")
             if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number + 1],
-                                               "current")
-                index = index + param_number
-            elif function is not None:
+                fields = _get_time_function_fields(
+                    line_elements[index + 1:index + param_number + 1])
+                function = parse_time_function(value, fields, "current")
+                index = index + len(fields)
+            elif param_number:
                 raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
         elif label == 'idc':
             dc_value = convert_units(value)
@@ -1188,6 +1185,18 @@ def parse_elem_user_defined(line, circ):
     return [elem]
 
 
+def _get_time_function_fields(line_elements):
+    """The leading fields that belong to a time function: they end at a comment
+    or at the DC and AC parts of the source."""
+    fields = []
+    for token in line_elements:
+        if token[0] == '*' or \
+           token.split('=')[0] in ('type', 'vdc', 'vac', 'idc', 'iac'):
+            break
+        fields += [token]
+    return fields
+
+
 def parse_time_function(ftype, line_elements, stype):
     """Parses a time function of type ftype from the line_elements supplied.
 
@@ -1221,6 +1230,9 @@ def parse_time_function(ftype, line_elements, stype):
             break
         if is_valid_value_param_string(token):
             (label, value) = token.split('=')
+            if stype.lower() == "current" and label in ('io', 'ia', 'i1', 'i2'):
+                # the fields of a current waveform are named after currents
+                label = 'v' + label[1:]
         else:
             label, value = None, token
         assigned = False
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bd53e69..50fec3b 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -153,7 +153,7 @@ import math
 
 from scipy.interpolate import InterpolatedUnivariateSpline
 
-time_fun_specs = {'sin': { #VO VA FREQ TD THETA
+time_fun_specs = {'sin': { #VO VA FREQ TD THETA PHASE
     'tokens': ({
                'label': 'vo',
                'pos': 0,
@@ -193,6 +193,14 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'needed': False,
                'dest': 'theta',
                'default': 0
+               },
+               {
+               'label': 'phase',
+               'pos': 5,
+               'type': float,
+               'needed': False,
+               'dest': 'phi',
+               'default': 0.
                }
                )
         },'exp': { #EXP(V1 V2 TD1 TAU1 TD2 TAU2)
@@ -323,7 +331,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'label': 'fc',
                'pos': 2,
                'type': float,
-               'needed': False,
+               'needed': True,
                'dest': 'fc',
                'default': None
                },
@@ -390,7 +398,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'type': float,
                'needed': False,
                'dest': 'td',
-               'default': None
+               'default': 0.
                })
         }
 }
-- 
2.43.0


From 8e7a50919b6301b2475d5b24fafc1559536b6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 39/76] fix: calculate_poles uses its arguments and returns the
 solution

---
 ahkab/pz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 92a85ed..7aa5da9 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -129,8 +129,9 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     pz_sol : pz_solution instance
         The PZ solution, with no zeros.
     """
-    return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+    return calculate_singularities(mc, input_source=None, output_port=None,
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
-- 
2.43.0


From 1f5d504cff8c41aeb5edc9e608225746cbd3cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 40/76] fix: .PSS does not require the optional points field

---
 ahkab/pss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/pss.py b/ahkab/pss.py
index 96b4f65..ae62cb8 100644
--- a/ahkab/pss.py
+++ b/ahkab/pss.py
@@ -45,7 +45,7 @@ specs = {'pss': {'tokens': ({
                             'label': 'points',
                             'pos': None,
                             'type': float,
-                            'needed': True,
+                            'needed': False,
                             'dest': 'points',
                             'default': None
                             },
@@ -63,7 +63,7 @@ specs = {'pss': {'tokens': ({
                             'type': bool,
                             'needed': False,
                             'dest': 'autonomous',
-                            'default': '0'
+                            'default': False
                             },
                  {
                             'label': 'method',
-- 
2.43.0


From 9a2ef2c6d33cc3e56c9351d94a197a0fc9b4fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 41/76] fix: independent sources print the keywords the netlist
 parser reads, AC phase included

---
 ahkab/components/sources/ISource.py | 14 ++++++++------
 ahkab/components/sources/VSource.py | 14 ++++++++------
 ahkab/netlist_parser.py             | 22 +++++++++++++++++++++-
 doc/help/Netlist-Syntax.rst         |  6 +++---
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/ahkab/components/sources/ISource.py b/ahkab/components/sources/ISource.py
index 8bcffed..848410a 100644
--- a/ahkab/components/sources/ISource.py
+++ b/ahkab/components/sources/ISource.py
@@ -61,10 +61,11 @@ class ISource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            rep = rep + "type=iac iac=" + str(self.abs_ac) + " "
+            if self.arg_ac:
+                rep = rep + "arg=" + str(self.arg_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -116,10 +117,11 @@ class ISource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            rep = rep + "type=iac iac=" + str(self.abs_ac) + " "
+            if self.arg_ac:
+                rep = rep + "arg=" + str(self.arg_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/components/sources/VSource.py b/ahkab/components/sources/VSource.py
index 70e5cc2..63a0e59 100644
--- a/ahkab/components/sources/VSource.py
+++ b/ahkab/components/sources/VSource.py
@@ -64,10 +64,11 @@ class VSource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            rep = rep + "type=vac vac=" + str(self.abs_ac) + " "
+            if self.arg_ac:
+                rep = rep + "arg=" + str(self.arg_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -115,10 +116,11 @@ class VSource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            rep = rep + "type=vac vac=" + str(self.abs_ac) + " "
+            if self.arg_ac:
+                rep = rep + "arg=" + str(self.arg_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index f9dc926..3d9f499 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -106,6 +106,7 @@ from __future__ import (unicode_literals, absolute_import,
 import sys
 import imp
 import math
+import cmath
 import copy
 import os
 
@@ -574,6 +575,7 @@ def parse_elem_vsource(line, circ):
 
     dc_value = None
     vac = None
+    arg = None
     function = None
 
     index = 3
@@ -615,6 +617,8 @@ def parse_elem_vsource(line, circ):
             dc_value = convert_units(value)
         elif label == 'vac':
             vac = convert_units(value)
+        elif label == 'arg':
+            arg = convert_units(value)
         else:
             raise NetlistParseError("parse_elem_vsource(): unknown type %s" %
                                     label)
@@ -624,6 +628,12 @@ def parse_elem_vsource(line, circ):
         raise NetlistParseError("parse_elem_vsource(): neither vdc nor a time function are defined.")
 
     # usual
+    # the phase of the AC component, in radians
+    if arg is not None:
+        if vac is None:
+            raise NetlistParseError("parse_elem_vsource(): arg requires vac.")
+        vac = vac*cmath.exp(1j*arg)
+
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
     n1 = circ.add_node(ext_n1)
@@ -661,6 +671,7 @@ def parse_elem_isource(line, circ):
 
     dc_value = None
     iac = None
+    arg = None
     function = None
 
     index = 3
@@ -700,6 +711,8 @@ def parse_elem_isource(line, circ):
             dc_value = convert_units(value)
         elif label == 'iac':
             iac = convert_units(value)
+        elif label == 'arg':
+            arg = convert_units(value)
         else:
             raise NetlistParseError("parse_elem_isource(): unknown type "+label)
         index = index + 1
@@ -707,6 +720,12 @@ def parse_elem_isource(line, circ):
     if dc_value == None and function == None:
         raise NetlistParseError("parse_elem_isource(): neither idc nor a time function are defined.")
 
+    # the phase of the AC component, in radians
+    if arg is not None:
+        if iac is None:
+            raise NetlistParseError("parse_elem_isource(): arg requires iac.")
+        iac = iac*cmath.exp(1j*arg)
+
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
     n1 = circ.add_node(ext_n1)
@@ -1191,7 +1210,8 @@ def _get_time_function_fields(line_elements):
     fields = []
     for token in line_elements:
         if token[0] == '*' or \
-           token.split('=')[0] in ('type', 'vdc', 'vac', 'idc', 'iac'):
+           token.split('=')[0] in ('type', 'vdc', 'vac', 'idc', 'iac',
+                                    'arg'):
             break
         fields += [token]
     return fields
diff --git a/doc/help/Netlist-Syntax.rst b/doc/help/Netlist-Syntax.rst
index ca87bef..b3d0861 100644
--- a/doc/help/Netlist-Syntax.rst
+++ b/doc/help/Netlist-Syntax.rst
@@ -171,10 +171,10 @@ Voltage source
 
 **General syntax:**
 
-``v<string> n1 n2 [type=vdc vdc=float] [type=vac vac=float] [type=....]``
+``v<string> n1 n2 [type=vdc vdc=float] [type=vac vac=float [arg=float]] [type=....]``
 
 Where the third type (if added) is one of: ``sin``, ``pulse``, ``exp``,
-``sffm``, ``am``.
+``sffm``, ``am``. ``arg`` is the phase of the AC component, in radians.
 
 Current source
 ''''''''''''''
@@ -183,7 +183,7 @@ Current source
 
 **General syntax:**
 
-``i<string> n1 n2 [type=idc idc=float] [type=iac iac=float] [type=....]``
+``i<string> n1 n2 [type=idc idc=float] [type=iac iac=float [arg=float]] [type=....]``
 
 The declaration of the time variant part is the same as for voltage sources,
 except that ``vo`` becomes ``io``, ``va`` becomes ``ia`` and so on.
-- 
2.43.0


From 7a298112a38f109d16f306b0cc135fd3c1cd2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 42/76] fix: the netlist lines of capacitors and inductors
 carry their initial conditions

---
 ahkab/components/Component.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ahkab/components/Component.py b/ahkab/components/Component.py
index 1d25a32..8ce391b 100644
--- a/ahkab/components/Component.py
+++ b/ahkab/components/Component.py
@@ -178,5 +178,8 @@ class Component(object):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        line = "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.value)
+        if getattr(self, 'ic', None) is not None:
+            line += " ic=%g" % self.ic
+        return line
-- 
2.43.0


From 4d6501d3cdf6a92d1a930c2800c7ada07202e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 43/76] fix: MOS and switch netlist lines have only the fields
 the parser accepts

---
 ahkab/ekv.py    | 5 ++---
 ahkab/mosq.py   | 5 ++---
 ahkab/switch.py | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 8cea46b..195707f 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -352,11 +352,10 @@ class ekv_device:
         return get_value
 
     def get_netlist_elem_line(self, nodes_dict):
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%g l=%g m=%g n=%g" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.ekv_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 0d611a1..8e8b759 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -420,11 +420,10 @@ class mosq_device(object):
 
     def get_netlist_elem_line(self, nodes_dict):
         """Get the element netlist entry"""
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%g l=%g m=%g n=%g" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.mosq_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 06524de..bcf55ec 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -263,10 +263,9 @@ class switch_device:
 
     def get_netlist_elem_line(self, nodes_dict):
         """Return a netlist line corresponding to the switch."""
-        return "%s %s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
-                                nodes_dict[self.sn2], self.model.name, \
-                                str(self.device.is_on))
+                                nodes_dict[self.sn2], self.model.name)
 
 
 VT_DEFAULT = 0.0
-- 
2.43.0


From 4ebec6d00c160a104d3e4e91e2fce3efa64c49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 44/76] fix: printed waveforms carry the phase, only finite
 times and their own points

---
 ahkab/components/Inductor.py |  2 +-
 ahkab/time_functions.py      | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ahkab/components/Inductor.py b/ahkab/components/Inductor.py
index c2ca6d2..656ba12 100644
--- a/ahkab/components/Inductor.py
+++ b/ahkab/components/Inductor.py
@@ -120,7 +120,7 @@ class InductorCoupling(Component):
         self.is_symbolic = True
 
     def __str__(self):
-        return "%s %s %g" % (self.L1, self.L2, self.value)
+        return "%s %s %g" % (self.L1, self.L2, self.K)
 
     def get_other_inductor(self, Lselected):
         Lret = None
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 50fec3b..6be5ea7 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -536,7 +536,7 @@ class sin(object):
             self._type.lower() + "o=" + str(self.vo) + " " + \
             self._type.lower() + "a=" + str(self.va) + \
             " freq=" + str(self.freq) + " theta=" + str(self.theta) + \
-            " td=" + str(self.td)
+            " td=" + str(self.td) + " phase=" + str(self.phi)
 
 
 class exp(object):
@@ -608,11 +608,16 @@ class exp(object):
                    (self.v1 - self.v2)*(1 - math.exp(-1*(time - self.td2)/self.tau2))
 
     def __str__(self):
-        return "type=exp " + \
+        rep = "type=exp " + \
             self._type.lower() + "1=" + str(self.v1) + " " + \
             self._type.lower() + "2=" + str(self.v2) + \
-            " td1=" + str(self.td1) + " td2=" + str(self.td2) + \
-            " tau1=" + str(self.tau1) + " tau2=" + str(self.tau2)
+            " td1=" + str(self.td1) + " tau1=" + str(self.tau1)
+        # an infinite time is the default and it cannot be written as a number
+        if not math.isinf(self.td2):
+            rep += " td2=" + str(self.td2)
+        if not math.isinf(self.tau2):
+            rep += " tau2=" + str(self.tau2)
+        return rep
 
 
 class sffm(object):
@@ -838,11 +843,11 @@ class pwl(object):
         pwl_str = "type=pwl"
         tv = " "
         for x, y in zip(self.x, self.y):
-            tv += "%g %g "
+            tv += "%g %g " % (x, y)
         pwl_str += tv
         if self.td:
             pwl_str += "td=%g " % self.td
         if self.repeat:
-            pwl_str = "RPT=%g " % self.repeat_time
+            pwl_str += "RPT=%g " % self.repeat_time
         return pwl_str[:-1]
 
-- 
2.43.0


From 5f92ea83b6f1a5726559fd5ab0c6fb93beb9f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 45/76] fix: --dc-guess none disables the starting guess

---
 ahkab/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/__main__.py b/ahkab/__main__.py
index db00f8d..8659b43 100755
--- a/ahkab/__main__.py
+++ b/ahkab/__main__.py
@@ -147,7 +147,7 @@ def _cli():
         sys.exit(23)
 
     options.transient_no_step_control = cli_options.no_step_control
-    options.dc_use_guess = cli_options.dc_guess
+    options.dc_use_guess = cli_options.dc_guess.strip().lower() != 'none'
     options.cli = True
     ahkab._print = cli_options.print_circuit
 
-- 
2.43.0


From 53f91b1b409656127e293b991aba95372991629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 46/76] fix: the default transient method is read when the
 analysis runs

---
 ahkab/transient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..849cc19 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -118,7 +118,7 @@ specs = {'tran':{'tokens':({
            }
 
 
-def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_method, use_step_control=True, x0=None,
+def transient_analysis(circ, tstart, tstep, tstop, method=None, use_step_control=True, x0=None,
                        mna=None, N=None, D=None, outfile="stdout", return_req_dict=None, verbose=3):
     """Performs a transient analysis of the circuit described by circ.
 
-- 
2.43.0


From e00af08695c8fff8e62b112f9ee73567dbcb9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 47/76] fix: the default switch off-resistance follows the gmin
 option

---
 ahkab/switch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index bcf55ec..8e7cd1d 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -271,7 +271,6 @@ class switch_device:
 VT_DEFAULT = 0.0
 VH_DEFAULT = 0.0
 RON_DEFAULT = 1.
-ROFF_DEFAULT = 1. / options.gmin
 
 
 class vswitch_model:
@@ -314,7 +313,7 @@ class vswitch_model:
         self.VT = float(VT) if VT is not None else VT_DEFAULT
         self.VH = float(VH) if VH is not None else VH_DEFAULT
         self.RON = float(RON) if RON is not None else RON_DEFAULT
-        self.ROFF = float(ROFF) if ROFF is not None else ROFF_DEFAULT
+        self.ROFF = float(ROFF) if ROFF is not None else 1. / options.gmin
         self.A = (self.RON - self.ROFF) / 2
         self.B = (self.RON + self.ROFF) / 2.
         self.is_on = False
-- 
2.43.0


From f876ebf7fd4e27b5afdec59824030d7253ff0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 48/76] fix: references between the elements of a subcircuit
 follow their renaming

---
 ahkab/netlist_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 3d9f499..5126d40 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1849,9 +1849,16 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
     # We modify it so that each description is unique for every instance
+    new_ids = dict((element.part_id, element.part_id[0] + "-" +
+                    wrapped_circ.prefix + element.part_id[1:])
+                   for element in elements_list)
     for element in elements_list:
-        element.part_id = element.part_id[0] + \
-                          "-" + wrapped_circ.prefix + element.part_id[1:]
+        element.part_id = new_ids[element.part_id]
+        # the references among the elements of the subckt
+        for attr in ('source_id', 'L1', 'L2'):
+            if hasattr(element, attr):
+                ref = getattr(element, attr)
+                setattr(element, attr, new_ids.get(ref, ref))
 
     return elements_list
 
-- 
2.43.0


From 5b502006dfc60c8a8a7258ef693789ae66b5a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:04 +0000
Subject: [PATCH 49/76] fix: a new node never takes the number of an existing
 one after a removal

---
 ahkab/circuit.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 259f214..69e474d 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -163,6 +163,13 @@ class Circuit(list):
             s += elem.get_netlist_elem_line(self.nodes_dict) + "\n"
         return s[:-1]
 
+    def _unused_int_node(self):
+        # the next number in a row, or a number freed by remove_elem()
+        int_node = int(len(self.nodes_dict)/2) + 1*(0 not in self.nodes_dict)
+        while int_node in self.nodes_dict:
+            int_node = int_node - 1
+        return int_node
+
     def create_node(self, name):
         """Creates a new circuit node
 
@@ -192,12 +199,11 @@ class Circuit(list):
         if type(name) not in py3compat.string_types:
             raise TypeError("The node %s should have been of text type" %
                             name)
-        got_ref = 0 in self.nodes_dict
         if name not in self.nodes_dict:
             if name == '0':
                 int_node = 0
             else:
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._unused_int_node()
             self.nodes_dict.update({int_node:name})
             self.nodes_dict.update({name:int_node})
         else:
@@ -245,8 +251,7 @@ class Circuit(list):
             if ext_name == '0':
                 int_node = 0
             else:
-                got_ref = 0 in self.nodes_dict
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._unused_int_node()
             self.nodes_dict.update({int_node:ext_name})
             self.nodes_dict.update({ext_name:int_node})
         else:
-- 
2.43.0


From 1c0a20a35cc1b8726782a861d39b2a5872920fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:04 +0000
Subject: [PATCH 50/76] fix: removing an element considers all the nodes of all
 the elements

---
 ahkab/circuit.py | 60 +++++++++++++++---------------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 69e474d..1cddba2 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -119,7 +119,6 @@ Reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
-import copy
 import math
 
 from . import components
@@ -1037,50 +1036,29 @@ class Circuit(list):
             # we got the element
             elem = elem_or_id
         self.remove(elem)
-        nodes = []
-        if hasattr(elem, 'n1') and elem.n1 != 0:
-            nodes = nodes + [elem.n1]
-        if hasattr(elem, 'n2') and elem.n2 != 0 and elem.n2 not in nodes:
-            nodes = nodes + [elem.n2]
-        if elem.is_nonlinear:
-            for n1, n2 in elem.ports:
-                if n1 != 0 and n1 not in nodes:
-                    nodes = nodes + [n1]
-                if n2 != 0 and n2 not in nodes:
-                    nodes = nodes + [n2]
-        # check if then nodes are needed by other elements
-        remove_list = copy.copy(nodes)
-        for n in nodes:
-            for e in self:
-                if hasattr(elem, 'n1') and e.n1 == n or \
-                   hasattr(elem, 'n2') and e.n2 == n or \
-                   hasattr(elem, 'sn1') and e.sn1 == n or \
-                   hasattr(elem, 'sn2') and e.sn2 == n:
-                    remove_list.remove(n)
-                    break
-                if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    # check output ports
-                    for n1, n2 in oports:
-                        if n1 == n or n2 == n:
-                            remove_list.remove(n)
-                            break
-                    if n not in remove_list:
-                        break
-                    # check the ports that drive them
-                    for i in range(len(oports)):
-                        dports = elem.get_drive_ports(i)
-                        for n1, n2 in oports:
-                            if n1 == n or n2 == n:
-                                remove_list.remove(n)
-                                break
-                        if n not in remove_list:
-                            break
-
+        used_nodes = [n for e in self for n in self._get_elem_nodes(e)]
+        remove_list = []
+        for n in self._get_elem_nodes(elem):
+            if n != 0 and n not in used_nodes and n not in remove_list:
+                remove_list.append(n)
+        # a coupling is known to the inductors too
+        for e in self:
+            if isinstance(e, components.Inductor) and elem in e.coupling_devices:
+                e.coupling_devices.remove(elem)
         for n in remove_list:
             self.nodes_dict.pop(self.nodes_dict[n])
             self.nodes_dict.pop(n)
 
+    @staticmethod
+    def _get_elem_nodes(elem):
+        nodes = [getattr(elem, attr)
+                 for attr in ('n1', 'n2', 'ng', 'nb', 'sn1', 'sn2')
+                 if hasattr(elem, attr)]
+        if elem.is_nonlinear:
+            for port in elem.ports:
+                nodes.extend(port)
+        return nodes
+
     def find_vde_index(self, elem_or_id, verbose=3):
         """Finds a voltage-defined element MNA index.
 
-- 
2.43.0


From 7ab8e652aa7399b4fda6a4f34015d4e1b856ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:04 +0000
Subject: [PATCH 51/76] fix: duplicate names and coupled inductors are
 recognized ignoring case

---
 ahkab/circuit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 1cddba2..2ea7c48 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -382,7 +382,7 @@ class Circuit(list):
         chk : boolean
             The result of the check.
         """
-        all_ids = tuple(map(lambda e: e.part_id, self))
+        all_ids = tuple(map(lambda e: e.part_id.upper(), self))
         return len(set(all_ids)) != len(all_ids)
 
     def get_ground_node(self):
@@ -598,9 +598,11 @@ class Circuit(list):
         L1elem, L2elem = None, None
 
         for e in self:
-            if isinstance(e, components.Inductor) and (L1 == e.part_id):
+            if isinstance(e, components.Inductor) and \
+               L1.lower() == e.part_id.lower():
                 L1elem = e
-            elif isinstance(e, components.Inductor) and (L2 == e.part_id):
+            elif isinstance(e, components.Inductor) and \
+                 L2.lower() == e.part_id.lower():
                 L2elem = e
 
         if L1elem is None or L2elem is None:
-- 
2.43.0


From d47d3484ff1c3c6caad3f5d54978b7354070f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:04 +0000
Subject: [PATCH 52/76] fix: a rejected element leaves no nodes behind in the
 circuit

---
 ahkab/circuit.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 2ea7c48..e8e6145 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -119,6 +119,7 @@ Reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import functools
 import math
 
 from . import components
@@ -132,6 +133,20 @@ from . import switch
 # will be added here by netlist_parser and circuit instances
 user_defined_modules_dict = {}
 
+def _all_or_nothing(add_method):
+    """Make an ``add_*()`` method leave the nodes as they were if it fails."""
+    @functools.wraps(add_method)
+    def wrapper(self, *args, **kwargs):
+        nodes_dict = dict(self.nodes_dict)
+        try:
+            return add_method(self, *args, **kwargs)
+        except Exception:
+            self.nodes_dict.clear()
+            self.nodes_dict.update(nodes_dict)
+            raise
+    return wrapper
+
+
 class Circuit(list):
     """The circuit class.
 
@@ -467,6 +482,7 @@ class Circuit(list):
             del self.models[model_label]
         # should print a warning here
 
+    @_all_or_nothing
     def add_resistor(self, part_id, n1, n2, value):
         """Adds a resistor to the circuit.
 
@@ -502,6 +518,7 @@ class Circuit(list):
         elem = components.Resistor(part_id=part_id, n1=n1, n2=n2, value=value)
         self.append(elem)
 
+    @_all_or_nothing
     def add_capacitor(self, part_id, n1, n2, value, ic=None):
         """Adds a capacitor to the circuit.
 
@@ -541,6 +558,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_inductor(self, part_id, n1, n2, value, ic=None):
         """Adds an inductor to the circuit.
 
@@ -618,6 +636,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_vsource(self, part_id, n1, n2, dc_value, ac_value=0, function=None):
         """Adds a voltage source to the circuit (also takes care that the nodes
         are added as well).
@@ -648,6 +667,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_isource(self, part_id, n1, n2, dc_value, ac_value=0, function=None):
         """Adds a current source to the circuit (also takes care that the nodes
         are added as well).
@@ -678,6 +698,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_diode(self, part_id, n1, n2, model_label, models=None, Area=None,
                   T=None, ic=None, off=False):
         """Adds a diode to the circuit (also takes care that the nodes
@@ -717,6 +738,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_all_or_nothing
     def add_mos(self, part_id, nd, ng, ns, nb, w, l, model_label, models=None,
                 m=1, n=1):
         """Adds a mosfet to the circuit (also takes care that the nodes
@@ -770,6 +792,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_all_or_nothing
     def add_cccs(self, part_id, n1, n2, source_id, value):
         """Adds a current-controlled current source (CCCS) to the circuit
 
@@ -808,6 +831,7 @@ class Circuit(list):
         # add it!
         self.append(elem)
 
+    @_all_or_nothing
     def add_ccvs(self, part_id, n1, n2, source_id, value):
         """Adds a current-controlled voltage source (CCCS) to the circuit
 
@@ -848,6 +872,7 @@ class Circuit(list):
         # add it!
         self.append(elem)
 
+    @_all_or_nothing
     def add_vcvs(self, part_id, n1, n2, sn1, sn2, value):
         """Adds a voltage-controlled voltage source (vcvs) to the circuit
 
@@ -884,6 +909,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_all_or_nothing
     def add_vccs(self, part_id, n1, n2, sn1, sn2, value):
         """Adds a voltage-controlled current source (VCCS) to the circuit
 
@@ -921,6 +947,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_switch(self, part_id, n1, n2, sn1, sn2, ic, model_label, models=None):
         """Adds a voltage-controlled or current-controlled switch to the circuit
 
@@ -977,6 +1004,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_all_or_nothing
     def add_user_defined(self, module, label, param_dict):
         """Adds a user defined element.
 
-- 
2.43.0


From f8331e6ab33892973e99a882b3d41ee59f367c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 53/76] fix: pole-zero results without zeros are stored and
 readable too

---
 ahkab/results.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 83a2edf..5e01a2b 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1173,21 +1173,23 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
-
-            # save in Re/Im form
+        for v in self.variables:
+            self.units.update({v: "rad/s"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
+
+        # save in Re/Im form
+        if len(self.variables):
+            data = np.asarray(data, dtype=np.complex_)
             sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
             self._add_data(sdata)
 
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-- 
2.43.0


From 8290656fbac3f6f6b15790d80399ae9166ddffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 54/76] fix: AC results stored with the phase in degrees are
 read back correctly

---
 ahkab/results.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 5e01a2b..08fbbb5 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -568,6 +568,8 @@ class ac_solution(solution, _mutable_data):
         self.linearization_op = op
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
+        # the phases are written in this unit and have to be read back in it
+        self._phase_in_deg = options.ac_phase_in_deg
 
         self.variables += ["f"]
         self.units.update({"f": "Hz"})
@@ -608,11 +610,17 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self._phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
 
+    def _phasor(self, modulus, phase):
+        """The complex values having the modulus and the phase found in the file"""
+        if self._phase_in_deg:
+            phase = phase*np.pi/180.
+        return modulus*np.exp(1j*phase)
+
     def get_x(self):
         return self[self.variables[0]]
 
@@ -643,13 +651,11 @@ class ac_solution(solution, _mutable_data):
                     match_phase = ('arg(%s)' % var).upper()
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
-                        cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                        cplx_data = np.array(self._phasor(data[i, :], data[ip, :]).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
-                                               (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                               self._phasor(data[i, :], data[ip, :]).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -669,7 +675,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = self._phasor(data[0, :], data[1, :])
         else:
             data = data.reshape((-1,))
         return data
-- 
2.43.0


From 3a7e183f94ac7d46c6ed6a540760cecb1992a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 55/76] fix: op_solution.values() is a list with one unknown
 too

---
 ahkab/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 08fbbb5..4d645f5 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -514,7 +514,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return np.asarray(self.x).reshape(-1).tolist()
 
     def items(self):
         vlist = []
-- 
2.43.0


From 561fa5c4b11472e317cdd33c903c59be7450f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 56/76] fix: operating point reports get the voltages of every
 output port

---
 ahkab/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 4d645f5..ea36694 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -358,7 +358,7 @@ class op_solution(solution, _mutable_data):
                             if port[1]:
                                 tempv = tempv - x[port[1]-1]
                             ports_v.append(tempv)
-                    ports_v_v.append(ports_v)
+                        ports_v_v.append(ports_v)
                 else:
                     port = (elem.n1, elem.n2)
                     tempv = 0
-- 
2.43.0


From 937ae27c371c72aee782467ebebbe54db61c44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 57/76] fix: symbols can be looked up in transfer function
 results

---
 ahkab/results.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index ea36694..e65cc7f 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -966,7 +966,8 @@ class symbolic_solution(object):
         for symbol, result in results_dict.items():
             self.results.update({str(symbol):result})
 
-        self._symbols = list(results_dict.keys()) # keep them, they're useful
+        # keep them, they're useful (transfer functions have strings as keys)
+        self._symbols = list(results_dict.keys()) if not tf else []
         for expr in list(results_dict.values()):
             if tf:
                 expr = expr['gain']
@@ -1146,8 +1147,8 @@ class symbolic_solution(object):
             raise StopIteration
         else:
             self.iter_index += 1
-        return list(self.results.keys())[self.iter_index], \
-               self.results[self._symbols[self.iter_index]]
+        key = list(self.results.keys())[self.iter_index]
+        return key, self.results[key]
 
     def next(self):
         return self.__next__()
-- 
2.43.0


From 8ed0309ed2e6349dd9e936901b2b6f904474a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 58/76] fix: case_insensitive_dict.update() ignores the case of
 the keys

---
 ahkab/results.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index e65cc7f..aa4432e 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1280,9 +1280,7 @@ class case_insensitive_dict(object):
             rpr += "%s: %s" % (keys[i], self._dict[keys[i]])
             if i < len(keys) - 1:
                 rpr += ", "
-            else:
-                rpr += "}"
-        return rpr
+        return rpr + "}"
 
     def __getitem__(self, name):
         """Get a specific variable, as from a dictionary."""
@@ -1328,7 +1326,12 @@ class case_insensitive_dict(object):
     def update(self, adict):
         """Update the dictionary contents with the mapping in the dictionary ``adict``.
         """
-        return self._dict.update(adict)
+        for key, value in dict(adict).items():
+            for other in list(self._dict.keys()):
+                if other.upper() == key.upper() and other != key:
+                    # same key: the value is replaced, the name is kept
+                    key = other
+            self._dict.update({key: value})
 
     # iterator methods
     def __iter__(self):
-- 
2.43.0


From 94a8440d38738619055a9a4037b2d90a0f31d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 59/76] fix: load_csv(skip=...) counts samples and sets the
 position and EOF accordingly

---
 ahkab/csvlib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..9622f02 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -262,11 +262,14 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip, ndmin=2)
+    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, ndmin=2)
     _close_fp(fp, filename)
 
     # prepare return values
-    EOF = (nsamples is None) or (nsamples == data.shape[1])
+    available = data.shape[1]
+    # the header is not a sample: skip counts the samples only
+    data = data[:, skip:]
+    EOF = (nsamples is None) or (skip + nsamples >= available)
     if nsamples is not None:
         data = data[:, :min(nsamples, data.shape[1])]
     pos = skip + data.shape[1]
-- 
2.43.0


From bcabae1f35270ab905654e5613b526d79eeee0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 60/76] fix: write_headers() writes bytes to its binary file
 and closes it

---
 ahkab/csvlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 9622f02..0265f43 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -118,11 +118,12 @@ def write_headers(filename, headers):
     if not headers[0][0] == '#':
         headers[0] = '#' + headers[0]
     for hi in range(len(headers)):
-        fp.write(headers[hi])
+        fp.write(headers[hi].encode('utf-8'))
         if hi < len(headers) - 1:
-            fp.write(SEPARATOR)
+            fp.write(SEPARATOR.encode('utf-8'))
         else:
-            fp.write("\n")
+            fp.write(b"\n")
+    _close_fp(fp, filename)
 
 
 def _get_fp(filename, mode="r"):
-- 
2.43.0


From 8a93fffe1c82e4d66b356ef44bda8d9afa0bd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 61/76] fix: fixed step transient with formulas that need no
 derivatives

---
 ahkab/transient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 849cc19..342f6d5 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=None, use_step_control
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        thebuffer = dfbuffer(length=max([i for i in (max_x, max_dx) if i is not None]) + 1, width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From 4dd02941d170a4904ea414aec9b076cdd2677e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 62/76] fix: a transient with a null step is refused, it would
 never end

---
 ahkab/transient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 342f6d5..b6f643a 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -153,8 +153,8 @@ def transient_analysis(circ, tstart, tstep, tstop, method=None, use_step_control
     if tstart > tstop:
         printing.print_general_error("tstart > tstop")
         sys.exit(1)
-    if tstep < 0:
-        printing.print_general_error("tstep < 0")
+    if tstep <= 0:
+        printing.print_general_error("tstep <= 0")
         sys.exit(1)
 
     if verbose > 4:
-- 
2.43.0


From bf4e2c8ae79488157e7af995c3cc42e9361089d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 63/76] fix: a transient with an empty time range returns empty
 results

---
 ahkab/transient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index b6f643a..d16988f 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -320,6 +320,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=None, use_step_control
     printing.print_info_line(("Solving... ", 3), verbose, print_nl=False)
     tick = ticker.ticker(increments_for_step=1)
     tick.display(verbose > 1)
+    solved = True # nothing to solve if tstart == tstop
     while time < tstop:
         if iter_n < first_iterations_number:
             x_coeff, const, x_lte_coeff, prediction, pred_lte_coeff = \
@@ -415,7 +416,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=None, use_step_control
 
     if solved:
         printing.print_info_line(("done.", 3), verbose)
-        printing.print_info_line(("Average time step: %g" % ((tstop - tstart)/iter_n,), 3), verbose)
+        printing.print_info_line(("Average time step: %g" % ((tstop - tstart)/max(iter_n, 1),), 3), verbose)
 
         if output_buffer:
             ret_value = output_buffer.get_as_matrix()
-- 
2.43.0


From 642a227e22e4c347da23e397b1ce22470e9aeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 64/76] fix: the Gear formulas can be imported with recent
 versions of scipy

---
 ahkab/gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..3739cf7 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from math import factorial
 
 from . import printing
 
-- 
2.43.0


From aabd30d6dc169e422168f3fab2aee03c27bb4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 65/76] fix: csv files are closed also when reading or writing
 them fails

---
 ahkab/csvlib.py | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 0265f43..78a3077 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -88,16 +88,16 @@ def write_csv(filename, data, headers, append=False):
     """
 
     mode = 'ab' if append else 'wb'
-    fp = _get_fp(filename, mode)
-
     if not data.shape[0] == len(headers):
         print("(W): write_csv(): data and headers don't match. Continuing anyway.")
         print("DATA: " + str(data.shape) + " headers length: " + str(len(headers)))
 
     headers = SEPARATOR.join(headers) if not append else ""
-    np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#')
-
-    _close_fp(fp, filename)
+    fp = _get_fp(filename, mode)
+    try:
+        np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#')
+    finally:
+        _close_fp(fp, filename)
 
 
 def write_headers(filename, headers):
@@ -113,17 +113,19 @@ def write_headers(filename, headers):
         the signal names, ordered.
 
     """
-    fp = _get_fp(filename, mode="wb")
     headers = copy.copy(headers)
     if not headers[0][0] == '#':
         headers[0] = '#' + headers[0]
-    for hi in range(len(headers)):
-        fp.write(headers[hi].encode('utf-8'))
-        if hi < len(headers) - 1:
-            fp.write(SEPARATOR.encode('utf-8'))
-        else:
-            fp.write(b"\n")
-    _close_fp(fp, filename)
+    fp = _get_fp(filename, mode="wb")
+    try:
+        for hi in range(len(headers)):
+            fp.write(headers[hi].encode('utf-8'))
+            if hi < len(headers) - 1:
+                fp.write(SEPARATOR.encode('utf-8'))
+            else:
+                fp.write(b"\n")
+    finally:
+        _close_fp(fp, filename)
 
 
 def _get_fp(filename, mode="r"):
@@ -201,11 +203,14 @@ def get_headers(filename):
     fp = _get_fp(filename, 'r')
     headers = None
     line = ""
-    while line == "":
-        line = fp.readline()
-        line = line.strip()
-        if line[0] == '#':
-            line = line[1:]
+    try:
+        while line == "":
+            line = fp.readline()
+            line = line.strip()
+            if line[0] == '#':
+                line = line[1:]
+    finally:
+        _close_fp(fp, filename)
     headers = line.split(SEPARATOR)
     return headers
 
@@ -263,8 +268,10 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, ndmin=2)
-    _close_fp(fp, filename)
+    try:
+        data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, ndmin=2)
+    finally:
+        _close_fp(fp, filename)
 
     # prepare return values
     available = data.shape[1]
-- 
2.43.0


From 7d7fbb1a9b155d5eea352fe2f8f761dfd41daa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 66/76] fix: writing csv data to '-' or to sys.stdout does not
 close the standard output

---
 ahkab/csvlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 78a3077..718405a 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -145,7 +145,7 @@ def _close_fp(fp, filename):
         fp.flush()
     except IOError:
         pass
-    if filename == 'stdout':
+    if filename == 'stdout' or filename == '-' or filename == sys.stdout:
         pass
     else:
         fp.close()
-- 
2.43.0


From 6edcbb73299c2187b95ab9bb279c1006f6de3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 67/76] fix: netlist files are closed also when parsing them
 fails, included files are opened once

---
 ahkab/netlist_parser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 5126d40..ce88cf2 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -247,9 +247,9 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
 
     except _MALFORMED as error:
         _parse_error(error, line_n, line)
-
-    # if not read_netlist_from_stdin:
-        # ffile.close()
+    finally:
+        if ffile is not None:
+            ffile.close()
 
     models = parse_models(model_directives)
 
@@ -311,8 +311,7 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
 
 
 def get_next_file_and_close_current(file_list, file_index):
-    if file_list[file_index - 1][2]:
-        file_list[file_index - 1][0].close()
+    file_list[file_index - 1][0].close()
     if file_index == len(file_list):
         ffile = None
     else:
@@ -1879,8 +1878,6 @@ def parse_include_directive(line, netlist_wd):
     if not utilities.check_file(path):
         raise RuntimeError("")
 
-    fnew = open(path, "r")
-
     return [None, path, True]
 
 
-- 
2.43.0


From 6d59f7bdbcfd31c1d5acbec5ac9c0c447e7c6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 68/76] fix: reports are closed also when writing them fails

---
 ahkab/printing.py | 80 +++++++++++++++++++++++++----------------------
 ahkab/results.py  | 47 +++++++++++++++-------------
 2 files changed, 67 insertions(+), 60 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index dcbd5e0..37c14ab 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -356,26 +356,28 @@ def print_fourier(label, f, F, THD, outfile='stdout'):
         fp = sys.stdout
     else:
         fp = open(outfile, 'w')
-    fp.write('Fourier components of transient response %s\n' % label)
-    DC = np.real_if_close(F[0])
-    fp.write('DC component =  %g\n' % DC)
-    headers = ('#', 'Frequency [Hz]', 'Magnitude', 'Normalized', 'Phase [deg]',
-               'Normalized [deg]')
-    ffttable = []
-    i = np.argmax(np.abs(F))
-    ref_f = f[i]
-    ref_amplitude = np.abs(F)[i]
-    ref_angle = np.angle(F, deg=True)[i]
-    fp.write('Normalization to f = %g Hz, |A| = %g, phase(A) = %g deg\n' %
-             (ref_f, ref_amplitude, ref_angle))
-    for i in range(1, len(F)):
-        ffttable += [[i, f[i], np.abs(F[i]), abs(F[i])/ref_amplitude,
-                      np.angle(F[i], deg=True),
-                      np.angle(F[i], deg=True) - ref_angle]]
-    fp.write(table(ffttable, headers=headers))
-    fp.write('\nTotal harmonic distortion: %g %%\n' % (100*THD))
-    if outfile != 'stdout':
-        fp.close()
+    try:
+        fp.write('Fourier components of transient response %s\n' % label)
+        DC = np.real_if_close(F[0])
+        fp.write('DC component =  %g\n' % DC)
+        headers = ('#', 'Frequency [Hz]', 'Magnitude', 'Normalized', 'Phase [deg]',
+                   'Normalized [deg]')
+        ffttable = []
+        i = np.argmax(np.abs(F))
+        ref_f = f[i]
+        ref_amplitude = np.abs(F)[i]
+        ref_angle = np.angle(F, deg=True)[i]
+        fp.write('Normalization to f = %g Hz, |A| = %g, phase(A) = %g deg\n' %
+                 (ref_f, ref_amplitude, ref_angle))
+        for i in range(1, len(F)):
+            ffttable += [[i, f[i], np.abs(F[i]), abs(F[i])/ref_amplitude,
+                          np.angle(F[i], deg=True),
+                          np.angle(F[i], deg=True) - ref_angle]]
+        fp.write(table(ffttable, headers=headers))
+        fp.write('\nTotal harmonic distortion: %g %%\n' % (100*THD))
+    finally:
+        if outfile != 'stdout':
+            fp.close()
 
 def print_spicefft(label, f, F, THD=None, uformat='NORM', window=None,
                    outfile='stdout'):
@@ -447,24 +449,26 @@ def print_spicefft(label, f, F, THD=None, uformat='NORM', window=None,
         fp = sys.stdout
     else:
         fp = open(outfile, 'w')
-    fp.write('FFT components of transient response %s\n' % label)
-    fp.write('Window: %s\n' % options.WINDOWS_NAMES[window.upper()])
-    fp.write('Start Frequency: %g Hz\n' % f[1])
-    fp.write('Stop Frequency: %g Hz\n' % f[-1])
-    if uformat.upper() == 'NORM':
-        fp.write(('Normalization to carrier at %g Hz: '% fnorm) +
-                 ('magnitude %g dB\n' % Fnorm))
-    fp.write(('DC component: mag = %g ' + unit + '\n') % F[0])
-    headers = ('#', 'Frequency [Hz]', 'Magnitude ['+unit+']', 'Phase [deg]')
-    ffttable = []
-    for i in range(1, len(F)):
-        ffttable += [[i, f[i], F[i], angle[i]]]
-    fp.write(table(ffttable, headers=headers))
-    fp.write('\n')
-    if THD is not None:
-        fp.write('Total harmonic distortion: %g %%\n' % (100*THD))
-    if outfile != 'stdout':
-        fp.close()
+    try:
+        fp.write('FFT components of transient response %s\n' % label)
+        fp.write('Window: %s\n' % options.WINDOWS_NAMES[window.upper()])
+        fp.write('Start Frequency: %g Hz\n' % f[1])
+        fp.write('Stop Frequency: %g Hz\n' % f[-1])
+        if uformat.upper() == 'NORM':
+            fp.write(('Normalization to carrier at %g Hz: '% fnorm) +
+                     ('magnitude %g dB\n' % Fnorm))
+        fp.write(('DC component: mag = %g ' + unit + '\n') % F[0])
+        headers = ('#', 'Frequency [Hz]', 'Magnitude ['+unit+']', 'Phase [deg]')
+        ffttable = []
+        for i in range(1, len(F)):
+            ffttable += [[i, f[i], F[i], angle[i]]]
+        fp.write(table(ffttable, headers=headers))
+        fp.write('\n')
+        if THD is not None:
+            fp.write('Total harmonic distortion: %g %%\n' % (100*THD))
+    finally:
+        if outfile != 'stdout':
+            fp.close()
 
 def print_result_check(badvars, verbose=2):
     """Prints out the results of an OP check
diff --git a/ahkab/results.py b/ahkab/results.py
index aa4432e..77af4c9 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -438,29 +438,32 @@ class op_solution(solution, _mutable_data):
             fp = printing.open_utf8(filename+"info")
         else:
             fp = sys.stdout
-        fp.write(self.timestamp+"\n")
-        fp.write("ahkab v. "+__version__+" (c) 2006-2015 Giuseppe Venturini\n\n")
-        fp.write("Operating Point (OP) analysis\n\n")
-        fp.write("Netlist: %s\nTitle: %s\n" % (self.netlist_file, self.netlist_title))
-        fp.write("At %.2f K\n" % (self.temp,))
-        fp.write("Options:\n\tvea = %e\n\tver = %f\n\tiea = %e\n\tier = %f\n\tgmin = %e\n" \
-                 % (self.vea, self.ver, self.iea, self.ier, self.gmin))
-        fp.write("\nConvergence reached in %d iterations.\n" % (self.iterations,))
-        fp.write("\n========\n")
-        fp.write("RESULTS:\n")
-        fp.write("========\n\n")
-        vtable = self.get_table_array()
-        fp.write(vtable+'\n')
-        fp.write("\n========================\n")
-        fp.write("ELEMENTS OP INFORMATION:\n")
-        fp.write("========================\n\n")
-        for k in sorted(self._op_info.keys()):
-            t = printing.table(self._op_info[k], headers=self._op_keys[k][0])
-            fp.write(t + '\n\n')
-        fp.write('Total power dissipation: %g W\n\n' % self.tot_power)
-        fp.flush()
+        try:
+            fp.write(self.timestamp+"\n")
+            fp.write("ahkab v. "+__version__+" (c) 2006-2015 Giuseppe Venturini\n\n")
+            fp.write("Operating Point (OP) analysis\n\n")
+            fp.write("Netlist: %s\nTitle: %s\n" % (self.netlist_file, self.netlist_title))
+            fp.write("At %.2f K\n" % (self.temp,))
+            fp.write("Options:\n\tvea = %e\n\tver = %f\n\tiea = %e\n\tier = %f\n\tgmin = %e\n" \
+                     % (self.vea, self.ver, self.iea, self.ier, self.gmin))
+            fp.write("\nConvergence reached in %d iterations.\n" % (self.iterations,))
+            fp.write("\n========\n")
+            fp.write("RESULTS:\n")
+            fp.write("========\n\n")
+            vtable = self.get_table_array()
+            fp.write(vtable+'\n')
+            fp.write("\n========================\n")
+            fp.write("ELEMENTS OP INFORMATION:\n")
+            fp.write("========================\n\n")
+            for k in sorted(self._op_info.keys()):
+                t = printing.table(self._op_info[k], headers=self._op_keys[k][0])
+                fp.write(t + '\n\n')
+            fp.write('Total power dissipation: %g W\n\n' % self.tot_power)
+            fp.flush()
+        finally:
+            if filename != 'stdout':
+                fp.close()
         if filename != 'stdout':
-            fp.close()
             # save to .op file
             self._add_data(self.x)
 
-- 
2.43.0


From dff42bc667355df14b4b4c84df54d800746e658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 69/76] fix: a DC sweep has the requested number of points and
 ends at the stop value, also when logarithmic

---
 ahkab/ahkab.py       |  8 +++++++-
 ahkab/dc_analysis.py | 12 ++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 14b06f8..92b2324 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -313,8 +313,14 @@ def new_dc(start, stop, points, source, sweep_type='LINEAR', guess=True, x0=None
             atexit.register(os.remove, outfile)
     else:
         outfile += '.dc'
+    if points == 1:
+        step = 0.
+    elif sweep_type.upper()[:3] == options.dc_log_step:
+        step = (float(stop) / float(start)) ** (1. / float(points - 1))
+    else:
+        step = float(stop - start) / float(points - 1)
     return {
-        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': float(stop - start) / float(points - 1),
+        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': step,
         'source': source, 'x0': x0, 'outfile': outfile, 'guess': guess, 'sweep_type': sweep_type,
         'verbose': verbose}
 
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 7bad1bc..790229d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -481,7 +481,8 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     stop : float
         Stop value of the sweep source
     step : float
-        The step size in the sweep
+        The step size in the sweep. In a logarithmic sweep, the ratio of a
+        value to the previous one.
     source : string
         The part ID of the source to be swept, eg. ``'V1'``.
     sweep_type : string, optional
@@ -516,9 +517,16 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if (stop - start) * step < 0:
         raise ValueError("Unbonded stepping in DC analysis.")
 
-    points = (stop - start) / step + 1
     sweep_type = sweep_type.upper()[:3]
 
+    # the number of points is an integer: the ratio is affected by round-off
+    if start == stop:
+        points = 1
+    elif sweep_type == options.dc_log_step:
+        points = int(round(np.log10(stop / start) / np.log10(step))) + 1
+    else:
+        points = int(round((stop - start) / step)) + 1
+
     if sweep_type == options.dc_log_step:
         dc_iter = utilities.log_axis_iterator(start, stop, points=points)
     elif sweep_type == options.dc_lin_step:
-- 
2.43.0


From 0dc783f5f4be9df459aafc8109addebc9f6eb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 70/76] fix: an AC analysis without a sweep type is
 logarithmic, one without points is refused

---
 ahkab/ac.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 75aba01..8bc9bb5 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -206,7 +206,9 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
         raise ValueError("AC analysis has number of points < 2 & start != stop")
-    if sweep_type.upper() == options.ac_log_step or sweep_type is None:
+    if points < 1:
+        raise ValueError("AC analysis has number of points < 1")
+    if sweep_type is None or sweep_type.upper() == options.ac_log_step:
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
-- 
2.43.0


From 3e04cbc81d253434dfd1b88eef5e92e7c7c84e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 71/76] fix: quadratic MOS devices provide the current and
 conductances the steady state analyses use

---
 ahkab/mosq.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 8e8b759..097d103 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -216,6 +216,31 @@ class mosq_device(object):
         mtype = 'N' if self.mosq_model.NPMOS == 1 else 'P'
         return mtype
 
+    def i(self, op_index, ports_v, time=0):
+        """Returns the current flowing in the device at the output port
+
+        **Parameters:**
+
+        op_index : int
+            The index of the output port.
+        ports_v : list
+            A list in the form: ``[voltage_across_port0, voltage_across_port1,
+            ...]``
+        time : float
+            the simulation time at which the evaluation is performed.
+        """
+        sw_vect, CS = self.mosq_model.get_voltages(*ports_v)
+        return CS * self.mosq_model.get_ids(self.mosq_model, self.device, sw_vect)
+
+    def g(self, op_index, ports_v, port_index, time=0):
+        """Returns the derivative of the current with respect to the voltage
+        across the drive port with index ``port_index``
+
+        The arguments are those of :func:`i`.
+        """
+        _, stamp = self.gstamp(ports_v, time, reduced=False)
+        return stamp[0, (0, 1, 3)[port_index]]
+
     def istamp(self, ports_v, time=0, reduced=True):
         """Get the current stamp matrix
 
-- 
2.43.0


From 0eba68fec603aea9c96264daa057a9c453d26987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 72/76] fix: symbolic results can be printed with Python 3

---
 ahkab/printing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index 37c14ab..dda3746 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -279,7 +279,7 @@ def print_symbolic_results(x):
 
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + "\t = " + str(x[key]))
 
@@ -299,7 +299,7 @@ def print_symbolic_transfer_functions(x):
         expressions of the singularities.
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + " = " + str(x[key]['gain']))
         print('\tDC: ' + str(x[key]['gain0']))
-- 
2.43.0


From c15b4423403c17b84f89bcc21282c33d89ac5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 73/76] fix: user defined elements can be added to a circuit

---
 ahkab/circuit.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index e8e6145..7596bf6 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -120,6 +120,7 @@ from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
 import functools
+import importlib
 import math
 
 from . import components
@@ -1011,30 +1012,42 @@ class Circuit(list):
         In order for this to work, you should write a module that supplies the
         elem class.
 
-        XXX WRITE DOC
+        **Parameters:**
+
+        module : module or string
+            The module supplying the class, or its name.
+        label : string
+            The name of the class.
+        param_dict : dict
+            The arguments with which the element is built.
         """
 
-        if module_name in circuit.user_defined_modules_dict:
-            module = circuit.user_defined_modules_dict[module_name]
+        # the parser needs this module, it can only be imported now
+        from .netlist_parser import NetlistParseError, convert_units
+
+        if type(module) in py3compat.string_types:
+            module_name = module
+            if module_name not in user_defined_modules_dict:
+                user_defined_modules_dict.update({module_name: importlib.import_module(module_name)})
+            module = user_defined_modules_dict[module_name]
         else:
-            fp, pathname, description = imp.find_module(module_name)
-            module = imp.load_module(module_name, fp, pathname, description)
-            circuit.user_defined_modules_dict.update({module_name: module})
+            module_name = module.__name__
 
         elem_class = getattr(module, label)
 
+        param_dict = dict(param_dict)
         param_dict.update({"convert_units": convert_units})
         param_dict.update({"circuit_node": self.add_node})
 
         elem = elem_class(**param_dict)
-        elem.part_id = "y%s" % part_id[1:]
+        elem.part_id = "y%s" % elem.part_id[1:]
 
         # call check() if supported
         if hasattr(elem, "check"):
             selfcheck_result, error_msg = elem.check()
             if not selfcheck_result:
                 raise NetlistParseError("module: " + module_name + \
-                                        " elem type: " + elem_type_name + \
+                                        " elem type: " + label + \
                                         " error: " + error_msg)
 
         self.append(elem)
-- 
2.43.0


From 96b16fc3473c73dd125ef220f4af3f7aeac71b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 74/76] fix: the status of a quadratic MOS device can be set
 from any sequence of voltages

---
 ahkab/mosq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 097d103..f082a5e 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -276,7 +276,7 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        if not np.array_equal(self.opdict['state'], ports_v[0]) or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
@@ -404,8 +404,8 @@ class mosq_device(object):
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
             stamp = self.mosq_model.T1.dot(stamp).dot(self.mosq_model.T2)
-        if (self.opdict['state'] != ports_v[0]).any():
-            self.opdict = {'state':ports_v[0]}
+        if not np.array_equal(self.opdict['state'], ports_v):
+            self.opdict = {'state':list(ports_v)}
         self.opdict.update({'gmd': stamp[0, 0]})
         self.opdict.update({'gm': stamp[0, 1]})
         self.opdict.update({'gmb': stamp[0, 3]})
-- 
2.43.0


From 29b80f22ccbaae78b80a19176085e6609c5542a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:48 +0000
Subject: [PATCH 75/76] fix: compute a MOS model's threshold from the flat-band
 voltage

The expression used the constructor arguments, usually None, so that a model
given VFB but not VTO could not be built; the body term takes sqrt(PHI).
---
 ahkab/ekv.py  | 2 +-
 ahkab/mosq.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 195707f..05d8525 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -410,7 +410,7 @@ class ekv_mos_model:
                 printing.print_warning("model %s has internal negative VTO (%f V)."
                                        % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
             self.VTO = self.NPMOS * VTO_DEFAULT
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index f082a5e..d12fc40 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -501,7 +501,7 @@ class mosq_mos_model(object):
             if self.VTO < 0:
                 print("(W): model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
             self.VTO = VTO_DEFAULT
 
-- 
2.43.0


From 6488cba72fd22a9f16ddc232ac63173468f197ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:48 +0000
Subject: [PATCH 76/76] fix: accept every node and element name in a starting
 point

Labels such as V(out_p) or I(X1-L1) were refused as unrecognized.
---
 ahkab/dc_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 790229d..9dd4144 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1118,8 +1118,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
 
     :raises ValueError: whenever a malformed ``icdict`` is supplied.
     """
-    Vregex = re.compile("V\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
-    Iregex = re.compile("I\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Vregex = re.compile("V\s*\(\s*([^\s()]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Iregex = re.compile("I\s*\(\s*([^\s()]+)\s*\)", re.IGNORECASE | re.DOTALL)
     nv = circ.get_nodes_number()  # number of voltage variables
     voltage_defined_elem_names = \
         [elem.part_id.lower() for elem in circ
-- 
2.43.0

