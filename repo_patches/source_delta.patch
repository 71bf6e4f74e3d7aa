From ea03214480961b1073342c06ca574802ad136fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 01/16] fix: use the existing width index when parsing an X
 lattice readout

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..7231742 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -276,7 +276,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From ae4bbf6082f8cb4fe8e3c8ec2d90073a26134667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 02/16] fix: give every qubit its own copy of params, so qubits
 never share round counters

---
 qtcodes/circuits/base.py       | 3 ++-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..3087474 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -294,7 +294,8 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         # == None is necessary, as `not QuantumCircuit()` is True
         circ = QuantumCircuit() if circ is None else circ
-        params = params if params else {}
+        # work on a copy: the lattice stores its own bookkeeping in params
+        params = dict(params) if params else {}
         self.lattice: _TopologicalLattice = self.lattice_type(params, name, circ)
         self.name = name
         self.circ = circ
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..4384b39 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From d091299d415d2be95325de883fd00a0570fd0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 03/16] fix: do not append virtual nodes to the caller's
 syndrome list

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..f6b976b 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 11e1a0c26eef7676a64d06b4845360299152b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 04/16] fix: count degenerate boundary paths for the syndrome
 node with index 0 too

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index f6b976b..d2e4870 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From f357ad8c5ef8640b0d3a7cbdddb1029dcec098f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 05/16] fix: entangle_x/entangle_z only entangle their own
 plaquettes on 1D lattices

---
 qtcodes/circuits/base.py            | 4 ++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 3087474..2578cb1 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -145,8 +145,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = qubit_indices if qubit_indices is not None else self.qubit_indices
+        stabilizers = stabilizers if stabilizers is not None else self.stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 7231742..b4ef502 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 60d1a36bda7e1ab15c895c73d02668e43521bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 06/16] fix: a rejected tqubit no longer leaves an empty
 sub-register behind

---
 qtcodes/circuits/circ.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..ce9f41a 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,12 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
-        if sub_register not in self.tqubits:
-            self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
+        tqubit = str2qtype[ctype](
             params, name=self.name + "_" + str(self.n), circ=self.circ
         )
+        if sub_register not in self.tqubits:
+            self.tqubits[sub_register] = {}
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From 65af2ccc7b0c9ad21c7cf1eb9fbf69164f3dffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 07/16] fix: reject non-positive and non two-dimensional code
 sizes

---
 qtcodes/circuits/rotated_surface.py | 7 +++++++
 qtcodes/fitters/rotated_surface.py  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index b4ef502..1e21f7e 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -72,8 +72,15 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         self.params["d"] = tuple(map(int, self.params["d"]))
 
         # validation
+        if len(self.params["d"]) != 2:
+            raise LatticeError(
+                "Please provide a code height and width in parameter d: e.g. (3,7)."
+            )
+
         dh = self.params["d"][self.H]
         dw = self.params["d"][self.W]
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code distance must be positive!")
         if dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
 
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..409a065 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -42,6 +42,8 @@ class RotatedDecoder(LatticeDecoder):
         dh = self.params["d"][constants.DH]
         dw = self.params["d"][constants.DW]
 
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code height and width must be positive!")
         if dh % 2 != 1:
             raise LatticeError("Surface code height must be odd!")
         if dw % 2 != 1:
-- 
2.43.0


From 495336a82ea99e50841bfbe592938cc69e842b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 08/16] fix: make the multi-process sweep runnable and keep its
 data file single-writer

---
 qtcodes/tools/benchmarking.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..2dc789d 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -17,6 +17,7 @@ from typing import Dict, Optional, List
 
 plt.rcParams.update({"font.size": 14, "pdf.fonttype": 42, "ps.fonttype": 42})
 
+from functools import partial
 from multiprocessing import Pool
 
 
@@ -151,11 +152,15 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # a bound method can be sent to the workers (a lambda cannot); only the parent
+        # process writes the data file, so that no two processes write it at once
+        single = partial(self.single, save_data=False, shots=shots)
+        with Pool(4) as p:  # TODO change on HPC
+            logical_error_rates = p.map(single, physical_error_rates)
+
+        if save_data:
+            for point in zip(physical_error_rates, logical_error_rates):
+                self.append_data(*point)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From ab542c350df891d77bc9fc6bb3286290e1f24ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 09/16] fix: never overwrite an existing data file that could
 not be read

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 2dc789d..91c2815 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -206,7 +206,7 @@ class TopologicalBenchmark:
             data = np.load(self.filename)
             physical_error_rates = data["physical_error_rates"]
             logical_error_rates = data["logical_error_rates"]
-        except:
+        except FileNotFoundError:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
-- 
2.43.0


From 40876c3e208d9dac7e916773a495d214e53a1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 10/16] fix: draw an analysis on the axes that were passed in

---
 qtcodes/tools/benchmarking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 91c2815..554556f 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -237,12 +237,12 @@ class TopologicalAnalysis:
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
-        if fig is None:
-            fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
         if ax is None:
+            if fig is None:
+                fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -250,8 +250,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From b90750e34c9e629a01e295ffec74bce1821d9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 11/16] fix: load both dimensions of d as plain integers

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 554556f..c50d727 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -231,7 +231,7 @@ class TopologicalAnalysis:
 
     def load_data(self):
         data = np.load(self.filename)
-        self.params["d"] = (int(data["d"][0]), (data["d"][1]))
+        self.params["d"] = (int(data["d"][0]), int(data["d"][1]))
         self.params["T"] = int(data["T"])
         self.data["physical_error_rates"] = data["physical_error_rates"]  # TODO
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
-- 
2.43.0


From 9b518e34fd622b6c58e8f447075a36e10b0fd318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 12/16] fix: look-up decoding of a never observed readout falls
 back to the prior

---
 qtcodes/fitters/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..3ede323 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -194,6 +194,9 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
         # p(s) = sum_i p(s|i)p(i)
         p_s = p_s_given_i[0] * p_i[0] + p_s_given_i[1] * p_i[1]
 
+        if p_s == 0:
+            return p_i  # syndromes never observed: nothing to learn from them
+
         # p(i|s) = p(s|i)p(i)/p(s), Bayes Rule
         p_i_given_s = [p_s_given_i[i] * p_i[i] / p_s for i in [0, 1]]
         return p_i_given_s
-- 
2.43.0


From 67000c8dc936ac90aa8ad0298f475e92b8b004cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 13/16] fix: only record a register once the circuit has
 accepted it

---
 qtcodes/circuits/circ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index ce9f41a..4342742 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -130,15 +130,15 @@ class TopologicalCircuit:
         if name in self.creg and not override:
             return
         creg = ClassicalRegister(size=size, name=name, bits=bits)
-        self.creg[name] = creg
         self.circ.add_register(creg)
+        self.creg[name] = creg
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
         qreg = QuantumRegister(size=size, name=name, bits=bits)
-        self.qreg[name] = qreg
         self.circ.add_register(qreg)
+        self.qreg[name] = qreg
 
     def _get_index(self, tqubit: Union[TopologicalQubit, int]) -> TopologicalQubit:
         """
-- 
2.43.0


From 71e26926769bea0c2cbe2d63aac08b0ff4ddded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 14/16] fix: a logical CX controlled by a tqubit no longer
 dephases it

cx(target=...) copied the logical-Z projection into the ancilla and left it
there, so the next reset of the ancilla measured the control tqubit.
---
 qtcodes/circuits/xxzz.py |  8 ++++----
 qtcodes/circuits/xzzx.py | 11 +++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..5609307 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,10 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row. Acting on target directly, as an ancilla left
+            # holding the logical-Z projection would dephase this tqubit.
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..3803365 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,15 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row. Acting on target directly, as an ancilla left
+            # holding the logical-Z projection would dephase this tqubit.
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(target)
+                    self.circ.cx(target, self.qregisters["data"][i])
+                    self.circ.h(target)
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 03e798d93799fddc8329da81270c4a682188ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:14 +0000
Subject: [PATCH 15/16] fix: decoders built from one params dict no longer
 share it

---
 qtcodes/fitters/lattice_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index d2e4870..869a71e 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -35,6 +35,8 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         super().__init__(params)
         self._params_validation()
+        # another decoder may be built from, and complete, the same dictionary
+        self.params = dict(self.params)
 
         for syndrome_graph_key in self.syndrome_graph_keys:
             self.S[syndrome_graph_key] = rx.PyGraph(multigraph=False)
-- 
2.43.0


From d1746a094bc66e388c3204b905d43c7d38bb0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:32 +0000
Subject: [PATCH 16/16] fix: look-up decoding no longer divides by zero when no
 shots were counted for a value

---
 qtcodes/fitters/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 3ede323..6570798 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -182,7 +182,7 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
             0.0,
         ]  # p_s_given_i[i] is the prob that syndromes s was produced by |i>, i.e. p(s|i)
         for log in [0, 1]:
-            if syndromes in self.look_up_table[logical_readout_type][log]:
+            if self.look_up_table[logical_readout_type][log].get(syndromes):
                 p_s_given_i[log] = (
                     self.look_up_table[logical_readout_type][log][syndromes]
                     / self.look_up_table_shots[logical_readout_type][log]
-- 
2.43.0

