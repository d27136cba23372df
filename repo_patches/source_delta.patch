From 7d28c504b4a02f6cf8699953a5d7af045eac932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 01/56] fix: comparing a quantum wire with a classical wire no
 longer raises

Composing wires that have both kinds raised AttributeError.
---
 mrmustard/physics/wires.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8b5d76c..9dfc55e 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -106,6 +106,8 @@ class QuantumWire:
         return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
 
     def __eq__(self, other: QuantumWire) -> bool:
+        if not isinstance(other, QuantumWire):
+            return NotImplemented
         return (
             self.mode == other.mode
             and self.is_out == other.is_out
@@ -154,6 +156,8 @@ class ClassicalWire:
         return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
 
     def __eq__(self, other: ClassicalWire) -> bool:
+        if not isinstance(other, ClassicalWire):
+            return NotImplemented
         return self.mode == other.mode and self.is_out == other.is_out and self.repr == other.repr
 
     def __hash__(self) -> int:
@@ -570,6 +574,8 @@ class Wires:
         return bool(self._quantum_wires) or bool(self._classical_wires)
 
     def __eq__(self, other: Wires) -> bool:
+        if not isinstance(other, Wires):
+            return NotImplemented
         return self.args == other.args
 
     def __getitem__(self, modes: tuple[int, ...] | int) -> Wires:
-- 
2.43.0


From 2d6cee693709bf5d96a980fabfa38523835884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 02/56] fix: equal Wires have equal hashes

The hash depended on set iteration order and on the wires' representation.
---
 mrmustard/physics/wires.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 9dfc55e..cb0b505 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -589,7 +589,7 @@ class Wires:
         )
 
     def __hash__(self) -> int:
-        return hash((tuple(self._classical_wires), tuple(self._quantum_wires)))
+        return hash(tuple(tuple(sorted(modes)) for modes in self.args))
 
     def __iter__(self) -> Iterator[QuantumWire | ClassicalWire]:
         return iter(self.sorted_wires)
-- 
2.43.0


From 697eb80fd81540b2e50bf34418b169e5d14327cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 03/56] fix: adding overlapping wires is refused whatever their
 history or representation

After adjoint, dual or a change of representation the overlap went unnoticed.
---
 mrmustard/physics/wires.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index cb0b505..7529df3 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -561,9 +561,15 @@ class Wires:
         If there are overlapping wires (same mode, is_ket, is_out), raises a ValueError.
         Note that the wires are not reindexed nor copied. Use with caution.
         """
-        if ovlp_classical := self._classical_wires & other._classical_wires:
+        # NOTE: wires are mutable (is_out, is_ket, repr), so we compare their current values
+        # rather than intersect the sets, which rely on the hash at the time of insertion
+        classical = {(c.mode, c.is_out) for c in self._classical_wires}
+        if ovlp_classical := [c for c in other._classical_wires if (c.mode, c.is_out) in classical]:
             raise ValueError(f"Overlapping classical wires {ovlp_classical}.")
-        if ovlp_quantum := self._quantum_wires & other._quantum_wires:
+        quantum = {(q.mode, q.is_out, q.is_ket) for q in self._quantum_wires}
+        if ovlp_quantum := [
+            q for q in other._quantum_wires if (q.mode, q.is_out, q.is_ket) in quantum
+        ]:
             raise ValueError(f"Overlapping quantum wires {ovlp_quantum}.")
         return Wires.from_wires(
             quantum=self._quantum_wires | other._quantum_wires,
-- 
2.43.0


From 53bc2c76a52ba6209e89bce1ac30e3421adbc85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 04/56] fix: composing Wires that share wire ids returns the
 right permutation

---
 mrmustard/physics/wires.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 7529df3..a1b0f85 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -639,6 +639,9 @@ class Wires:
         Returns:
             The wires of the circuit composition and the permutations.
         """
+        if set(self.ids) & set(other.ids):
+            other = other.copy(new_ids=True)  # the permutation below tells wires apart by their id
+
         bra_out = other.output.bra + (self.output.bra - other.input.bra)
         ket_out = other.output.ket + (self.output.ket - other.input.ket)
         bra_in = self.input.bra + (other.input.bra - self.output.bra)
@@ -659,7 +662,7 @@ class Wires:
 
         combined = [w for w in self.sorted_wires if w.id in new_wires.ids] + [
             w for w in other.sorted_wires if w.id in new_wires.ids
-        ]  # NOTE: assumes self and other have different ids
+        ]
         perm = [combined.index(w) for w in new_wires.sorted_wires]
         return new_wires, perm
 
-- 
2.43.0


From 4fbf7b2b7deab6c1b9501e97ade78eee43e80a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 05/56] fix: Transformation.from_fock swapped the input and
 output modes

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4b354dc..346357e 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -103,7 +103,7 @@ class Transformation(CircuitComponent):
         Returns:
             A transformation in the Fock representation.
         """
-        return cls.from_ansatz(modes_in, modes_out, ArrayAnsatz(array, batch_dims), name)
+        return cls.from_ansatz(modes_out, modes_in, ArrayAnsatz(array, batch_dims), name)
 
     @classmethod
     def from_quadrature(
-- 
2.43.0


From bb0bb237827a7e2175ae9248112a795fde546ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 06/56] fix: moving a component to other modes keeps its Fock
 shape and representation

---
 mrmustard/lab/circuit_components.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 1dc5938..128a665 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -564,14 +564,16 @@ class CircuitComponent:
         for subset in subsets:
             if subset and len(subset) != len(modes):
                 raise ValueError(f"Expected ``{len(modes)}`` modes, found ``{len(subset)}``.")
-        return self._light_copy(
-            Wires(
-                modes_out_bra=set(modes) if ob else set(),
-                modes_in_bra=set(modes) if ib else set(),
-                modes_out_ket=set(modes) if ok else set(),
-                modes_in_ket=set(modes) if ik else set(),
-            ),
+        wires = Wires(
+            modes_out_bra=set(modes) if ob else set(),
+            modes_in_bra=set(modes) if ib else set(),
+            modes_out_ket=set(modes) if ok else set(),
+            modes_in_ket=set(modes) if ik else set(),
         )
+        for new, old in zip(wires.quantum.sorted_wires, self.wires.quantum.sorted_wires):
+            new.repr = old.repr
+            new.fock_cutoff = old.fock_cutoff
+        return self._light_copy(wires)
 
     def quadrature(self, *quad: RealVector, phi: float = 0.0) -> ComplexTensor:
         r"""
@@ -803,7 +805,7 @@ class CircuitComponent:
         instance = super().__new__(self.__class__)
         instance.__dict__ = self.__dict__.copy()
         instance._ansatz = self.ansatz
-        instance._wires = wires or Wires(*self.wires.args)
+        instance._wires = wires or self.wires.copy(new_ids=True)
         return instance
 
     def _rshift_return(
-- 
2.43.0


From b474b4c49ca6eb17c6302dedfd835386f98d3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 07/56] fix: circuit optimisation only contracts components
 with nothing in between

Edges between components that are also connected through a third component were
contracted, which left wires that could no longer be joined (an error, a refusal
of a valid circuit or a path that gives a different result). The Fock shapes of
wires that are not connected to each other were also matched.
---
 mrmustard/path/branch_and_bound.py | 58 +++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index dca86d7..239d626 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -242,7 +242,9 @@ def optimize_fock_shapes(graph: Graph, iteration: int, verbose: bool) -> Graph:
     for A, B in graph.edges:
         wires_A = graph.nodes[A]["component"].wires
         wires_B = graph.nodes[B]["component"].wires
-        idx_A, idx_B = wires_A.contracted_indices(wires_B)
+        bra, ket = graph.edges[A, B]["links"]
+        idx_A = wires_A.output.bra[bra].indices + wires_A.output.ket[ket].indices
+        idx_B = wires_B.input.bra[bra].indices + wires_B.input.ket[ket].indices
         # ensure at idx_i and idx_j the shapes are the minimum
         for i, j in zip(idx_A, idx_B):
             value = min(
@@ -282,7 +284,8 @@ def parse_components(components: list[CircuitComponent]) -> Graph:
 
     Each node in the graph corresponds to a GraphComponent and an edge between two nodes indicates that
     the GraphComponents are connected in the circuit. Whether they are connected by one wire
-    or by many, in the graph they will have a single edge between them.
+    or by many, in the graph they will have a single edge between them. The bra and ket modes on
+    which the two components are connected are stored in the ``links`` attribute of the edge.
 
     Args:
         components: A list of CircuitComponents.
@@ -296,7 +299,7 @@ def parse_components(components: list[CircuitComponent]) -> Graph:
         for j, B in enumerate(components[i + 1 :]):
             ovlp_bra, ovlp_ket = wires.overlap(B.wires)
             if ovlp_ket or ovlp_bra:
-                graph.add_edge(i, i + j + 1)
+                graph.add_edge(i, i + j + 1, links=(ovlp_bra, ovlp_ket))
                 wires = Wires(
                     wires.args[0] - ovlp_bra,
                     wires.args[1],
@@ -323,6 +326,35 @@ def validate_components(components: list[CircuitComponent]) -> None:
         w = (w @ comp.wires)[0]
 
 
+def contractible_edges(graph: Graph) -> list[Edge]:
+    r"""
+    Returns the edges that can be contracted without changing the value of the circuit, i.e. those
+    whose contraction joins exactly the wires by which the two components are connected. This is not
+    the case when one component also leads to the other through a third one.
+
+    Args:
+        graph: A graph.
+    """
+    ret = []
+    for edge in graph.edges:
+        A = graph.nodes[edge[0]]["component"].wires
+        B = graph.nodes[edge[1]]["component"].wires
+        bra, ket = graph.edges[edge]["links"]
+        if A.overlap(B) != (bra, ket):
+            continue
+        if (
+            (A.output.bra.modes - bra) & B.output.bra.modes
+            or (A.output.ket.modes - ket) & B.output.ket.modes
+            or (B.input.bra.modes - bra) & A.input.bra.modes
+            or (B.input.ket.modes - ket) & A.input.ket.modes
+        ):
+            continue
+        if any(nx.has_path(graph, n, edge[1]) for n in graph.successors(edge[0]) if n != edge[1]):
+            continue
+        ret.append(edge)
+    return ret
+
+
 def contract(graph: Graph, edge: Edge, debug: int = 0) -> Graph:
     r"""
     Contracts an edge in a graph and returns the contracted graph.
@@ -342,6 +374,14 @@ def contract(graph: Graph, edge: Edge, debug: int = 0) -> Graph:
     if debug > 0:
         print(f"A wires: {A.wires}, B wires: {B.wires}")
     new_graph.nodes[edge[0]]["component"] = A @ B
+    for new_edge in new_graph.edges:
+        if edge[0] in new_edge:  # the merged component has the connections of both
+            links = [
+                graph.edges[old]["links"]
+                for n in edge
+                if (old := tuple(n if e == edge[0] else e for e in new_edge)) in graph.edges
+            ]
+            new_graph.edges[new_edge]["links"] = tuple(set().union(*modes) for modes in zip(*links))
     new_graph.costs = (*graph.costs, graph.edges[edge]["cost"])
     new_graph.solution = (*graph.solution, edge)
     assign_costs(new_graph)
@@ -365,7 +405,7 @@ def children(graph: Graph, cost_bound: int) -> set[Graph]:
         set[Graph]: The set of graphs obtained by contracting each edge.
     """
     children_set = set()
-    for edge in sorted(graph.out_edges, key=lambda e: graph.out_edges[e]["cost"]):
+    for edge in sorted(contractible_edges(graph), key=lambda e: graph.edges[e]["cost"]):
         if graph.cost + graph.edges[edge]["cost"] < cost_bound:
             children_set.add(contract(graph, edge))
     return children_set
@@ -425,9 +465,8 @@ def random_solution(graph: Graph) -> Graph:
     Returns:
         Graph: The contracted graph
     """
-    while graph.number_of_edges() > 0:
-        edge = random.choice(list(graph.edges))
-        graph = contract(graph, edge)
+    while edges := contractible_edges(graph):
+        graph = contract(graph, random.choice(edges))
     return graph
 
 
@@ -448,9 +487,12 @@ def reduce_first(graph: Graph, code: str) -> tuple[Graph, Edge | bool]:
         code: A pattern indicating the type of nodes to contract.
     """
     n, tA, tB = code
+    edges = contractible_edges(graph)
     for node in graph.nodes:
         if int(n) == graph.degree(node):
             for edge in list(graph.out_edges(node)) + list(graph.in_edges(node)):
+                if edge not in edges:
+                    continue
                 A = graph.nodes[edge[0]]["component"]
                 B = graph.nodes[edge[1]]["component"]
                 if A.ansatz[0] == tA and B.ansatz[0] == tB:
@@ -507,7 +549,7 @@ def optimal_contraction(  # noqa: C901
     best = Graph(costs=(np.inf,))  # will be replaced by first random contraction
     for _ in range(n_init):
         rand = random_solution(deepcopy(graph))
-        best = rand if rand.cost < best.cost else best
+        best = rand if rand.number_of_edges() == 0 and rand.cost < best.cost else best
     if verbose:
         print(
             f"Best cost from {n_init} random contractions: {best.cost}. Solution: {best.solution}\n",
-- 
2.43.0


From ad07210c5ad7ab29cec0efa0bc65918397bea6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 08/56] fix: nested settings contexts restore their own values,
 rejected values change nothing

---
 mrmustard/utils/settings.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mrmustard/utils/settings.py b/mrmustard/utils/settings.py
index 3183a74..0745516 100644
--- a/mrmustard/utils/settings.py
+++ b/mrmustard/utils/settings.py
@@ -102,6 +102,7 @@ class Settings:
         r"""Whether to use the ``stable`` function when computing Fock amplitudes (more stable, but slower). Default is ``False``."""
 
         self._original_values = {}
+        self._contexts = []
         self._frozen = True
 
     @property
@@ -113,8 +114,9 @@ class Settings:
 
     @CACHE_DIR.setter
     def CACHE_DIR(self, path: str | Path):
-        self._cache_dir = Path(path)
-        self._cache_dir.mkdir(exist_ok=True, parents=True)
+        path = Path(path)
+        path.mkdir(exist_ok=True, parents=True)
+        self._cache_dir = path
 
     @property
     def HBAR(self) -> float:
@@ -145,18 +147,28 @@ class Settings:
         r"""
         Allows for setting multiple settings at once and saving the original values.
         """
-        self._original_values = {k: getattr(self, k) for k in kwargs}
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+        original_values = {k: getattr(self, k) for k in kwargs}
+        changed = []
+        try:
+            for k, v in kwargs.items():
+                setattr(self, k, v)
+                changed.append(k)
+        except BaseException:  # a rejected value leaves all the settings as they were
+            for k in changed:
+                setattr(self, k, original_values[k])
+            raise
+        self._original_values = original_values
         return self
 
     def __enter__(self):
         "context manager enter method"
+        self._contexts.append(self._original_values)
+        self._original_values = {}
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
         "context manager exit method that resets the settings to their original values"
-        for k, v in self._original_values.items():
+        for k, v in self._contexts.pop().items():
             setattr(self, k, v)
 
     # use rich.table to print the settings
-- 
2.43.0


From c7f1688883089cc64f90a8c57f799a49139a86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 09/56] fix: circuit optimisation draws its random orders from
 settings.rng

---
 mrmustard/path/branch_and_bound.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index 239d626..352c9a4 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -20,7 +20,6 @@ from __future__ import annotations
 
 import functools
 import operator
-import random
 from collections.abc import Generator
 from copy import deepcopy
 from math import factorial
@@ -31,6 +30,7 @@ import numpy as np
 
 from mrmustard.lab.circuit_components import CircuitComponent
 from mrmustard.physics.wires import Wires
+from mrmustard.utils.settings import settings
 
 Edge = tuple[int, int]
 
@@ -466,7 +466,7 @@ def random_solution(graph: Graph) -> Graph:
         Graph: The contracted graph
     """
     while edges := contractible_edges(graph):
-        graph = contract(graph, random.choice(edges))
+        graph = contract(graph, edges[settings.rng.integers(len(edges))])
     return graph
 
 
-- 
2.43.0


From 8dc1f3fd1d383908f2aa5a820fc236da07cbd58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 10/56] fix: samplers use the seed they are given for every
 mode, including seed 0

---
 mrmustard/lab/samplers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 700d459..00f720b 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -93,8 +93,10 @@ class Sampler(ABC):
         if len(state.modes) == 1:
             return self.sample_prob_dist(state, n_samples, seed)[0]
 
+        # all the modes are sampled from a single stream of random numbers
+        rng = settings.rng if seed is None else np.random.default_rng(seed)
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
+        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng)
 
         unique_samples, idxs, counts = np.unique(
             initial_samples,
@@ -107,7 +109,7 @@ class Sampler(ABC):
             prob = probs[idx]
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             reduced_state = (state >> meas_op) / norm
-            samples = self.sample(reduced_state, count)
+            samples = self.sample(reduced_state, count, rng)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
 
@@ -129,7 +131,7 @@ class Sampler(ABC):
             A tuple of the generated samples and the probability
             of obtaining the sample.
         """
-        rng = np.random.default_rng(seed) if seed else settings.rng
+        rng = settings.rng if seed is None else np.random.default_rng(seed)
         probs = self.probabilities(state)
         meas_outcomes = list(product(self.meas_outcomes, repeat=len(state.modes)))
         samples = rng.choice(
@@ -231,8 +233,10 @@ class HomodyneSampler(Sampler):
         if len(state.modes) == 1:
             return self.sample_prob_dist(state, n_samples, seed)[0]
 
+        # all the modes are sampled from a single stream of random numbers
+        rng = settings.rng if seed is None else np.random.default_rng(seed)
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
+        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng)
 
         unique_samples, idxs, counts = np.unique(
             initial_samples,
@@ -247,6 +251,6 @@ class HomodyneSampler(Sampler):
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             normalized_reduced_state = reduced_state / norm
-            samples = self.sample(normalized_reduced_state, count)
+            samples = self.sample(normalized_reduced_state, count, rng)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
-- 
2.43.0


From 132d4db6fc0e6aa08cc07d87e740c7651841c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 11/56] fix: components derived from another one do not share
 its wires

---
 mrmustard/lab/circuit_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 128a665..56447e6 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -355,6 +355,7 @@ class CircuitComponent:
         Returns:
             A circuit component with the given attributes.
         """
+        wires = wires.copy()  # so that the new component does not share its wires with others
         types = {"Ket", "DM", "Unitary", "Operation", "Channel", "Map"}
         for tp in cls.mro():
             if tp.__name__ in types:
-- 
2.43.0


From a38273a5544971b19ca013333ec7c28c0b9e0f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 12/56] fix: contraction of Bargmann ansatze pairs variables
 with the same label

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 9f5978b..31ea58d 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -377,9 +377,9 @@ class PolyExpAnsatz(Ansatz):
             )
 
         # --- Prepare for complex_gaussian_integral_2 ---  # TODO: finish fixing this
-        contracted_core = set(core1) & set(core2)
-        idx1_cv = sorted(core1.index(label) for label in contracted_core)
-        idx2_cv = sorted(core2.index(label) for label in contracted_core)
+        contracted_core = [label for label in core1 if label in core2]
+        idx1_cv = [core1.index(label) for label in contracted_core]
+        idx2_cv = [core2.index(label) for label in contracted_core]
 
         ls_labels = {f"__ls{i}" for i, ls in [(1, ls1), (2, ls2)] if ls}
         unique_batch_labels = set(batch1) | set(batch2) | ls_labels
-- 
2.43.0


From 59b2235ffb9ee73a7e9ee58fc0724dd13688835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 13/56] fix: products of two superpositions keep their batch
 and polynomial axes

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 31ea58d..eda6c6e 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -400,11 +400,12 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Reorder core dimensions ---
         if self._lin_sup and other._lin_sup:
-            batch_shape = self.batch_shape[:-1]
+            batch_shape = tuple(A.shape[:-4])
             flattened = self.batch_shape[-1] * other.batch_shape[-1]
+            shape_derived_vars = self.shape_derived_vars + other.shape_derived_vars
             A = math.reshape(A, (*batch_shape, flattened, *tuple(A.shape[-2:])))
             b = math.reshape(b, (*batch_shape, flattened, *tuple(b.shape[-1:])))
-            c = math.reshape(c, (*batch_shape, flattened, *self.shape_derived_vars))
+            c = math.reshape(c, (*batch_shape, flattened, *shape_derived_vars))
 
         result = PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup or other._lin_sup)
         leftover_core = [i for i in idx1 + idx2 if isinstance(i, int) and i not in contracted_core]
@@ -915,7 +916,8 @@ class PolyExpAnsatz(Ansatz):
         if self._lin_sup and other._lin_sup:  # we have two linear superposition dimensions
             As = math.reshape(As, (*As.shape[:-4], As.shape[-4] * As.shape[-3], *As.shape[-2:]))
             bs = math.reshape(bs, (*bs.shape[:-3], bs.shape[-3] * bs.shape[-2], *bs.shape[-1:]))
-            cs = math.reshape(cs, (*cs.shape[:-2], cs.shape[-2] * cs.shape[-1]))
+            shape_derived_vars = self.shape_derived_vars + other.shape_derived_vars
+            cs = math.reshape(cs, (*As.shape[:-2], *shape_derived_vars))
         return PolyExpAnsatz(As, bs, cs, lin_sup=self._lin_sup or other._lin_sup)
 
     def __call__(self: PolyExpAnsatz, *z_inputs: ArrayLike | None) -> Batch[ComplexTensor]:
-- 
2.43.0


From a42dd8b298714c036b28aea855c573c0f8d56640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 14/56] fix: sums of Bargmann ansatze with different numbers of
 derived variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index eda6c6e..504f8df 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -881,9 +881,14 @@ class PolyExpAnsatz(Ansatz):
 
         combined_matrices = pad_and_combine_Ab(A_self, A_other)
         combined_vectors = pad_and_combine_Ab(b_self, b_other)
+
+        # the padded variables come after the existing ones and appear to order zero
+        def add_derived_vars(c):
+            return math.reshape(c, tuple(c.shape) + (1,) * (n_derived_vars + 1 - len(c.shape)))
+
         combined_arrays = pad_and_combine_arrays(
-            math.atleast_nd(c_self, n_derived_vars + 1),
-            math.atleast_nd(c_other, n_derived_vars + 1),
+            add_derived_vars(c_self),
+            add_derived_vars(c_other),
         )
         return PolyExpAnsatz(
             combined_matrices,
-- 
2.43.0


From a7806a380983f329e264e30bcb066e7fd55dcebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 15/56] fix: batches of scalar ansatze can be compared

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 504f8df..0a1e002 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -731,9 +731,9 @@ class PolyExpAnsatz(Ansatz):
         """
         if not self.batch_shape:
             return self.A, self.b, self.c
-        A_vectorized = math.reshape(self.A, (-1, self.num_vars, self.num_vars))
-        b_vectorized = math.reshape(self.b, (-1, self.num_vars))
-        c_vectorized = math.reshape(self.c, (-1, *self.shape_derived_vars))
+        A_vectorized = math.reshape(self.A, (self.batch_size, self.num_vars, self.num_vars))
+        b_vectorized = math.reshape(self.b, (self.batch_size, self.num_vars))
+        c_vectorized = math.reshape(self.c, (self.batch_size, *self.shape_derived_vars))
         generators = [
             itertools.chain(
                 math.asnumpy(b_vectorized[i]).flat,
-- 
2.43.0


From 3b3b98de1e3d5f945fc26ffaea0da1ee7f0bd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 16/56] fix: batch strings may list the output batch dimensions
 in any order

---
 mrmustard/physics/gaussian_integrals.py | 12 ++++++++++++
 mrmustard/physics/utils.py              |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 6a82964..4bae089 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -241,6 +241,18 @@ def join_Abc(
             raise ValueError(f"Output dimension {dim} not found in inputs")
         output_shape.append(broadcast_dims[dim])
 
+    # Put the batch dimensions in the order in which they appear in the output
+    order1 = sorted(range(batch_dim1), key=lambda i: output_str.find(in1[i]))
+    order2 = sorted(range(batch_dim2), key=lambda i: output_str.find(in2[i]))
+    if order1 != list(range(batch_dim1)):
+        A1 = math.transpose(A1, (*order1, batch_dim1, batch_dim1 + 1))
+        b1 = math.transpose(b1, (*order1, batch_dim1))
+        c1_flat = math.transpose(c1_flat, (*order1, batch_dim1))
+    if order2 != list(range(batch_dim2)):
+        A2 = math.transpose(A2, (*order2, batch_dim2, batch_dim2 + 1))
+        b2 = math.transpose(b2, (*order2, batch_dim2))
+        c2_flat = math.transpose(c2_flat, (*order2, batch_dim2))
+
     # Create broadcast shapes
     broadcast_shape1 = []
     broadcast_shape2 = []
diff --git a/mrmustard/physics/utils.py b/mrmustard/physics/utils.py
index 3ee949c..c8da7e9 100644
--- a/mrmustard/physics/utils.py
+++ b/mrmustard/physics/utils.py
@@ -103,6 +103,9 @@ def reshape_args_to_batch_string(
     reshaped = []
     for arg, spec in zip(args, input_specs):
         new_shape = [dim_sizes[label] if label in spec else 1 for label in output_spec]
+        order = sorted(range(len(spec)), key=lambda i: output_spec.find(spec[i]))
+        if order != list(range(len(spec))):
+            arg = math.transpose(arg, order)
         reshaped.append(math.reshape(arg, new_shape))
     return reshaped
 
-- 
2.43.0


From 25d4e5a6be790aac6bd514b7ba4429c42dd7e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 17/56] fix: mm_einsum converts superpositions and polynomial
 ansatze to Fock correctly and keeps outer products of arrays

---
 mrmustard/physics/mm_einsum.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index a731e2c..d7b7dd2 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -129,6 +129,9 @@ def mm_einsum(
         common_core_idx = set(core_idx_a) & set(core_idx_b)
         force_bargmann = all(fock_dims.get(i, 1) == 0 for i in common_core_idx)
         force_fock = all(fock_dims.get(i, 1) != 0 for i in common_core_idx)
+        if not common_core_idx and all(isinstance(ansatze[i], ArrayAnsatz) for i in (a, b)):
+            # an outer product of arrays needs no conversion unless it is asked for
+            force_bargmann = any(fock_dims.get(i, 1) == 0 for i in core_idx_a + core_idx_b)
         if force_bargmann:
             ansatz_a = to_bargmann(ansatze[a])
             ansatz_b = to_bargmann(ansatze[b])
@@ -154,7 +157,10 @@ def mm_einsum(
     output_idx_str, output_idx_int = _strings(output), _ints(output)
 
     if len(output_idx_str) > 1:
-        result = result.reorder_batch([final_idx_str.index(i) for i in output_idx_str])
+        batch_order = [final_idx_str.index(i) for i in output_idx_str]
+        if result._lin_sup:
+            batch_order.append(len(batch_order))
+        result = result.reorder_batch(batch_order)
     if len(output_idx_int) > 1:
         result = result.reorder([final_idx_int.index(i) for i in output_idx_int])
     if final_idx_int and all(fock_dims.get(i, 1) == 0 for i in final_idx_int):
@@ -286,10 +292,20 @@ def to_fock(ansatz: Ansatz, shape: tuple[int, ...], stable: bool = False) -> Arr
         raise ValueError("Fock space dimension is 0.")
     if isinstance(ansatz, ArrayAnsatz):
         return ansatz.reduce(shape)
-    array = math.hermite_renormalized(*ansatz.triple, shape, stable)
+    A, b, c = ansatz.triple
+    batch_shape, batch_dims = ansatz.batch_shape, ansatz.batch_dims
+    if ansatz.num_derived_vars == 0:
+        array = math.hermite_renormalized(A, b, c, shape, stable)
+    else:
+        ones = math.ones(batch_shape, dtype=math.complex128)
+        array = math.hermite_renormalized(A, b, ones, shape + ansatz.shape_derived_vars, stable)
+        array = math.reshape(array, (*batch_shape, math.prod(shape), -1))
+        array = math.einsum("...ij,...j->...i", array, math.reshape(c, (*batch_shape, -1)))
+        array = math.reshape(array, batch_shape + shape)
     if ansatz._lin_sup:
-        array = math.sum(array, axis=ansatz.batch_dims)
-    return ArrayAnsatz(array, ansatz.batch_dims)
+        array = math.sum(array, axis=batch_dims - 1)
+        batch_dims -= 1
+    return ArrayAnsatz(array, batch_dims)
 
 
 def to_bargmann(ansatz: Ansatz) -> PolyExpAnsatz:
-- 
2.43.0


From adefcd7538787caa1becadb66eed9d05fbccac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 18/56] fix: ArrayAnsatz.reduce and addition of arrays with
 neither shape containing the other

---
 mrmustard/physics/ansatz/array_ansatz.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd81263..9bb9154 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -262,8 +262,9 @@ class ArrayAnsatz(Ansatz):
                 stacklevel=1,
             )
             padded = math.pad(
-                self.array,
-                [(0, 0)] * self.batch_dims + [(0, s - t) for s, t in zip(shape, self.core_shape)],
+                self.array[(..., *tuple(slice(0, s) for s in shape))],
+                [(0, 0)] * self.batch_dims
+                + [(0, max(s - t, 0)) for s, t in zip(shape, self.core_shape)],
             )
             return ArrayAnsatz(padded, self.batch_dims)
 
@@ -353,12 +354,9 @@ class ArrayAnsatz(Ansatz):
         if self.batch_dims != other.batch_dims:
             raise ValueError("Batch dimensions must match.")
         if self.core_shape != other.core_shape:
-            if math.prod(self.core_shape) > math.prod(other.core_shape):
-                self_array = self.array
-                other_array = other.reduce(self.core_shape).array
-            else:
-                self_array = self.reduce(other.core_shape).array
-                other_array = other.array
+            shape = tuple(max(s, t) for s, t in zip(self.core_shape, other.core_shape))
+            self_array = self.reduce(shape).array
+            other_array = other.reduce(shape).array
         else:
             self_array = self.array
             other_array = other.array
-- 
2.43.0


From 621c6b01ce6941362f911283b108d34728b3c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 19/56] fix: Wigner function of displaced and x-p correlated
 states

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 37 ++++++----------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 0a1e002..314a448 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -28,7 +28,6 @@ from numpy.typing import ArrayLike
 
 from mrmustard import math, settings, widgets
 from mrmustard.math.parameters import Variable
-from mrmustard.physics.fock_utils import c_in_PS
 from mrmustard.physics.gaussian_integrals import (
     complex_gaussian_integral_1,
     complex_gaussian_integral_2,
@@ -211,38 +210,22 @@ class PolyExpAnsatz(Ansatz):
         r"""
         The ansatz defined using real (i.e., phase-space) variables.
         """
-        n = self.A.shape[-1]
+        n = self.num_CV_vars
         if n % 2:
             raise ValueError(
                 f"A phase space ansatz must have even number of indices. (n={n} is odd)",
             )
 
-        if self.num_derived_vars == 0:
-            W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
-
-            A = math.einsum("ji,...jk,kl->...il", W, self.A, W)
-            b = math.einsum("ij,...j->...i", W, self.b)
-            c = self.c / (2 * settings.HBAR) ** (n // 2)
-            return PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup)
-
-        if self.num_derived_vars != 2:
-            raise ValueError("This transformation supports 2 core and 0 or 2 derived variables")
-        A_tmp = self.A
-
-        A_tmp = A_tmp[..., [0, 2, 1, 3], :][..., [0, 2, 1, 3]]
-        b = self.b[..., [0, 2, 1, 3]]
-        c = c_in_PS(self.c)  # implements PS transformations on ``c``
+        # the change of variables only concerns the CV variables
+        W = math.rotmat(n // 2) / math.sqrt(settings.HBAR, dtype=math.complex128)
+        I = math.eye(self.num_derived_vars, dtype=math.complex128)
+        O = math.zeros((n, self.num_derived_vars), dtype=math.complex128)
+        W = math.block([[W, O], [math.transpose(O), I]])
 
-        W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
-
-        A = math.einsum("ji,...jk,kl->...il", W, A_tmp, W)
-        b = math.einsum("ij,...j->...i", W, b)
-        c = c / (2 * settings.HBAR)
-
-        A_final = A[..., [0, 2, 1, 3], :][..., :, [0, 2, 1, 3]]
-        b_final = b[..., [0, 2, 1, 3]]
-
-        return PolyExpAnsatz(A_final, b_final, c, lin_sup=self._lin_sup)
+        A = math.einsum("ji,...jk,kl->...il", W, self.A, W)
+        b = math.einsum("ji,...j->...i", W, self.b)
+        c = self.c / (2 * settings.HBAR) ** (n // 2)
+        return PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup)
 
     @property
     def scalar(self) -> Scalar:
-- 
2.43.0


From 6991b6141074126c7a5d353d0e41961dc6ba91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 20/56] fix: quadrature eigenstates scale with hbar, displaced
 channels from XY

---
 mrmustard/physics/triples.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 9cc45cd..3db6f3c 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -344,7 +344,7 @@ def quadrature_eigenstates_Abc(
     hbar = settings.HBAR
     A = math.reshape(-math.exp(1j * 2 * phi), (*batch_shape, 1, 1))
     b = math.reshape(x * math.exp(1j * phi) * math.sqrt(2 / hbar), (*batch_shape, 1))
-    c = math.cast(1 / (np.pi) ** (1 / 4) * math.exp(-(x**2) / (2 * hbar)), math.complex128)
+    c = math.cast(1 / (np.pi * hbar) ** (1 / 4) * math.exp(-(x**2) / (2 * hbar)), math.complex128)
 
     return A, b, c
 
@@ -949,7 +949,7 @@ def XY_to_channel_Abc(
     """
     m = Y.shape[-1] // 2
     # considering no displacement if d is None
-    d = d if d else math.zeros(2 * m)
+    d = d if d is not None else math.zeros(2 * m)
 
     if X.shape != Y.shape:
         raise ValueError(
@@ -997,7 +997,7 @@ def XY_to_channel_Abc(
     A = Xm @ R @ xi_inv_in_blocks @ math.conj(R_transpose)
     xi_inv_d = math.einsum("...ij,...j->...i", xi_inv, d)
     x_xi_inv_d = math.einsum("...ij,...jk,...k->...i", X_transpose, xi_inv, d)
-    temp = math.concat([xi_inv_d, x_xi_inv_d], -1)
+    temp = math.concat([xi_inv_d, -x_xi_inv_d], -1)
     b = 1 / math.sqrt(complex(settings.HBAR)) * math.einsum("...ij,...j->...i", math.conj(R), temp)
     sandwiched_xi_inv = math.einsum("...i,...ij,...j->...", d, xi_inv, d)
     c = math.exp(-0.5 / settings.HBAR * sandwiched_xi_inv) / math.sqrt(math.det(xi))
-- 
2.43.0


From 775f524daff4f59c6d318f5c589a6b9b734750a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:56 +0000
Subject: [PATCH 21/56] fix: Gaussian fidelity of states for which the matrix
 square root does not exist

---
 mrmustard/physics/gaussian.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mrmustard/physics/gaussian.py b/mrmustard/physics/gaussian.py
index 943e4f7..744ae02 100644
--- a/mrmustard/physics/gaussian.py
+++ b/mrmustard/physics/gaussian.py
@@ -119,9 +119,7 @@ def fidelity(mu1: Vector, cov1: Matrix, mu2: Vector, cov2: Matrix) -> float:
         dtype=mu1.dtype,
     )  # convert to units where hbar = 1
     J = math.J(cov1.shape[0] // 2)
-    I = math.eye(cov1.shape[0])
     J = math.cast(J, "complex128")
-    I = math.cast(I, "complex128")
 
     cov12_inv = math.inv(cov1 + cov2)
 
@@ -129,10 +127,9 @@ def fidelity(mu1: Vector, cov1: Matrix, mu2: Vector, cov2: Matrix) -> float:
 
     W = -2 * (V @ (1j * J))
     W_inv = math.inv(W)
-    matsqrtm = math.sqrtm(
-        I - W_inv @ W_inv,
-    )  # this also handles the case where the input matrix is close to zero
-    f0_top = math.det((matsqrtm + I) @ (W @ (1j * J)))
+    # the eigenvalues are all that is needed: the square root of a singular matrix may not exist
+    vals = math.cast(math.eigvals(W_inv @ W_inv), "complex128")
+    f0_top = math.prod(math.sqrt(1 - vals) + 1) * math.det(W @ (1j * J))
     f0_bot = math.det(cov1 + cov2)
 
     f0 = math.sqrt(f0_top / f0_bot)  # square of equation 98
-- 
2.43.0


From 82eb05db8101f08448746acf6cc79a6775b4f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 22/56] fix: keep the weight of quadrature eigenstates
 independent of hbar (undoes that part of 6991b61)

---
 mrmustard/physics/triples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 3db6f3c..dfd1966 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -344,7 +344,7 @@ def quadrature_eigenstates_Abc(
     hbar = settings.HBAR
     A = math.reshape(-math.exp(1j * 2 * phi), (*batch_shape, 1, 1))
     b = math.reshape(x * math.exp(1j * phi) * math.sqrt(2 / hbar), (*batch_shape, 1))
-    c = math.cast(1 / (np.pi * hbar) ** (1 / 4) * math.exp(-(x**2) / (2 * hbar)), math.complex128)
+    c = math.cast(1 / (np.pi) ** (1 / 4) * math.exp(-(x**2) / (2 * hbar)), math.complex128)
 
     return A, b, c
 
-- 
2.43.0


From 6e2fc1769504923351506cfe38f6e31dc26f12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 23/56] fix: vanilla and schwinger beamsplitter on rectangular
 shapes

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index a291a67..f094958 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -69,7 +69,7 @@ def beamsplitter(
 
     # rank 3
     for m in range(M):
-        for n in range(N - m):
+        for n in range(min(N, P - m)):
             p = m + n
             if 0 < p < P:
                 G[m, n, p, 0] = (
@@ -282,7 +282,7 @@ def beamsplitter_schwinger(shape, theta, phi, max_N=None):
         E, V = np.linalg.eig(theta * iJy)
         block = V @ np.diag(np.exp(E)) @ np.conj(V.T)
         # insert the elements of the block into the output tensor
-        for i in range(max(0, N + 1 - c1), min(N + 1, c1)):
+        for i in range(max(0, N + 1 - c1), min(N + 1, c2)):
             for j in range(max(0, N + 1 - c1), min(N + 1, c2)):
                 U[N - i, i, N - j, j] = block[i, j]
     return U
-- 
2.43.0


From fbe8373cd630bfcf6993d764f4891350c6155267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 24/56] fix: gradients of the squeezing and beamsplitter
 amplitudes were twice their value

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 mrmustard/math/lattice/strategies/squeezer.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index f094958..ca9a84f 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -232,10 +232,10 @@ def beamsplitter_vjp(
     em = np.exp(-1j * phi)
 
     # omitting bottom-left block because dLdA should be zero there
-    dLdtheta = 2 * np.real(
+    dLdtheta = np.real(
         -st * dLdA[0, 2] - ct * em * dLdA[0, 3] + ct * e * dLdA[1, 2] - st * dLdA[1, 3],
     )
-    dLdphi = 2 * np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
+    dLdphi = np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
 
     return dLdtheta, dLdphi
 
diff --git a/mrmustard/math/lattice/strategies/squeezer.py b/mrmustard/math/lattice/strategies/squeezer.py
index f2f9a9a..4706b30 100644
--- a/mrmustard/math/lattice/strategies/squeezer.py
+++ b/mrmustard/math/lattice/strategies/squeezer.py
@@ -112,13 +112,13 @@ def squeezer_vjp(
     exp = np.exp(1j * phi)
     exp_conj = np.exp(-1j * phi)
 
-    dLdr = 2 * np.real(
+    dLdr = np.real(
         -dLdA[0, 0] * exp * d_tanh
         + dLdA[0, 1] * d_sech
         + dLdA[1, 1] * exp_conj * d_tanh
         - np.conj(dLdC) * 0.5 * tanh,  # / np.sqrt(np.cosh(r))
     )
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
 
     return dLdr, dLdphi
 
@@ -185,7 +185,7 @@ def squeezed_vjp(
 
     dLdC = np.sum(G * dLdG)  # np.sqrt(np.cosh(r)) cancels out with 1 / np.sqrt(np.cosh(r)) later
 
-    dLdr = 2 * np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh)
+    dLdr = np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh)
 
     return dLdr, dLdphi
-- 
2.43.0


From a081237bad9e787854210537c3e4c6d715e67095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:24 +0000
Subject: [PATCH 25/56] fix: conditional density matrices for small output
 cutoffs and for reordered inputs

---
 mrmustard/math/backend_numpy.py                    | 6 ++++--
 mrmustard/math/lattice/strategies/fast_diagonal.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 6400b87..af833b5 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -438,10 +438,12 @@ class BackendNumpy(BackendBase):
         c: np.ndarray,
         output_cutoff: int,
         pnr_cutoffs: tuple[int, ...],
-        stable: bool = False,
         reorderedAB: bool = True,
     ) -> np.ndarray:
-        return strategies.fast_diagonal(A, b, c, output_cutoff, pnr_cutoffs, stable).transpose(
+        if not reorderedAB:  # ``fast_diagonal`` takes the variables in blocks
+            order = np.arange(len(b)).reshape(-1, 2).T.flatten()
+            A, b = A[np.ix_(order, order)], b[order]
+        return strategies.fast_diagonal(A, b, c, output_cutoff, pnr_cutoffs, True).transpose(
             (-2, -1, *tuple(range(len(pnr_cutoffs)))),
         )
 
diff --git a/mrmustard/math/lattice/strategies/fast_diagonal.py b/mrmustard/math/lattice/strategies/fast_diagonal.py
index a40108e..dbceb33 100644
--- a/mrmustard/math/lattice/strategies/fast_diagonal.py
+++ b/mrmustard/math/lattice/strategies/fast_diagonal.py
@@ -65,7 +65,7 @@ def fast_diagonal(
     buffer_2 = {}
     buffer_1 = {}
     buffer_0 = {(0, 0) * (L - 1): output[(0,) * (L - 1)]}
-    for weight in range(1, 2 * output_cutoff + 2 * np.sum(pnr_cutoffs) - L):
+    for weight in range(1, 2 * np.sum(pnr_cutoffs) + 1):
         buffer_2, buffer_1, buffer_0 = buffer_1, buffer_0, buffer_2
         buffer_0.clear()
         for w in enumerate_diagonal_coords(weight, pnr_cutoffs):
-- 
2.43.0


From f11ded499cccbcd2980b4839765ad421b455e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 26/56] fix: gradients of arrays with axes of size one, garbage
 in out buffers, defaults and gradient of the binomial strategy in jax

---
 mrmustard/math/backend_jax.py                          | 10 +++++++++-
 mrmustard/math/jax_vjps/hermite.py                     |  2 +-
 mrmustard/math/lattice/strategies/vanilla/core.py      |  4 ++++
 mrmustard/math/lattice/strategies/vanilla/gradients.py |  8 ++++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index f0f2d0f..53f931d 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -25,6 +25,7 @@ from platformdirs import user_cache_dir
 
 from mrmustard.lab import Circuit, CircuitComponent
 from mrmustard.physics.ansatz import Ansatz
+from mrmustard.utils.settings import settings
 
 from .backend_base import BackendBase
 from .parameter_set import ParameterSet
@@ -508,7 +509,14 @@ class BackendJax(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> jnp.ndarray:
-        return hermite_renormalized_binomial_jax(A, B, C, shape, max_l2, global_cutoff)
+        return hermite_renormalized_binomial_jax(
+            A,
+            B,
+            C,
+            tuple(shape),
+            max_l2 or settings.AUTOSHAPE_PROBABILITY,
+            global_cutoff or sum(shape) - len(shape) + 1,
+        )
 
     def hermite_renormalized_diagonal(
         self,
diff --git a/mrmustard/math/jax_vjps/hermite.py b/mrmustard/math/jax_vjps/hermite.py
index cce481f..cdd094c 100644
--- a/mrmustard/math/jax_vjps/hermite.py
+++ b/mrmustard/math/jax_vjps/hermite.py
@@ -225,7 +225,7 @@ def hermite_renormalized_binomial_jax_bwd(shape, max_l2, global_cutoff, res, g):
     """
     G, A, b, c = res
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_vjp(np.array(G), np.array(c), np.array(g)),
+        lambda G, c, g: strategies.vanilla_vjp_numba(np.array(G), np.array(c), np.array(g)),
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
diff --git a/mrmustard/math/lattice/strategies/vanilla/core.py b/mrmustard/math/lattice/strategies/vanilla/core.py
index d483282..cdf8a08 100644
--- a/mrmustard/math/lattice/strategies/vanilla/core.py
+++ b/mrmustard/math/lattice/strategies/vanilla/core.py
@@ -71,6 +71,8 @@ def vanilla_numba(
 
     # init flat output tensor
     G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:
+        G[:] = 0.0  # entries are read, with a zero coefficient, before they are written
 
     # initialize the n-dim index
     nd_index = np.ndindex(shape)
@@ -171,6 +173,8 @@ def stable_numba(
 
     # initialize flat output tensor
     G = out.ravel() if out is not None else np.zeros(np.prod(shape_arr), dtype=np.complex128)
+    if out is not None:
+        G[:] = 0.0  # entries are read, with a zero coefficient, before they are written
 
     # initialize flat index and n-dim iterator
     flat_index = 0
diff --git a/mrmustard/math/lattice/strategies/vanilla/gradients.py b/mrmustard/math/lattice/strategies/vanilla/gradients.py
index 8d99b74..25d9523 100644
--- a/mrmustard/math/lattice/strategies/vanilla/gradients.py
+++ b/mrmustard/math/lattice/strategies/vanilla/gradients.py
@@ -65,14 +65,18 @@ def vanilla_vjp_numba(
         # contributions from pivot and lower neighbours
         for i in range(D):
             pivot = (flat_index + 1) - strides[i]
-            db[i] = SQRT[index_u[i]] * G_lin[pivot]
+            db[i] = SQRT[index_u[i]] * G_lin[pivot] if index_u[i] > 0 else 0.0
             dA[i, i] = (
                 0.5 * SQRT[index_u[i]] * SQRT[index_u[i] - 1] * G_lin[pivot - strides[i]]
                 if index_u[i] > 1
                 else 0.0
             )
             for j in range(i + 1, D):
-                dA[i, j] = SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                dA[i, j] = (
+                    SQRT[index_u[i]] * SQRT[index_u[j]] * G_lin[pivot - strides[j]]
+                    if index_u[i] > 0 and index_u[j] > 0
+                    else 0.0
+                )
 
         dLdA += dA * dLdG[index_u]
         dLdb += db * dLdG[index_u]
-- 
2.43.0


From 263c569a4f2d01572ab23145bbe9561702b2857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 27/56] fix: Fock distribution of multi-mode density matrices

---
 mrmustard/lab/states/base.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 533d3d7..f808452 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -19,7 +19,6 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 from enum import Enum
-from itertools import product
 
 import numpy as np
 import plotly.graph_objects as go
@@ -453,18 +452,15 @@ class State(CircuitComponent):
         Returns:
             The Fock distribution.
         """
-        batch_shape = self.ansatz.batch_shape
-        batch_dim = self.ansatz.batch_dims
+        n_modes = self.n_modes
         fock_array = self.fock_array(cutoff)
+        batch_shape = fock_array.shape[: len(fock_array.shape) - len(self.wires)]
         if not self.wires.ket or not self.wires.bra:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
-        n_modes = self.n_modes
-        if self.is_separable:
-            for i in range(n_modes):
-                fock_array = math.diagonal(fock_array, axis1=-n_modes - 1, axis2=-(1 + i))
-            return math.reshape(math.abs(fock_array), (*batch_shape, -1))
-        indices_list = [(...,) + ns * 2 for ns in product(list(range(cutoff)), repeat=n_modes)]
-        return math.stack([fock_array[indices] for indices in indices_list], axis=batch_dim)
+        for i in range(n_modes):  # the diagonal of each mode, in order, goes to the last axis
+            rest = n_modes - i
+            fock_array = math.diagonal(fock_array, axis1=-2 * rest - i, axis2=-rest - i)
+        return math.reshape(math.real(fock_array), (*batch_shape, -1))
 
     @abstractmethod
     def formal_stellar_decomposition(
-- 
2.43.0


From fb56e2a8b6ccbad053f40ff28c020db890404730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 28/56] fix: gradient of conditional density matrices did not
 compile

---
 .../compactFock/singleLeftoverMode_grad.py    | 104 +++++++++---------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
index 2990a95..6b4ba0b 100644
--- a/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
+++ b/mrmustard/math/lattice/strategies/compactFock/singleLeftoverMode_grad.py
@@ -36,9 +36,9 @@ def calc_dA_dB(
     """
     Apply the derivated recurrence relation.
     """
-    dA = arr_read_pivot_dA[(m, n, *read_GB)] * B[i]
-    dB = arr_read_pivot_dB[(m, n, *read_GB)] * B[i]
-    dB[i] += arr_read_pivot[(m, n, *read_GB)]
+    dA = arr_read_pivot_dA[(m, n) + read_GB] * B[i]
+    dB = arr_read_pivot_dB[(m, n) + read_GB] * B[i]
+    dB[i] += arr_read_pivot[(m, n) + read_GB]
     for l_prime, l in enumerate(l_range):
         dA += K_l_adapted[l_prime] * A_adapted[l_prime] * G_in_dA_adapted[l_prime]
         dB += K_l_adapted[l_prime] * A_adapted[l_prime] * G_in_dB_adapted[l_prime]
@@ -76,7 +76,7 @@ def write_block_grad(
     G_in_dA_adapted = G_in_dA[0, 0]
     G_in_dB_adapted = G_in_dB[0, 0]
     K_l_adapted = K_l
-    arr_write_dA[(0, 0, *write)], arr_write_dB[(0, 0, *write)] = calc_dA_dB(
+    arr_write_dA[(0, 0) + write], arr_write_dB[(0, 0) + write] = calc_dA_dB(
         m,
         n,
         i,
@@ -99,23 +99,23 @@ def write_block_grad(
     for n in range(1, cutoff_leftoverMode):
         K_l_adapted = np.hstack((np.array([np.sqrt(n)]), K_l))
         G_in_adapted = np.hstack(
-            (np.array([arr_read_pivot[(0, n - 1, *read_GB)] * np.sqrt(n)]), G_in[0, n]),
+            (np.array([arr_read_pivot[(0, n - 1) + read_GB] * np.sqrt(n)]), G_in[0, n]),
         )
         G_in_dA_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dA[(0, n - 1, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dA[(0, n - 1) + read_GB], axis=0),
                 G_in_dA[0, n],
             ),
             axis=0,
         )
         G_in_dB_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dB[(0, n - 1, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dB[(0, n - 1) + read_GB], axis=0),
                 G_in_dB[0, n],
             ),
             axis=0,
         )
-        arr_write_dA[(0, n, *write)], arr_write_dB[(0, n, *write)] = calc_dA_dB(
+        arr_write_dA[(0, n) + write], arr_write_dB[(0, n) + write] = calc_dA_dB(
             m,
             n,
             i,
@@ -139,23 +139,23 @@ def write_block_grad(
     for m in range(1, cutoff_leftoverMode):
         K_l_adapted = np.hstack((np.array([np.sqrt(m)]), K_l))
         G_in_adapted = np.hstack(
-            (np.array([arr_read_pivot[(m - 1, 0, *read_GB)] * np.sqrt(m)]), G_in[m, 0]),
+            (np.array([arr_read_pivot[(m - 1, 0) + read_GB] * np.sqrt(m)]), G_in[m, 0]),
         )
         G_in_dA_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dA[(m - 1, 0, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dA[(m - 1, 0) + read_GB], axis=0),
                 G_in_dA[m, 0],
             ),
             axis=0,
         )
         G_in_dB_adapted = np.concatenate(
             (
-                np.expand_dims(arr_read_pivot_dB[(m - 1, 0, *read_GB)], axis=0),
+                np.expand_dims(arr_read_pivot_dB[(m - 1, 0) + read_GB], axis=0),
                 G_in_dB[m, 0],
             ),
             axis=0,
         )
-        arr_write_dA[(m, 0, *write)], arr_write_dB[(m, 0, *write)] = calc_dA_dB(
+        arr_write_dA[(m, 0) + write], arr_write_dB[(m, 0) + write] = calc_dA_dB(
             m,
             n,
             i,
@@ -182,8 +182,8 @@ def write_block_grad(
                 (
                     np.array(
                         [
-                            arr_read_pivot[(m - 1, n, *read_GB)] * np.sqrt(m),
-                            arr_read_pivot[(m, n - 1, *read_GB)] * np.sqrt(n),
+                            arr_read_pivot[(m - 1, n) + read_GB] * np.sqrt(m),
+                            arr_read_pivot[(m, n - 1) + read_GB] * np.sqrt(n),
                         ],
                     ),
                     G_in[m, n],
@@ -191,21 +191,21 @@ def write_block_grad(
             )
             G_in_dA_adapted = np.concatenate(
                 (
-                    np.expand_dims(arr_read_pivot_dA[(m - 1, n, *read_GB)], axis=0),
-                    np.expand_dims(arr_read_pivot_dA[(m, n - 1, *read_GB)], axis=0),
+                    np.expand_dims(arr_read_pivot_dA[(m - 1, n) + read_GB], axis=0),
+                    np.expand_dims(arr_read_pivot_dA[(m, n - 1) + read_GB], axis=0),
                     G_in_dA[m, n],
                 ),
                 axis=0,
             )
             G_in_dB_adapted = np.concatenate(
                 (
-                    np.expand_dims(arr_read_pivot_dB[(m - 1, n, *read_GB)], axis=0),
-                    np.expand_dims(arr_read_pivot_dB[(m, n - 1, *read_GB)], axis=0),
+                    np.expand_dims(arr_read_pivot_dB[(m - 1, n) + read_GB], axis=0),
+                    np.expand_dims(arr_read_pivot_dB[(m, n - 1) + read_GB], axis=0),
                     G_in_dB[m, n],
                 ),
                 axis=0,
             )
-            arr_write_dA[(m, n, *write)], arr_write_dB[(m, n, *write)] = calc_dA_dB(
+            arr_write_dA[(m, n) + write], arr_write_dB[(m, n) + write] = calc_dA_dB(
                 m,
                 n,
                 i,
@@ -243,9 +243,9 @@ def read_block(
     """
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            arr_write[m, n, idx_write] = arr_read[(m, n, *idx_read_tail)]
-            arr_write_dA[m, n, idx_write] = arr_read_dA[(m, n, *idx_read_tail)]
-            arr_write_dB[m, n, idx_write] = arr_read_dB[(m, n, *idx_read_tail)]
+            arr_write[m, n, idx_write] = arr_read[(m, n) + idx_read_tail]
+            arr_write_dA[m, n, idx_write] = arr_read_dA[(m, n) + idx_read_tail]
+            arr_write_dB[m, n, idx_write] = arr_read_dB[(m, n) + idx_read_tail]
 
     return arr_write, arr_write_dA, arr_write_dB
 
@@ -303,7 +303,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
     GB = np.zeros((cutoff_leftoverMode, cutoff_leftoverMode, len(B)), dtype=np.complex128)
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            GB[m, n] = arr1[(m, n, *read_GB)] * B
+            GB[m, n] = arr1[(m, n) + read_GB] * B
 
     # Array0
     G_in, G_in_dA, G_in_dB = read_block(
@@ -329,7 +329,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
             arr2,
             arr2_dA,
             arr2_dB,
-            (d, *params_adapted),
+            (d,) + params_adapted,
             cutoff_leftoverMode,
         )
 
@@ -345,7 +345,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
                 arr1001,
                 arr1001_dA,
                 arr1001_dB,
-                (d, i - d - 1, *params_adapted),
+                (d, i - d - 1) + params_adapted,
                 cutoff_leftoverMode,
             )
             G_in, G_in_dA, G_in_dB = read_block(
@@ -356,7 +356,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
                 arr1010,
                 arr1010_dA,
                 arr1010_dB,
-                (d, i - d - 1, *params_adapted),
+                (d, i - d - 1) + params_adapted,
                 cutoff_leftoverMode,
             )
 
@@ -388,7 +388,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
 
     # Array2
     if params[d] + 2 < cutoffs_tail[d]:
-        write = (d, *params)
+        write = (d,) + params
         arr2_dA, arr2_dB = write_block_grad(
             2 * d + 2,
             write,
@@ -411,7 +411,7 @@ def use_offDiag_pivot_grad(  # noqa: C901
     # Array11
     for i in range(d + 1, M):
         if params[i] + 1 < cutoffs_tail[i]:
-            write = (d, i - d - 1, *params)
+            write = (d, i - d - 1) + params
             arr1010_dA, arr1010_dB = write_block_grad(
                 2 * i + 2,
                 write,
@@ -500,7 +500,7 @@ def use_diag_pivot_grad(
     GB = np.zeros((cutoff_leftoverMode, cutoff_leftoverMode, len(B)), dtype=np.complex128)
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode):
-            GB[m, n] = arr0[(m, n, *read_GB)] * B
+            GB[m, n] = arr0[(m, n) + read_GB] * B
 
     # Array1
     for i in range(2 * M):
@@ -533,7 +533,7 @@ def use_diag_pivot_grad(
             i != 1 or params[0] + 2 < cutoffs_tail[0]
         ):
             # this prevents a few elements from being written that will never be read
-            write = (i, *params)
+            write = (i,) + params
             arr1_dA, arr1_dB = write_block_grad(
                 i + 2,
                 write,
@@ -601,38 +601,38 @@ def fock_representation_1leftoverMode_grad_NUMBA(
 
     # fill first mode for all PNR detections equal to zero
     for m in range(cutoff_leftoverMode - 1):
-        arr0_dA[(m + 1, 0, *zero_tuple)] = (
-            arr0_dA[(m, 0, *zero_tuple)] * B[0]
-            + np.sqrt(m) * A[0, 0] * arr0_dA[(m - 1, 0, *zero_tuple)]
+        arr0_dA[(m + 1, 0) + zero_tuple] = (
+            arr0_dA[(m, 0) + zero_tuple] * B[0]
+            + np.sqrt(m) * A[0, 0] * arr0_dA[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dA[(m + 1, 0, *zero_tuple)][0, 0] += (
-            np.sqrt(m) * arr0[(m - 1, 0, *zero_tuple)]
+        arr0_dA[(m + 1, 0) + zero_tuple][0, 0] += (
+            np.sqrt(m) * arr0[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dB[(m + 1, 0, *zero_tuple)] = (
-            arr0_dB[(m, 0, *zero_tuple)] * B[0]
-            + np.sqrt(m) * A[0, 0] * arr0_dB[(m - 1, 0, *zero_tuple)]
+        arr0_dB[(m + 1, 0) + zero_tuple] = (
+            arr0_dB[(m, 0) + zero_tuple] * B[0]
+            + np.sqrt(m) * A[0, 0] * arr0_dB[(m - 1, 0) + zero_tuple]
         ) / np.sqrt(m + 1)
-        arr0_dB[(m + 1, 0, *zero_tuple)][0] += arr0[(m, 0, *zero_tuple)] / np.sqrt(m + 1)
+        arr0_dB[(m + 1, 0) + zero_tuple][0] += arr0[(m, 0) + zero_tuple] / np.sqrt(m + 1)
 
     for m in range(cutoff_leftoverMode):
         for n in range(cutoff_leftoverMode - 1):
-            arr0_dA[(m, n + 1, *zero_tuple)] = (
-                arr0_dA[(m, n, *zero_tuple)] * B[1]
-                + np.sqrt(m) * A[1, 0] * arr0_dA[(m - 1, n, *zero_tuple)]
-                + np.sqrt(n) * A[1, 1] * arr0_dA[(m, n - 1, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple] = (
+                arr0_dA[(m, n) + zero_tuple] * B[1]
+                + np.sqrt(m) * A[1, 0] * arr0_dA[(m - 1, n) + zero_tuple]
+                + np.sqrt(n) * A[1, 1] * arr0_dA[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dA[(m, n + 1, *zero_tuple)][1, 0] += (
-                np.sqrt(m) * arr0[(m - 1, n, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple][1, 0] += (
+                np.sqrt(m) * arr0[(m - 1, n) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dA[(m, n + 1, *zero_tuple)][1, 1] += (
-                np.sqrt(n) * arr0[(m, n - 1, *zero_tuple)]
+            arr0_dA[(m, n + 1) + zero_tuple][1, 1] += (
+                np.sqrt(n) * arr0[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dB[(m, n + 1, *zero_tuple)] = (
-                arr0_dB[(m, n, *zero_tuple)] * B[1]
-                + np.sqrt(m) * A[1, 0] * arr0_dB[(m - 1, n, *zero_tuple)]
-                + np.sqrt(n) * A[1, 1] * arr0_dB[(m, n - 1, *zero_tuple)]
+            arr0_dB[(m, n + 1) + zero_tuple] = (
+                arr0_dB[(m, n) + zero_tuple] * B[1]
+                + np.sqrt(m) * A[1, 0] * arr0_dB[(m - 1, n) + zero_tuple]
+                + np.sqrt(n) * A[1, 1] * arr0_dB[(m, n - 1) + zero_tuple]
             ) / np.sqrt(n + 1)
-            arr0_dB[(m, n + 1, *zero_tuple)][1] += arr0[(m, n, *zero_tuple)] / np.sqrt(n + 1)
+            arr0_dB[(m, n + 1) + zero_tuple][1] += arr0[(m, n) + zero_tuple] / np.sqrt(n + 1)
 
     dict_params = construct_dict_params(cutoffs_tail, tuple_type, list_type)
     for sum_params in range(sum(cutoffs_tail)):
-- 
2.43.0


From 30ea31713e68af96b9c4a75c835bef4716fab7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 29/56] fix: phase noise on the right mode, initial values of
 matrix variables, update rule of the damping, repr of complex parameters

---
 mrmustard/lab/transformations/fockdamping.py |  1 -
 mrmustard/lab/transformations/phasenoise.py  |  6 ++++--
 mrmustard/math/parameters.py                 | 10 +++++-----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/mrmustard/lab/transformations/fockdamping.py b/mrmustard/lab/transformations/fockdamping.py
index b0aebf7..fade9bc 100644
--- a/mrmustard/lab/transformations/fockdamping.py
+++ b/mrmustard/lab/transformations/fockdamping.py
@@ -82,7 +82,6 @@ class FockDamping(Operation):
                 damping,
                 "damping",
                 damping_bounds,
-                None,
                 dtype=math.float64,
             ),
         )
diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 418b08d..cfd5deb 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -98,12 +98,14 @@ class PhaseNoise(Channel):
         array = other.fock_array()
         mode_indices = np.indices(other.ansatz.core_shape)
         for mode in self.modes:
+            (bra,) = other.wires.output.bra[mode].indices
+            (ket,) = other.wires.output.ket[mode].indices
             phase_factors = math.exp(
                 -0.5
-                * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
+                * (mode_indices[bra] - mode_indices[ket]) ** 2
                 * self.parameters.phase_stdev.value**2,
             )
-            array *= phase_factors
+            array = array * phase_factors
         return CircuitComponent._from_attributes(
             ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
             other.wires,
diff --git a/mrmustard/math/parameters.py b/mrmustard/math/parameters.py
index 59a1b58..11c5d76 100644
--- a/mrmustard/math/parameters.py
+++ b/mrmustard/math/parameters.py
@@ -82,8 +82,8 @@ def format_value(param: Constant | Variable) -> tuple[str, str]:
         shape_str = str(param.value.shape)
 
         # Check if values should be formatted as integers
-        is_integer_like = math.issubdtype(value.dtype, np.integer) or math.all(
-            math.equal(math.mod(value, 1), 0),
+        is_integer_like = math.issubdtype(value.dtype, np.integer) or (
+            not math.iscomplexobj(value) and math.all(math.equal(math.mod(value, 1), 0))
         )
 
         flat = value.flat
@@ -265,7 +265,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for orthogonal optimization.
         """
-        value = value or math.random_orthogonal(N)
+        value = value if value is not None else math.random_orthogonal(N)
         return Variable(value, name, bounds, "update_orthogonal")
 
     @staticmethod
@@ -289,7 +289,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for simplectic optimization.
         """
-        value = value or math.random_symplectic(N)
+        value = value if value is not None else math.random_symplectic(N)
         return Variable(value, name, bounds, "update_symplectic")
 
     @staticmethod
@@ -313,7 +313,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for unitary optimization.
         """
-        value = value or math.random_unitary(N)
+        value = value if value is not None else math.random_unitary(N)
         return Variable(value, name, bounds, "update_unitary")
 
     def _tree_flatten(self):  # pragma: no cover
-- 
2.43.0


From e6ce3c782220130d5fb46f6610147a8a8f5ed4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 30/56] fix: parameter sets rebuilt by jax keep the order of
 variables and share nothing with the original

---
 mrmustard/math/parameter_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/parameter_set.py b/mrmustard/math/parameter_set.py
index 78492e0..b2a4a4f 100644
--- a/mrmustard/math/parameter_set.py
+++ b/mrmustard/math/parameter_set.py
@@ -91,8 +91,10 @@ class ParameterSet:
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        ret._variables = children[0]
-        ret._names, ret._constants = aux_data
+        names, constants = aux_data
+        # the children come with sorted keys, and the auxiliary data belongs to the original
+        ret._variables = {name: children[0][name] for name in names if name in children[0]}
+        ret._names, ret._constants = list(names), dict(constants)
         for name in ret.names:
             if name in ret.constants:
                 ret.__dict__[name] = ret.constants[name]
-- 
2.43.0


From 67010d68947b534ccda9d72590091edf843fd9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 31/56] fix: batch dimensions of a pure operation applied to a
 mixed state, Bargmann form of a batched array, sum of batched superpositions

---
 mrmustard/lab/circuit_components.py        | 12 ++++++++++--
 mrmustard/physics/ansatz/polyexp_ansatz.py |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 56447e6..61a9dc1 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -36,7 +36,7 @@ from mrmustard.math.parameters import Variable
 from mrmustard.physics.ansatz import Ansatz, ArrayAnsatz, PolyExpAnsatz
 from mrmustard.physics.fock_utils import oscillator_eigenstate
 from mrmustard.physics.triples import identity_Abc
-from mrmustard.physics.utils import outer_product_batch_str, zip_batch_strings
+from mrmustard.physics.utils import generate_batch_str, outer_product_batch_str, zip_batch_strings
 from mrmustard.physics.wires import ReprEnum, Wires
 from mrmustard.utils.typing import (
     Batch,
@@ -679,6 +679,9 @@ class CircuitComponent:
             A, b, c = self.ansatz._original_abc_data
         else:
             A, b, _ = identity_Abc(len(self.wires.quantum))
+            batch_shape = self.ansatz.batch_shape
+            A = math.broadcast_to(A, (*batch_shape, *A.shape))
+            b = math.broadcast_to(b, (*batch_shape, *b.shape))
             c = self.ansatz.data
         ansatz = PolyExpAnsatz(A, b, c)
         wires = self.wires.copy()
@@ -1003,7 +1006,12 @@ class CircuitComponent:
         elif self_needs_bra or self_needs_ket:
             ret = self.adjoint.contract(self.contract(other), "zip")
         elif other_needs_bra or other_needs_ket:
-            ret = self.contract(other.adjoint).contract(other)
+            # the two sides of ``other`` share its batch dimensions
+            self_batch_dims = self.ansatz.batch_dims - self.ansatz._lin_sup
+            other_batch_dims = other.ansatz.batch_dims - other.ansatz._lin_sup
+            both = generate_batch_str(self_batch_dims + other_batch_dims)
+            side = generate_batch_str(other_batch_dims, self_batch_dims)
+            ret = self.contract(other.adjoint).contract(other, f"{both},{side}->{both}")
         else:
             msg = f"``>>`` not supported between {self} and {other} because it's not clear "
             msg += "whether or where to add bra wires. Use ``@`` instead and specify all the components."
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 314a448..dfb03ec 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -831,7 +831,7 @@ class PolyExpAnsatz(Ansatz):
             raise ValueError(
                 f"The number of CV variables must match. Got {self.num_CV_vars} and {other.num_CV_vars}.",
             )
-        if (self.batch_shape and not self._lin_sup) or (other.batch_shape and not other._lin_sup):
+        if self.batch_dims > self._lin_sup or other.batch_dims > other._lin_sup:
             raise ValueError(
                 f"Cannot add PolyExpAnsatz with batch dimensions {self.batch_shape} and {other.batch_shape}.",
             )
-- 
2.43.0


From 3cfd6884033e27b3f440ee0e55c6972d3002aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 32/56] fix: standard order of wires for large mode numbers

---
 mrmustard/physics/wires.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index a1b0f85..8fe4a41 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -98,12 +98,12 @@ class QuantumWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, bool, bool, int]:
         """
         Artificial ordering for sorting quantum wires.
         Order achieved is by bra/ket, then out/in, then mode.
         """
-        return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
+        return (0, self.is_ket, not self.is_out, self.mode)
 
     def __eq__(self, other: QuantumWire) -> bool:
         if not isinstance(other, QuantumWire):
@@ -148,12 +148,12 @@ class ClassicalWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, bool, bool, int]:
         """
         Artificial ordering for sorting classical wires.
         Order is by out/in, then mode. Classical wires always come after quantum wires.
         """
-        return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
+        return (1, False, not self.is_out, self.mode)
 
     def __eq__(self, other: ClassicalWire) -> bool:
         if not isinstance(other, ClassicalWire):
-- 
2.43.0


From b07d7027ccd0a5272b063de17d31294503375273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 33/56] fix: branch of the square root in complex Gaussian
 integrals over several modes

---
 mrmustard/physics/gaussian_integrals.py | 43 +++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 4bae089..f662881 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -362,6 +362,45 @@ def join_Abc(
     return A, b, math.exp(log_c)
 
 
+def inverse_sqrt_det(M, det_M):
+    r"""
+    The value of :math:`\sqrt{(-1)^m / \det M}` on the branch on which it is a Gaussian integral.
+
+    Integrating over one pair of conjugate variables at a time, each integral contributes the
+    principal square root of minus the ratio of two consecutive leading minors of ``M`` (in pairs of
+    variables). The product of the principal square roots can differ in sign from the principal
+    square root of the product, which is only used when one of the minors vanishes.
+
+    Args:
+        M: the matrix of the quadratic form
+        det_M: the determinant of M
+
+    Returns:
+        The inverse square root.
+    """
+    m = M.shape[-1] // 2
+    principal = math.sqrt(math.cast((-1) ** m / det_M, "complex128"))
+    if m == 1:
+        return principal
+
+    product = math.ones_like(principal)
+    regular = math.ones_like(principal)
+    previous = math.ones_like(principal)
+    for k in range(1, m + 1):
+        if k < m:
+            idx = math.astensor([*range(k), *range(m, m + k)], dtype=math.int64)
+            minor = math.det(math.gather(math.gather(M, idx, axis=-1), idx, axis=-2))
+        else:
+            minor = det_M
+        minor = math.cast(minor, "complex128")
+        nonzero = math.cast(math.abs(minor) > 1e-12, "complex128")
+        minor = minor * nonzero + (1 - nonzero)
+        product = product * math.sqrt(-previous / minor)
+        regular = regular * nonzero
+        previous = minor
+    return product * regular + principal * (1 - regular)
+
+
 def true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     r"""
     True branch of the complex gaussian_integral_1 function.
@@ -386,9 +425,7 @@ def true_branch_complex_gaussian_integral_1(m, M, bM, det_M, log_c, D, R, bR):
     inv_M = math.inv(M)
     M_bM = math.solve(M, bM)
 
-    log_c_factor = math.log(math.sqrt(math.cast((-1) ** m / det_M, "complex128"))) + (
-        -0.5 * math.sum(bM * M_bM, axis=-1)
-    )
+    log_c_factor = math.log(inverse_sqrt_det(M, det_M)) + (-0.5 * math.sum(bM * M_bM, axis=-1))
     log_c_reshaped = math.reshape(log_c_factor, batch_shape + (1,) * (len(log_c.shape[batch_dim:])))
     c_post = math.exp(log_c + log_c_reshaped)
 
-- 
2.43.0


From 775c1705e5b9e57c662c467b050ae9de36a1085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 34/56] fix: quadrature representation of Fock arrays for any
 mode labels and any value of HBAR

---
 mrmustard/lab/circuit_components.py | 12 +++++-------
 mrmustard/math/caching.py           | 13 ++++++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 61a9dc1..4efa20e 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -590,6 +590,7 @@ class CircuitComponent:
         Returns:
             A circuit component with the given quadrature representation.
         """
+        letters = {mode: chr(97 + idx) for idx, mode in enumerate(self.modes)}
         if isinstance(self.ansatz, ArrayAnsatz):
             conjugates = [i not in self.wires.ket.indices for i in range(len(self.wires.indices))]
             dims = self.ansatz.core_dims
@@ -614,12 +615,9 @@ class CircuitComponent:
             # Convert each dimension to quadrature
             fock_string = "".join([chr(97 + self.n_modes + dim) for dim in range(dims)])
             q_string = "".join(
-                [
-                    f"{fock_string[idx]}{chr(97 + wire.mode)},"
-                    for idx, wire in enumerate(self.wires)
-                ],
+                [f"{fock_string[idx]}{letters[wire.mode]}," for idx, wire in enumerate(self.wires)],
             )[:-1]
-            out_string = "".join([chr(97 + mode) for mode in self.modes])
+            out_string = "".join([letters[mode] for mode in self.modes])
             ret = math.einsum(
                 "..." + fock_string + "," + q_string + "->" + out_string + "...",
                 self.ansatz.array,
@@ -628,9 +626,9 @@ class CircuitComponent:
             )
         else:
             batch_str = (
-                "".join([chr(97 + wire.mode) + "," for wire in self.wires])[:-1]
+                "".join([letters[wire.mode] + "," for wire in self.wires])[:-1]
                 + "->"
-                + "".join([chr(97 + mode) for mode in self.modes])
+                + "".join([letters[mode] for mode in self.modes])
             )
             ret = self.to_quadrature(phi=phi).ansatz.eval(*quad, batch_string=batch_str)
         batch_shape = (
diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 9f74b94..68808c4 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -19,6 +19,7 @@ from functools import lru_cache, wraps
 import numpy as np
 
 from mrmustard.math.backend_manager import BackendManager
+from mrmustard.utils.settings import settings
 
 math = BackendManager()
 
@@ -29,16 +30,22 @@ def tensor_int_cache(fn):
 
     To do so the input vector (non-hashable) is converted into a numpy array (non-hashable)
     and then into a tuple (hashable). This tuple is used by ``functools.lru_cache`` to cache
-    the result."""
+    the result. Results depend on the value of ``settings.HBAR`` and on the backend, which are
+    therefore part of the key of the cache."""
 
     @lru_cache
-    def cached_wrapper(hashable_array, cutoff):
+    def cached_wrapper(hashable_array, cutoff, _hbar, _backend_name):
         array = np.array(hashable_array, dtype=np.float64)
         return fn(array, cutoff)
 
     @wraps(fn)
     def wrapper(tensor, cutoff):
-        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff)
+        return cached_wrapper(
+            tuple(math.asnumpy(tensor)),
+            cutoff,
+            settings.HBAR,
+            math.backend_name,
+        )
 
     # copy lru_cache attributes over too
     wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From c1bae0a58a7bce506ac73f7fca2eed04f9d6ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 35/56] fix: homodyne sampling of multi-mode density matrices
 and of Fock states

---
 mrmustard/lab/samplers.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 00f720b..0b549a4 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -28,8 +28,7 @@ import numpy as np
 from mrmustard import math, settings
 
 from .circuit_components import CircuitComponent
-from .circuit_components_utils import BtoQ
-from .states import Ket, Number, State
+from .states import Ket, Number, QuadratureEigenstate, State
 
 __all__ = ["HomodyneSampler", "PNRSampler", "Sampler"]
 
@@ -236,21 +235,13 @@ class HomodyneSampler(Sampler):
         # all the modes are sampled from a single stream of random numbers
         rng = settings.rng if seed is None else np.random.default_rng(seed)
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng)
+        initial_samples, _ = self.sample_prob_dist(state[initial_mode], n_samples, rng)
 
-        unique_samples, idxs, counts = np.unique(
-            initial_samples,
-            return_index=True,
-            return_counts=True,
-        )
+        unique_samples, counts = np.unique(initial_samples, return_counts=True)
         ret = []
-        for unique_sample, idx, count in zip(unique_samples, idxs, counts):
-            # Use partial_eval to evaluate the ansatz at the first mode only
-            reduced_ansatz = (state >> BtoQ([initial_mode], phi=self._phi)).ansatz(unique_sample)
-            reduced_state = state.from_bargmann(state.modes[1:], reduced_ansatz.triple)
-            prob = probs[idx] / self._step
-            norm = math.sqrt(prob) if isinstance(state, Ket) else prob
-            normalized_reduced_state = reduced_state / norm
+        for unique_sample, count in zip(unique_samples, counts):
+            meas_op = QuadratureEigenstate(initial_mode, x=unique_sample, phi=self._phi).dual
+            normalized_reduced_state = (state >> meas_op).normalize()
             samples = self.sample(normalized_reduced_state, count, rng)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
-- 
2.43.0


From 38436d9cf01038c939e27149f3480a8ca1a34816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 36/56] fix: quadrature representation of Fock arrays
 conjugates the wave functions of bras

---
 mrmustard/lab/circuit_components.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 4efa20e..80c27be 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -592,7 +592,9 @@ class CircuitComponent:
         """
         letters = {mode: chr(97 + idx) for idx, mode in enumerate(self.modes)}
         if isinstance(self.ansatz, ArrayAnsatz):
-            conjugates = [i not in self.wires.ket.indices for i in range(len(self.wires.indices))]
+            # bra outputs and ket inputs carry the conjugate wave functions
+            conj_idxs = (*self.wires.bra.output.indices, *self.wires.ket.input.indices)
+            conjugates = [i in conj_idxs for i in range(len(self.wires.indices))]
             dims = self.ansatz.core_dims
 
             if len(quad) != dims:
-- 
2.43.0


From cb9351f95e094925ec3429dccb2b1b70a29bed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 37/56] fix: tracing out a superposition sums over its linear
 superposition axis

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index ab526e0..d57ad42 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -87,7 +87,7 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz
             wires = other.wires
         elif not ket or not bra:
-            B = other.ansatz.batch_dims
+            B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
             batch = [chr(97 + i) for i in range(B)]
             wires = ket + bra
-- 
2.43.0


From d392fa4a42007054225ffbf993d1ae75381cc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 38/56] fix: fock_array of a gate or state held as a Fock array

---
 mrmustard/lab/states/squeezed_vacuum.py | 4 +++-
 mrmustard/lab/transformations/bsgate.py | 4 +++-
 mrmustard/lab/transformations/dgate.py  | 4 +++-
 mrmustard/lab/transformations/sgate.py  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/states/squeezed_vacuum.py b/mrmustard/lab/states/squeezed_vacuum.py
index 2e3bab9..fefe2ee 100644
--- a/mrmustard/lab/states/squeezed_vacuum.py
+++ b/mrmustard/lab/states/squeezed_vacuum.py
@@ -22,7 +22,7 @@ from collections.abc import Sequence
 
 from mrmustard import math
 from mrmustard.physics import triples
-from mrmustard.physics.ansatz import PolyExpAnsatz
+from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
 from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexTensor
 
@@ -95,6 +95,8 @@ class SqueezedVacuum(Ket):
         shape: int | Sequence[int] | None = None,
     ) -> ComplexTensor:
         shape = self._check_fock_shape(shape)
+        if isinstance(self.ansatz, ArrayAnsatz):
+            return super().fock_array(shape)
         if self.ansatz.batch_shape:
             rs, phi = math.broadcast_arrays(
                 self.parameters.r.value,
diff --git a/mrmustard/lab/transformations/bsgate.py b/mrmustard/lab/transformations/bsgate.py
index 58da203..86a9631 100644
--- a/mrmustard/lab/transformations/bsgate.py
+++ b/mrmustard/lab/transformations/bsgate.py
@@ -24,7 +24,7 @@ from mrmustard import math
 from mrmustard.utils.typing import ComplexTensor
 
 from ...physics import triples
-from ...physics.ansatz import PolyExpAnsatz
+from ...physics.ansatz import ArrayAnsatz, PolyExpAnsatz
 from ...physics.wires import Wires
 from ..utils import make_parameter
 from .base import Unitary
@@ -134,6 +134,8 @@ class BSgate(Unitary):
             ValueError: If the shape is not valid for the component.
         """
         shape = self._check_fock_shape(shape)
+        if isinstance(self.ansatz, ArrayAnsatz):
+            return super().fock_array(shape)
         if self.ansatz.batch_shape:
             theta, phi = math.broadcast_arrays(
                 self.parameters.theta.value,
diff --git a/mrmustard/lab/transformations/dgate.py b/mrmustard/lab/transformations/dgate.py
index 470cfdf..b057d45 100644
--- a/mrmustard/lab/transformations/dgate.py
+++ b/mrmustard/lab/transformations/dgate.py
@@ -24,7 +24,7 @@ from mrmustard import math
 from mrmustard.utils.typing import ComplexTensor
 
 from ...physics import triples
-from ...physics.ansatz import PolyExpAnsatz
+from ...physics.ansatz import ArrayAnsatz, PolyExpAnsatz
 from ...physics.wires import Wires
 from ..utils import make_parameter
 from .base import Unitary
@@ -108,6 +108,8 @@ class Dgate(Unitary):
             ValueError: If the shape is not valid for the component.
         """
         shape = self._check_fock_shape(shape)
+        if isinstance(self.ansatz, ArrayAnsatz):
+            return super().fock_array(shape)
         if self.ansatz.batch_shape:
             alpha = self.parameters.alpha.value
             alpha = math.reshape(alpha, (-1,))
diff --git a/mrmustard/lab/transformations/sgate.py b/mrmustard/lab/transformations/sgate.py
index 59cb161..e19f4d5 100644
--- a/mrmustard/lab/transformations/sgate.py
+++ b/mrmustard/lab/transformations/sgate.py
@@ -25,7 +25,7 @@ from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexTensor
 
 from ...physics import triples
-from ...physics.ansatz import PolyExpAnsatz
+from ...physics.ansatz import ArrayAnsatz, PolyExpAnsatz
 from ..utils import make_parameter
 from .base import Unitary
 
@@ -124,6 +124,8 @@ class Sgate(Unitary):
         shape: int | Sequence[int] | None = None,
     ) -> ComplexTensor:
         shape = self._check_fock_shape(shape)
+        if isinstance(self.ansatz, ArrayAnsatz):
+            return super().fock_array(shape)
         if self.ansatz.batch_shape:
             rs, phi = math.broadcast_arrays(
                 self.parameters.r.value,
-- 
2.43.0


From f235a68df6b60801bbc817c51447195add25d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 39/56] fix: adjoint and dual wires follow the wires they come
 from

---
 mrmustard/physics/wires.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8fe4a41..91d0135 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -339,7 +339,7 @@ class Wires:
         for i, m in enumerate(sorted(classical_in)):
             self._classical_wires.add(ClassicalWire(mode=m, is_out=False, index=n + i))
 
-    @cached_property
+    @property
     def adjoint(self) -> Wires:
         r"""
         New ``Wires`` object with the adjoint quantum wires (ket becomes bra and vice versa).
@@ -381,7 +381,7 @@ class Wires:
         """
         return Wires.from_wires(classical=self._classical_wires)
 
-    @cached_property
+    @property
     def dual(self) -> Wires:
         r"""
         New ``Wires`` object with dual quantum and classical wires (input becomes output and vice versa).
-- 
2.43.0


From f8173c27d3b2b78001d2b6af5277318fb9dd1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 40/56] fix: flags and other constants of a component are not
 differentiated

---
 mrmustard/physics/ansatz/array_ansatz.py   | 9 +++++++--
 mrmustard/physics/ansatz/base.py           | 5 ++++-
 mrmustard/physics/ansatz/polyexp_ansatz.py | 9 +++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 9bb9154..58ead7b 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -27,7 +27,7 @@ from IPython.display import display
 from numpy.typing import ArrayLike
 
 from mrmustard import math, settings, widgets
-from mrmustard.math.parameters import Variable
+from mrmustard.math.parameters import Constant, Variable
 from mrmustard.utils.typing import Batch, Scalar, Tensor
 
 from .base import Ansatz
@@ -140,13 +140,17 @@ class ArrayAnsatz(Ansatz):
         ret = cls(None, batch_dims=batch_dims)
         ret._fn = fn
         ret._kwargs = kwargs
+        ret._static_kwargs = {
+            k: v for k, v in kwargs.items() if not isinstance(v, Constant | Variable)
+        }
         return ret
 
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (params,) = children
         (
+            ret._static_kwargs,
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
@@ -154,6 +158,7 @@ class ArrayAnsatz(Ansatz):
             ret._original_abc_data,
             ret._batch_dims,
         ) = aux_data
+        ret._kwargs = ret._static_kwargs | params
         return ret
 
     def contract(
diff --git a/mrmustard/physics/ansatz/base.py b/mrmustard/physics/ansatz/base.py
index d207d55..e5a0669 100644
--- a/mrmustard/physics/ansatz/base.py
+++ b/mrmustard/physics/ansatz/base.py
@@ -47,6 +47,7 @@ class Ansatz(ABC):
         self._batch_shape = ()
         self._fn = None
         self._kwargs = {}
+        self._static_kwargs = {}
 
     @property
     @abstractmethod
@@ -195,8 +196,10 @@ class Ansatz(ABC):
         """
 
     def _tree_flatten(self):  # pragma: no cover
-        children = (self._kwargs,)
+        # only parameters are leaves: other arguments (e.g. flags) are static
+        children = ({k: v for k, v in self._kwargs.items() if k not in self._static_kwargs},)
         aux_data = (
+            self._static_kwargs,
             self._batch_shape,
             self._lin_sup,
             self._fn,
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index dfb03ec..5d511f3 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -27,7 +27,7 @@ from IPython.display import display
 from numpy.typing import ArrayLike
 
 from mrmustard import math, settings, widgets
-from mrmustard.math.parameters import Variable
+from mrmustard.math.parameters import Constant, Variable
 from mrmustard.physics.gaussian_integrals import (
     complex_gaussian_integral_1,
     complex_gaussian_integral_2,
@@ -268,13 +268,17 @@ class PolyExpAnsatz(Ansatz):
         ansatz = cls(None, None, None, None)
         ansatz._fn = fn
         ansatz._kwargs = kwargs
+        ansatz._static_kwargs = {
+            k: v for k, v in kwargs.items() if not isinstance(v, Constant | Variable)
+        }
         return ansatz
 
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (params,) = children
         (
+            ret._static_kwargs,
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
@@ -284,6 +288,7 @@ class PolyExpAnsatz(Ansatz):
             ret._simplified,
             ret.name,
         ) = aux_data
+        ret._kwargs = ret._static_kwargs | params
         return ret
 
     def contract(
-- 
2.43.0


From 3627c326d293c7cf6935b7d3a25153669c9354ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 41/56] fix: saved components keep their state: mode order,
 Fock arrays, superpositions, shapes, flags, bounds

---
 mrmustard/lab/circuit_components.py | 49 +++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 80c27be..8f115b1 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -316,15 +316,25 @@ class CircuitComponent:
         Returns:
             A circuit component with the given serialized data.
         """
+        shape, lin_sup = data.pop("manual_shape", ()), data.pop("lin_sup", False)
         if "ansatz_cls" in data:
             ansatz_cls, wires, name = map(data.pop, ["ansatz_cls", "wires", "name"])
+            reprs = data.pop("reprs", ())
             ansatz = locate(ansatz_cls).from_dict(data)
-            return cls._from_attributes(ansatz, Wires(*tuple(set(m) for m in wires)), name=name)
-        if "modes" in data:
-            data["modes"] = tuple(data["modes"])
-        elif "mode" in data:
-            data["mode"] = tuple(data["mode"])
-        return cls(**data)
+            ret = cls._from_attributes(ansatz, Wires(*tuple(set(m) for m in wires)), name=name)
+            for w, r in zip(ret.wires.quantum.sorted_wires, reprs):
+                w.repr = ReprEnum[r]
+        else:
+            if "modes" in data:
+                data["modes"] = tuple(data["modes"])
+            elif "mode" in data:
+                data["mode"] = tuple(data["mode"])
+            data.update({k: tuple(v) for k, v in data.items() if k.endswith("_bounds")})
+            ret = cls(**data)
+        if lin_sup:
+            ret.ansatz._lin_sup = True
+        ret.manual_shape = shape
+        return ret
 
     @classmethod
     def _from_attributes(
@@ -834,8 +844,22 @@ class CircuitComponent:
         cls = type(self)
         serializable = {"class": f"{cls.__module__}.{cls.__qualname__}"}
         params = signature(cls).parameters
-        if "name" in params:  # assume abstract type, serialize the representation
+        if any(s is not None for s in self.manual_shape):
+            serializable["manual_shape"] = [s if s is None else int(s) for s in self.manual_shape]
+        if self.ansatz is not None and self.ansatz._lin_sup:
+            serializable["lin_sup"] = True
+        # abstract types, and representations that the parameters do not determine (Fock arrays
+        # and polynomials from Fock arrays): serialize the representation
+        computed = (
+            self.ansatz is not None
+            and self.ansatz._fn is None
+            and (isinstance(self.ansatz, ArrayAnsatz) or self.ansatz.num_derived_vars > 0)
+        )
+        if "name" in params or computed:
             ansatz_cls = type(self.ansatz)
+            reprs = [w.repr.name for w in self.wires.quantum.sorted_wires]
+            if set(reprs) - {ReprEnum.BARGMANN.name}:
+                serializable["reprs"] = reprs
             serializable["name"] = self.name
             serializable["wires"] = tuple(tuple(a) for a in self.wires.args)
             serializable["ansatz_cls"] = f"{ansatz_cls.__module__}.{ansatz_cls.__qualname__}"
@@ -843,15 +867,22 @@ class CircuitComponent:
 
         # handle modes parameter
         if "modes" in params:
-            serializable["modes"] = tuple(self.wires.modes)
+            serializable["modes"] = tuple(sorted(self.wires.modes))
         elif "mode" in params:
             serializable["mode"] = tuple(self.wires.modes)
         else:
             raise TypeError(f"{cls.__name__} does not seem to have any wires construction method")
 
+        # arguments that are not parameters, e.g. flags
+        if self.ansatz is not None:
+            for k, v in self.ansatz._static_kwargs.items():
+                if k in params and k not in self.parameters.names:
+                    serializable[k] = v
+
         if self.parameters:
             for k, v in self.parameters.variables.items():
-                serializable[f"{k}_bounds"] = v.bounds
+                if f"{k}_bounds" in params:
+                    serializable[f"{k}_bounds"] = v.bounds
                 serializable[f"{k}_trainable"] = True
             return serializable, {k: v.value for k, v in self.parameters.all_parameters.items()}
 
-- 
2.43.0


From 25abc90c3a47915337be6e22a5b8148d791e055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 42/56] fix: saved components keep hand-set shapes over default
 ones and representations detached from their parameters

---
 mrmustard/lab/circuit_components.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 8f115b1..29f7bb1 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -844,16 +844,20 @@ class CircuitComponent:
         cls = type(self)
         serializable = {"class": f"{cls.__module__}.{cls.__qualname__}"}
         params = signature(cls).parameters
-        if any(s is not None for s in self.manual_shape):
+        if "name" not in params or any(s is not None for s in self.manual_shape):
             serializable["manual_shape"] = [s if s is None else int(s) for s in self.manual_shape]
         if self.ansatz is not None and self.ansatz._lin_sup:
             serializable["lin_sup"] = True
-        # abstract types, and representations that the parameters do not determine (Fock arrays
-        # and polynomials from Fock arrays): serialize the representation
+        # abstract types, and representations that the parameters do not determine (Fock arrays,
+        # polynomials and what was computed from them): serialize the representation
         computed = (
             self.ansatz is not None
             and self.ansatz._fn is None
-            and (isinstance(self.ansatz, ArrayAnsatz) or self.ansatz.num_derived_vars > 0)
+            and (
+                isinstance(self.ansatz, ArrayAnsatz)
+                or self.ansatz.num_derived_vars > 0
+                or bool(self.parameters)
+            )
         )
         if "name" in params or computed:
             ansatz_cls = type(self.ansatz)
-- 
2.43.0


From 44c0d0a96097c1889220f2d4f32e619075c29590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 43/56] fix: Fock distribution of a batched density matrix held
 the Fock arrays of the whole batch at once

---
 mrmustard/lab/states/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index f808452..71ed91a 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -453,9 +453,22 @@ class State(CircuitComponent):
             The Fock distribution.
         """
         n_modes = self.n_modes
+        mixed = self.wires.ket and self.wires.bra
+        batch_shape = self.ansatz.batch_shape[: self.ansatz.batch_dims - self.ansatz._lin_sup]
+        if mixed and batch_shape and 0 not in batch_shape and isinstance(self.ansatz, PolyExpAnsatz):
+            # one element of the batch at a time, rather than the Fock arrays of them all
+            elements = zip(
+                *(math.reshape(t, (-1, *t.shape[len(batch_shape) :])) for t in self.ansatz.triple)
+            )
+            dists = [
+                self._from_attributes(
+                    PolyExpAnsatz(*triple, lin_sup=self.ansatz._lin_sup), self.wires
+                ).fock_distribution(cutoff)
+                for triple in elements
+            ]
+            return math.reshape(math.stack(dists), (*batch_shape, -1))
         fock_array = self.fock_array(cutoff)
-        batch_shape = fock_array.shape[: len(fock_array.shape) - len(self.wires)]
-        if not self.wires.ket or not self.wires.bra:
+        if not mixed:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
         for i in range(n_modes):  # the diagonal of each mode, in order, goes to the last axis
             rest = n_modes - i
-- 
2.43.0


From ea8d4d55052686052b639b0f3ab9b9452a631f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 44/56] fix: gradients of Fock amplitudes read outside arrays
 for a cutoff of 1 or above 317

---
 mrmustard/math/lattice/steps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/lattice/steps.py b/mrmustard/math/lattice/steps.py
index 438c759..23e8cf0 100644
--- a/mrmustard/math/lattice/steps.py
+++ b/mrmustard/math/lattice/steps.py
@@ -164,9 +164,15 @@ def vanilla_step_grad(
     for i in range(len(db)):
         pivot_i = tuple_setitem(index, i, index[i] - 1)
         db[i] = SQRT[index[i]] * G[pivot_i]
-        dA[i, i] = 0.5 * SQRT[index[i] * pivot_i[i]] * G[tuple_setitem(pivot_i, i, pivot_i[i] - 1)]
+        dA[i, i] = (
+            0.5 * SQRT[index[i]] * SQRT[pivot_i[i]] * G[tuple_setitem(pivot_i, i, pivot_i[i] - 1)]
+            if index[i] > 1
+            else 0.0
+        )
         for j in range(i + 1, len(db)):
-            dA[i, j] = SQRT[index[i] * pivot_i[j]] * G[tuple_setitem(pivot_i, j, pivot_i[j] - 1)]
+            dA[i, j] = (
+                SQRT[index[i]] * SQRT[pivot_i[j]] * G[tuple_setitem(pivot_i, j, pivot_i[j] - 1)]
+            )
 
     return dA, db
 
-- 
2.43.0


From bdc01b68d5fe36d6222cf94d7ab53736ef2506fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 45/56] fix: DM.random traces out the number of modes it added

---
 mrmustard/lab/states/dm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 5cdcfcc..facec2d 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -226,8 +226,8 @@ class DM(State):
         A, b, c = complex_gaussian_integral_2(
             (math.conj(A), math.conj(b), math.astensor(complex(1))),
             (A, b, math.astensor(complex(1))),
-            range(len(modes)),
-            range(len(modes)),
+            range(len(ancilla)),
+            range(len(ancilla)),
         )
         rho = cls.from_bargmann(list(modes), (A, b, c))
         return rho.normalize()
-- 
2.43.0


From dfbd1c75d4b4daa120116fd59bd7c39862d11cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 46/56] fix: physical stellar decomposition of displaced
 multi-mode kets and of kets with a singular core block

---
 mrmustard/lab/states/ket.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index 593b7b3..be26e0b 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -486,10 +486,10 @@ class Ket(State):
 
         bu_in = -math.einsum(
             "...ij,...jk,...k->...i",
-            math.conj(Am),
             gamma_inv_T,
+            math.conj(Am),
             bm,
-        ) - math.einsum("...ij,...j->...i", gamma_inv, math.conj(bm))
+        ) - math.einsum("...ij,...j->...i", gamma_inv_T, math.conj(bm))
         bu = math.concat([bm, bu_in], -1)
         cu = math.ones(batch_shape, dtype=math.complex128)
         U = Unitary.from_bargmann(core_modes, core_modes, (Au, bu, cu))
@@ -502,7 +502,10 @@ class Ket(State):
         A_core = math.block(
             [
                 [math.zeros((*batch_shape, M, M), dtype=math.complex128), gamma_inv @ R_T],
-                [R @ gamma_inv_T, An + R @ math.inv(math.inv(math.conj(Am)) - Am) @ R_T],
+                [
+                    R @ gamma_inv_T,
+                    An + R @ math.conj(Am) @ math.inv(math.eye(M) - Am @ math.conj(Am)) @ R_T,
+                ],
             ],
         )
 
-- 
2.43.0


From 3a928467b773dee0e1dcdb9877d2c8a7cfc39733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 47/56] fix: physical stellar decompositions of density
 matrices with singular blocks or unequal numbers of core and other modes

---
 mrmustard/lab/states/dm.py | 106 ++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 59 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index facec2d..4e1b58c 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -35,7 +35,7 @@ from mrmustard.utils.typing import Batch, ComplexMatrix, ComplexTensor, ComplexV
 
 from ..circuit_components import CircuitComponent
 from ..circuit_components_utils import TraceOut
-from ..transformations import Channel, Dgate, Map
+from ..transformations import Channel, Map
 from ..utils import shape_check
 from .base import OperatorType, State, _validate_operator
 
@@ -585,6 +585,7 @@ class DM(State):
         reduced_A = An - R @ math.inv(Am - math.Xmat(M)) @ R_transpose
         r_squared = reduced_A[..., :M, M:]
         r_evals, r_evecs = math.eigh(r_squared)
+        r_evals = r_evals * (r_evals > 1e-12)
 
         r_core_transpose = math.einsum(
             "...ij,...j,...kj->...ik",
@@ -597,7 +598,7 @@ class DM(State):
         Aphi_out = Am
         Os = math.zeros(batch_shape + (M,) * 2, dtype=math.complex128)
         temp = math.block([[math.conj(r_core), Os], [Os, r_core]])
-        Gamma_phi = math.inv(temp) @ R
+        Gamma_phi = math.pinv(temp) @ R
 
         Gamma_phi_transpose = math.einsum("...ij->...ji", Gamma_phi)
         Aphi_in = Gamma_phi @ math.inv(Aphi_out - math.Xmat(M)) @ Gamma_phi_transpose + math.Xmat(M)
@@ -607,13 +608,22 @@ class DM(State):
         A_tmp = math.einsum("...ijklmn->...jikmln", A_tmp)
         Aphi = math.reshape(A_tmp, (*batch_shape, 4 * M, 4 * M))
 
-        bphi = math.zeros((*batch_shape, 4 * M), dtype=math.complex128)
+        # the displacement that takes a vacuum core to ``bm``
+        disp = math.einsum(
+            "...ij,...j->...i",
+            math.inv(math.eye(2 * M, dtype=math.complex128) - Am @ math.Xmat(M)),
+            bm,
+        )
+        Xdisp = math.einsum("ij,...j->...i", math.Xmat(M), disp)
+        bphi = math.concat([bm, -math.einsum("...ij,...j->...i", Gamma_phi, Xdisp)], -1)
+        bphi = math.reshape(bphi, (*batch_shape, 2, 2, M))
+        bphi = math.reshape(math.einsum("...ijk->...jik", bphi), (*batch_shape, 4 * M))
         phi = Channel.from_bargmann(
             core_modes,
             core_modes,
             (Aphi, bphi, math.ones(batch_shape, dtype=math.complex128)),
         )
-        renorm = phi.contract(TraceOut(self.modes))
+        renorm = phi.contract(TraceOut(core_modes))
         phi = phi / renorm.ansatz.c
 
         a = reduced_A[..., M:, M:]
@@ -623,33 +633,14 @@ class DM(State):
                 [r_core, a],
             ],
         )
-        bcore_m = math.einsum("...ij,...j->...i", math.inv(Gamma_phi_transpose), bm)
-        bcore_m_ket = bcore_m[..., M:]
-        bcore_n = bn - math.einsum("...ij,...jk,...k->...i", temp, Aphi_in, bcore_m)
-        bcore_n_ket = bcore_n[..., (m_modes - M) :]
+        bcore_n = bn + math.einsum("...ij,...j->...i", R, Xdisp)
 
         inverse_order = np.argsort(core_ket_indices + other_ket_indices)
         Acore = Acore[..., inverse_order, :][..., :, inverse_order]
-        bcore = math.concat([bcore_m_ket, bcore_n_ket], -1)[..., inverse_order]
-        c_core = math.ones_like(c)
-
-        core = Ket.from_bargmann(self.modes, (Acore, bcore, c_core))
-        for i in range(M):
-            core = core.contract(
-                Dgate(core_modes[i], -bcore_m_ket[..., i]),
-                mode="zip",
-            )
-            dgate_u = Dgate(core_modes[i], bcore_m_ket[..., i])
-            dgate_ch = dgate_u.contract(dgate_u.adjoint, mode="zip")
-            phi = dgate_ch.contract(phi, mode="zip")
-        c_core = math.ones_like(c)
-        phi = Channel.from_bargmann(core_modes, core_modes, (phi.ansatz.A, phi.ansatz.b, c_core))
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
-        return (
-            Ket.from_bargmann(core.modes, (core.ansatz.A, core.ansatz.b, c_core)).normalize(),
-            phi,
-        )
+        bcore = math.concat([math.zeros_like(bm[..., M:]), bcore_n[..., (m_modes - M) :]], -1)
+        bcore = bcore[..., inverse_order]
+        core = Ket.from_bargmann(self.modes, (Acore, bcore, math.ones_like(c))).normalize()
+        return core, phi
 
     def physical_stellar_decomposition_mixed(
         self,
@@ -702,8 +693,8 @@ class DM(State):
         bm = b[..., : 2 * M]
         bn = b[..., 2 * M :]
 
-        sigma = R[..., M:, :M]
-        r = R[..., M:, M:]
+        sigma = R[..., N:, :M]
+        r = R[..., N:, M:]
         alpha_m = Am[..., M:, :M]
         alpha_n = An[..., N:, :N]
         a_n = An[..., N:, N:]
@@ -729,18 +720,29 @@ class DM(State):
         reduced_A = R @ math.inv(I2M - math.Xmat(M) @ Am) @ math.conj(R_transpose)
 
         # computing a low-rank r_c:
-        r_c_squared = reduced_A[..., N:, N:] + sigma @ math.inv(alpha_m) @ math.conj(
-            sigma_transpose,
+        # alpha_m may be singular: its pseudo-inverse is enough, as range(sigma^dag) is in range(alpha_m)
+        alpha_evals, alpha_evecs = math.eigh(alpha_m)
+        positive = alpha_evals > 1e-12
+        alpha_m_inv = math.einsum(
+            "...ij,...j,...kj->...ik",
+            alpha_evecs,
+            positive / (alpha_evals + ~positive),
+            math.conj(alpha_evecs),
         )
+        r_c_squared = reduced_A[..., N:, N:] + sigma @ alpha_m_inv @ math.conj(sigma_transpose)
         r_c_evals, r_c_evecs = math.eigh(r_c_squared)
+        r_c_evals = r_c_evals * (r_c_evals > 1e-12)  # rounding errors are not columns of r_c
         r_c = math.einsum(
             "...ij,...j->...ij",
             r_c_evecs[..., -M:],
             math.sqrt(r_c_evals[..., -M:], dtype=math.complex128),
         )
+        if N < M:
+            r_c = math.concat(
+                [math.zeros((*batch_shape, N, M - N), dtype=math.complex128), r_c], -1
+            )
         Os_NM = math.zeros((*batch_shape, N, M), dtype=math.complex128)
-        Os_MN = math.zeros((*batch_shape, M, N), dtype=math.complex128)
-        R_c = math.block([[math.conj(r_c), Os_NM], [Os_MN, r_c]])
+        R_c = math.block([[math.conj(r_c), Os_NM], [Os_NM, r_c]])
         R_c_transpose = math.einsum("...ij->...ji", R_c)
 
         Aphi_out = Am
@@ -752,13 +754,18 @@ class DM(State):
         A_tmp = math.reshape(Aphi_oi, (*batch_shape, 2, 2, M, 2, 2, M))
         A_tmp = math.einsum("...ijklmn->...jikmln", A_tmp)
         Aphi = math.reshape(A_tmp, (*batch_shape, 4 * M, 4 * M))
-        bphi = math.zeros((*batch_shape, 4 * M), dtype=math.complex128)
+        # the displacement that takes a vacuum core to ``bm``
+        disp = math.einsum("...ij,...j->...i", math.inv(I2M - Am @ math.Xmat(M)), bm)
+        Xdisp = math.einsum("ij,...j->...i", math.Xmat(M), disp)
+        bphi = math.concat([bm, -math.einsum("...ij,...j->...i", gamma, Xdisp)], -1)
+        bphi = math.reshape(bphi, (*batch_shape, 2, 2, M))
+        bphi = math.reshape(math.einsum("...ijk->...jik", bphi), (*batch_shape, 4 * M))
         c_phi = math.ones_like(c)
         phi = Channel.from_bargmann(core_modes, core_modes, (Aphi, bphi, c_phi))
-        renorm = phi.contract(TraceOut(self.modes))
+        renorm = phi.contract(TraceOut(core_modes))
         phi = phi / renorm.ansatz.c
 
-        alpha_core_n = alpha_n - sigma @ math.inv(alpha_m) @ math.conj(sigma_transpose)
+        alpha_core_n = alpha_n - sigma @ alpha_m_inv @ math.conj(sigma_transpose)
         a_core_n = a_n + reduced_A[..., N:, :N]
         A_core_n = math.block(
             [[math.conj(a_core_n), math.conj(alpha_core_n)], [alpha_core_n, a_core_n]],
@@ -770,31 +777,12 @@ class DM(State):
                 [R_c, A_core_n],
             ],
         )
-        b_core_m = math.einsum("...ij,...j->...i", math.inv(gamma_transpose), bm)
-        b_core_n = bn - math.einsum("...ij,...jk,...k->...i", R_c, Aphi_in, b_core_m)
-
-        b_core = math.concat([b_core_m, b_core_n], -1)
+        b_core_n = bn + math.einsum("...ij,...j->...i", R, Xdisp)
+        b_core = math.concat([math.zeros_like(bm), b_core_n], -1)
         inverse_order = np.argsort(new_order)
         A_core = A_core[..., inverse_order, :][..., inverse_order]
         b_core = b_core[..., inverse_order]
-        core = DM.from_bargmann(
-            self.modes,
-            (A_core, b_core, c_phi),
-        )
-        alpha = b_core[..., core_ket_indices]
-        for i, m in enumerate(core_modes):
-            d_g = Dgate(m, -alpha[..., i])
-            d_g_inv = d_g.inverse()
-            d_ch = d_g.contract(d_g.adjoint, mode="zip")
-            d_ch_inverse = d_g_inv.contract(d_g_inv.adjoint, mode="zip")
-
-            core = core.contract(d_ch, mode="zip")
-            phi = (d_ch_inverse).contract(phi, mode="zip")
-
-        core = DM.from_bargmann(self.modes, (core.ansatz.A, core.ansatz.b, c_phi)).normalize()
-        phi = Channel.from_bargmann(core_modes, core_modes, (phi.ansatz.A, phi.ansatz.b, c_phi))
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
+        core = DM.from_bargmann(self.modes, (A_core, b_core, c_phi)).normalize()
         return core, phi
 
     def _ipython_display_(self):  # pragma: no cover
-- 
2.43.0


From 961ac9546abac04a8713c3e8c739722a03d5a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 48/56] fix: physicality predicates of states and channels

---
 mrmustard/lab/states/dm.py            | 32 +++++++--------
 mrmustard/lab/states/ket.py           | 11 +++---
 mrmustard/lab/transformations/base.py | 57 +++++++++++++--------------
 mrmustard/physics/bargmann_utils.py   | 41 ++++++++++++++++++-
 4 files changed, 88 insertions(+), 53 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 4e1b58c..d989d66 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -25,7 +25,11 @@ from IPython.display import display
 
 from mrmustard import math, settings, widgets
 from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
-from mrmustard.physics.bargmann_utils import wigner_to_bargmann_rho
+from mrmustard.physics.bargmann_utils import (
+    is_positive_kernel,
+    is_trace_class_kernel,
+    wigner_to_bargmann_rho,
+)
 from mrmustard.physics.fock_utils import fidelity as fock_dm_fidelity
 from mrmustard.physics.gaussian import fidelity as gaussian_fidelity
 from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_2
@@ -64,27 +68,17 @@ class DM(State):
             >>> from mrmustard.lab import DM
             >>> assert DM.random([0]).is_positive
         """
+        if isinstance(self.ansatz, ArrayAnsatz):
+            raise NotImplementedError(
+                "Physicality conditions are not implemented for states with ArrayAnsatz.",
+            )
         if self.ansatz._lin_sup:
             raise NotImplementedError(
                 "Physicality conditions are not implemented for a mixture of states.",
             )
         if self.ansatz.num_derived_vars > 0:
             raise ValueError("Physicality conditions are not implemented for derived variables.")
-        if isinstance(self.ansatz, ArrayAnsatz):
-            raise NotImplementedError(
-                "Physicality conditions are not implemented for states with ArrayAnsatz.",
-            )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-
-        if (
-            math.real(math.norm(gamma_A - math.conj(math.einsum("...ij->...ji", gamma_A))))
-            > settings.ATOL
-        ):  # checks if gamma_A is Hermitian
-            return False
-
-        return math.all(math.real(math.eigvals(gamma_A)) >= -settings.ATOL)
+        return is_positive_kernel(*self.ansatz.triple)
 
     @property
     def is_physical(self) -> bool:
@@ -96,7 +90,11 @@ class DM(State):
             >>> from mrmustard.lab import DM
             >>> assert DM.random([0]).is_physical
         """
-        return self.is_positive and math.allclose(self.probability, 1, settings.ATOL)
+        return (
+            self.is_positive
+            and is_trace_class_kernel(self.ansatz.A)
+            and math.allclose(self.probability, 1, settings.ATOL)
+        )
 
     @property
     def probability(self) -> float:
diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index be26e0b..13e8226 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -69,6 +69,10 @@ class Ket(State):
 
             >>> assert psi.is_physical
         """
+        if isinstance(self.ansatz, ArrayAnsatz):
+            raise NotImplementedError(
+                "Physicality conditions are not implemented for states with ArrayAnsatz.",
+            )
         if self.ansatz._lin_sup:
             raise NotImplementedError(
                 "Physicality conditions are not implemented for a linear superposition of states.",
@@ -77,11 +81,8 @@ class Ket(State):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for derived variables.",
             )
-        if isinstance(self.ansatz, ArrayAnsatz):
-            raise NotImplementedError(
-                "Physicality conditions are not implemented for states with ArrayAnsatz.",
-            )
-        return math.all(math.abs(math.eigvals(self.ansatz.A)) < 1) and math.allclose(
+        A = self.ansatz.A
+        return math.all(math.abs(math.eigvals(A @ math.conj(A))) < 1) and math.allclose(
             self.probability,
             1,
             settings.ATOL,
diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 346357e..eb48cd1 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -27,9 +27,17 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 
+import numpy as np
+
 from mrmustard import math, settings
 from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
-from mrmustard.physics.bargmann_utils import XY_of_channel, au2Symplectic, symplectic2Au
+from mrmustard.physics.bargmann_utils import (
+    XY_of_channel,
+    au2Symplectic,
+    is_positive_kernel,
+    is_trace_class_kernel,
+    symplectic2Au,
+)
 from mrmustard.physics.triples import XY_to_channel_Abc
 from mrmustard.physics.wires import Wires
 from mrmustard.utils.typing import ComplexMatrix, ComplexTensor, RealMatrix, Vector
@@ -384,6 +392,10 @@ class Channel(Map):
             >>> channel = Channel.random((0, 1, 2))
             >>> assert channel.is_CP
         """
+        if isinstance(self.ansatz, ArrayAnsatz):
+            raise NotImplementedError(
+                "Physicality conditions are not implemented for states with ArrayAnsatz.",
+            )
         if self.ansatz._lin_sup:
             raise NotImplementedError(
                 "Physicality conditions are not implemented for a mixture of states.",
@@ -392,21 +404,7 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for derived variables.",
             )
-        if isinstance(self.ansatz, ArrayAnsatz):
-            raise NotImplementedError(
-                "Physicality conditions are not implemented for states with ArrayAnsatz.",
-            )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-
-        if (
-            math.real(math.norm(gamma_A - math.conj(math.einsum("...ij->...ji", gamma_A))))
-            > settings.ATOL
-        ):  # checks if gamma_A is Hermitian
-            return False
-
-        return math.all(math.real(math.eigvals(gamma_A)) > -settings.ATOL)
+        return is_positive_kernel(*self.ansatz.triple)
 
     @property
     def is_TP(self) -> bool:
@@ -420,6 +418,10 @@ class Channel(Map):
             >>> channel = Channel.random((0, 1, 2))
             >>> assert channel.is_TP
         """
+        if isinstance(self.ansatz, ArrayAnsatz):
+            raise NotImplementedError(
+                "Physicality conditions are not implemented for states with ArrayAnsatz.",
+            )
         if self.ansatz._lin_sup:
             raise NotImplementedError(
                 "Physicality conditions are not implemented for a mixture of states.",
@@ -428,21 +430,16 @@ class Channel(Map):
             raise NotImplementedError(
                 "Physicality conditions are not implemented for derived variables.",
             )
-        if isinstance(self.ansatz, ArrayAnsatz):
-            raise NotImplementedError(
-                "Physicality conditions are not implemented for states with ArrayAnsatz.",
-            )
-        A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-        lambda_A = A[..., m:, m:]
-        temp_A = (
-            gamma_A
-            + math.conj(math.einsum("...ij->...ji", lambda_A))
-            @ math.inv(math.eye(m) - math.einsum("...ij->...ji", gamma_A))
-            @ lambda_A
+        from ..circuit_components_utils.trace_out import TraceOut  # noqa: PLC0415
+
+        out = np.array(self.wires.output.indices)
+        if not is_trace_class_kernel(self.ansatz.A[..., out[:, None], out]):
+            return False
+        traced = self.contract(TraceOut(self.wires.output.modes)).ansatz.triple
+        return all(
+            math.allclose(x, math.broadcast_to(y, x.shape), settings.ATOL)
+            for x, y in zip(traced, TraceOut(self.wires.input.modes).ansatz.triple)
         )
-        return math.all(math.real(math.norm(temp_A - math.eye(m))) < settings.ATOL)
 
     @property
     def is_physical(self) -> bool:
diff --git a/mrmustard/physics/bargmann_utils.py b/mrmustard/physics/bargmann_utils.py
index 0b14189..f65b17c 100644
--- a/mrmustard/physics/bargmann_utils.py
+++ b/mrmustard/physics/bargmann_utils.py
@@ -20,7 +20,14 @@ import numpy as np
 
 from mrmustard import math, settings
 from mrmustard.physics.husimi import pq_to_aadag, wigner_to_husimi
-from mrmustard.utils.typing import ComplexMatrix, Matrix, Scalar, Vector
+from mrmustard.utils.typing import (
+    ComplexMatrix,
+    ComplexTensor,
+    ComplexVector,
+    Matrix,
+    Scalar,
+    Vector,
+)
 
 
 def bargmann_Abc_to_phasespace_cov_means(
@@ -235,3 +242,35 @@ def XY_of_channel(A: ComplexMatrix):
         "Invalid input for the A matrix of channel, caused by an imaginary Y matrix.",
     )
     return math.real(X), math.real(Y) * settings.HBAR
+
+
+def is_positive_kernel(A: ComplexMatrix, b: ComplexVector, c: ComplexTensor) -> bool:
+    r"""
+    Whether a Bargmann triple with as many bra as ket variables (bra first) is that of a
+    Hermitian and positive operator, e.g., a density operator or the Choi operator of a CP map.
+
+    Args:
+        A: The (batch of) ``A`` matrices.
+        b: The (batch of) ``b`` vectors.
+        c: The (batch of) ``c`` scalars.
+    """
+    m = A.shape[-1] // 2
+    X = math.Xmat(m)
+    if math.norm(A - X @ math.conj(A) @ X) > settings.ATOL:
+        return False
+    if math.norm(b - math.einsum("ij,...j->...i", X, math.conj(b))) > settings.ATOL:
+        return False
+    if not math.allclose(c, math.cast(math.abs(c), "complex128"), settings.ATOL):
+        return False
+    return math.all(math.real(math.eigvals(A[..., :m, m:])) >= -settings.ATOL)
+
+
+def is_trace_class_kernel(A: ComplexMatrix) -> bool:
+    r"""
+    Whether the integral that traces out an operator with the given Hermitian Bargmann matrix,
+    with as many bra as ket variables (bra first), converges.
+
+    Args:
+        A: The (batch of) ``A`` matrices.
+    """
+    return math.all(math.real(math.eigvals(math.Xmat(A.shape[-1] // 2) @ A)) < 1)
-- 
2.43.0


From b57492f8049b997e47c8a0504a927c77923fc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 49/56] fix: fidelity of non-Gaussian density matrices used the
 Gaussian formula or raised on unequal cutoffs

---
 mrmustard/lab/states/dm.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index d989d66..4d85323 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -364,19 +364,23 @@ class DM(State):
         if self.modes != other.modes:
             raise ValueError("Cannot compute fidelity between states with different modes.")
         if isinstance(other, DM):
-            try:
+            if all(
+                isinstance(state.ansatz, PolyExpAnsatz) and state.ansatz.num_derived_vars == 0
+                for state in (self, other)
+            ):
                 cov1, mean1, _ = self.phase_space(0)
                 cov2, mean2, _ = other.phase_space(0)
-                return gaussian_fidelity(mean1, cov1, mean2, cov2)
-            except ValueError:  # array ansatz
-                shape1 = self.auto_shape()
-                shape2 = other.auto_shape()
-                min_shape = tuple(min(s1, s2) for s1, s2 in zip(shape1, shape2))
+                ret = gaussian_fidelity(mean1, cov1, mean2, cov2)
+            else:  # not Gaussian
+                n_modes = self.n_modes
+                shapes = (*self.auto_shape(), *other.auto_shape())
+                min_shape = 2 * tuple(min(shapes[i::n_modes]) for i in range(n_modes))
                 slc = tuple(slice(None, s) for s in min_shape)
                 side = np.prod([min_shape[i] for i in range(len(min_shape) // 2)])
                 dm1 = math.reshape(self.fock_array(min_shape)[slc], (side, side))
                 dm2 = math.reshape(other.fock_array(min_shape)[slc], (side, side))
-                return fock_dm_fidelity(dm1, dm2)
+                ret = fock_dm_fidelity(dm1, dm2)
+            return ret
         return other.expectation(self)  # assuming other is a ket
 
     def fock_array(
-- 
2.43.0


From e2f45c37082b8cddf3b4b27ace0e65c537b8307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 50/56] fix: tracing no variables of an array ansatz raised

---
 mrmustard/physics/ansatz/array_ansatz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 58ead7b..1cc1d7a 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -295,6 +295,8 @@ class ArrayAnsatz(Ansatz):
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...]) -> ArrayAnsatz:
         if len(idx_z) != len(idx_zconj) or not set(idx_z).isdisjoint(idx_zconj):
             raise ValueError("The idxs must be of equal length and disjoint.")
+        if len(idx_z) == 0:
+            return self
         order = (
             list(range(self.batch_dims))
             + [self.batch_dims + i for i in range(self.core_dims) if i not in idx_z + idx_zconj]
-- 
2.43.0


From b6b8daab132f9a96a2bb12b94238f169fdaabe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 51/56] fix: the clenshaw Wigner function of a one-dimensional
 density matrix was doubled

---
 mrmustard/physics/wigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/physics/wigner.py b/mrmustard/physics/wigner.py
index 073ca31..22f1770 100644
--- a/mrmustard/physics/wigner.py
+++ b/mrmustard/physics/wigner.py
@@ -130,8 +130,8 @@ def _wigner_discretized_clenshaw(rho, q_vec, p_vec, hbar):  # pragma: no cover
     B = np.abs(A)
     B *= B
 
-    w0 = (2 * rho[0, -1]) * np.ones_like(A)
     rho2 = rho * (2 * np.ones((cutoff, cutoff)) - np.diag(np.ones(cutoff)))
+    w0 = rho2[0, -1] * np.ones_like(A)
 
     L = cutoff - 1
     for j in range(1, cutoff):
-- 
2.43.0


From 2d9fcb559771f3607a27396cf75a7ee0d21071ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 52/56] fix: TraceOut paired the wrong axes for mode labels
 whose sets iterate in different orders

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index d57ad42..1ec06cc 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -102,8 +102,8 @@ class TraceOut(CircuitComponent):
             ansatz = ansatz1.contract(ansatz2, batch + core1, batch + core2, batch + core_out)
             wires, _ = (other.wires.adjoint @ other.wires)[0] @ self.wires
         else:
-            idx_zconj = [bra[m].indices[0] for m in self.wires.modes & bra.modes]
-            idx_z = [ket[m].indices[0] for m in self.wires.modes & ket.modes]
+            idx_zconj = [bra[m].indices[0] for m in sorted(self.wires.modes & bra.modes)]
+            idx_z = [ket[m].indices[0] for m in sorted(self.wires.modes & ket.modes)]
             ansatz = other.ansatz.trace(idx_z, idx_zconj)
             wires, _ = other.wires @ self.wires
 
-- 
2.43.0


From 318a7bd992f4c9344a6b4e23f894a7cf9da95af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 53/56] fix: math.moveaxis refused lists of axes in jax

---
 mrmustard/math/backend_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index 9cebd3b..2cb0bfa 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -992,7 +992,12 @@ class BackendManager:
         """
         return self._apply("mod", (a, b))
 
-    def moveaxis(self, array: Tensor, old: Tensor, new: Tensor) -> Tensor:
+    def moveaxis(
+        self,
+        array: Tensor,
+        old: int | Sequence[int],
+        new: int | Sequence[int],
+    ) -> Tensor:
         r"""
         Moves the axes of an array to a new position.
 
@@ -1004,6 +1009,8 @@ class BackendManager:
         Returns:
             The updated array
         """
+        old = tuple(old) if isinstance(old, Sequence) else old
+        new = tuple(new) if isinstance(new, Sequence) else new
         return self._apply(
             "moveaxis",
             (
-- 
2.43.0


From d22db60ba024ee8bf6561131e986f7ebd00c342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 54/56] fix: math.zeros_like ignored the dtype of its argument
 in jax

---
 mrmustard/math/backend_jax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index 53f931d..9a43c17 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -421,7 +421,7 @@ class BackendJax(BackendBase):
         return jnp.zeros(shape, dtype=dtype)
 
     @partial(jax.jit, static_argnames=["dtype"])
-    def zeros_like(self, array: jnp.ndarray, dtype: str = "complex128") -> jnp.ndarray:
+    def zeros_like(self, array: jnp.ndarray, dtype: str | None = None) -> jnp.ndarray:
         return jnp.zeros_like(array, dtype=dtype)
 
     def xlogy(self, x: jnp.ndarray, y: jnp.ndarray) -> jnp.ndarray:
-- 
2.43.0


From 67e929741f5132120adb1bc6734181ab4bce890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:28 +0000
Subject: [PATCH 55/56] fix: the sum of components took the Fock shape of the
 one that had it set

---
 mrmustard/lab/circuit_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 29f7bb1..f5aa3be 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -938,7 +938,7 @@ class CircuitComponent:
         name = self.name if self.name == other.name else ""
         ret = self._from_attributes(ansatz, self.wires, name)
         ret.manual_shape = tuple(
-            max(a, b) if a is not None and b is not None else a or b
+            max(a, b) if a is not None and b is not None else None
             for a, b in zip(self.manual_shape, other.manual_shape)
         )
         return ret
-- 
2.43.0


From 0652e133184e33e81a50074d4fdc1c8eb4e7de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:48 +0000
Subject: [PATCH 56/56] fix: the automatic Fock shape swapped two elements of
 the density matrix in its recurrence

---
 mrmustard/math/lattice/autoshape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/autoshape.py b/mrmustard/math/lattice/autoshape.py
index 4c3ac97..55b5a0a 100644
--- a/mrmustard/math/lattice/autoshape.py
+++ b/mrmustard/math/lattice/autoshape.py
@@ -132,7 +132,9 @@ def autoshape_numba(A, b, c, max_prob, max_shape, min_shape) -> int:  # pragma:
         norm = np.abs(c_)
         k = 0
         while norm < max_prob and k < max_shape:
-            buf2[(k + 1) % 2] = (b_ * buf3[k % 2, 1] + A_ @ buf2[k % 2] * SQRT[k]) / SQRT[k + 1]
+            # the elements (k,k-1) and (k-1,k) change places: lowering the first index of (k,k) gives (k-1,k)
+            prev = buf2[k % 2, ::-1].copy()
+            buf2[(k + 1) % 2] = (b_ * buf3[k % 2, 1] + A_ @ prev * SQRT[k]) / SQRT[k + 1]
             buf3[(k + 1) % 2, 0] = (
                 b_[0] * buf2[(k + 1) % 2, 0]
                 + A_[0, 0] * buf3[k % 2, 1] * SQRT[k + 1]
-- 
2.43.0

