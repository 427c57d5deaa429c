From f978ad023436a3a50ebcd9e8457fd0972071d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 01/15] fix: return the cleaned-up intensity if
 `cleanup_summations=True`

---
 docs/comparison/d2kkk.ipynb        | 2 +-
 docs/comparison/jpsi2phipipi.ipynb | 2 +-
 docs/comparison/jpsi2pipipi.ipynb  | 2 +-
 docs/index.ipynb                   | 2 +-
 src/ampform_dpd/__init__.py        | 5 +----
 5 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/docs/comparison/d2kkk.ipynb b/docs/comparison/d2kkk.ipynb
index e583d07..b67ddd3 100644
--- a/docs/comparison/d2kkk.ipynb
+++ b/docs/comparison/d2kkk.ipynb
@@ -204,7 +204,7 @@
     "model_builder = DalitzPlotDecompositionBuilder(DECAY, min_ls=True)\n",
     "DPD_MODEL = model_builder.formulate(cleanup_summations=True)\n",
     "del model_builder\n",
-    "DPD_MODEL.intensity.cleanup()"
+    "DPD_MODEL.intensity"
    ]
   },
   {
diff --git a/docs/comparison/jpsi2phipipi.ipynb b/docs/comparison/jpsi2phipipi.ipynb
index 15622af..121f6fd 100644
--- a/docs/comparison/jpsi2phipipi.ipynb
+++ b/docs/comparison/jpsi2phipipi.ipynb
@@ -227,7 +227,7 @@
     "model_builder = DalitzPlotDecompositionBuilder(DECAY, min_ls=True)\n",
     "DPD_MODEL = model_builder.formulate(cleanup_summations=True)\n",
     "del model_builder\n",
-    "DPD_MODEL.intensity.cleanup()"
+    "DPD_MODEL.intensity"
    ]
   },
   {
diff --git a/docs/comparison/jpsi2pipipi.ipynb b/docs/comparison/jpsi2pipipi.ipynb
index 00bdb74..7ff8132 100644
--- a/docs/comparison/jpsi2pipipi.ipynb
+++ b/docs/comparison/jpsi2pipipi.ipynb
@@ -226,7 +226,7 @@
     "model_builder = DalitzPlotDecompositionBuilder(DECAY, min_ls=True)\n",
     "DPD_MODEL = model_builder.formulate(cleanup_summations=True)\n",
     "del model_builder\n",
-    "DPD_MODEL.intensity.cleanup()"
+    "DPD_MODEL.intensity"
    ]
   },
   {
diff --git a/docs/index.ipynb b/docs/index.ipynb
index 2be9dc4..829b680 100644
--- a/docs/index.ipynb
+++ b/docs/index.ipynb
@@ -664,7 +664,7 @@
     "    reference_subsystem=2,\n",
     "    use_coefficients=True,\n",
     ")\n",
-    "coefficient_model.intensity.cleanup()"
+    "coefficient_model.intensity"
    ]
   },
   {
diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..a5b0c12 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From 100e7763d0fabe67472b5d0b924088941b5fb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 02/15] fix: use the dynamics builder of the decay chain itself

The builder was looked up by resonance name, so that the builder of the first chain
with that name was used for all chains with the same resonance.
---
 src/ampform_dpd/__init__.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index a5b0c12..7ab5744 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -181,7 +181,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -449,22 +449,27 @@ class DynamicsConfigurator:
         self.__dynamics_builders: dict[ThreeBodyDecayChain, DynamicsBuilder] = {}
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
-        chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        for chain in self.__get_chains(identifier):
+            self.__dynamics_builders[chain] = builder
 
     def get_builder(self, identifier) -> DynamicsBuilder:
-        chain = self.__get_chain(identifier)
+        chain, *_ = self.__get_chains(identifier)
         return self.__dynamics_builders.get(chain, lambda _: DefinedExpression())
 
-    def __get_chain(self, identifier) -> ThreeBodyDecayChain:
+    def __get_chains(self, identifier) -> tuple[ThreeBodyDecayChain, ...]:
         if isinstance(identifier, ThreeBodyDecayChain):
             chain = identifier
             if chain not in set(self.__decay.chains):
                 msg = f"Decay does not have chain with resonance {chain.resonance.name}"
                 raise ValueError(msg)
-            return chain
+            return (chain,)
         if isinstance(identifier, str):
-            return self.__decay.find_chain(identifier)
+            self.__decay.find_chain(identifier)  # raises KeyError if not existing
+            return tuple(
+                chain
+                for chain in self.__decay.chains
+                if chain.resonance.name == identifier
+            )
         msg = f"Cannot get decay chain for identifier type {type(identifier)}"
         raise NotImplementedError(msg)
 
-- 
2.43.0


From 6d9409f4a08caa3cf40a9179947c94f822410afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 03/15] fix: get child spins of an LS vertex from the final
 state spin

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..1516ef6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From d9c896f6ba977648c0d78a336480d744875b69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 04/15] fix: do not exhaust transition iterators in
 `filter_min_ls()`

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..327a4a6 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -191,6 +191,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 8016d83bccaadbb9ea6cf1bd139c2d993b3b43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 05/15] fix: convert particles for which the parity is not
 defined

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 327a4a6..886b602 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From 06df045642f5f2bcea01847180fa1855106cede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 06/15] fix: align LS columns in Markdown table if some chains
 have no LS

---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..e922f14 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_outgoing_ls = any(c.outgoing_ls is not None for c in decay_chains)
+    render_incoming_ls = any(c.incoming_ls is not None for c in decay_chains)
+    if render_outgoing_ls:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_incoming_ls:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{int(1e3 * chain.resonance.mass):,.0f}",
             f"{int(1e3 * chain.resonance.width):,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_outgoing_ls:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_incoming_ls:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From b34e627b2948c76ce498190d6c47cc9b5eed6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 07/15] fix: require integer steps between |L-S| and L+S in LS
 couplings

---
 src/ampform_dpd/spin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..231ad15 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -22,6 +22,7 @@ def generate_ls_couplings(
     >>> generate_ls_couplings(1.5, 0.5, 0)
     [(1, 1/2), (2, 1/2)]
     """
+    J = sp.Rational(float(parent_spin))  # noqa: N806
     s1 = float(child1_spin)
     s2 = float(child2_spin)
     angular_momenta = create_rational_range(0, max_L)
@@ -30,7 +31,7 @@ def generate_ls_couplings(
         (int(L), S)
         for L in angular_momenta
         for S in coupled_spins
-        if abs(L - S) <= parent_spin <= L + S
+        if abs(L - S) <= J <= L + S and (L + S - J).is_integer
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From b9cf8d92157e792c80909388a46654ac269cf091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 08/15] fix: identify production and decay node by their node
 ID

---
 src/ampform_dpd/adapter/qrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 886b602..0c3ee47 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,7 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node, decay_node = transition.interactions[0], transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From cd727dc64841a363b8fb856d1058fe926fed5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 09/15] fix: rotate over actual helicities in serialized decay
 chains

A parity vertex also couples to the flipped helicities of the decay products, for
which the Wigner-d function was formulated with the helicities that are listed in
the vertex.
---
 src/ampform_dpd/io/serialization/amplitude.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 1516ef6..ea11e64 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -132,7 +132,8 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
     # -----------------------
-    (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
+    (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
+    λi, λj = _get_helicity_symbol(i), _get_helicity_symbol(j)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
     R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
@@ -146,7 +147,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         weight
         * h_prod
         * h_dec
-        * Wigner.d(jR, λR, λi_val - λj_val, θij)
+        * Wigner.d(jR, λR, λi - λj, θij)
         * dynamics.expression
     )
     amplitude_expression = amplitude_expression.subs({λR: λR_val})
-- 
2.43.0


From 2d918bfc15407c537bab35291e54b9516ef8c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 10/15] fix: sum over the resonance helicity in serialized
 decay chains

Only the helicity that is listed in the production vertex was considered, so that
the flipped term of a production parity vertex was lost.
---
 src/ampform_dpd/io/serialization/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index ea11e64..c1e65f3 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -136,7 +136,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     λi, λj = _get_helicity_symbol(i), _get_helicity_symbol(j)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
-    R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
+    R_node, _ = _get_resonance_helicity(chain_definition)  # noqa: N806
     λR = _get_helicity_symbol(R_node)
     # -----------------------
     A = _generate_amplitude_index_bases()
@@ -150,7 +150,7 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
         * Wigner.d(jR, λR, λi - λj, θij)
         * dynamics.expression
     )
-    amplitude_expression = amplitude_expression.subs({λR: λR_val})
+    amplitude_expression = PoolSum(amplitude_expression, (λR, create_spin_range(jR)))
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
     return {
         amplitude_symbol: amplitude_expression,
-- 
2.43.0


From dd1a7099cee575b3ce859c26c1c961c1bcd368ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 11/15] fix: keep undefined couplings in the grouping key of
 `filter_min_ls()`

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 0c3ee47..4128fa9 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -219,8 +219,8 @@ def filter_min_ls(
             _get_decay_product_ids(transition.topology, resonance_id),
             tuple(
                 node
-                for i, node in transition.interactions.items()
-                if node and i not in node_ids
+                for i, node in sorted(transition.interactions.items())
+                if i not in node_ids
             ),
         )
         grouped_transitions[key].append(transition)
-- 
2.43.0


From 3f6c2d88433d8d35a1071f09aadd69cb03243aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 12/15] fix: relabel states consistently with their topology if
 not all states are defined

---
 src/ampform_dpd/adapter/qrules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 4128fa9..23bd526 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -295,7 +295,11 @@ def _(obj: _Transition) -> _Transition:
     return attrs.evolve(
         obj,
         topology=_impl_normalize_state_ids(obj.topology),
-        states={new: obj.states[old] for new, old in enumerate(sorted(obj.states))},
+        states={
+            new: obj.states[old]
+            for new, old in enumerate(sorted(obj.topology.edges))
+            if old in obj.states
+        },
     )
 
 
-- 
2.43.0


From e36d1182bd302b813cfb201b5ee596f0bfd71d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 13/15] fix: use squared parent mass and subsystem mass in
 production form factor

---
 src/ampform_dpd/io/serialization/dynamics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..199ad99 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -84,6 +84,13 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
         if all(isinstance(i, int) for i in node):
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            s = to_mass_symbol(0) ** 2
+            m1, m2 = (
+                to_mass_symbol(i)
+                if isinstance(i, int)
+                else sp.sqrt(to_mandelstam_symbol(i))
+                for i in node
+            )
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From b3d06af5bbe22768f03da9e0b2953bd8177d2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 14/15] fix: use the radius of each channel in multichannel
 Breit-Wigners

---
 src/ampform_dpd/io/serialization/dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index 199ad99..c1c6ab0 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -163,11 +163,15 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
         mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        di = sp.Symbol(
+            Rf"R_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+        )
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From df71ba37881d0b6c8aedcc83e8f1d763750d1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 15/15] fix: do not share mutable parameters between cached
 lambdified functions

---
 src/ampform_dpd/io/cached.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..c84b058 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from functools import cache
 from typing import TYPE_CHECKING, overload
 
@@ -73,7 +74,8 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    function = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    return deepcopy(function)  # its parameters are mutable
 
 
 @cache
-- 
2.43.0

