From d19421532c8b95b7243d1c673943f786b809dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:18 +0000
Subject: [PATCH 01/18] fix: BOBS strategy returns exactly the requested number
 of samples

The number of samples per thread was always rounded up to the next multiple of
the number of threads, so e.g. 8 samples on 8 threads gave 16.
---
 .../nonuniform_losses_approximation_strategy.py      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 0f59ebd..d88575d 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -241,13 +241,11 @@ class NonuniformLossesApproximationStrategy:
         )
 
         # Get samples number per thread
-        samples_per_thread = (
-            samples_number
-            + self._threads_number
-            - (samples_number % self._threads_number)
-        )
-        samples_per_thread = int(samples_per_thread / self._threads_number)
-        samples_for_threads = [samples_per_thread] * self._threads_number
+        samples_for_threads = [
+            samples_number // self._threads_number
+        ] * self._threads_number
+        for i in range(samples_number % self._threads_number):
+            samples_for_threads[i] += 1
 
         # Context is required on Linux systems, as the default (fork) produces undesired
         # results! Spawn is default on osX and Windows and works as expected.
-- 
2.43.0


From cf14d7b10ca0e67c92ab2b430200d57df83c459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:18 +0000
Subject: [PATCH 02/18] fix: BOBS strategy forgets the approximated particles
 of earlier simulate calls

The number of particles in the approximated modes was accumulated over the calls,
so every call after the first sampled with too many particles.
---
 .../nonuniform_losses_approximation_strategy.py                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index d88575d..64fee14 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -228,6 +228,7 @@ class NonuniformLossesApproximationStrategy:
 
         # Prepare the state used in the approximate simulation.
         self._state_without_approximated_modes = list(input_state)
+        self._approximated_modes_particles_number = 0
 
         for i in range(self._approximated_modes_number):
             self._approximated_modes_particles_number += input_state[i]
-- 
2.43.0


From 5eb3188753fbbafb2206e0174c1b3dbca624ea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:45 +0000
Subject: [PATCH 03/18] fix: bosonic_space_dimension is exact for large spaces

The floating point binomial loses digits above 2**53, so round() returned
wrong dimensions (for example for 25 particles in 30 modes).
---
 .../boson_sampling_utilities/boson_sampling_utilities.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 338cf85..e95349b 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -6,6 +6,7 @@ __author__ = "Tomasz Rybotycki"
 """
 
 import itertools
+from math import comb
 from typing import List, Optional, Sequence, Tuple
 
 from numpy import (
@@ -25,7 +26,7 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import binom, factorial
+from scipy.special import factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -226,13 +227,13 @@ def bosonic_space_dimension(
             :math:`n` particles.
     """
 
-    dimension: int = round(binom(particles_number + modes_number - 1, particles_number))
+    dimension: int = comb(particles_number + modes_number - 1, particles_number)
 
     if not losses:
         return dimension
 
     for n in range(particles_number):
-        dimension += round(binom(n + modes_number - 1, n))
+        dimension += comb(n + modes_number - 1, n)
 
     return dimension
 
-- 
2.43.0


From d17647089a62529b3c7e6ef7d3798f89b5a086e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:45 +0000
Subject: [PATCH 04/18] fix: number of states of a given type is an exact
 integer

Floor division of floating point factorials returned wrong counts (and
floats) for larger numbers of modes.
---
 .../boson_sampling_utilities/boson_sampling_utilities.py  | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index e95349b..736ad87 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -6,7 +6,7 @@ __author__ = "Tomasz Rybotycki"
 """
 
 import itertools
-from math import comb
+from math import comb, factorial
 from typing import List, Optional, Sequence, Tuple
 
 from numpy import (
@@ -26,7 +26,6 @@ from numpy import (
     exp,
 )
 from numpy.linalg import svd
-from scipy.special import factorial
 from numpy.random import rand
 
 from theboss.quantum_computations_utilities import compute_qft_matrix
@@ -463,11 +462,6 @@ def compute_number_of_states_of_given_type(state_type: Sequence[int]) -> int:
     for val in vals:
         counts.append(state_type.count(val))
 
-    type_count = factorial(modes_number)
-
-    for count in counts:
-        type_count /= factorial(count)
-
     number_of_states_of_given_type = factorial(modes_number)
 
     for count in counts:
-- 
2.43.0


From 4ebba516b53db5c436c4abb709ead8b7868d5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:03 +0000
Subject: [PATCH 05/18] fix: sample based calculator uses the configured number
 of samples

calculate_distribution always used 5000 samples, whatever samples_number the
calculator was constructed with or assigned.
---
 .../bs_sample_based_distribution_calculator.py            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index 065dbe2..f5610a1 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -1,6 +1,6 @@
 __author__ = "Tomasz Rybotycki"
 
-from typing import List, Iterable
+from typing import List, Iterable, Optional
 
 from numpy import float64, ndarray, zeros, asarray
 
@@ -72,14 +72,18 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return self.calculate_approximate_distribution()
 
     def calculate_approximate_distribution(
-        self, samples_number: int = 5000
+        self, samples_number: Optional[int] = None
     ) -> List[float]:
         """
             Prepares the approximate distribution using boson sampling simulation method
             described by Oszmaniec and Brod. Obviously higher number of samples will
             generate better approximation.
+            :param samples_number: The number of samples to use. The one given by the
+            samples_number property is used if it's not specified.
             :return: Approximate distribution as a list.
         """
+        if samples_number is None:
+            samples_number = self._samples_number
 
         if self._outcomes is not None:
             possible_outcomes = self._outcomes
-- 
2.43.0


From 70b70206571f29488d601a7b16746530ce8d7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:03 +0000
Subject: [PATCH 06/18] fix: sample based calculator reports the outcomes its
 distribution refers to

get_outcomes_in_proper_order returned None unless the outcomes were given
explicitly.
---
 .../bs_sample_based_distribution_calculator.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index f5610a1..d8a5013 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -85,13 +85,7 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         if samples_number is None:
             samples_number = self._samples_number
 
-        if self._outcomes is not None:
-            possible_outcomes = self._outcomes
-        else:
-            possible_outcomes = generate_possible_states(
-                self.configuration.number_of_particles_left,
-                self.configuration.number_of_modes,
-            )
+        possible_outcomes = self.get_outcomes_in_proper_order()
 
         simulator = BosonSamplingSimulator(self._strategy)
 
@@ -114,4 +108,10 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
         return list(outcomes_probabilities)
 
     def get_outcomes_in_proper_order(self) -> List[ndarray]:
-        return self._outcomes
+        if self._outcomes is not None:
+            return self._outcomes
+
+        return generate_possible_states(
+            self.configuration.number_of_particles_left,
+            self.configuration.number_of_modes,
+        )
-- 
2.43.0


From da599bfc9f694ac75ab5c8756512bfb75e94df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:39 +0000
Subject: [PATCH 07/18] fix: uniform BOBS strategy takes the modes number from
 the matrix

The calculator's input state may not be set when the strategy is constructed,
and a hierarchy level outside of [0, m) should mean the exact simulation
instead of slicing the input state at a meaningless index.
---
 .../lossy_state_approximated_simulation_strategy.py        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fa2f51e..21c3bd1 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -53,6 +53,10 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         self._not_approximated_lossy_mixed_state_parts_weights = None
 
         # Required for general simulation
+        modes_number = len(bs_permanent_calculator.matrix)
+        # Assume exact simulation if hierarchy level is not specified.
+        if not 0 <= hierarchy_level < modes_number:
+            hierarchy_level = modes_number
         self._hierarchy_level: int = hierarchy_level
         self._uniform_transmissivity: float = uniform_transmissivity
         self._threads_number: int = self._get_proper_threads_number(threads_number)
@@ -60,8 +64,7 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             bs_permanent_calculator  # Should contain a UNITARY (no losses here!)
         )
         self._qft_matrix = generate_qft_matrix_for_first_m_modes(
-            len(bs_permanent_calculator.input_state) - hierarchy_level,
-            len(bs_permanent_calculator.input_state),
+            modes_number - hierarchy_level, modes_number
         )
 
     @staticmethod
-- 
2.43.0


From 2647609a39023d2d449a80fe283915637c65c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:39 +0000
Subject: [PATCH 08/18] fix: uniform BOBS strategy works when one part of the
 input state is empty

hstack with an empty part returned a float state, on which the sampler fails.
---
 .../lossy_state_approximated_simulation_strategy.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 21c3bd1..35eef98 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -332,7 +332,8 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
                 p=self._not_approximated_lossy_mixed_state_parts_weights,
             )
         ]
-        return hstack([not_approximated_part, approximated_part])
+        # The cast is required, as an empty part would make the state a float array.
+        return hstack([not_approximated_part, approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-- 
2.43.0


From 23b30431d9a1a66f64b4ce5499e3deda01343566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:39 +0000
Subject: [PATCH 09/18] fix: uniform BOBS strategy weights the lossy inputs of
 bunched states properly

Without the multiplicities the weights don't sum up to one if more than one
particle enters a single not approximated mode, and the sampling fails.
---
 .../lossy_state_approximated_simulation_strategy.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index 35eef98..fe6abd0 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -176,12 +176,15 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
         )
         self._not_approximated_lossy_mixed_state_parts_weights = []
 
-        n = sum(self._not_approximated_lossy_mixed_state_parts[-1])
+        whole_part = self._not_approximated_lossy_mixed_state_parts[-1]
+        n = sum(whole_part)
 
         for state_part in self._not_approximated_lossy_mixed_state_parts:
-            self._not_approximated_lossy_mixed_state_parts_weights.append(
-                possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
-            )
+            weight = possible_weights[int(sum(state_part))] / binom(n, sum(state_part))
+            # The number of ways in which the particles of the state part can be chosen.
+            for occupation, initial_occupation in zip(state_part, whole_part):
+                weight *= binom(initial_occupation, occupation)
+            self._not_approximated_lossy_mixed_state_parts_weights.append(weight)
 
     def _get_possible_lossy_inputs_weights(
         self, input_state: Sequence[int]
-- 
2.43.0


From da37477c473d34dae2817886b38a67875f7936e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:39 +0000
Subject: [PATCH 10/18] fix: uniform BOBS strategy approximates the modes
 beyond the hierarchy level

The random phases and the QFT act on the first modes, while the approximated
particles were put in the last ones, and the columns of the not approximated
modes were permuted as well, so even the particles that should be simulated
exactly entered random modes.
---
 ...ossy_state_approximated_simulation_strategy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
index fe6abd0..a62531b 100644
--- a/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_state_approximated_simulation_strategy.py
@@ -336,20 +336,25 @@ class LossyStateApproximationSimulationStrategy(SimulationStrategyInterface):
             )
         ]
         # The cast is required, as an empty part would make the state a float array.
-        return hstack([not_approximated_part, approximated_part]).astype(int)
+        # The approximated part comes first, as the random phases and the QFT are applied
+        # on the first modes.
+        return hstack([approximated_part, not_approximated_part]).astype(int)
 
     def _permuted_interferometer_matrix(self) -> ndarray:
         """
-        Permute the columns of the matrix for better symmetrization and possibly
-        more accurate sampling.
+        Permute the columns of the approximated modes for better symmetrization and
+        possibly more accurate sampling. The columns of the approximated modes precede
+        the ones of the not approximated modes, as in the input state for sampling.
 
         :return:
             The interferometer matrix with permuted columns.
         """
-        permutation = arange(
+        modes = arange(
             len(self._permanent_calculator.matrix)
         )  # We work with unitary matrices.
-        shuffle(permutation)
+        approximated_modes = modes[self._hierarchy_level :]
+        shuffle(approximated_modes)
+        permutation = hstack([approximated_modes, modes[: self._hierarchy_level]])
         return array(self._permanent_calculator.matrix)[:, permutation]
 
     def _get_matrix_for_approximate_sampling(self) -> ndarray:
-- 
2.43.0


From cd7595fcca7a4f05871833607262043b99920280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:11 +0000
Subject: [PATCH 11/18] fix: uniform BOBS strategies from the factory don't
 share its calculator

All the other strategies get a copy; this one followed later changes of the
factory's calculator.
---
 theboss/simulation_strategies/simulation_strategy_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/simulation_strategy_factory.py b/theboss/simulation_strategies/simulation_strategy_factory.py
index 8ed6180..85db37c 100644
--- a/theboss/simulation_strategies/simulation_strategy_factory.py
+++ b/theboss/simulation_strategies/simulation_strategy_factory.py
@@ -219,7 +219,7 @@ class SimulationStrategyFactory:
         self,
     ) -> LossyStateApproximationSimulationStrategy:
         return LossyStateApproximationSimulationStrategy(
-            bs_permanent_calculator=self._bs_permanent_calculator,
+            bs_permanent_calculator=deepcopy(self.bs_permanent_calculator),
             uniform_transmissivity=self._experiment_configuration.uniform_transmissivity,
             hierarchy_level=self._experiment_configuration.hierarchy_level,
             threads_number=self._available_threads_number,
-- 
2.43.0


From 5b2c58db72e0898d2cdebf202c19aecde86adade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:11 +0000
Subject: [PATCH 12/18] fix: lossy networks strategy doesn't replace the matrix
 of the given calculator

Constructing two strategies with the same calculator expanded the matrix twice.
---
 ...lossy_networks_generalized_cliffords_simulation_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
index fcfa489..6251997 100644
--- a/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
+++ b/theboss/simulation_strategies/lossy_networks_generalized_cliffords_simulation_strategy.py
@@ -4,6 +4,7 @@ __author__ = "Tomasz Rybotycki"
 A class for exact BS simulation using generalized C&C algorithm (version B).
 """
 
+from copy import deepcopy
 from numpy import delete, vstack, zeros_like, complex128
 from typing import Sequence, Tuple
 
@@ -39,6 +40,8 @@ class LossyNetworksGeneralizedCliffordsSimulationStrategy(SimulationStrategyInte
     """
 
     def __init__(self, bs_permanent_calculator: BSPermanentCalculatorInterface) -> None:
+        # The calculator belongs to the caller, so its matrix shouldn't be replaced.
+        bs_permanent_calculator = deepcopy(bs_permanent_calculator)
         bs_permanent_calculator.matrix = prepare_interferometer_matrix_in_expanded_space(
             bs_permanent_calculator.matrix
         )
-- 
2.43.0


From 934bc75e48e9d1cb8899ebd0cf2a413117b6db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:31 +0000
Subject: [PATCH 13/18] fix: BOBS strategy works for interferometers that
 transmit nothing

Rescaling by zero transmissivity filled the matrix with NaNs.
---
 .../nonuniform_losses_approximation_strategy.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
index 64fee14..f2af83f 100644
--- a/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
+++ b/theboss/simulation_strategies/nonuniform_losses_approximation_strategy.py
@@ -136,10 +136,12 @@ class NonuniformLossesApproximationStrategy:
         losses: List[float] = [1 - eta for eta in transmissivities]
         self._uniform_losses = min(losses)
 
-        # Form the interferometer_matrx with losses extracted.
-        transmissivities = [
-            eta / (1 - self._uniform_losses) for eta in transmissivities
-        ]
+        # Form the interferometer_matrx with losses extracted. There's nothing to be
+        # rescaled if nothing is transmitted.
+        if self._uniform_losses < 1:
+            transmissivities = [
+                eta / (1 - self._uniform_losses) for eta in transmissivities
+            ]
         s = [sqrt(eta) for eta in transmissivities]
         self._initial_matrix = u @ diag(s) @ v
 
-- 
2.43.0


From 51c2a72512ccc6b6ac6994bd0db58dc0fc2ca708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:02 +0000
Subject: [PATCH 14/18] fix: expanded interferometer matrix is unitary for
 lossy interferometers

---
 theboss/boson_sampling_utilities/boson_sampling_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/boson_sampling_utilities/boson_sampling_utilities.py b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
index 736ad87..495b299 100644
--- a/theboss/boson_sampling_utilities/boson_sampling_utilities.py
+++ b/theboss/boson_sampling_utilities/boson_sampling_utilities.py
@@ -335,7 +335,7 @@ def prepare_interferometer_matrix_in_expanded_space(
     # This is the most specific thing here.
     expanded_singular_values_matrix = block(
         [
-            [diag(singular_values), loss_transfer_extension_matrix],
+            [diag(singular_values), -loss_transfer_extension_matrix],
             [loss_transfer_extension_matrix, diag(singular_values)],
         ]
     )
-- 
2.43.0


From cab6cd7a77a0c3293fe52ae7d0e41d787c890c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:23 +0000
Subject: [PATCH 15/18] fix: sample based calculator counts repeated outcomes
 of the asked list

---
 .../bs_sample_based_distribution_calculator.py                   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
index d8a5013..861beb7 100644
--- a/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
+++ b/theboss/distribution_calculators/bs_sample_based_distribution_calculator.py
@@ -101,7 +101,6 @@ class BSSampleBasedDistributionCalculator(BSDistributionCalculatorInterface):
                     asarray(sample) == possible_outcomes[j]
                 ):  # Expect all elements of resultant list to be True.
                     outcomes_probabilities[j] += 1
-                    break
 
         outcomes_probabilities = outcomes_probabilities / samples_number
 
-- 
2.43.0


From 174a976b1fcb27d1f2513a83df80dcc322723430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:06 +0000
Subject: [PATCH 16/18] fix: get_prime_factors returned floats and a trailing
 one

---
 theboss/quantum_computations_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theboss/quantum_computations_utilities.py b/theboss/quantum_computations_utilities.py
index 83e2d70..183fed5 100644
--- a/theboss/quantum_computations_utilities.py
+++ b/theboss/quantum_computations_utilities.py
@@ -132,14 +132,16 @@ def get_prime_factors(number: int) -> List[int]:
 
     while number % 2 == 0:
         prime_factors.append(2)
-        number = number / 2
+        number //= 2
 
     for i in range(3, int(sqrt(number)) + 1, 2):
         while number % i == 0:
             prime_factors.append(i)
-            number = number / i
+            number //= i
 
-    prime_factors.append(number)
+    # The remaining part (if any) is a prime number greater than the found ones.
+    if number > 1:
+        prime_factors.append(number)
 
     return prime_factors
 
-- 
2.43.0


From 082b9e2924a321be301486c2b9845014ba18159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:55 +0000
Subject: [PATCH 17/18] fix: R Cliffords strategy samples the given input state

---
 .../cliffords_r_simulation_strategy.py        | 47 ++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ca6ad11..ce5972c 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -7,8 +7,8 @@ __author__ = "Tomasz Rybotycki"
     https://cran.r-project.org/web/packages/BosonSampling/index.html
 """
 
-from numpy import arange, array, array_split, int64, ndarray, isclose
-from scipy.special import binom
+from numpy import array, array_split, int64, ndarray, isclose, prod
+from scipy.special import binom, factorial
 from collections import defaultdict
 from typing import List, Dict, Tuple, DefaultDict, Sequence
 from rpy2 import robjects
@@ -20,6 +20,7 @@ from theboss.simulation_strategies.simulation_strategy_interface import (
 
 from ..boson_sampling_utilities.boson_sampling_utilities import (
     mode_assignment_to_mode_occupation,
+    mode_occupation_to_mode_assignment,
 )
 
 
@@ -61,6 +62,24 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         )
         return robjects.r.matrix(r_values, nrow=rows_number, ncol=columns_number)
 
+    def _get_sampler_input_matrix(
+        self, initial_state: Sequence[int]
+    ) -> robjects.r.matrix:
+        """
+        Prepares the matrix for the R sampler. Its columns are the columns of the
+        interferometer matrix of the modes the particles enter by, one per particle.
+
+        :param initial_state:
+            Input state in the modes occupation description.
+
+        :return:
+            The matrix to be given to the R sampler.
+        """
+        input_modes = list(mode_occupation_to_mode_assignment(initial_state))
+        return self._numpy_array_to_r_matrix(
+            array(self.interferometer_matrix)[:, input_modes]
+        )
+
     def simulate(
         self, initial_state: Sequence[int], samples_number: int = 1
     ) -> List[Tuple[int, ...]]:
@@ -78,11 +97,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         :return:
             List of samples in the mode occupation representation.
         """
-        number_of_bosons = int(sum(initial_state))
-
-        boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
-        )
+        boson_sampler_input_matrix = self._get_sampler_input_matrix(initial_state)
 
         result, permanent, probability_mass_function = self.cliffords_r_sampler(
             boson_sampler_input_matrix, sampleSize=samples_number, perm=False
@@ -122,15 +137,13 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             Probabilities of the specified outcomes.
         """
 
-        number_of_bosons = int(sum(initial_state))
-
         outcomes_of_interest = [tuple(o) for o in outcomes_of_interest]
 
         outcomes_probabilities: dict = {}
 
-        boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(number_of_bosons)]
-        )
+        boson_sampler_input_matrix = self._get_sampler_input_matrix(initial_state)
+        # The R sampler knows nothing about the particles sharing their input mode.
+        input_weight = prod(factorial(initial_state))
 
         number_of_samplings = 0
 
@@ -153,7 +166,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
             )
 
             if sample in outcomes_of_interest:
-                outcomes_probabilities[sample] = pmf[0]
+                outcomes_probabilities[sample] = pmf[0] / input_weight
 
             if number_of_samplings % int(1e4) == 0:
                 print(f"\tNumber of samplings: {number_of_samplings}")
@@ -184,9 +197,9 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
         n = int(sum(initial_state))
         m = len(initial_state)
 
-        boson_sampler_input_matrix = self._numpy_array_to_r_matrix(
-            array(self.interferometer_matrix)[:, arange(n)]
-        )
+        boson_sampler_input_matrix = self._get_sampler_input_matrix(initial_state)
+        # The R sampler knows nothing about the particles sharing their input mode.
+        input_weight = prod(factorial(initial_state))
 
         if int(binom(n + m - 1, m - 1)) < number_of_random_states:
             number_of_random_states = int(binom(n + m - 1, m - 1))
@@ -217,7 +230,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
                 )
             )
 
-            probabilities_of_random_states[sample] = pmf[0]
+            probabilities_of_random_states[sample] = pmf[0] / input_weight
 
             if number_of_samplings % int(1e4) == 0:
                 print(f"\tNumber of samplings: {number_of_samplings}")
-- 
2.43.0


From 78d2c34d131cfbd587378183e643c9114b4e8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:51 +0000
Subject: [PATCH 18/18] fix: R Cliffords strategy returns as many random states
 as asked for

---
 .../simulation_strategies/cliffords_r_simulation_strategy.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
index ce5972c..44be8e3 100644
--- a/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
+++ b/theboss/simulation_strategies/cliffords_r_simulation_strategy.py
@@ -210,7 +210,7 @@ class CliffordsRSimulationStrategy(SimulationStrategyInterface):
 
         while len(
             probabilities_of_random_states
-        ) < number_of_random_states or not isclose(probabilities_sum, 1):
+        ) < number_of_random_states and not isclose(probabilities_sum, 1):
 
             result, permanent, pmf = self.cliffords_r_sampler(
                 boson_sampler_input_matrix, sampleSize=1, perm=True
-- 
2.43.0

