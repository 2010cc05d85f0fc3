From 7daca5f47e401d17515107eac8d38471bc22ec20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 01/34] fix: resolve the default logarithm base when an
 estimator is created

The default was evaluated once per module at import time, so changing
Config 'base' had no effect on estimators already imported and froze
whatever base was configured when a module was first (lazily) loaded.
---
 infomeasure/estimators/base.py                | 22 ++++++++++---------
 infomeasure/estimators/entropy/ansb.py        |  3 +--
 infomeasure/estimators/entropy/bayes.py       |  3 +--
 infomeasure/estimators/entropy/kernel.py      |  3 +--
 .../estimators/entropy/kozachenko_leonenko.py |  3 +--
 infomeasure/estimators/entropy/nsb.py         |  3 +--
 infomeasure/estimators/entropy/ordinal.py     |  3 +--
 infomeasure/estimators/entropy/renyi.py       |  3 +--
 infomeasure/estimators/entropy/tsallis.py     |  3 +--
 .../estimators/mutual_information/ansb.py     |  3 +--
 .../estimators/mutual_information/bayes.py    |  3 +--
 .../mutual_information/bonachela.py           |  3 +--
 .../mutual_information/chao_shen.py           |  3 +--
 .../mutual_information/chao_wang_jost.py      |  3 +--
 .../estimators/mutual_information/discrete.py |  3 +--
 .../mutual_information/grassberger.py         |  3 +--
 .../estimators/mutual_information/kernel.py   |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../mutual_information/miller_madow.py        |  3 +--
 .../estimators/mutual_information/nsb.py      |  3 +--
 .../estimators/mutual_information/ordinal.py  |  3 +--
 .../estimators/mutual_information/renyi.py    |  3 +--
 .../estimators/mutual_information/shrink.py   |  3 +--
 .../estimators/mutual_information/tsallis.py  |  3 +--
 .../estimators/mutual_information/zhang.py    |  3 +--
 .../estimators/transfer_entropy/ansb.py       |  3 +--
 .../estimators/transfer_entropy/bayes.py      |  3 +--
 .../estimators/transfer_entropy/bonachela.py  |  3 +--
 .../estimators/transfer_entropy/chao_shen.py  |  3 +--
 .../transfer_entropy/chao_wang_jost.py        |  3 +--
 .../estimators/transfer_entropy/discrete.py   |  3 +--
 .../transfer_entropy/grassberger.py           |  3 +--
 .../estimators/transfer_entropy/kernel.py     |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../transfer_entropy/miller_madow.py          |  3 +--
 .../estimators/transfer_entropy/nsb.py        |  3 +--
 .../estimators/transfer_entropy/ordinal.py    |  3 +--
 .../estimators/transfer_entropy/renyi.py      |  3 +--
 .../estimators/transfer_entropy/shrink.py     |  3 +--
 .../estimators/transfer_entropy/tsallis.py    |  3 +--
 .../estimators/transfer_entropy/zhang.py      |  3 +--
 41 files changed, 52 insertions(+), 90 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..9eecb5f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,12 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        # Resolve the default when the estimator is created, not at import time
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +280,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +482,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +641,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +802,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +989,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,7 +1146,8 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
+            base = kwargs.get("base")
+            self.base = Config.get("base") if base is None else base
             self.res_global = None
             self.res_local = None
             return
@@ -1160,7 +1162,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
 
     @classmethod
     def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
+        cls, uniq, counts, base: LogBaseType = None, **kwargs
     ):
         """Construct a DiscreteHEstimator from the provided counts.
 
@@ -1176,7 +1178,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..d98aa0c 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -6,7 +6,6 @@ from scipy.special import digamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..fc9d3c0 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -3,7 +3,6 @@
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -68,7 +67,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..aa3d361 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -2,7 +2,6 @@
 
 from numpy import column_stack, sum as np_sum, isnan, nan
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import EntropyEstimator
 from ..mixins import WorkersMixin
@@ -129,7 +128,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..f29090b 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -9,7 +9,6 @@ from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
 from ..utils.array import assure_2d_data
 from ..utils.unit_ball_volume import unit_ball_volume
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -131,7 +130,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..daa8236 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -10,7 +10,6 @@ from scipy.special import loggamma, digamma, polygamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -80,7 +79,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..e8edff6 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -15,7 +15,6 @@ from numpy import (
 
 from ..base import EntropyEstimator
 from ..utils.ordinal import reduce_joint_space, symbolize_series
-from ... import Config
 from ...utils.config import logger
 from ...utils.data import DiscreteData
 from ...utils.types import LogBaseType
@@ -67,7 +66,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..3e6fbec 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -49,7 +48,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..c0a27fb 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -47,7 +46,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..5991b42 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -40,7 +39,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..b81c44f 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..ab57fb0 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..629b403 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..26a1030 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..fe405d8 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -16,7 +16,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import reduce_joint_space
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..865d333 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..4afa6c1 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -12,7 +12,6 @@ from ..base import (
 from ..mixins import WorkersMixin
 from ..utils.array import assure_2d_data
 from ..utils.kde import kde_probability_density_function
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -53,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..5963ed8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalMutualInformationEstimator,
 )
 from ..utils.array import assure_2d_data
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -57,7 +56,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..c34df35 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -41,7 +40,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..cf22e7b 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -39,7 +38,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..426ee8b 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import symbolize_series, reduce_joint_space
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -69,7 +68,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..0d07617 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..8226eea 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..380d86a 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..78d123b 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..e086624 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -55,7 +54,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..1ef7285 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -63,7 +62,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..7df0ec1 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..7313f36 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..d5918b3 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..05e7b16 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -12,7 +12,6 @@ from ..mixins import DiscreteTEMixin
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import reduce_joint_space
 from ..utils.te_slicing import cte_observations, te_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..450ada6 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..190bea7 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import isinf, isnan
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -65,7 +64,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..da9a9f2 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalTransferEntropyEstimator,
 )
 from ..utils.te_slicing import te_observations, cte_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..099433e 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import ndarray
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -52,7 +51,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..0d7f563 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..e6f1a83 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import integer, issubdtype, ndarray
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -76,7 +75,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..65413c9 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -71,7 +70,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..5637bd5 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..1c5c1eb 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -72,7 +71,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..1549e30 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From 539b8a31f2430b6ec4b707d87c48aab2b34c5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/34] fix: avoid integer overflow in discrete (C)MI of many
 variables

The product of the marginal counts was formed in uint64 before taking the
logarithm and wrapped around silently, e.g. six variables with 10000
samples, giving arbitrary results. Sum the logarithms instead.
---
 .../utils/discrete_interaction_information.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..91095de 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -114,11 +114,9 @@ def _mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count.take(idx).astype(uint64, copy=False)
-            for count, idx in zip(count_marginals, idxs)
-        ],
+    # Sum the logarithms, the product of many counts can exceed the integer range.
+    log_counts = np_sum(
+        [log_func(count.take(idx)) for count, idx in zip(count_marginals, idxs)],
         axis=0,
     )
 
@@ -129,7 +127,7 @@ def _mutual_information_global_nd_int(
     # Logarithm of the non-zero elements
     log_p_joint = log_func(vals)
 
-    log_outer = -log_func(outer) + len(count_marginals) * log_func(contingency_sum)
+    log_outer = -log_counts + len(count_marginals) * log_func(contingency_sum)
     # Combine the terms to calculate the mutual information
     mi = p_joint * (log_p_joint - log_func(contingency_sum)) + p_joint * log_outer
 
@@ -436,9 +434,10 @@ def _conditional_mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
+    # Sum the logarithms, the product of many counts can exceed the integer range.
+    log_counts = np_sum(
         [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
+            log_func(count[idx, idxs[-1]])
             for count, idx in zip(count_marginals_cond, idxs[:-1])
         ],
         axis=0,
@@ -449,10 +448,10 @@ def _conditional_mutual_information_global_nd_int(
     p_joint = vals / contingency_sum
 
     # Logarithm of the non-zero elements
-    p_cond = count_cond.take(idxs[-1]).astype(uint64, copy=False)
-    log_p_joint = log_func(vals * p_cond) - log_func(contingency_sum)
+    log_p_cond = log_func(count_cond.take(idxs[-1]))
+    log_p_joint = log_func(vals) + log_p_cond - log_func(contingency_sum)
 
-    log_outer = -log_func(outer) + sum(
+    log_outer = -log_counts + sum(
         log_func(count_m.sum()) for count_m in count_marginals_cond[:-1]
     )
     # Combine the terms to calculate the mutual information
-- 
2.43.0


From 5d59496a57c4bfc21b72aa5ee67f731b5b98ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/34] fix: discrete MI/CMI of three or more variables with a
 constant variable

A single constant variable short-circuited the result to zero, although
the remaining variables can share information.
---
 .../utils/discrete_interaction_information.py      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index 91095de..a13c2e0 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -304,8 +304,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -429,7 +429,8 @@ def _conditional_mutual_information_global_nd_int(
     # all axes, except cond
 
     # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # (this only determines the result for two variables)
+    if len(data) == 2 and any(count_m.size == 1 for count_m in count_marginals_cond):
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -541,7 +542,8 @@ def conditional_mutual_information_local(
     )
 
     # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # (this only determines the result for two variables)
+    if len(data) == 2 and any(count_m.size == 1 for count_m in count_marginals_cond):
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 61f02157ef9677e45d9c9d423be1064dd0f23044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 04/34] fix: average the metric cross-entropy over the points
 of P

The log-distances of the samples of P were summed but divided by the number
of samples of Q, giving wrong values for samples of different sizes.
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index f29090b..686ee8c 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -261,7 +261,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / len(distances)
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
-- 
2.43.0


From 5464f58f53dddd5175d41a233640c4f612788185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 05/34] fix: metric, Renyi and Tsallis cross-entropy with a
 single neighbour

KDTree.query drops the neighbour axis for k=1, so k=1 raised an IndexError.
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 infomeasure/estimators/utils/exponential_family.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 686ee8c..63bc917 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -242,7 +242,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy_q)
 
         # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..f42f0ae 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,7 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    rho_k = tree.query(at, k=[k])[0][:, 0]  # k+1 because the point itself is included
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From 631fd26186288b12769df99a0cc18240747a38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 06/34] fix: kernel CMI with multi-dimensional variables or
 condition

The conditional marginals were picked by column index, which only matched
the variables if all of them, and the condition, were one-dimensional.
---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index 4afa6c1..f92ae7a 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -230,15 +229,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack([var, self.cond]),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From 00c1eb86877842977ab55184c110c92d84fc4734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 07/34] fix: evaluate the Chao-Wang-Jost correction without
 cancellation

(1-A)^(1-N) multiplies the difference of two nearly equal numbers, the
rounding error of which dominated already for some samples with N~60
and overflowed for larger N.
---
 infomeasure/estimators/entropy/chao_wang_jost.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/chao_wang_jost.py b/infomeasure/estimators/entropy/chao_wang_jost.py
index e4df93c..d6ee7a9 100644
--- a/infomeasure/estimators/entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/entropy/chao_wang_jost.py
@@ -1,6 +1,6 @@
 """Module for the Chao Wang Jost entropy estimator."""
 
-from numpy import log
+from numpy import arange, ceil, log
 from numpy import sum as np_sum
 from scipy.special import digamma
 
@@ -130,9 +130,17 @@ class ChaoWangJostEntropyEstimator(DiscreteHEstimator):
         ).sum() / N
         # Second part: correction term when A != 1
         if A != 1 and f1 > 0:
-            # Calculate sum_{r=1}^{N-1} (1/r) * (1-A)^r
-            p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
-            correction = f1 / N * (1 - A) ** (1 - N) * (-log(A) - p2)
+            if A * N > 1:
+                # -log(A) - sum_{r=1}^{N-1} (1/r) * (1-A)^r is the tail of the series
+                # of -log(A). Here, the difference would cancel, so sum the tail
+                # until the terms vanish.
+                r = arange(N, N + ceil(-40 / log(1 - A)))
+                tail = ((1 - A) ** (r - N + 1.0) / r).sum()
+            else:
+                # Calculate sum_{r=1}^{N-1} (1/r) * (1-A)^r
+                p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
+                tail = (1 - A) ** (1 - N) * (-log(A) - p2)
+            correction = f1 / N * tail
             cwj += correction
 
         # Convert to the desired base
-- 
2.43.0


From 10eef0caf70acb00d311411b2790b3c301914812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 08/34] fix: honour 'stable' in all ordinal entropies

The shortcuts for embedding dimensions 2 and 3, the joint entropy and the
cross-entropy ignored the option for series with equal elements.
---
 infomeasure/estimators/entropy/ordinal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index e8edff6..63fbe06 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -184,9 +184,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         return subarray_patterns[: len(a) - n + 1]
 
     def _estimate_probabilities(self, time_series, embedding_dim):
-        if embedding_dim == 2 and self.step_size == 1:
+        # The simplified cases do not preserve the order of equal elements
+        if embedding_dim == 2 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_2(time_series)
-        if embedding_dim == 3 and self.step_size == 1:
+        if embedding_dim == 3 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_3(time_series)
 
         # Get the length of the time series
@@ -225,7 +226,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         """Calculate the joint entropy of the data."""
         # Symbolize separately (permutation patterns -> Lehmer codes)
         symbols = (
-            symbolize_series(marginal, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                marginal,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for marginal in self.data[0]  # data is tuple of time series
         )  # shape (n - (embedding_dim - 1) * step_size, num_joints)
         # Reduce the joint space
@@ -265,7 +272,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
                 "This is to have a clear definition for the support set."
             )
         symbols = tuple(
-            symbolize_series(var, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                var,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for var in self.data
         )
         data_p = DiscreteData.from_data(symbols[0])
-- 
2.43.0


From e1fc0e5151303682196125809a5c7b3f964d56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 09/34] fix: ordinal pattern of a series with a single pattern

Equal elements were ordered differently than in longer series, so the JSD
of two constant series was not zero.
---
 infomeasure/estimators/entropy/ordinal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 63fbe06..b1328f7 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -210,8 +210,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             self.patterns = [0] * len(self.data[0])
             return 0.0
         elif (self.embedding_dim - 1) * self.step_size + 1 == self.data[0].shape[0]:
-            self.dist_dict = {tuple(self.data[0].argsort()): 1.0}
-            self.patterns = [list(self.dist_dict.keys())[0]]
+            # a single pattern, use the same convention for equal elements as below
+            _, self.dist_dict, self.patterns = self._estimate_probabilities(
+                self.data[0], self.embedding_dim
+            )
             return 0.0
         probabilities, self.dist_dict, self.patterns = self._estimate_probabilities(
             self.data[0], self.embedding_dim
-- 
2.43.0


From 0ecd15e4c0b635130459b5eb64b9fe1ce2f84324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 10/34] fix: local values of the joint ordinal entropy

The joint patterns are integers, not sequences, which raised a TypeError.
---
 infomeasure/estimators/entropy/ordinal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b1328f7..1fb02c9 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -257,7 +257,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        # These are integers for joint entropy and ``embedding_dim=1``, else sequences
+        p_local = [
+            self.dist_dict[
+                tuple(pattern) if isinstance(pattern, (tuple, ndarray)) else pattern
+            ]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From 980ccbba8093d826656a0c5b0202e884b72cab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 11/34] fix: statistical test of ordinal (conditional) mutual
 information

The symbols were computed once and never resampled, so that every test value
was equal to the observed value and the p-value always zero.
---
 .../estimators/mutual_information/ordinal.py       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 426ee8b..1d37ddd 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -1,6 +1,7 @@
 """Module for the Ordinal / Permutation mutual information estimator."""
 
 from abc import ABC
+from typing import Callable
 
 from numpy import issubdtype, integer, ndarray
 
@@ -140,6 +141,19 @@ class BaseOrdinalMIEstimator(ABC):
                 )
             )
 
+    def _calculate_mi_with_data_selection(self, method_resample_src: Callable):
+        """Calculate the measure for resampled symbols of the first variable.
+
+        The embedding has already been done, so the symbols need to be resampled,
+        changing ``data`` would not have an effect.
+        """
+        original_symbols = self.symbols
+        self.symbols = [method_resample_src(original_symbols[0]), original_symbols[1]]
+        try:
+            return self._calculate()
+        finally:
+            self.symbols = original_symbols
+
 
 class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
     r"""Estimator for the Ordinal mutual information.
-- 
2.43.0


From 4c5b66461b63b7f8852f4b4acb2c9659fa5af80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 12/34] fix: restore the estimator if a statistical test is
 interrupted

An exception or keyboard interrupt left the resampled data, or the
permutation flags, in place and later results were calculated from them.
---
 infomeasure/estimators/mixins.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..f4854c4 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -294,13 +294,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data, also if the test gets interrupted
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -335,12 +336,13 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags, also if interrupted
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From e4e478e84ea4e6ed4f21dd6380d8493fa079688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/34] fix: add the noise to the condition of the KSG CMI only
 once

It was added once per sample, increasing its standard deviation by the
square root of the number of samples.
---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5963ed8..391b695 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -282,7 +282,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+            cond += self.rng.normal(0, self.noise_level, cond.shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From 3572a8e9b21d7e8b8418771a66168464ba34612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/34] fix: discrete MI between one- and multi-dimensional
 variables

Mixing them raised a TypeError, while all other discrete approaches, and
the local values, support it.
---
 infomeasure/estimators/utils/discrete_interaction_information.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index a13c2e0..9da91f8 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -204,6 +204,7 @@ def _mutual_information_global_nd_other(
     """
     # data is a tuple of ndarrays, for joint data, concatenate these rows
     # joint_data = [tuple(row) for row in column_stack(data)]
+    data = [d if d.ndim > 1 else d.reshape(-1, 1) for d in data]
     joint_data = [tuple(tuple(val) for val in row) for row in zip(*data)]
 
     # Count joint and marginal occurrences
-- 
2.43.0


From 67af435453035b9087e23121091691dad5ddcc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 15/34] fix: pass the step size on to the ordinal entropy and
 MI estimators

---
 infomeasure/estimators/functional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..4f2f065 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -716,6 +716,8 @@ def estimator(
                 "pass your data in a tuple, e.g., estimator((data1, data2)). "
                 "For cross-entropy, pass two separate RVs, e.g., estimator(p, q)."
             )
+        if step_size != 1:  # embedding delay of the ordinal approach
+            kwargs["step_size"] = step_size
         EstimatorClass = _get_estimator(entropy_estimators, approach)
         return EstimatorClass(*data, **kwargs)
     elif measure_comp in [
@@ -731,6 +733,8 @@ def estimator(
             )
         if len(data) == 0:
             raise ValueError("No data was provided for mutual information estimation.")
+        if step_size != 1:  # embedding delay of the ordinal approach
+            kwargs["step_size"] = step_size
         if len(data) == 1:
             logger.warning(
                 "Only one data array provided for mutual information estimation. "
-- 
2.43.0


From 6a8b57e82f05fbd63f56210e8b9216de2525d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 16/34] fix: use the symmetric eigensolver for the covariance
 of the Gaussian KDE

numpy's general eigensolver can return complex eigenvectors for a singular
covariance matrix, so the reprojected data became complex and scipy refused it.
---
 infomeasure/estimators/utils/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..1e4991f 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -13,7 +13,7 @@ from numpy import (
     number,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig
+from numpy.linalg import eigh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -134,7 +134,7 @@ def gaussian_kernel_densities(
         # Calculate covariance matrix
         covariance_matrix = cov(data)
         # Get eigenvalues and eigenvectors
-        values, vectors = eig(covariance_matrix)
+        values, vectors = eigh(covariance_matrix)
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-- 
2.43.0


From ef3f706f88030521c19c715414a02372532f0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 17/34] fix: look up the approach of a single-variable MI
 request case-insensitively

---
 infomeasure/estimators/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index 4f2f065..98383c2 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -740,9 +740,9 @@ def estimator(
                 "Only one data array provided for mutual information estimation. "
                 "Using normal entropy estimator."
             )
-            EstimatorClass = _get_estimator(
-                entropy_estimators, mi_entropy_map[approach]
-            )
+            if isinstance(approach, str):
+                approach = mi_entropy_map.get(approach.lower(), approach)
+            EstimatorClass = _get_estimator(entropy_estimators, approach)
             return EstimatorClass(data[0], **kwargs)
         if cond is not None:
             EstimatorClass = _get_estimator(cmi_estimators, approach)
-- 
2.43.0


From 810ec5003b376ec85605f40ee8f22c0e5966927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 18/34] fix: refuse an unknown log level with the documented
 ValueError

---
 infomeasure/utils/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/infomeasure/utils/config.py b/infomeasure/utils/config.py
index c25efb9..30dd276 100644
--- a/infomeasure/utils/config.py
+++ b/infomeasure/utils/config.py
@@ -213,9 +213,8 @@ class Config:
         ValueError
             If the level is not a valid logging level.
         """
-        # get logging representation of level
-        level = level if isinstance(level, int) else getattr(logging, level.upper())
-        logger.setLevel(level)
+        # level names are resolved (and unknown ones refused) by the logging module
+        logger.setLevel(level if isinstance(level, int) else level.upper())
 
 
 logger.debug(
-- 
2.43.0


From ed654a24b60e0c53af7e7e21f117eb40b8ae272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 19/34] fix: refuse empty data for entropies of every approach

---
 infomeasure/estimators/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 9eecb5f..e794e4a 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -333,6 +333,8 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
 
         # differing lengths are allowed for cross-entropy, but not inside joint RVs
         for var in self.data:
+            if any(d.size == 0 for d in (var if isinstance(var, tuple) else (var,))):
+                raise ValueError("The data must not be empty.")
             if isinstance(var, tuple) and any(len(d) != len(var[0]) for d in var):
                 raise ValueError(
                     "All elements of a joint random variable must have the same length."
-- 
2.43.0


From 75e455c68da0caebb729a666f40cb0fa0366eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 20/34] fix: require a positive integer number of neighbours
 for KSG

---
 .../mutual_information/kraskov_stoegbauer_grassberger.py   | 6 ++++++
 .../transfer_entropy/kraskov_stoegbauer_grassberger.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 391b695..24a9c72 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -3,6 +3,7 @@
 from abc import ABC
 
 from numpy import column_stack, inf, array, ndarray, log, nextafter
+from numpy import integer, issubdtype
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -108,6 +109,11 @@ class BaseKSGMIEstimator(ABC):
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
         self.k = k
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
         self.ksg_id = ksg_id
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index da9a9f2..cd71ca8 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import array, inf, ndarray, log, nextafter
+from numpy import array, inf, integer, issubdtype, ndarray, log, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -131,6 +131,11 @@ class BaseKSGTEEstimator(ABC):
                 **kwargs,
             )
         self.k = k
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
         self.ksg_id = ksg_id
-- 
2.43.0


From 65bbe729e6ff33cfa5ce71f60e4625a727334ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 21/34] fix: determine the rank for the Gaussian kernel density
 relative to the scale of the data

---
 infomeasure/estimators/utils/kde.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 1e4991f..14aec5d 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -102,7 +102,7 @@ def kde_probability_density_function(
 
 
 def gaussian_kernel_densities(
-    data, bandwidth, at=None, workers=1, eigen_threshold: float = 1e-10
+    data, bandwidth, at=None, workers=1, eigen_threshold: float = 1e-14
 ):
     """Calculate kde for gaussian kernel.
 
@@ -122,7 +122,8 @@ def gaussian_kernel_densities(
     workers : int, optional
         Number of workers to use for parallel processing. Default is 1.
     eigen_threshold : float, optional
-        Threshold for eigenvalues to determine rank of data. Default is 1e-10.
+        Threshold for eigenvalues to determine rank of data,
+        as a fraction of the largest eigenvalue. Default is 1e-14.
 
     Returns
     -------
@@ -138,8 +139,11 @@ def gaussian_kernel_densities(
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-        # Get the number of eigenvalues greater than the threshold
-        num_non_zero_eigenvalues = np_sum(values_sorted > eigen_threshold)
+        # Get the number of eigenvalues greater than the threshold,
+        # relative to the largest one, as the rank does not depend on the units
+        num_non_zero_eigenvalues = np_sum(
+            values_sorted > eigen_threshold * values_sorted[0]
+        )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
             logger.debug(
-- 
2.43.0


From 61c6155e3e9ff1d333f961e06be0706caad66298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 22/34] fix: keep values of differing types apart when joining
 variables

---
 infomeasure/estimators/utils/ordinal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/utils/ordinal.py b/infomeasure/estimators/utils/ordinal.py
index 54661bf..dd855ae 100644
--- a/infomeasure/estimators/utils/ordinal.py
+++ b/infomeasure/estimators/utils/ordinal.py
@@ -6,6 +6,7 @@ from typing import Generator
 from numpy import (
     ndarray,
     argsort,
+    asarray,
     apply_along_axis,
     zeros,
     sum as np_sum,
@@ -200,7 +201,11 @@ def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     if isinstance(data, Generator):
         data = tuple(data)
     if isinstance(data, tuple):
-        data = column_stack(data)
+        columns = [asarray(var) for var in data]
+        if len({var.dtype for var in columns}) > 1:
+            # enumerate each variable, as a common type might merge distinct values
+            columns = [unique(var, axis=0, return_inverse=True)[1] for var in columns]
+        data = column_stack(columns)
     if data.ndim == 2:
         # Reduce the data to the joint space using the numpy unique function
         return unique(data, axis=0, return_inverse=True)[1]  # use inverse indices
-- 
2.43.0


From 565f1df9380452a86d0e7ab5efdf7b8634c6be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 23/34] fix: judge the rank for the Gaussian kernel density by
 the correlations

---
 infomeasure/estimators/utils/kde.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 14aec5d..a511a18 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -7,13 +7,17 @@ from numpy import (
     array_split,
     concatenate,
     cov,
+    diag,
     dot,
     inf,
     issubdtype,
     number,
+    outer,
+    ptp,
+    sqrt,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eigh
+from numpy.linalg import eigh, eigvalsh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -102,7 +106,7 @@ def kde_probability_density_function(
 
 
 def gaussian_kernel_densities(
-    data, bandwidth, at=None, workers=1, eigen_threshold: float = 1e-14
+    data, bandwidth, at=None, workers=1, eigen_threshold: float = 1e-10
 ):
     """Calculate kde for gaussian kernel.
 
@@ -123,7 +127,7 @@ def gaussian_kernel_densities(
         Number of workers to use for parallel processing. Default is 1.
     eigen_threshold : float, optional
         Threshold for eigenvalues to determine rank of data,
-        as a fraction of the largest eigenvalue. Default is 1e-14.
+        with each variable scaled to unit variance. Default is 1e-10.
 
     Returns
     -------
@@ -140,9 +144,11 @@ def gaussian_kernel_densities(
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
         # Get the number of eigenvalues greater than the threshold,
-        # relative to the largest one, as the rank does not depend on the units
+        # scale the variables first, as the rank does not depend on their units
+        scales = sqrt(diag(covariance_matrix))
+        scales[(scales == 0) | (ptp(data, axis=1) == 0)] = inf  # constant
         num_non_zero_eigenvalues = np_sum(
-            values_sorted > eigen_threshold * values_sorted[0]
+            eigvalsh(covariance_matrix / outer(scales, scales)) > eigen_threshold
         )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
-- 
2.43.0


From 00118dbe8558a2fe07352d32c4b2615cb12ae269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 24/34] fix: let the Grassberger entropy be computed from
 counts

---
 infomeasure/estimators/entropy/grassberger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/grassberger.py b/infomeasure/estimators/entropy/grassberger.py
index 6a196f9..3202433 100644
--- a/infomeasure/estimators/entropy/grassberger.py
+++ b/infomeasure/estimators/entropy/grassberger.py
@@ -1,6 +1,7 @@
 """Module for the discrete Grassberger entropy estimator."""
 
 from numpy import asarray, log
+from numpy import sum as np_sum
 from scipy.special import digamma
 
 from infomeasure.estimators.base import DiscreteHEstimator
@@ -39,13 +40,18 @@ class GrassbergerEntropyEstimator(DiscreteHEstimator):
         count_dict = dict(zip(self.data[0].uniq, self.data[0].counts))
 
         # Vectorized calculation of local values
-        n_i = asarray([count_dict[val] for val in self.data[0].data])
+        data = self.data[0].data
+        n_i = asarray(
+            [count_dict[val] for val in (self.data[0].uniq if data is None else data)]
+        )
         local_values = log(self.data[0].N) - digamma(n_i) - ((-1) ** n_i) / (n_i + 1)
 
         # Convert to the requested base if needed
         if self.base != "e":
             local_values /= log(self.base)
 
+        if data is None:  # only the counts are known, not the samples
+            return np_sum(n_i * local_values) / self.data[0].N
         return local_values
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From 25208f828a3d13d4b24160314b90b4a62f0845fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:04 +0000
Subject: [PATCH 25/34] fix: keep counts in a type that does not overflow

---
 infomeasure/utils/data.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/infomeasure/utils/data.py b/infomeasure/utils/data.py
index 89d0633..ba2ad5a 100644
--- a/infomeasure/utils/data.py
+++ b/infomeasure/utils/data.py
@@ -2,7 +2,15 @@
 
 from dataclasses import dataclass, field
 
-from numpy import ndarray, unique, asarray, percentile, integer, issubdtype
+from numpy import (
+    ndarray,
+    unique,
+    asarray,
+    percentile,
+    int64,
+    integer,
+    issubdtype,
+)
 
 
 @dataclass(frozen=True)
@@ -85,6 +93,8 @@ class DiscreteData:
             raise ValueError("counts must sum to a positive value")
         if not issubdtype(self.counts.dtype, integer):
             raise ValueError("counts must be integers")
+        # a narrow or unsigned type would overflow in the estimators' formulas
+        object.__setattr__(self, "counts", self.counts.astype(int64, copy=False))
 
         # Set K (number of unique values)
         object.__setattr__(self, "K", len(self.uniq))
-- 
2.43.0


From 7079f7801b64b6668a293c22e1f4cfb51a524a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 26/34] fix: refuse more neighbours than there are other points

---
 .../estimators/entropy/kozachenko_leonenko.py        | 12 ++++++++++++
 .../kraskov_stoegbauer_grassberger.py                | 10 ++++++++++
 .../kraskov_stoegbauer_grassberger.py                | 10 ++++++++++
 3 files changed, 32 insertions(+)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 63bc917..2e9eefc 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -182,6 +182,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         if self.noise_level and self.noise_level != 0:
             data_noisy += self.rng.normal(0, self.noise_level, self.data[0].shape)
 
+        if self.k >= len(data_noisy):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy)
 
@@ -238,6 +244,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             data_noisy_p += self.rng.normal(0, self.noise_level, self.data[0].shape)
             data_noisy_q += self.rng.normal(0, self.noise_level, self.data[1].shape)
 
+        if self.k > len(data_noisy_q):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 24a9c72..4e2c242 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -178,6 +178,11 @@ class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
 
         # Stack the X and Y data to form joint observations
         data_joint = column_stack(data)
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
 
         # Create a KDTree for joint data to find nearest neighbors using the maximum
         # norm
@@ -292,6 +297,11 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
 
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(data_joint)
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index cd71ca8..6f6b7c7 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -209,6 +209,11 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
             resample_src=self.resample_src,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
@@ -356,6 +361,11 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
             step_size=self.step_size,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
-- 
2.43.0


From 74cb28a5a71b4567982f849712689be5f5d83b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 27/34] fix: let Renyi and Tsallis entropies be computed for
 many neighbours

---
 infomeasure/estimators/utils/exponential_family.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index f42f0ae..00d5e28 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -7,7 +7,7 @@ functions for these distributions.
 
 from numpy import pi, sum as np_sum, exp as np_exp
 from scipy.spatial import KDTree
-from scipy.special import gamma, digamma
+from scipy.special import gamma, digamma, poch
 
 
 def calculate_common_entropy_components(data, k, at=None):
@@ -93,7 +93,12 @@ def exponential_family_iq(k, q, V_m, rho_k, N, m):
     """
     if q == k + 1:  # In this case, C_k is complex infinite and (C_k)^-q = 0 for real q.
         return 0.0
-    C_k = (gamma(k) / gamma(k + 1 - q)) ** (1 / (1 - q))
+    if q < k + 1:
+        # Gamma(k) / Gamma(k + 1 - q), where either alone overflows for large k
+        gamma_ratio = poch(k + 1 - q, q - 1)
+    else:
+        gamma_ratio = gamma(k) / gamma(k + 1 - q)
+    C_k = gamma_ratio ** (1 / (1 - q))
     return (
         (N * C_k * V_m) ** (1 - q)
         * np_sum((rho_k[rho_k > 0] ** m) ** (1 - q))
-- 
2.43.0


From 4a76c1aaa708499f9ed92948641712d3402fc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 28/34] fix: normalize integer data without overflow

---
 infomeasure/estimators/utils/normalize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/utils/normalize.py b/infomeasure/estimators/utils/normalize.py
index 7268fef..c7b1c34 100644
--- a/infomeasure/estimators/utils/normalize.py
+++ b/infomeasure/estimators/utils/normalize.py
@@ -1,8 +1,8 @@
 """Normalize a time series."""
 
+from numpy import asarray, ndarray
 from numpy import max as np_max
 from numpy import min as np_min
-from numpy import ndarray
 
 
 def normalize_data_0_1(data: ndarray) -> ndarray:
@@ -27,6 +27,8 @@ def normalize_data_0_1(data: ndarray) -> ndarray:
            [0.5, 0.5],
            [1. , 1. ]])
     """
+    # The range of small integer types does not fit into the type itself
+    data = asarray(data, dtype=float)
     min_vals = np_min(data, axis=0)
     max_vals = np_max(data, axis=0)
     return (data - min_vals) / (max_vals - min_vals)
-- 
2.43.0


From 01c73684ec9d72fc1db53c449df9169731b30910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 29/34] fix: refuse offsets that leave no mutual information
 samples

---
 infomeasure/estimators/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index e794e4a..b6efc76 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -510,6 +510,8 @@ class MutualInformationEstimator(
                 self.data[0][-self.offset :],
                 self.data[1][: self.offset or None],
             )
+        if any(var.shape[0] == 0 for var in self.data):
+            raise ValueError("The data must not be empty, also after the offset.")
         # Normalize the data
         self.normalize = normalize
         if self.normalize and any(var.ndim != 1 for var in self.data):
-- 
2.43.0


From f7d69af5b6a26ab9ffc13ac7e080c089e693b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 30/34] fix: check the dimensions of all variables before
 normalizing

---
 infomeasure/estimators/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index b6efc76..ec0b37e 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -662,9 +662,7 @@ class ConditionalMutualInformationEstimator(
         self.cond = asarray(cond)
         # Normalize the data
         self.normalize = normalize
-        if self.normalize and (
-            self.data[0].ndim != 1 or self.data[1].ndim != 1 or self.cond.ndim != 1
-        ):
+        if self.normalize and any(var.ndim != 1 for var in (*self.data, self.cond)):
             raise ValueError("Data arrays must be 1D for normalization.")
         if self.normalize:
             self.data = tuple(normalize_data_0_1(var) for var in self.data)
-- 
2.43.0


From 5eddb794c07d254180de0e16ff9ceed192100e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 31/34] fix: keep symbols of differing types apart in transfer
 entropies

---
 infomeasure/estimators/base.py          |  6 +++++-
 infomeasure/estimators/utils/ordinal.py | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index ec0b37e..75bfb88 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -25,7 +25,7 @@ from ..utils.exceptions import TheoreticalInconsistencyError
 from ..utils.types import EstimatorType, LogBaseType
 from .utils.normalize import normalize_data_0_1
 from .utils.te_slicing import cte_observations, te_observations
-from .utils.ordinal import reduce_joint_space
+from .utils.ordinal import reduce_joint_space, unify_symbol_types
 
 
 class Estimator(Generic[EstimatorType], ABC):
@@ -895,6 +895,8 @@ class TransferEntropyEstimator(
         # Ensure source and dest are numpy arrays
         source = self.source.copy()
         dest = self.dest.copy()
+        if issubclass(estimator, DiscreteHEstimator):
+            source, dest = unify_symbol_types(source, dest)
 
         # If Discrete Estimator and noise_level is set, raise an error
         if estimator.__name__ == "DiscreteEntropyEstimator" and noise_level:
@@ -1054,6 +1056,8 @@ class ConditionalTransferEntropyEstimator(
         source = self.source.copy()
         dest = self.dest.copy()
         cond = self.cond.copy()
+        if issubclass(estimator, DiscreteHEstimator):
+            source, dest, cond = unify_symbol_types(source, dest, cond)
 
         # Add Gaussian noise to the data if the flag is set
         if isinstance(noise_level, (int, float)) and noise_level != 0:
diff --git a/infomeasure/estimators/utils/ordinal.py b/infomeasure/estimators/utils/ordinal.py
index dd855ae..d0b9128 100644
--- a/infomeasure/estimators/utils/ordinal.py
+++ b/infomeasure/estimators/utils/ordinal.py
@@ -212,3 +212,26 @@ def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     elif data.ndim == 1:
         return data
     raise ValueError("Data array must be 1D or 2D.")
+
+
+def unify_symbol_types(*variables: ndarray) -> tuple[ndarray, ...]:
+    """Enumerate the symbols of discrete variables if their types differ.
+
+    Joining variables of differing types casts them to a common type,
+    which might merge distinct symbols.
+
+    Parameters
+    ----------
+    variables : ndarray
+        The discrete variables.
+
+    Returns
+    -------
+    tuple[ndarray, ...]
+        The variables, or the indices of their symbols if their types differ.
+    """
+    if len({var.dtype for var in variables}) > 1:
+        return tuple(
+            unique(var, return_inverse=True)[1].reshape(var.shape) for var in variables
+        )
+    return variables
-- 
2.43.0


From 28d065d0177b1b2789c5f31b125525ab226aed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 32/34] fix: compute the kernel volume with a plain float
 bandwidth

---
 infomeasure/estimators/utils/kde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index a511a18..ca2ba17 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -65,6 +65,7 @@ def kde_probability_density_function(
     )
     if not issubdtype(type(bandwidth), number) or bandwidth <= 0:
         raise ValueError("The bandwidth must be a positive number.")
+    bandwidth = float(bandwidth)  # powers of narrow integers overflow
 
     if at is None:
         at = data
-- 
2.43.0


From 71d9023d6fd89f0286fdeb6376b5b55d52950e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 33/34] fix: convert NumPy number arguments to plain Python
 numbers

---
 infomeasure/estimators/base.py                | 20 ++++++++++---------
 .../estimators/entropy/kozachenko_leonenko.py |  6 +++---
 infomeasure/estimators/entropy/ordinal.py     |  2 ++
 .../kraskov_stoegbauer_grassberger.py         |  6 +++---
 .../estimators/mutual_information/ordinal.py  |  2 ++
 .../kraskov_stoegbauer_grassberger.py         |  5 +++--
 .../estimators/transfer_entropy/ordinal.py    |  2 ++
 infomeasure/estimators/utils/array.py         | 20 ++++++++++++++++++-
 8 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 75bfb88..5f24ff4 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -23,6 +23,7 @@ from ..utils.config import logger
 from ..utils.data import DiscreteData
 from ..utils.exceptions import TheoreticalInconsistencyError
 from ..utils.types import EstimatorType, LogBaseType
+from .utils.array import plain_number
 from .utils.normalize import normalize_data_0_1
 from .utils.te_slicing import cte_observations, te_observations
 from .utils.ordinal import reduce_joint_space, unify_symbol_types
@@ -69,7 +70,7 @@ class Estimator(Generic[EstimatorType], ABC):
         self.res_global = None
         self.res_local = None
         # Resolve the default when the estimator is created, not at import time
-        self.base = Config.get("base") if base is None else base
+        self.base = plain_number(Config.get("base") if base is None else base)
 
     @final
     def calculate(self) -> None:
@@ -499,7 +500,7 @@ class MutualInformationEstimator(
                 f"not {[var.shape[0] for var in self.data]}."
             )
         # Apply the offset
-        self.offset = offset
+        self.offset = plain_number(offset)
         if self.offset > 0:
             self.data = (
                 self.data[0][: -self.offset or None],
@@ -830,7 +831,7 @@ class TransferEntropyEstimator(
         self.source = asarray(source)
         self.dest = asarray(dest)
         # Apply the prop_time
-        self.prop_time = prop_time
+        self.prop_time, step_size = plain_number(prop_time), plain_number(step_size)
         if self.prop_time > 0:
             self.source = self.source[: -self.prop_time * step_size or None]
             self.dest = self.dest[self.prop_time * step_size :]
@@ -838,7 +839,8 @@ class TransferEntropyEstimator(
             self.source = self.source[-self.prop_time * step_size :]
             self.dest = self.dest[: self.prop_time * step_size or None]
         # Slicing parameters
-        self.src_hist_len, self.dest_hist_len = src_hist_len, dest_hist_len
+        self.src_hist_len = plain_number(src_hist_len)
+        self.dest_hist_len = plain_number(dest_hist_len)
         self.step_size = step_size
         # Permutation/Resample flags - used by the p-value method and te_obs. slicing
         self.permute_src = False
@@ -1015,10 +1017,10 @@ class ConditionalTransferEntropyEstimator(
         self.dest = asarray(dest)
         self.cond = asarray(cond)
         # Slicing parameters
-        self.src_hist_len = src_hist_len
-        self.dest_hist_len = dest_hist_len
-        self.cond_hist_len = cond_hist_len
-        self.step_size = step_size
+        self.src_hist_len = plain_number(src_hist_len)
+        self.dest_hist_len = plain_number(dest_hist_len)
+        self.cond_hist_len = plain_number(cond_hist_len)
+        self.step_size = plain_number(step_size)
         # Initialize Estimator ABC with the base
         super().__init__(base=base, **kwargs)
 
@@ -1153,7 +1155,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
             base = kwargs.get("base")
-            self.base = Config.get("base") if base is None else base
+            self.base = plain_number(Config.get("base") if base is None else base)
             self.res_global = None
             self.res_local = None
             return
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 2e9eefc..91443c9 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -7,7 +7,7 @@ from scipy.special import digamma
 
 from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
-from ..utils.array import assure_2d_data
+from ..utils.array import assure_2d_data, plain_number
 from ..utils.unit_ball_volume import unit_ball_volume
 from ...utils.types import LogBaseType
 
@@ -161,12 +161,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             )
         super().__init__(*data, base=base)
         self.data = tuple(assure_2d_data(var) for var in self.data)
-        self.k = k
+        self.k = plain_number(k)
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
         self.ksg_id = ksg_id
         self.noise_level = noise_level
-        self.minkowski_p = minkowski_p
+        self.minkowski_p = plain_number(minkowski_p)
 
     def _simple_entropy(self):
         """Calculate the entropy of the data.
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 1fb02c9..d829b1a 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -14,6 +14,7 @@ from numpy import (
 )
 
 from ..base import EntropyEstimator
+from ..utils.array import plain_number
 from ..utils.ordinal import reduce_joint_space, symbolize_series
 from ...utils.config import logger
 from ...utils.data import DiscreteData
@@ -96,6 +97,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             raise ValueError("The embedding_dim must be a non-negative integer.")
         if not issubdtype(type(step_size), integer) or step_size < 1:
             raise ValueError("The step_size must be a positive integer.")
+        embedding_dim, step_size = plain_number(embedding_dim), plain_number(step_size)
         if (
             isinstance(self.data[0], ndarray)
             and (embedding_dim - 1) * step_size + 1 > self.data[0].shape[0]
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 4e2c242..f7def52 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,7 @@ from ..base import (
     MutualInformationEstimator,
     ConditionalMutualInformationEstimator,
 )
-from ..utils.array import assure_2d_data
+from ..utils.array import assure_2d_data, plain_number
 from ...utils.types import LogBaseType
 
 
@@ -108,7 +108,7 @@ class BaseKSGMIEstimator(ABC):
             )
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
-        self.k = k
+        self.k = plain_number(k)
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
                 "The number of nearest neighbors (k) must be a positive "
@@ -118,7 +118,7 @@ class BaseKSGMIEstimator(ABC):
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
         self.ksg_id = ksg_id
         self.noise_level = noise_level
-        self.minkowski_p = minkowski_p
+        self.minkowski_p = plain_number(minkowski_p)
         # Ensure self.data_x and self.data_y are 2D arrays
         self.data = tuple(assure_2d_data(var) for var in self.data)
 
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 1d37ddd..430e6d1 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -9,6 +9,7 @@ from ..base import (
     MutualInformationEstimator,
     ConditionalMutualInformationEstimator,
 )
+from ..utils.array import plain_number
 from ..utils.discrete_interaction_information import (
     mutual_information_global,
     mutual_information_local,
@@ -91,6 +92,7 @@ class BaseOrdinalMIEstimator(ABC):
             )
         if not issubdtype(type(step_size), integer) or step_size < 1:
             raise ValueError("The step_size must be a positive integer.")
+        embedding_dim, step_size = plain_number(embedding_dim), plain_number(step_size)
 
         # Validate that all input data arrays are 1D; raise clear TypeError otherwise
         from numpy import asarray as _np_asarray
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 6f6b7c7..7b6c34f 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -10,6 +10,7 @@ from ..base import (
     TransferEntropyEstimator,
     ConditionalTransferEntropyEstimator,
 )
+from ..utils.array import plain_number
 from ..utils.te_slicing import te_observations, cte_observations
 from ...utils.types import LogBaseType
 
@@ -130,7 +131,7 @@ class BaseKSGTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        self.k = k
+        self.k = plain_number(k)
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
                 "The number of nearest neighbors (k) must be a positive "
@@ -140,7 +141,7 @@ class BaseKSGTEEstimator(ABC):
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
         self.ksg_id = ksg_id
         self.noise_level = noise_level
-        self.minkowski_p = minkowski_p
+        self.minkowski_p = plain_number(minkowski_p)
 
 
 class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index e6f1a83..dfd5f5f 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -11,6 +11,7 @@ from ..base import (
     TransferEntropyEstimator,
 )
 
+from ..utils.array import plain_number
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import symbolize_series
 from ..utils.te_slicing import cte_observations, te_observations
@@ -144,6 +145,7 @@ class BaseOrdinalTEEstimator(ABC):
                 )
         if not issubdtype(type(embedding_dim), integer) or embedding_dim < 0:
             raise ValueError("The embedding_dim must be a non-negative integer.")
+        embedding_dim, step_size = plain_number(embedding_dim), plain_number(step_size)
         if embedding_dim == 1:
             logger.warning(
                 "The Ordinal mutual information is always 0 for embedding_dim=1."
diff --git a/infomeasure/estimators/utils/array.py b/infomeasure/estimators/utils/array.py
index 3ca53eb..87b2b41 100644
--- a/infomeasure/estimators/utils/array.py
+++ b/infomeasure/estimators/utils/array.py
@@ -2,7 +2,7 @@
 
 from typing import Generator
 
-from numpy import ndarray, newaxis, asarray
+from numpy import asarray, generic, ndarray, newaxis
 
 
 def assure_2d_data(data) -> ndarray | tuple[ndarray, ...]:
@@ -38,3 +38,21 @@ def assure_2d_data(data) -> ndarray | tuple[ndarray, ...]:
         data = (asarray(val) for val in data)
         return tuple(val[:, newaxis] if val.ndim == 1 else val for val in data)
     raise ValueError(f"Data type {type(data)} is not supported for 2D conversion.")
+
+
+def plain_number(value):
+    """Return a NumPy scalar as plain Python object, anything else unchanged.
+
+    Arithmetic with NumPy scalars of narrow type overflows or loses precision.
+
+    Parameters
+    ----------
+    value : any
+        The value to convert.
+
+    Returns
+    -------
+    any
+        The plain value.
+    """
+    return value.item() if isinstance(value, generic) else value
-- 
2.43.0


From ff43278d1d0f38e882015e3209265d062627fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 34/34] fix: accept NumPy numbers for orders, alphabet sizes
 and noise levels

---
 infomeasure/estimators/base.py                       | 5 +++--
 infomeasure/estimators/entropy/ansb.py               | 3 ++-
 infomeasure/estimators/entropy/bayes.py              | 9 ++++++---
 infomeasure/estimators/entropy/nsb.py                | 3 ++-
 infomeasure/estimators/entropy/renyi.py              | 6 ++++--
 infomeasure/estimators/entropy/tsallis.py            | 6 ++++--
 infomeasure/estimators/mutual_information/bayes.py   | 5 +++--
 infomeasure/estimators/mutual_information/nsb.py     | 3 ++-
 infomeasure/estimators/mutual_information/renyi.py   | 3 ++-
 infomeasure/estimators/mutual_information/tsallis.py | 3 ++-
 infomeasure/estimators/transfer_entropy/bayes.py     | 5 +++--
 infomeasure/estimators/transfer_entropy/nsb.py       | 3 ++-
 infomeasure/estimators/transfer_entropy/renyi.py     | 3 ++-
 infomeasure/estimators/transfer_entropy/tsallis.py   | 3 ++-
 14 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 5f24ff4..a8d2a41 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -3,6 +3,7 @@
 import warnings
 from abc import ABC, abstractmethod
 from io import UnsupportedOperation
+from numbers import Real
 from typing import Generic, final, Sequence
 
 from numpy import (
@@ -907,7 +908,7 @@ class TransferEntropyEstimator(
                 "Please use a different estimator."
             )
         # Add Gaussian noise to the data if the flag is set
-        if isinstance(noise_level, (int, float)) and noise_level != 0:
+        if isinstance(noise_level, Real) and noise_level != 0:
             source = source.astype(float)
             dest = dest.astype(float)
             source += self.rng.normal(0, noise_level, source.shape)
@@ -1062,7 +1063,7 @@ class ConditionalTransferEntropyEstimator(
             source, dest, cond = unify_symbol_types(source, dest, cond)
 
         # Add Gaussian noise to the data if the flag is set
-        if isinstance(noise_level, (int, float)) and noise_level != 0:
+        if isinstance(noise_level, Real) and noise_level != 0:
             source = source.astype(float)
             dest = dest.astype(float)
             cond = cond.astype(float)
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index d98aa0c..1683173 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -4,6 +4,7 @@ from numpy import euler_gamma, log
 from scipy.special import digamma
 
 from infomeasure.estimators.base import DiscreteHEstimator
+from ..utils.array import plain_number
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
 from ...utils.types import LogBaseType
@@ -72,7 +73,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
-        self.k_given = K
+        self.k_given = plain_number(K)
         self.undersampled = undersampled
 
     def _simple_entropy(self):
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index fc9d3c0..c83b272 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -1,8 +1,11 @@
 """Module for the Bayesian entropy estimator."""
 
+from numbers import Real
+
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
+from ..utils.array import plain_number
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -86,7 +89,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         super().__init__(*data, base=base)
 
         self.alpha = alpha
-        self.K_param = K
+        self.K_param = plain_number(K)
 
     def _simple_entropy(self):
         """Calculate the Bayesian entropy of the data.
@@ -119,8 +122,8 @@ class BayesEntropyEstimator(DiscreteHEstimator):
     @staticmethod
     def _get_alpha(alpha, K, N):
         # Alpha
-        if isinstance(alpha, (int, float)):
-            return alpha
+        if isinstance(alpha, Real):
+            return float(alpha)
         elif not isinstance(alpha, str) or (
             isinstance(alpha, str)
             and alpha.lower() not in ["jeffrey", "laplace", "sch-grass", "min-max"]
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index daa8236..3a1ec67 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -8,6 +8,7 @@ from scipy.optimize import minimize_scalar, root_scalar
 from scipy.special import loggamma, digamma, polygamma
 
 from infomeasure.estimators.base import DiscreteHEstimator
+from ..utils.array import plain_number
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
 from ...utils.types import LogBaseType
@@ -82,7 +83,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
-        self.k_given = K
+        self.k_given = plain_number(K)
 
     def _simple_entropy(self):
         """Calculate the NSB entropy of the data.
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3e6fbec..451f702 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -1,5 +1,7 @@
 """Module for the Rényi entropy estimator."""
 
+from numbers import Real
+
 from numpy import column_stack, issubdtype, integer
 
 from ..base import EntropyEstimator
@@ -61,14 +63,14 @@ class RenyiEntropyEstimator(EntropyEstimator):
             Sometimes denoted as :math:`\alpha` or :math:`q`.
         """
         super().__init__(*data, base=base)
-        if not isinstance(alpha, (int, float)) or alpha <= 0:
+        if not isinstance(alpha, Real) or alpha <= 0:
             raise ValueError("The Renyi parameter must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
                 "The number of nearest neighbors must be a positive integer."
             )
         self.k = k
-        self.alpha = alpha
+        self.alpha = float(alpha)
         self.data = tuple(assure_2d_data(var) for var in self.data)
 
     def _simple_entropy(self):
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index c0a27fb..03f54aa 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -1,5 +1,7 @@
 """Module for Tsallis entropy estimator."""
 
+from numbers import Real
+
 from numpy import column_stack, issubdtype, integer
 
 from ..base import EntropyEstimator
@@ -59,14 +61,14 @@ class TsallisEntropyEstimator(EntropyEstimator):
             Sometimes denoted as :math:`q`, analogous to the Rényi parameter :math:`\alpha`.
         """
         super().__init__(*data, base=base)
-        if not isinstance(q, (int, float)) or q <= 0:
+        if not isinstance(q, Real) or q <= 0:
             raise ValueError("The Tsallis parameter ``q`` must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
                 "The number of nearest neighbors must be a positive integer."
             )
         self.k = k
-        self.q = q
+        self.q = float(q)
         self.data = tuple(assure_2d_data(var) for var in self.data)
 
     def _simple_entropy(self):
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index b81c44f..e95faef 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -1,6 +1,7 @@
 """Module for the Bayes mutual information estimator."""
 
 from abc import ABC
+from numbers import Integral, Real
 
 from numpy import issubdtype, integer
 
@@ -81,9 +82,9 @@ class BaseBayesMIEstimator(ABC):
                 **kwargs,
             )
         # Parameter validation
-        if not isinstance(alpha, (int, float, str)):
+        if not isinstance(alpha, (Real, str)):
             raise ValueError("The alpha parameter must be a number or string.")
-        if K is not None and (not isinstance(K, int) or K <= 0):
+        if K is not None and (not isinstance(K, Integral) or K <= 0):
             raise ValueError("The K parameter must be a positive integer.")
 
         self.alpha = alpha
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index cf22e7b..273b355 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -1,6 +1,7 @@
 """Module for the Nsb mutual information estimator."""
 
 from abc import ABC
+from numbers import Integral
 
 from numpy import issubdtype, integer
 
@@ -68,7 +69,7 @@ class BaseNsbMIEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        if K is not None and (not isinstance(K, int) or K <= 0):
+        if K is not None and (not isinstance(K, Integral) or K <= 0):
             raise ValueError("The K parameter must be a positive integer.")
 
         self.K = K
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 0d07617..bcb085a 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -1,6 +1,7 @@
 """Module for the Renyi mutual information estimator."""
 
 from abc import ABC
+from numbers import Real
 
 from numpy import issubdtype, integer
 
@@ -99,7 +100,7 @@ class BaseRenyiMIEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        if not isinstance(alpha, (int, float)) or alpha <= 0:
+        if not isinstance(alpha, Real) or alpha <= 0:
             raise ValueError("The Renyi parameter must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index 380d86a..74ccf6c 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -1,6 +1,7 @@
 """Module for the Tsallis mutual information estimator."""
 
 from abc import ABC
+from numbers import Real
 
 from numpy import issubdtype, integer
 
@@ -101,7 +102,7 @@ class BaseTsallisMIEstimator(ABC):
                 **kwargs,
             )
 
-        if not isinstance(q, (int, float)) or q <= 0:
+        if not isinstance(q, Real) or q <= 0:
             raise ValueError("The Tsallis parameter ``q`` must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 1ef7285..564e41c 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -1,6 +1,7 @@
 """Module for the Bayes transfer entropy estimator."""
 
 from abc import ABC
+from numbers import Integral, Real
 
 from numpy import issubdtype, integer
 
@@ -121,9 +122,9 @@ class BaseBayesTEEstimator(ABC):
                 **kwargs,
             )
         # Parameter validation
-        if not isinstance(alpha, (int, float, str)):
+        if not isinstance(alpha, (Real, str)):
             raise ValueError("The alpha parameter must be a number or string.")
-        if K is not None and (not isinstance(K, int) or K <= 0):
+        if K is not None and (not isinstance(K, Integral) or K <= 0):
             raise ValueError("The K parameter must be a positive integer.")
 
         self.alpha = alpha
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 0d7f563..bc1a599 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -1,6 +1,7 @@
 """Module for the Nsb transfer entropy estimator."""
 
 from abc import ABC
+from numbers import Integral
 
 from numpy import issubdtype, integer
 
@@ -107,7 +108,7 @@ class BaseNsbTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        if K is not None and (not isinstance(K, int) or K <= 0):
+        if K is not None and (not isinstance(K, Integral) or K <= 0):
             raise ValueError("The K parameter must be a positive integer.")
 
         self.K = K
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 65413c9..9d32b3e 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -1,6 +1,7 @@
 """Module for the Renyi transfer entropy estimator."""
 
 from abc import ABC
+from numbers import Real
 
 from numpy import issubdtype, integer
 
@@ -127,7 +128,7 @@ class BaseRenyiTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        if not isinstance(alpha, (int, float)) or alpha <= 0:
+        if not isinstance(alpha, Real) or alpha <= 0:
             raise ValueError("The Renyi parameter must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 1c5c1eb..b5452fa 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -1,6 +1,7 @@
 """Module for the Tsallis transfer entropy estimator."""
 
 from abc import ABC
+from numbers import Real
 
 from numpy import issubdtype, integer
 
@@ -129,7 +130,7 @@ class BaseTsallisTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
-        if not isinstance(q, (int, float)) or q <= 0:
+        if not isinstance(q, Real) or q <= 0:
             raise ValueError("The Tsallis parameter ``q`` must be a positive number.")
         if not issubdtype(type(k), integer) or k <= 0:
             raise ValueError(
-- 
2.43.0

