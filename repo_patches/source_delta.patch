From 628e82cef007faff52ff25f06126ae8090a3cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 01/63] fix: RCCSD as_unrestricted converts the amplitudes it
 is given

The helper ignored its arguments (so lambda amplitudes were replaced by T
amplitudes) and stored the bound method t1.copy instead of a copy.
---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1e19182..2b978af 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -160,7 +160,7 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         mo = self.mo.to_spin_orbitals()
 
         def _to_uccsd(t1, t2):
-            t1, t2 = self.t1.copy, self.t2.copy()
+            t1, t2 = t1.copy(), t2.copy()
             t2aa = t2 - t2.transpose(0, 1, 3, 2)
             return (t1, t1), (t2aa, t2, t2aa)
 
-- 
2.43.0


From 7fe72829bc8590f4dc43244cdac84ee849b6cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 02/63] fix: beta-alpha block in unrestricted CCSD<->CISD
 conversion

UCCSD.as_cisd scaled the disconnected part with c0**2 and UCISD.as_ccsd used
the alpha-beta block in place of the beta-alpha one.
---
 vayesta/core/types/wf/ccsd.py | 2 +-
 vayesta/core/types/wf/cisd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 2b978af..1d76e7b 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -332,7 +332,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         if len(self.t2) == 3:
             c2 = (c2aa, c2ab, c2bb)
         elif len(self.t2) == 4:
-            c2ba = c0 * self.t2ba + einsum("ia,jb->ijab", c1b, c1a)
+            c2ba = c0 * (self.t2ba + einsum("ia,jb->ijab", self.t1b, self.t1a))
             c2 = (c2aa, c2ab, c2ba, c2bb)
         return wf_types.UCISD_WaveFunction(self.mo, c0, c1, c2, projector=self.projector)
 
diff --git a/vayesta/core/types/wf/cisd.py b/vayesta/core/types/wf/cisd.py
index cdd683a..e1cd551 100644
--- a/vayesta/core/types/wf/cisd.py
+++ b/vayesta/core/types/wf/cisd.py
@@ -161,7 +161,7 @@ class UCISD_WaveFunction(RCISD_WaveFunction):
         if len(self.c2) == 3:
             t2 = (t2aa, t2ab, t2bb)
         elif len(self.c2) == 4:
-            t2ba = self.c2ab / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
+            t2ba = self.c2ba / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
             t2 = (t2aa, t2ab, t2ba, t2bb)
         l1, l2 = t1, t2
         wf = wf_types.UCCSD_WaveFunction(self.mo, t1, t2, l1=l1, l2=l2, projector=self.projector)
-- 
2.43.0


From 5f3816a8b63f36c734e7e42a0410cf114e51e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 03/63] fix: CCSDTQ as_cisd honours the requested reference
 coefficient

---
 vayesta/core/types/wf/ccsdtq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsdtq.py b/vayesta/core/types/wf/ccsdtq.py
index af25802..5c132e8 100644
--- a/vayesta/core/types/wf/ccsdtq.py
+++ b/vayesta/core/types/wf/ccsdtq.py
@@ -33,7 +33,7 @@ class RCCSDTQ_WaveFunction(wf_types.WaveFunction):
         return wf_types.CCSD_WaveFunction(self.mo, self.t1, self.t2)
 
     def as_cisd(self, c0=1.0):
-        return self.as_ccsd().as_cisd()
+        return self.as_ccsd().as_cisd(c0=c0)
 
 
 class UCCSDTQ_WaveFunction(RCCSDTQ_WaveFunction):
-- 
2.43.0


From a41a7fb6dac42781388d6252e379053387770f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 04/63] fix: packing of arrays for MPI communication

The type code 'a8' no longer exists in NumPy 2, so packing failed for every
array; complex arrays were split at the wrong position when unpacked.
---
 vayesta/core/helper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..102b1f4 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,14 +19,14 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
+    val = np.asarray(dtint).view("S8")[()]
     dtype = np.dtype(val)
     return dtype
 
@@ -85,7 +85,8 @@ def unpack_arrays(packed, dtype=float, maxdim=8):
             unpacked.append(None)
             continue
         shape = shape[:ndim]
-        size = np.prod(shape)
+        # Number of items of the packed data type (e.g. two floats per complex number)
+        size = np.prod(shape, dtype=int) * dtype.itemsize // packed.itemsize
         array, packed = np.hsplit(packed, [size])
         unpacked.append(array.view(dtype).reshape(shape))
     return unpacked
-- 
2.43.0


From 91bcc7acbb63a2d928eac59521db9b723f2676cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 05/63] fix: packing of unrestricted CCSD wave functions

Wave functions without projector, with three T2 spin blocks or without lambda
amplitudes could not be packed or were not restored as they were.
---
 vayesta/core/types/wf/ccsd.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1d76e7b..eaed8e8 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -403,9 +403,11 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
         l1 = self.l1 if self.l1 is not None else [None, None]
-        l2 = self.l2 if self.l2 is not None else len(self.t2) * [None]
-        projector = self.projector
-        data = (mo, *self.t1, *self.t2, *l1, *l2, *projector)
+        l2 = self.l2 if self.l2 is not None else 4 * [None]
+        # The beta-alpha block is optional:
+        t2, l2 = [(x[0], x[1], x[2] if len(x) == 4 else None, x[-1]) for x in (self.t2, l2)]
+        projector = self.projector if self.projector is not None else [None, None]
+        data = (mo, *self.t1, *t2, *l1, *l2, *projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
@@ -415,10 +417,12 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         Useful for communication via MPI."""
         mo, t1a, t1b, t2aa, t2ab, t2ba, t2bb, l1a, l1b, l2aa, l2ab, l2ba, l2bb, proja, projb = unpack_arrays(packed)
         t1 = (t1a, t1b)
-        t2 = (t2aa, t2ab, t2ba, t2bb)
-        l1 = (l1a, l1b)
-        l2 = (l2aa, l2ab, l2ba, l2bb)
-        projector = (proja, projb)
+        t2 = (t2aa, t2ab, t2ba, t2bb) if t2ba is not None else (t2aa, t2ab, t2bb)
+        l1 = (l1a, l1b) if l1a is not None else None
+        l2 = None
+        if l2aa is not None:
+            l2 = (l2aa, l2ab, l2ba, l2bb) if l2ba is not None else (l2aa, l2ab, l2bb)
+        projector = (proja, projb) if proja is not None else None
         mo = SpinOrbitals.unpack(mo)
         wf = cls(mo, t1, t2, l1=l1, l2=l2)
         if projector is not None:
-- 
2.43.0


From bec2e67d8d7e628ceb113fe223dc0e17443b0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 06/63] fix: packing of unrestricted MP2 wave functions

The restricted methods were inherited and failed on the tuple of spin blocks.
---
 vayesta/core/types/wf/mp2.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 7da5511..4952ca1 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -2,7 +2,7 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import callif, dot, einsum
 from vayesta.core.types import wf as wf_types
-from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
 from vayesta.core.types.wf.project import project_c2, project_uc2, symmetrize_c2, symmetrize_uc2
 from vayesta.core.helper import pack_arrays, unpack_arrays
 
@@ -194,3 +194,22 @@ class UMP2_WaveFunction(RMP2_WaveFunction):
 
     def multiply(self, factor):
         self.t2 = spinalg.multiply(self.t2, len(self.t2) * [factor])
+
+    def pack(self, dtype=float):
+        """Pack into a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo = self.mo.pack(dtype=dtype)
+        t2 = (self.t2[0], self.t2[1], self.t2[2] if len(self.t2) == 4 else None, self.t2[-1])
+        projector = self.projector if self.projector is not None else [None, None]
+        return pack_arrays(mo, *t2, *projector, dtype=dtype)
+
+    @classmethod
+    def unpack(cls, packed):
+        """Unpack from a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo, t2aa, t2ab, t2ba, t2bb, proja, projb = unpack_arrays(packed)
+        t2 = (t2aa, t2ab, t2ba, t2bb) if t2ba is not None else (t2aa, t2ab, t2bb)
+        projector = (proja, projb) if proja is not None else None
+        return cls(SpinOrbitals.unpack(mo), t2, projector=projector)
-- 
2.43.0


From 98249893ad30205f0e5636c99a7384594a48a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:12 +0000
Subject: [PATCH 07/63] fix: packing and beta-alpha block of density-matrix
 wave functions

pack referred to undefined names, and the beta-alpha block of three-component
2-RDMs was taken from the beta-beta block.
---
 vayesta/core/types/wf/rdm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index 52d05be..db01454 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -2,7 +2,9 @@ import numpy as np
 
 from vayesta.core import spinalg
 from vayesta.core.util import dot, einsum, callif
+from vayesta.core.helper import pack_arrays, unpack_arrays
 from vayesta.core.types import wf as wf_types
+from vayesta.core.types.orbitals import SpatialOrbitals
 from vayesta.core.types.wf.project import (
     project_c1,
     project_c2,
@@ -88,7 +90,7 @@ class RRDM_WaveFunction(wf_types.WaveFunction):
 
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
-        data = (mo, dm1, dm2, self.projector)
+        data = (mo, self.dm1, self.dm2, self.projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
@@ -134,7 +136,7 @@ class URDM_WaveFunction(RRDM_WaveFunction):
     def dm2ba(self):
         if len(self.dm2) == 4:
             return self.dm2[2]
-        return self.dm2[2].transpose(1, 0, 3, 2)
+        return self.dm2ab.transpose(2, 3, 0, 1)
     
     @property
     def dm2bb(self):
-- 
2.43.0


From 8eaf268e56779df9c86987a9fb078bf3e1b591b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 08/63] fix: rotate each spin channel of UCCSD wave functions
 with its own matrix

---
 vayesta/core/types/wf/ccsd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index eaed8e8..692756f 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -383,11 +383,11 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         inplace : Whether to transform in-place or return a new object.
         """
         wf = self if inplace else self.copy()
-        if isinstance(to, np.ndarray) and len(to) == 2:
-            assert isinstance(tv, np.ndarray) and len(tv) == 2
-            trafo = lambda c: dot(c, block_diag(to, tv))
-        else:
-            trafo = [lambda c: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
+        # Allow support for same rotation for alpha and beta.
+        if isinstance(to, np.ndarray) and to.ndim == 2:
+            assert isinstance(tv, np.ndarray) and tv.ndim == 2
+            to, tv = (to, to), (tv, tv)
+        trafo = [lambda c, x=x: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
 
         wf.mo.basis_transform(trafo, inplace=True)
         wf.t1 = transform_uc1(wf.t1, to, tv)
-- 
2.43.0


From 133f44f303299ba59e101eac7074d2416f3e2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 09/63] fix: clusters keep their bosons on construction and
 copy

---
 vayesta/core/types/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/cluster.py b/vayesta/core/types/cluster.py
index b290262..9537bd3 100644
--- a/vayesta/core/types/cluster.py
+++ b/vayesta/core/types/cluster.py
@@ -13,7 +13,7 @@ class Cluster:
     def __init__(self, active_orbitals, frozen_orbitals, bosons=None):
         self.active_orbitals = active_orbitals
         self.frozen_orbitals = frozen_orbitals
-        self.bosons = None
+        self.bosons = bosons
 
     @staticmethod
     def from_coeffs(c_active_occ, c_active_vir, c_frozen_occ, c_frozen_vir):
@@ -123,7 +123,8 @@ class Cluster:
         return self.bosons is not None
 
     def copy(self):
-        return type(self)(self.active_orbitals.copy(), self.frozen_orbitals.copy())
+        bosons = self.bosons.copy() if self.bosons is not None else None
+        return type(self)(self.active_orbitals.copy(), self.frozen_orbitals.copy(), bosons=bosons)
 
     def basis_transform(self, trafo, inplace=False):
         cp = self if inplace else self.copy()
-- 
2.43.0


From 284bfbcdb265602b4d3753e39bcc6c29620085a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 10/63] fix: quasi-boson orbitals accept spin orbitals and
 transform both spin channels

---
 vayesta/core/types/bosonic_orbitals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/bosonic_orbitals.py b/vayesta/core/types/bosonic_orbitals.py
index 77415b0..edf7128 100644
--- a/vayesta/core/types/bosonic_orbitals.py
+++ b/vayesta/core/types/bosonic_orbitals.py
@@ -51,7 +51,7 @@ class QuasiBosonOrbitals(BosonicOrbitals):
     def __init__(self, forbitals, *args, **kwargs):
         # Ensure we have spin orbitals object, as will have spin-dependence here.
         if hasattr(forbitals, "alpha"):
-            self.forbitals = self.forbitals
+            self.forbitals = forbitals
         else:
             self.forbitals = forbitals.to_spin_orbitals()
         super().__init__(*args, **kwargs)
@@ -105,7 +105,7 @@ class QuasiBosonOrbitals(BosonicOrbitals):
         if not hasattr(trafo, "__len__"):
             trafo = (trafo, trafo)
         cp = self if inplace else self.copy()
-        cp.forbitals.basis_transform(trafo[0], inplace=True)
+        cp.forbitals.basis_transform(trafo, inplace=True)
         return cp
 
 
-- 
2.43.0


From 3a25d8edf3c5c8630d8dd0051cac7d9f2e54ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 11/63] fix: supercell integrals of unrestricted MP2 no longer
 fall through to the CCSD branch

---
 vayesta/core/ao2mo/postscf_ao2mo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/ao2mo/postscf_ao2mo.py b/vayesta/core/ao2mo/postscf_ao2mo.py
index bbafe99..221d02d 100644
--- a/vayesta/core/ao2mo/postscf_ao2mo.py
+++ b/vayesta/core/ao2mo/postscf_ao2mo.py
@@ -226,7 +226,7 @@ def postscf_kao2gmo_uhf(postscf, gdf, fock, mo_energy, e_hf=None, mo_coeff=None)
     cderi_neg = (cderia_neg, cderib_neg)
 
     # MP2
-    if isinstance(postscf, pyscf.mp.mp2.MP2):
+    if isinstance(postscf, pyscf.mp.ump2.UMP2):
         eris.ovov = _contract_cderi(cderia, cderia_neg)
         eris.OVOV = _contract_cderi(cderib, cderib_neg)
         eris.ovOV = _contract_cderi_mixed(cderi, cderi_neg)
-- 
2.43.0


From f7162898d0688baa4a2201ef521e6c11d82b5aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:19 +0000
Subject: [PATCH 12/63] fix: projected energy of the MP2 bath does not depend
 on the occupied block size

---
 vayesta/core/bath/bno.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 71dd601..01cb854 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -330,7 +330,7 @@ class MP2_BNO_Bath(BNO_Bath):
         if blksize is None:
             blksize = int(max_memory / max(nocc * nvir * nvir * 8, 1))
         nenv = nocc if self.occtype == "occupied" else nvir
-        ecorr = 0
+        tp = gp = 0
         for blk in brange(0, nocc, blksize):
             if eris is not None:
                 gijab = eris[blk].transpose(0, 2, 1, 3)
@@ -342,10 +342,13 @@ class MP2_BNO_Bath(BNO_Bath):
             t2blk = gijab / eijab
             if not energy_only:
                 t2[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[blk], gijab)
-            ecorr += 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
+            # Projection onto fragment; sum over all blocks, before contracting:
+            tp += einsum("ix,i...->x...", rfrag[blk], t2blk)
+            gp += einsum("ix,i...->x...", rfrag[blk], gijab)
+        # Projected correlation energy:
+        ecorr = 0
+        if nocc > 0:
+            ecorr = 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
 
         return t2, ecorr
 
@@ -582,6 +585,7 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
         else:
             blksize_a = blksize
         ecorr = 0
+        tp_aa = gp_aa = tp_ab = gp_ab = 0
         for blk in brange(0, nocca, blksize_a):
             # Alpha-alpha
             if eris is not None:
@@ -595,10 +599,9 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2aa[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
+            # Projection onto fragment; sum over all blocks, before contracting:
+            tp_aa += einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gp_aa += einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Alpha-beta
             if eris is not None:
                 gijab = eris[1][blk].transpose(0, 2, 1, 3)
@@ -611,20 +614,23 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             if not energy_only:
                 t2ab[blk] = t2blk
             # Projected correlation energy:
-            # Alpha projected:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += einsum("ijab,ijab->", tp, gp) / 2
+            # Alpha projected (contracted below):
+            tp_ab += einsum("ix,i...->x...", rfrag[0][blk], t2blk)
+            gp_ab += einsum("ix,i...->x...", rfrag[0][blk], gijab)
             # Beta projected:
             tp = einsum("jx,ij...->ix...", rfrag[1], t2blk)
             gp = einsum("jx,ij...->ix...", rfrag[1], gijab)
             ecorr += einsum("ijab,ijab->", tp, gp) / 2
+        if nocca > 0:
+            ecorr += (einsum("ijab,ijab->", tp_aa, gp_aa) - einsum("ijab,ijba->", tp_aa, gp_aa)) / 4
+            ecorr += einsum("ijab,ijab->", tp_ab, gp_ab) / 2
 
         # Beta-beta:
         if blksize is None:
             blksize_b = int(max_memory / max(noccb * nvirb * nvirb * 8, 1))
         else:
             blksize_b = blksize
+        tp = gp = 0
         for blk in brange(0, noccb, blksize_b):
             if eris is not None:
                 gijab = eris[2][blk].transpose(0, 2, 1, 3)
@@ -637,9 +643,10 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2bb[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[1][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[1][blk], gijab)
+            tp += einsum("ix,i...->x...", rfrag[1][blk], t2blk)
+            gp += einsum("ix,i...->x...", rfrag[1][blk], gijab)
+        # Projected correlation energy:
+        if noccb > 0:
             ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
 
         return (t2aa, t2ab, t2bb), ecorr
-- 
2.43.0


From ac197bd95c9e276a790d15559516eabe2c9da924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 13/63] fix: the unit of the R2 bath cutoff is passed to the
 bath

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..710e68f 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -932,7 +932,7 @@ class Fragment:
             elif btype == "r2":
                 rcut = self._get_bath_option("rcut", occtype)
                 unit = self._get_bath_option("unit", occtype)
-                c_bath, c_frozen = factory.get_bath(rcut=rcut)
+                c_bath, c_frozen = factory.get_bath(rcut=rcut, unit=unit)
             elif btype == "ewdmet":
                 order = self._get_bath_option("order", occtype)
                 c_bath, c_frozen = factory.get_bath(order)
-- 
2.43.0


From 76352eb7156e3f9027c9d236f375f78a014f99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 14/63] fix: coupling a fragment does not couple its copies and
 symmetry children

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 710e68f..d61b375 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -429,7 +429,7 @@ class Fragment:
         if frag is self:
             raise RuntimeError("Cannot couple fragment with itself.")
         self.log.debugv("Coupling %s with %s", self, frag)
-        self.opts.coupled_fragments.append(frag)
+        self.opts.coupled_fragments = self.opts.coupled_fragments + [frag]
 
     def couple_to_fragments(self, frags):
         for frag in frags:
-- 
2.43.0


From b4be9d4d3ef0e5afa9fde910986421c40f7760b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 15/63] fix: virtual-specific addbuffer option can be set

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..a6fbfa3 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -116,7 +116,7 @@ class Options(OptionsBase):
         project_dmet_mode_occ=None,
         project_dmet_mode_vir=None,
         addbuffer_occ=None,
-        addbuffer_dmet_vir=None,
+        addbuffer_vir=None,
         canonicalize_occ=None,
         canonicalize_vir=None,
     )
-- 
2.43.0


From d1f9b15b3bdebd5d783dff36d0bad2154730f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 16/63] fix: setattr_recursive resolves nested attributes

---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 38e3863..adadd9a 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -563,7 +563,7 @@ def getattr_recursive(obj, attr, *args):
 
 def setattr_recursive(obj, attr, val):
     pre, _, post = attr.rpartition(".")
-    return setattr(rgetattr(obj, pre) if pre else obj, post, val)
+    return setattr(getattr_recursive(obj, pre) if pre else obj, post, val)
 
 
 @contextmanager
-- 
2.43.0


From 5baf490bf7e73884322df89c5fe2ec3132731a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 17/63] fix: spin-generic dot accepts single-row matrices

---
 vayesta/core/spinalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 67c81ce..6e2451d 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -45,7 +45,7 @@ def dot(*args, out=None):
     if out is None:
         out = 2 * [None]
     args_a = [(x if np.ndim(x[0]) < 2 else x[0]) for x in args]
-    args_b = [(x if np.ndim(x[1]) < 2 else x[1]) for x in args]
+    args_b = [(x if np.ndim(x[0]) < 2 else x[1]) for x in args]
     return (util.dot(*args_a, out=out[0]), util.dot(*args_b, out=out[1]))
 
 
-- 
2.43.0


From 2d89563904e3904d65aff37d0e605d231fc7fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 18/63] fix: spin-generic eigh imports scipy

---
 vayesta/core/spinalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 6e2451d..500d4c1 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -2,6 +2,7 @@
 same functions"""
 
 import numpy as np
+import scipy.linalg
 from vayesta.core import util
 
 __all__ = ["add_numbers", "hstack_matrices"]
-- 
2.43.0


From 28be5a785fa38235d662437a9d4dce73cd81938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:37 +0000
Subject: [PATCH 19/63] fix: MPI broadcast keeps the shape of zero-dimensional
 arrays

---
 vayesta/mpi/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/mpi/interface.py b/vayesta/mpi/interface.py
index 20f8ad2..f1878a4 100644
--- a/vayesta/mpi/interface.py
+++ b/vayesta/mpi/interface.py
@@ -121,7 +121,7 @@ class MPI_Interface:
 
         # --- Second Bcast using buffer interface
         if self.rank == root:
-            obj = np.ascontiguousarray(obj)
+            obj = np.asarray(obj, order="C")
         else:
             obj = np.empty(data.shape, dtype=data.dtype)
         self.log.debug("Broadcasting array: size= %d memory= %s", obj.size, memory_string(obj.nbytes))
-- 
2.43.0


From 5e2371c6d2f2a59c6e068b9e76b470f9ced6b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:37 +0000
Subject: [PATCH 20/63] fix: RMA_Dict.clear accepts None-valued elements

---
 vayesta/mpi/rma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 6312184..94ea3b8 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -106,6 +106,8 @@ class RMA_Dict:
             return self.win.Get(buf, target_rank=self.location, **kwargs)
 
         def free(self):
+            if self.win is None:
+                return None
             return self.win.Free()
 
     @property
-- 
2.43.0


From d39b355c089fc0e20c72b086a29202ec3f528b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 21/63] fix: 2D Hubbard hopping follows the site ordering of
 coordinates and tiles

---
 vayesta/lattmod/latt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 03400ce..c4ab2db 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -262,7 +262,7 @@ class Hubbard2D(Hubbard):
             fac *= bfac[0]
         if j % self.nsites[1] != j:
             fac *= bfac[1]
-        idx = (i % self.nsites[0]) * self.nsites[1] + (j % self.nsites[1])
+        idx = (j % self.nsites[1]) * self.nsites[0] + (i % self.nsites[0])
         return idx, fac
 
     def get_eri(self, hubbard_u=None, v_nn=None):
-- 
2.43.0


From 8ea262e3655be3025772f0a9d3ac097fa235fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 22/63] fix: 1D Hubbard get_index wraps sites through the
 boundary

---
 vayesta/lattmod/latt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index c4ab2db..dbf0847 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -179,8 +179,8 @@ class Hubbard1D(Hubbard):
         bfac = self.bfac
         fac = 1
         if i % self.nsites[0] != i:
-            fac *= bfac[0] * (i // self.nsites[0])
-        idx = i
+            fac *= bfac
+        idx = i % self.nsites[0]
         return idx, fac
 
 
-- 
2.43.0


From ac5ceae2b781beb111097600fea0c5c9a2e93c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:23 +0000
Subject: [PATCH 23/63] fix: chemical-potential iterations receive the kernel's
 arguments

---
 vayesta/misc/cptbisect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index 812bdcf..f0ae3b8 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -50,7 +50,7 @@ class ChempotBisection:
 
         it = 1
 
-        def iteration(cpt, *args, **kwargs):
+        def iteration(cpt):
             nonlocal it
             if cpt == cpt1:
                 err = err1
-- 
2.43.0


From 4157d8ab376aef8044632accd9abf8fed4a1ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:24 +0000
Subject: [PATCH 24/63] fix: fragment chemical-potential search reuses an error
 only for the potential it belongs to

---
 vayesta/solver/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/solver/solver.py b/vayesta/solver/solver.py
index f893487..51229b8 100644
--- a/vayesta/solver/solver.py
+++ b/vayesta/solver/solver.py
@@ -93,8 +93,8 @@ class ClusterSolver:
 
             def electron_err(cpt):
                 nonlocal result, err, err0, cpt_opt, iterations, init_guess
-                # Avoid recalculation of cpt=0.0 in SciPy:
-                if (cpt == 0) and (err0 is not None):
+                # Avoid recalculation of cpt=cpt_guess in SciPy:
+                if (cpt == cpt_guess) and (err0 is not None):
                     self.log.debugv("Chemical potential %f already calculated - returning error= %.8f", cpt, err0)
                     return err0
 
-- 
2.43.0


From 2c4056c6ebf87c93ab9a62be666374690d95ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:24 +0000
Subject: [PATCH 25/63] fix: total unrestricted spin-spin correlation uses the
 given density matrices

---
 vayesta/misc/corrfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/corrfunc.py b/vayesta/misc/corrfunc.py
index 67c46dd..01ef961 100644
--- a/vayesta/misc/corrfunc.py
+++ b/vayesta/misc/corrfunc.py
@@ -76,7 +76,7 @@ def spinspin_z_unrestricted(dm1, dm2, proj1=None, proj2=None):
         proj2 = proj1
     if proj1 is None:
         ssz = einsum("iijj->", dm2aa) / 4 + einsum("iijj->", dm2bb) / 4 - einsum("iijj->", dm2ab) / 2
-        ssz += (np.trace(dma) + np.trace(dmb)) / 4
+        ssz += (np.trace(dm1a) + np.trace(dm1b)) / 4
         return ssz
     p1a, p1b = _get_proj_per_spin(proj1)
     p2a, p2b = _get_proj_per_spin(proj2)
-- 
2.43.0


From a9c75aae668fcae35dcf73a2427eba003afe74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 26/63] fix: get_fragments applies option requirements when
 flags are also given

---
 vayesta/core/qemb/qemb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index a6fbfa3..8b1ae5c 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1152,6 +1152,8 @@ class Embedding:
                 skip = _skip(attr, filt)
                 if skip:
                     break
+            if skip:
+                continue
             # Check flags:
             for key, filt in flags.items():
                 attr = getattr_recursive(frag.flags, key)
-- 
2.43.0


From 8612e6e53495d885fc59674e90784766b042f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 27/63] fix: symmetry groups contain images of images

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 8b1ae5c..42db4eb 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1085,7 +1085,7 @@ class Embedding:
         for f in self.fragments:
             if f.sym_parent is None:
                 continue
-            pid = f.sym_parent.id
+            pid = f.get_symmetry_parent().id
             assert pid in parent_ids
             idx = parent_ids.index(pid)
             children[idx].append(f)
-- 
2.43.0


From b399ef5645c98376c424c93afbe10001b44d76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 28/63] fix: copies of a fragment keep its flags

---
 vayesta/core/qemb/fragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index d61b375..f44e0c1 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -619,6 +619,8 @@ class Fragment:
             if attr in kwargs_copy:
                 continue
             kwargs_copy[attr] = getattr(self, attr)
+        if "flags" not in kwargs_copy:
+            kwargs_copy["flags"] = dataclasses.asdict(self.flags)
         frag = type(self)(self.base, fid, name, **kwargs_copy)
         return frag
 
-- 
2.43.0


From e95367ab85f46c7350b1c8b2b7b9cbe693295a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 29/63] fix: translation images inherit solver and flags

---
 vayesta/core/qemb/fragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index f44e0c1..fd4636d 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -686,9 +686,11 @@ class Fragment:
                 name,
                 c_frag_t,
                 c_env_t,
+                solver=self.solver,
                 sym_parent=self,
                 sym_op=sym_op,
                 mpi_rank=self.mpi_rank,
+                flags=dataclasses.asdict(self.flags),
                 **self.opts.asdict(),
             )
             self.base.fragments.append(frag)
-- 
2.43.0


From 0be9ba51a1dd9f3924b1385203887980f66b559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 30/63] fix: inverse of a translation can be constructed and
 keeps boundary phases

---
 vayesta/core/symmetry/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 85ffe88..b12e149 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -288,7 +288,7 @@ class SymmetryTranslation(SymmetryOperation):
         return a * self.ao_reorder_phases[tuple([np.s_[:]] + (a.ndim - 1) * [None])]
 
     def inverse(self):
-        return type(self)(self.mol, -self.vector, boundary=self.boundary, atom_reorder=np.argsort(self.atom_reorder))
+        return type(self)(self.group, -self.vector, boundary=self.boundary)
 
     @property
     def lattice_vectors(self):
-- 
2.43.0


From 5caed1995c9bcf255f012f17cfb24f3c7430754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 31/63] fix: real-space translation vector in non-orthogonal
 cells

---
 vayesta/core/symmetry/operation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index b12e149..ea74c6d 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -305,8 +305,7 @@ class SymmetryTranslation(SymmetryOperation):
     @property
     def vector_xyz(self):
         """Translation vector in real-space coordinates (unit = Bohr)."""
-        latvecs = self.lattice_vectors
-        vector_xyz = np.dot(self.lattice_vectors, self.vector)
+        vector_xyz = np.dot(self.vector, self.lattice_vectors)
         return vector_xyz
 
     @property
-- 
2.43.0


From 883070d10d9aad0c7c7d41f61f1ee977756014c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 32/63] fix: clear_translations clears the translation symmetry

---
 vayesta/core/symmetry/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/group.py b/vayesta/core/symmetry/group.py
index d0d1a1d..82d1700 100644
--- a/vayesta/core/symmetry/group.py
+++ b/vayesta/core/symmetry/group.py
@@ -74,4 +74,4 @@ class SymmetryGroup:
         self.translation = np.asarray(nimages)
 
     def clear_translations(self):
-        self.translations = None
+        self.translation = None
-- 
2.43.0


From 4fafbddbff7087fbcc6678e21b215fc0eb04ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 33/63] fix: mesh of translation vectors for short or zero
 vectors

---
 vayesta/core/symmetry/tsymmetry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/symmetry/tsymmetry.py b/vayesta/core/symmetry/tsymmetry.py
index 8475834..2bc4295 100644
--- a/vayesta/core/symmetry/tsymmetry.py
+++ b/vayesta/core/symmetry/tsymmetry.py
@@ -22,16 +22,16 @@ def get_mesh_tvecs(cell, tvecs, unit="Ang"):
         mesh = tvecs
         tvecs = [rvecs[d] / mesh[d] for d in range(3)]
     elif np.ndim(tvecs) == 2 and tvecs.shape == (3, 3):
+        tvecs = np.array(to_bohr(tvecs, unit))
         for d in range(3):
             if np.all(tvecs[d] == 0):
                 tvecs[d] = rvecs[d]
-        tvecs = to_bohr(tvecs, unit)
         mesh = []
         for d in range(3):
-            nd = np.round(np.linalg.norm(rvecs[d]) / np.round(np.linalg.norm(tvecs[d])))
-            if abs(nd - int(nd)) > 1e-14:
+            nd = np.linalg.norm(rvecs[d]) / np.linalg.norm(tvecs[d])
+            if abs(nd - np.round(nd)) > 1e-8:
                 raise ValueError("Translationally vectors not consumerate with lattice vectors. Correct units?")
-            mesh.append(int(nd))
+            mesh.append(int(np.round(nd)))
     else:
         raise ValueError("Unknown set of T-vectors: %r" % tvecs)
     return mesh, tvecs
-- 
2.43.0


From 414c11ee3edafe939c950f0c81823ab5fbe84c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:54 +0000
Subject: [PATCH 34/63] fix: reorder_atoms leaves the given boundary conditions
 unchanged

---
 vayesta/core/symmetry/tsymmetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/symmetry/tsymmetry.py b/vayesta/core/symmetry/tsymmetry.py
index 2bc4295..939cf54 100644
--- a/vayesta/core/symmetry/tsymmetry.py
+++ b/vayesta/core/symmetry/tsymmetry.py
@@ -154,6 +154,7 @@ def reorder_atoms(cell, tvec, boundary=None, unit="Ang", check_basis=True):
     for atm, coords in enumerate(atom_coords):
         log.debugv("%3d %f %f %f", atm, *coords)
     log.debugv("boundary= %r", boundary)
+    boundary = list(boundary)
     for d in range(3):
         if boundary[d].upper() == "PBC":
             boundary[d] = 1
-- 
2.43.0


From 4cba7104ea8a970b8204ba24ab828c159ac11514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:21 +0000
Subject: [PATCH 35/63] fix: symmetry centers in supercells of non-orthogonal
 cells

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 42db4eb..4eee1f5 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -846,7 +846,7 @@ class Embedding:
             ak = self.kcell.lattice_vectors()  # primtive cell lattice vectors
             bk = np.linalg.inv(ak)
             a = self.mol.lattice_vectors()  # supercell lattice vectors
-            shift = (np.diag(a) / np.diag(ak) - 1) / 2
+            shift = (np.diag(np.dot(a, bk)) - 1) / 2
             # Shift in internal coordinates, then transform back
             point = np.dot(np.dot(point, bk) + shift, ak)
             return point
-- 
2.43.0


From fe53f48d6863502a2dc1d644dcd7ccfe9d664df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 36/63] fix: first mixing update returns its input instead of
 mixing with zeros

---
 vayesta/dmet/updates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vayesta/dmet/updates.py b/vayesta/dmet/updates.py
index ded89b4..4497b81 100644
--- a/vayesta/dmet/updates.py
+++ b/vayesta/dmet/updates.py
@@ -64,8 +64,13 @@ class MixUpdate(Update):
         self.alpha = alpha
 
     def update(self, params):
+        first = self.prev_params is None
         flat_params = self._flatten_params(params)
         diff = sum((flat_params - self.prev_params) ** 2) ** (0.5)
-        update = (1.0 - self.alpha) * self.prev_params + self.alpha * flat_params
+        if first:
+            # Nothing to mix with
+            update = flat_params
+        else:
+            update = (1.0 - self.alpha) * self.prev_params + self.alpha * flat_params
         self.prev_params = flat_params
         return self._unflatten_params(update), diff
-- 
2.43.0


From f1c3be0e76c47848d48ff06714f37665cac63f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:10 +0000
Subject: [PATCH 37/63] fix: restricted density matrix from the global wave
 function uses the t_as_lambda options

---
 vayesta/ewf/rdm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 83f63a1..29b3e42 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -159,7 +159,7 @@ def make_rdm1_ccsd_proj_lambda(emb, ao_basis=False, t_as_lambda=False, with_mf=T
 
 def make_rdm1_ccsd_global_wf(
     emb,
-    t_as_lambda=False,
+    t_as_lambda=None,
     with_t1=True,
     svd_tol=1e-3,
     ovlp_tol=None,
@@ -177,7 +177,8 @@ def make_rdm1_ccsd_global_wf(
     Parameters
     ----------
     t_as_lambda : bool, optional
-        Use T-amplitudes inplace of Lambda-amplitudes for CCSD density matrix. Default: False.
+        Use T-amplitudes inplace of Lambda-amplitudes for CCSD density matrix.
+        If None, the embedding option `t_as_lambda` is used. Default: None.
     with_t1 : bool, optional
         If False, T1 and L1 amplitudes are assumed 0. Default: False.
     svd_tol : float, optional
@@ -201,6 +202,9 @@ def make_rdm1_ccsd_global_wf(
     dm1 : array(n(MO),n(MO))
         One-particle reduced density matrix in MO basis.
     """
+    if t_as_lambda is None:
+        t_as_lambda = emb.opts.t_as_lambda
+
     # === Slow algorithm (O(N^5)?): Form global N^4 T2/L2-amplitudes first
     if slow:
         t1 = emb.get_global_t1()
@@ -320,7 +324,8 @@ def make_rdm1_ccsd_global_wf(
                         continue
                 kept_xy += 1
 
-                l2 = wfy.t2 if (t_as_lambda or fy_parent.solver == "MP2") else wfy.l2
+                tasl = t_as_lambda or fy_parent.opts.t_as_lambda or fy_parent.solver == "MP2"
+                l2 = wfy.t2 if tasl else wfy.l2
                 if l2 is None:
                     raise RuntimeError("No L2-amplitudes found for %s!" % fy)
 
-- 
2.43.0


From 5668768d6e09c0a405a3c0c265f1391957d91ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 38/63] fix: exact fragment cumulant uses the amplitudes asked
 for in its one-body part

---
 vayesta/ewf/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 0c2462a..770d486 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -481,7 +481,7 @@ class Fragment(BaseFragment):
         elif not approx_cumulant:
             # Remove dm1(cc)^2
             dm1x = self.make_fragment_dm1(t_as_lambda=t_as_lambda, sym_t2=sym_t2)
-            dm1 = self.results.wf.make_rdm1(with_mf=False)
+            dm1 = self.results.wf.as_ccsd().make_rdm1(t_as_lambda=t_as_lambda, with_mf=False)
             dm2 -= (
                 einsum("ij,kl->ijkl", dm1, dm1x) / 2
                 + einsum("ij,kl->ijkl", dm1x, dm1) / 2
-- 
2.43.0


From a16db907abf4403758e49864aa4cadb59c0503f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:36 +0000
Subject: [PATCH 39/63] fix: unrestricted fragment energy accepts singles in
 the full cluster occupied space

---
 vayesta/ewf/ufragment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index a015d9d..49a2f9f 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -116,8 +116,12 @@ class Fragment(RFragment, BaseFragment):
             ca, cb = c1
 
             # Remove padding
-            ca = ca[oaf, va]
-            cb = cb[obf, vb]
+            if axis1 == "fragment":
+                ca = ca[oaf, va]
+                cb = cb[obf, vb]
+            else:
+                ca = ca[oa, va]
+                cb = cb[ob, vb]
 
             e_singles = 0
 
-- 
2.43.0


From 45c8545482ce15e07ea27083fde7ba6771fcd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:36 +0000
Subject: [PATCH 40/63] fix: density-matrix correlation energy passes its
 options to the one-body part

---
 vayesta/ewf/ewf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..34f0133 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -363,7 +363,7 @@ class EWF(Embedding):
         return e_ccsd_t / self.ncells
 
     def get_dm_corr_energy(self, dm1="global-wf", dm2="projected-lambda", t_as_lambda=None, with_exxdiv=None):
-        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=None, with_exxdiv=None)
+        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=t_as_lambda, with_exxdiv=with_exxdiv)
         e2 = self.get_dm_corr_energy_e2(dm2=dm2, t_as_lambda=t_as_lambda)
         e_corr = e1 + e2
         self.log.debug("Ecorr(1)= %s  Ecorr(2)= %s  Ecorr= %s", *map(energy_string, (e1, e2, e_corr)))
-- 
2.43.0


From 1d2f6f8d76fa56bd079558b31aba2399d2416c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 41/63] fix: Hartree-Fock potential of a given density matrix
 without its own exxdiv part

---
 vayesta/core/qemb/qemb.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 4eee1f5..963f5ce 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -450,6 +450,15 @@ class Embedding:
         self.log.debugv("Divergent exact-exchange (exxdiv) correction= %+16.8f Ha", e_exxdiv)
         return e_exxdiv / self.ncells, v_exxdiv
 
+    def _get_exxdiv_potential(self, dm1=None):
+        """Divergent exact-exchange potential in AO basis of the mean-field or a given density-matrix."""
+        if dm1 is None:
+            return self.get_exxdiv()[1]
+        ovlp = self.get_ovlp()
+        # Restricted: the density-matrix of one spin-channel is `dm1/2`
+        fac = self.madelung / (2 if self.is_rhf else 1)
+        return -fac * (ovlp @ np.asarray(dm1) @ ovlp)
+
     @property
     def pbc_dimension(self):
         return getattr(self.mol, "dimension", 0)
@@ -633,7 +642,7 @@ class Embedding:
     def get_veff(self, dm1=None, with_exxdiv=True):
         """Hartree-Fock Coulomb and exchange potential in AO basis."""
         if not with_exxdiv and self.has_exxdiv:
-            v_exxdiv = self.get_exxdiv()[1]
+            v_exxdiv = self._get_exxdiv_potential(dm1)
             return self.get_veff(dm1=dm1) - v_exxdiv
         if dm1 is None:
             return self._veff
-- 
2.43.0


From c1fc460d6804aa1db6e1d40b7562a36434075a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 42/63] fix: one-body energy from the 2p1l density matrix
 follows the t_as_lambda option

---
 vayesta/ewf/ewf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 34f0133..289a3aa 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -371,6 +371,8 @@ class EWF(Embedding):
 
     def get_dm_corr_energy_e1(self, dm1="global-wf", t_as_lambda=None, with_exxdiv=None):
         # Correlation energy due to changes in 1-DM and non-cumulant 2-DM:
+        if t_as_lambda is None:
+            t_as_lambda = self.opts.t_as_lambda
         if dm1 == "global-wf":
             dm1 = self._make_rdm1_ccsd_global_wf(with_mf=False, t_as_lambda=t_as_lambda, ao_basis=True)
         elif dm1 == "2p1l":
-- 
2.43.0


From 57fb81421deb6eaef9c336e5879a36923b9fe85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 43/63] fix: stored cumulant energy of a fragment follows the
 t_as_lambda option

---
 vayesta/ewf/fragment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 770d486..10b6ab1 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -303,7 +303,9 @@ class Fragment(BaseFragment):
                 "E(S)= %s  E(D)= %s  E(tot)= %s", energy_string(es), energy_string(ed), energy_string(results.e_corr)
             )
         if self.opts.calc_e_dm_corr:
-            results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(hamil=self.hamil)
+            results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(
+                hamil=self.hamil, t_as_lambda=self.opts.t_as_lambda
+            )
         if self.base.opts.calc_e_ccsd_t_corr:
             results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self, wf.t1, wf.t2)
 
-- 
2.43.0


From 3ee49b8f94cf6dc9d9f333eaa85d8dd0b9f72d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 44/63] fix: symmetrize the opposite-spin block of the
 partitioned unrestricted 2-DM

---
 vayesta/core/qemb/rdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 7071f06..3c09235 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -342,6 +342,7 @@ def make_rdm2_demo_uhf(
 
     if symmetrize:
         dm2aa = (dm2aa + dm2aa.transpose(1, 0, 3, 2)) / 2
+        dm2ab = (dm2ab + dm2ab.transpose(1, 0, 3, 2)) / 2
         dm2bb = (dm2bb + dm2bb.transpose(1, 0, 3, 2)) / 2
     if ao_basis:
         dm2aa = einsum("ijkl,pi,qj,rk,sl->pqrs", dm2aa, *(4 * [emb.mo_coeff[0]]))
-- 
2.43.0


From cca4e70ef7e56fcb29f0904bb67a55c0a64a6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 45/63] fix: auxiliary fragments do not contribute to the DMET
 energy

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 963f5ce..0c522ca 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1297,7 +1297,7 @@ class Embedding:
             Electronic DMET energy.
         """
         e_dmet = 0.0
-        for x in self.get_fragments(active=True, mpi_rank=mpi.rank, sym_parent=None):
+        for x in self.get_fragments(contributes=True, mpi_rank=mpi.rank, sym_parent=None):
             wx = x.symmetry_factor
             e_dmet += wx * x.get_fragment_dmet_energy(part_cumulant=part_cumulant, approx_cumulant=approx_cumulant)
         if mpi:
-- 
2.43.0


From 9fe9071c814ce39a052222a8ec75b68de8a6ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 46/63] fix: Fock matrix with screened interactions for unequal
 spin channels

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 71b54c8..5fb88a8 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -645,7 +645,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 + einsum("iipq->pq", gab[oa, oa])  # Coulomb
                 - einsum("ipqi->pq", gbb[ob, :, :, ob])
             )  # Exchange
-            fock = np.asarray(((fock[0] + dfa), (fock[1] + dfb)))
+            fock = ((fock[0] + dfa), (fock[1] + dfb))
 
         return fock
 
-- 
2.43.0


From d6f8a4f1449b800b82247fe0d94ee562de8f97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 47/63] fix: cluster mean-field information in the AO basis

---
 vayesta/solver/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 5fb88a8..500dc67 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -377,7 +377,7 @@ class RClusterHamiltonian:
 
     def get_clus_mf_info(self, ao_basis=False, with_vext=True, with_exxdiv=False):
         if ao_basis:
-            nao = self.cluster.c_active.shape[1]
+            nao = self.cluster.c_active.shape[0]
         else:
             nao = self.ncas
         mo_energy = np.diag(self.get_fock(with_vext=with_vext, with_exxdiv=with_exxdiv))
@@ -755,7 +755,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
 
     def get_clus_mf_info(self, ao_basis=False, with_vext=True, with_exxdiv=False):
         if ao_basis:
-            nao = self.cluster.c_active.shape[1]
+            nao = self.cluster.c_active[0].shape[0]
         else:
             nao = self.ncas
         fock = self.get_fock(with_vext=with_vext, with_exxdiv=with_exxdiv)
-- 
2.43.0


From f384f4ff604e2a34b8594e97316dad8293907717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 48/63] fix: one-body Hamiltonian of a cluster mean field with
 bare interactions

---
 vayesta/solver/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 500dc67..fb82a4f 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -358,10 +358,13 @@ class RClusterHamiltonian:
             bare_eris = self.get_eris_bare()
             if force_bare_eris:
                 clusmf._eri = pad_to_match(bare_eris, 0.0)
+                bare_fock = self.get_fock(with_vext=False, use_seris=False)
+                heff = self.get_heff(eris=bare_eris, fock=bare_fock, with_vext=True)
             else:
                 clusmf._eri = pad_to_match(self.get_eris_screened())
+                heff = self.get_heff(with_vext=True)
 
-            heff = pad_to_match(self.get_heff(with_vext=True), dummy_energy)
+            heff = pad_to_match(heff, dummy_energy)
 
         clusmf.get_hcore = lambda *args, **kwargs: heff
         if overwrite_fock:
-- 
2.43.0


From e08d0e0622f99c9d4c35a4a1e67f55d038eef1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:25 +0000
Subject: [PATCH 49/63] fix: compression of unrestricted three-index integrals
 keeps all spin channels

---
 vayesta/solver/hamiltonian.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index fb82a4f..240d978 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -733,18 +733,20 @@ class UClusterHamiltonian(RClusterHamiltonian):
         if compress:
             # SVD and compress the cderi tensor. This scales as O(N_{aux} N_{clus}^4), so this will be worthwhile
             # provided the following approach has a lower scaling than this.
-            def compress_cderi(cd):
-                naux, n1, n2 = cd.shape
-                u, s, v = np.linalg.svd(cd.reshape(naux, n1 * n2), full_matrices=False)
+            # Both spin channels need to share the same auxiliary basis, to retain the alpha-beta integrals.
+            def compress_cderi(cda, cdb):
+                naux = cda.shape[0]
+                na = np.prod(cda.shape[1:])
+                cd = np.hstack((cda.reshape(naux, -1), cdb.reshape(naux, -1)))
+                u, s, v = np.linalg.svd(cd, full_matrices=False)
                 want = s > svd_threshold
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
-                return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
+                cd = einsum("n,nq->nq", s[want], v[want])
+                return cd[:, :na].reshape(-1, *cda.shape[1:]), cd[:, na:].reshape(-1, *cdb.shape[1:])
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[0]))
+            cderi = compress_cderi(*cderi)
             if cderi_neg[0] is not None:
-                cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
-            if cderi_neg[1] is not None:
-                cderi_neg = (cderi_neg[0], compress_cderi(cderi_neg[1]))
+                cderi_neg = compress_cderi(*cderi_neg)
 
         return cderi, cderi_neg
 
-- 
2.43.0


From 2418b9cbcdafabcfa134da2f0d61eba8b14cda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 50/63] fix: virtual completeness of a fragmentation counts
 spatial orbitals in the restricted case

---
 vayesta/core/qemb/qemb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 0c522ca..eb03d18 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1584,10 +1584,12 @@ class Embedding:
             nspin = 1
             tspin = lambda x, s: x
             nelec = self.mol.nelectron
+            maxocc = 2
         elif self.spinsym == "unrestricted":
             nspin = 2
             tspin = lambda x, s: x[s]
             nelec = self.mol.nelec
+            maxocc = 1
         ovlp = self.get_ovlp()
         dm1 = self.mf.make_rdm1()
         for s in range(nspin):
@@ -1610,7 +1612,7 @@ class Embedding:
                 ne = einsum("ia,ab,ib->", cs, tspin(dm1, s), cs)
                 if complete_occupied and (abs(ne - nelec_s) > tol):
                     return False
-                if complete_virtual and (abs((nfrags - ne) - (nmo_s - nelec_s)) > tol):
+                if complete_virtual and (abs((nfrags - ne / maxocc) - (nmo_s - nelec_s / maxocc)) > tol):
                     return False
         return True
 
-- 
2.43.0


From eccf13294ce45d8c0f1bdb8ae49dd99997b33537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 51/63] fix: refuse active spaces with fewer orbitals than
 occupied orbitals

---
 vayesta/core/fragmentation/cas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/cas.py b/vayesta/core/fragmentation/cas.py
index adec11d..793c586 100644
--- a/vayesta/core/fragmentation/cas.py
+++ b/vayesta/core/fragmentation/cas.py
@@ -58,7 +58,7 @@ class CAS_Fragmentation(Fragmentation):
             offset += 1
             nelec_curr += int(occ[anyocc[-1] - offset])
 
-        if nelec_curr > nelec or offset > ncas:
+        if nelec_curr > nelec or offset + 1 > ncas:
             raise ValueError("Cannot create CAS with required properties around Fermi level with current MO occupancy.")
 
         def check_for_degen(energies, po, pv, name=""):
-- 
2.43.0


From 90d21243a072964a44543a41e16d7f53cebbc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 52/63] fix: given threshold of secondary fragments replaces
 the occupied and virtual thresholds

---
 vayesta/core/fragmentation/fragmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 395d624..88d043c 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -275,8 +275,8 @@ class Fragmentation:
             bath_opts = fx.opts.bath_options.copy()
             if bno_threshold is not None:
                 bath_opts["threshold"] = bno_threshold
-                bath_opts.pop("threshold_occ", None)
-                bath_opts.pop("threshold_vir", None)
+                bath_opts["threshold_occ"] = None
+                bath_opts["threshold_vir"] = None
             else:
                 if bath_opts.get("threshold", None) is not None:
                     bath_opts["threshold"] *= bno_threshold_factor
-- 
2.43.0


From 3fb83786cc8e08b68897e61b03610d751aeda934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:33 +0000
Subject: [PATCH 53/63] fix: atom-shell fragment of an element covers all atoms
 of that element

---
 vayesta/core/fragmentation/fragmentation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 88d043c..e1facd3 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -126,7 +126,8 @@ class Fragmentation:
             shells = [shells]
         orbitals = []
         atom_indices, atom_symbols = self.get_atom_indices_symbols(atoms)
-        for idx, sym in zip(atom_indices, atom_symbols):
+        for idx in atom_indices:
+            sym = self.mol.atom_symbol(idx)
             for shell in shells:
                 orbitals.append("%d%3s %s" % (idx, sym, shell))
         return self.add_orbital_fragment(orbitals, atoms=atom_indices, **kwargs)
-- 
2.43.0


From a5e25bf373139bfed21cd26d5eb6d3a3f23430ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:11 +0000
Subject: [PATCH 54/63] fix: data race on the largest imaginary element in
 j3c_k2gamma

---
 vayesta/libs/core/src/j3c_kao2gmo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vayesta/libs/core/src/j3c_kao2gmo.c b/vayesta/libs/core/src/j3c_kao2gmo.c
index 6988ef2..5327377 100644
--- a/vayesta/libs/core/src/j3c_kao2gmo.c
+++ b/vayesta/libs/core/src/j3c_kao2gmo.c
@@ -65,6 +65,7 @@ int64_t j3c_k2gamma(
     size_t ri, rj, rk;
     size_t idx;
     double rtmp = 0.0;
+    double max_imag_priv = 0.0;
     double complex *work1 = malloc(K3N2 * sizeof(double complex));
     double complex *work2 = malloc(K3N2 * sizeof(double complex));
 
@@ -110,8 +111,8 @@ int64_t j3c_k2gamma(
             i = rk*K2N2 + a*K2N + b*K2 + rj*K + ri;
             rtmp = fabs(cimag(work1[i]));
             //printf("imaginary part = %.2e\n", rtmp);
-            if (rtmp > *max_imag) {
-                *max_imag = rtmp;
+            if (rtmp > max_imag_priv) {
+                max_imag_priv = rtmp;
             //if (rtmp > max_imag) {
                 //if (ierr == 0) {
                  //   printf("ERROR: signficant imaginary part= %.2e !\n", rtmp);
@@ -131,6 +132,13 @@ int64_t j3c_k2gamma(
         }}}}}
     }
 
+#pragma omp critical
+    {
+        if (max_imag_priv > *max_imag) {
+            *max_imag = max_imag_priv;
+        }
+    }
+
     free(work1);
     free(work2);
     }
-- 
2.43.0


From f1575b3a1892d68e7b43243c8b9a3faeaeab4d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 55/63] fix: k-point ordering in Fourier transformation of
 three-center integrals

---
 vayesta/core/ao2mo/kao2gmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/ao2mo/kao2gmo.py b/vayesta/core/ao2mo/kao2gmo.py
index ca2ab4a..ac50c05 100644
--- a/vayesta/core/ao2mo/kao2gmo.py
+++ b/vayesta/core/ao2mo/kao2gmo.py
@@ -160,7 +160,7 @@ def kao2gmo_cderi(gdf, mo_coeffs, make_real=True, blksize=None, tril_kij=True, d
 
     if make_real:
         # kR,kLij->RLij
-        cderi_mo = np.tensordot(phase, cderi_mo, axes=1)
+        cderi_mo = np.tensordot(phase.T, cderi_mo, axes=1)
         im = abs(cderi_mo.imag).max()
         if im > 1e-3:
             log.error("Imaginary part of (L|ij)= %.2e !!!", im)
-- 
2.43.0


From b9075051821a6a9b2e1280130af1b2b84607325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 56/63] fix: k-point index of further auxiliary blocks in
 kao2gmo_cderi

---
 vayesta/core/ao2mo/kao2gmo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/ao2mo/kao2gmo.py b/vayesta/core/ao2mo/kao2gmo.py
index ac50c05..3cee643 100644
--- a/vayesta/core/ao2mo/kao2gmo.py
+++ b/vayesta/core/ao2mo/kao2gmo.py
@@ -144,9 +144,8 @@ def kao2gmo_cderi(gdf, mo_coeffs, make_real=True, blksize=None, tril_kij=True, d
                     lij = transform(lab, mo1[ki], mo2[kj])
                     cderi_mo[kk, blk] += lij
                     if tril_kij and (ki > kj):
-                        kk = kconserv[kj, ki]
                         lij = transform(lab.transpose(0, 2, 1).conj(), mo1[kj], mo2[ki])
-                        cderi_mo[kk, blk] += lij
+                        cderi_mo[kconserv[kj, ki], blk] += lij
                 # For 2D systems:
                 elif sign == -1:
                     assert (ki == kj) and (sign == -1) and (lab.shape[0] == 1)
-- 
2.43.0


From 397ad19521f07fb1494103505880067e067a525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 57/63] fix: verbose, stdout, conv_tol, and conv_tol_grad of
 folded mean-fields are taken from the k-point mean-field

---
 vayesta/core/foldscf.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vayesta/core/foldscf.py b/vayesta/core/foldscf.py
index c2bb22d..6d50647 100644
--- a/vayesta/core/foldscf.py
+++ b/vayesta/core/foldscf.py
@@ -108,6 +108,24 @@ class FoldedSCF:
     def _eri(self):
         return None
 
+    # The PySCF base classes define class attributes with the following names, for which __getattr__ is never called:
+
+    @property
+    def verbose(self):
+        return self.kmf.verbose
+
+    @property
+    def stdout(self):
+        return self.kmf.stdout
+
+    @property
+    def conv_tol(self):
+        return self.kmf.conv_tol
+
+    @property
+    def conv_tol_grad(self):
+        return self.kmf.conv_tol_grad
+
     def get_ovlp(self, *args, **kwargs):
         sk = self.kmf.get_ovlp(*args, **kwargs)
         ovlp = k2bvk_2d(sk, self.kphase)
-- 
2.43.0


From c034236d242cd8fbe7858478467ab35ec2f718dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 58/63] fix: electron-boson density matrix without polaritonic
 shift

---
 vayesta/solver/hamiltonian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 240d978..971a793 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -905,6 +905,8 @@ class EB_RClusterHamiltonian(RClusterHamiltonian):
         return couplings[0]
 
     def get_eb_dm_polaritonic_shift(self, dm1):
+        if self.polaritonic_shift is None:
+            return (np.zeros((*dm1.shape, len(self.bos_freqs))),) * 2
         return (-einsum("n,pq->pqn", self.polaritonic_shift, dm1 / 2),) * 2
 
     def _add_screening(self, seris_intermed=None, spin_integrate=True):
@@ -935,6 +937,8 @@ class EB_UClusterHamiltonian(UClusterHamiltonian, EB_RClusterHamiltonian):
         return tuple([x - einsum("pq,n->npq", np.eye(x.shape[1]), temp) for x in self.unshifted_couplings])
 
     def get_eb_dm_polaritonic_shift(self, dm1):
+        if self.polaritonic_shift is None:
+            return tuple([np.zeros((*x.shape, len(self.bos_freqs))) for x in dm1])
         return tuple([-einsum("n,pq->pqn", self.polaritonic_shift, x) for x in dm1])
 
     def calc_loc_erpa(self, m0, amb):
-- 
2.43.0


From 87e48f5e431210ad0d1945d109db76330417db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 59/63] fix: zero-phonon adjustment subtracted the mean
 occupation twice

---
 vayesta/solver/eb_fci/ebfci_slow.py  | 8 +++-----
 vayesta/solver/eb_fci/uebfci_slow.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/vayesta/solver/eb_fci/ebfci_slow.py b/vayesta/solver/eb_fci/ebfci_slow.py
index 33362f6..57fbf6d 100644
--- a/vayesta/solver/eb_fci/ebfci_slow.py
+++ b/vayesta/solver/eb_fci/ebfci_slow.py
@@ -122,12 +122,10 @@ def contract_ep(heb, fcivec, norb, nelec, nbosons, max_occ, adj_zero_pho=False):
     t1b = numpy.zeros((norb, norb) + cishape, dtype=fcivec.dtype)
 
     if adj_zero_pho:
-        zfac = float(neleca + nelecb) / norb
-        # print("Zfac=",zfac)
-        adj_val = zfac * ci0
+        # Remove the mean occupation of each spin channel
         for i in range(norb):
-            t1a[i, i] -= adj_val
-            t1b[i, i] -= adj_val
+            t1a[i, i] -= (float(neleca) / norb) * ci0
+            t1b[i, i] -= (float(nelecb) / norb) * ci0
 
     for str0, tab in enumerate(link_indexa):
         for a, i, str1, sign in tab:
diff --git a/vayesta/solver/eb_fci/uebfci_slow.py b/vayesta/solver/eb_fci/uebfci_slow.py
index 05936d5..5e3f812 100644
--- a/vayesta/solver/eb_fci/uebfci_slow.py
+++ b/vayesta/solver/eb_fci/uebfci_slow.py
@@ -119,12 +119,10 @@ def contract_ep(heb, fcivec, norb, nelec, nbosons, max_occ, adj_zero_pho=False):
     t1b = numpy.zeros((norb, norb) + cishape, dtype=fcivec.dtype)
 
     if adj_zero_pho:
-        zfac = float(neleca + nelecb) / norb
-        # print("Zfac=",zfac)
-        adj_val = zfac * ci0
+        # Remove the mean occupation of each spin channel
         for i in range(norb):
-            t1a[i, i] -= adj_val
-            t1b[i, i] -= adj_val
+            t1a[i, i] -= (float(neleca) / norb) * ci0
+            t1b[i, i] -= (float(nelecb) / norb) * ci0
 
     for str0, tab in enumerate(link_indexa):
         for a, i, str1, sign in tab:
-- 
2.43.0


From b3d76650db09b86f4dd2f0cb073d0a93f2e8d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 60/63] fix: spin-resolved electron-boson density matrix
 without bosons

---
 vayesta/solver/eb_fci/uebfci_slow.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/solver/eb_fci/uebfci_slow.py b/vayesta/solver/eb_fci/uebfci_slow.py
index 5e3f812..691b408 100644
--- a/vayesta/solver/eb_fci/uebfci_slow.py
+++ b/vayesta/solver/eb_fci/uebfci_slow.py
@@ -543,11 +543,10 @@ def make_eb_rdm(fcivec, norb, nelec, nbosons, max_occ):
     link_indexb = cistring.gen_linkstr_index(range(norb), nelecb)
 
     cishape = make_shape(norb, nelec, nbosons, max_occ)
-    nspinorb = 2 * norb
 
     # Just so we get a sensible result in pure fermionic case.
     if nbosons == 0:
-        return numpy.zeros((nspinorb, nspinorb, 0))
+        return numpy.zeros((norb, norb, 0)), numpy.zeros((norb, norb, 0))
 
     ci0 = fcivec.reshape(cishape)
     t1a = numpy.zeros((norb, norb) + cishape, dtype=fcivec.dtype)
-- 
2.43.0


From 160aca0bdc4393c1e9d3171fe47139bac0bd7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 61/63] fix: full symmetry-unpacked integrals in unrestricted
 electron-boson FCI with multiple roots

---
 vayesta/solver/eb_fci/uebfci_slow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/eb_fci/uebfci_slow.py b/vayesta/solver/eb_fci/uebfci_slow.py
index 691b408..e55cd0c 100644
--- a/vayesta/solver/eb_fci/uebfci_slow.py
+++ b/vayesta/solver/eb_fci/uebfci_slow.py
@@ -383,7 +383,7 @@ def kernel_multiroot(
             adj_zero_pho,
             **kwargs,
         )
-    h2e = direct_uhf.absorb_h1e(h1e, g2e, norb, nelec, 0.5)
+    h2e = tuple([ao2mo.restore(1, x, norb) for x in direct_uhf.absorb_h1e(h1e, g2e, norb, nelec, 0.5)])
 
     cishape = make_shape(norb, nelec, nbosons, max_occ)
     ci0 = numpy.zeros(cishape)
-- 
2.43.0


From 3eda37816eeff489e13fd7a65899c5b3be4d748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 62/63] fix: external corrections combined with delta-tailoring
 are divided by the energy denominators individually

---
 vayesta/solver/coupling.py | 47 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index b93ba97..4acf20c 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -601,6 +601,26 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             np.zeros((nocc[1], nocc[1], nvir[1], nvir[1])),
         )
 
+    # Fragment x (CCSD) energy denominators, to obtain amplitudes from residuals
+    # Note that this will not work correctly if a level shift used
+    if emb.spinsym == "restricted":
+        eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
+        eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
+    elif emb.spinsym == "unrestricted":
+        eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
+        eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
+        eia = (eia_a, eia_b)
+        eijab = (
+            pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a),
+            pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b),
+            pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b),
+        )
+
+    def divide(x, y):
+        if emb.spinsym == "restricted":
+            return x / y
+        return tuple(xs / ys for xs, ys in zip(x, y))
+
     frag_dir = {f.id: f for f in emb.fragments}
     for y, corrtype, projectors, low_level_coul in external_corrections:
         fy = frag_dir[y]  # Get fragment y object from its index
@@ -630,8 +650,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         rxy_vir = spinalg.dot(cxs_vir, fy.cluster.c_active_vir)
         dt1y = transform_amplitude(dt1y, rxy_occ, rxy_vir, inverse=True)
         dt2y = transform_amplitude(dt2y, rxy_occ, rxy_vir, inverse=True)
-        dt1 = spinalg.add(dt1, dt1y)
-        dt2 = spinalg.add(dt2, dt2y)
 
         if low_level_coul and corrtype == "external":
             # Include the t3v term, contracting with the integrals from the x cluster
@@ -640,7 +658,7 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             dt2y_t3v = _get_delta_t2_from_t3v(
                 govvv_x, gvvov_x, gooov_x, govoo_x, fy, rxy_occ, rxy_vir, cxs_occ, projectors
             )
-            dt2 = spinalg.add(dt2, dt2y_t3v)
+            dt2y = spinalg.add(dt2y, dt2y_t3v)
 
         solver.log.info(
             "External correction residuals from fragment %3d (%s via %s):  dT1= %.3e  dT2= %.3e",
@@ -650,15 +668,14 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             *get_amplitude_norm(dt1y, dt2y),
         )
 
-    if emb.spinsym == "restricted":
+        # External corrections are residuals, in contrast to the amplitude differences of delta-tailoring
         if corrtype == "external":
-            # Contract with fragment x (CCSD) energy denominators
-            # Note that this will not work correctly if a level shift used
-            eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
-            eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
-            dt1 /= eia
-            dt2 /= eijab
+            dt1y = divide(dt1y, eia)
+            dt2y = divide(dt2y, eijab)
+        dt1 = spinalg.add(dt1, dt1y)
+        dt2 = spinalg.add(dt2, dt2y)
 
+    if emb.spinsym == "restricted":
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
@@ -671,16 +688,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             t2[:] += dt2
 
     elif emb.spinsym == "unrestricted":
-        if corrtype == "external":
-            eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
-            eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
-            eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
-            eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
-            eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
-
-            dt1 = (dt1[0] / eia_a, dt1[1] / eia_b)
-            dt2 = (dt2[0] / eijab_aa, dt2[1] / eijab_ab, dt2[2] / eijab_bb)
-
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
-- 
2.43.0


From 242e4e221d1253ca97aec3580ce78711b19792bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 63/63] fix: options for the FCI calculation of tailored CCSD
 reach the FCI solver

---
 vayesta/ewf/fragment.py | 4 ++--
 vayesta/solver/tccsd.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 10b6ab1..b2b74e1 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -52,7 +52,7 @@ class Options(BaseFragment.Options):
     c_cas_vir: np.ndarray = None
     # --- Solver options
     # "TCCSD-solver":
-    tcc_fci_opts: dict = dataclasses.field(default_factory=dict)
+    tcc_fci_opts: dict = None
     # --- Couple embedding problems (currently only CCSD and MPI)
     # coupled_iterations: bool = None # Now accessible through solver=coupledCCSD setting.
 
@@ -340,7 +340,7 @@ class Fragment(BaseFragment):
             solver_opts["c_cas_occ"] = self.opts.c_cas_occ
             solver_opts["c_cas_vir"] = self.opts.c_cas_vir
             if solver == "TCCSD":
-                solver_opts["tcc_fci_opts"] = self.opts.tcc_fci_opts
+                solver_opts["fci_opts"] = self.opts.tcc_fci_opts or {}
         elif solver.upper() == "DUMP":
             solver_opts["filename"] = self.opts.solver_options["dumpfile"]
         if solver.upper() == 'CALLBACK':
diff --git a/vayesta/solver/tccsd.py b/vayesta/solver/tccsd.py
index 8694e2d..8d3b5e6 100644
--- a/vayesta/solver/tccsd.py
+++ b/vayesta/solver/tccsd.py
@@ -23,7 +23,7 @@ class TRCCSD_Solver(RCCSD_Solver):
         # Dummy cluster without any environmental orbitals.
         tclus = Cluster(orbs, None)
         tham = self.hamil.with_new_cluster(tclus)
-        fci = FCI_Solver(tham)
+        fci = FCI_Solver(tham, **self.opts.fci_opts)
         # Need to set v_ext for the FCI calculation. Just want rotation into our current basis.
         ro = dot(self.hamil.cluster.c_active_occ.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_occ)
         rv = dot(self.hamil.cluster.c_active_vir.T, self.hamil.orig_mf.get_ovlp(), tclus.c_active_vir)
-- 
2.43.0

