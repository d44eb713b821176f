P = "vayesta/core/types/wf/"
BUGS = []
def B(id, property, edits, needs, what, demo): BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))

B("S01", "C03", [(P + "project.py", "        c2ba = transform_c2(c2[2], to[1], tv[1], to[0], tv[0])\n", "        c2ba = c2ab.transpose(1, 0, 3, 2)\n")],
  "an unrestricted wave function whose doubles carry a separate beta-alpha block (i.e. a projected one) rotated to another basis",
  "rotation of projected unrestricted CCSD amplitudes replaces the beta-alpha block by the transposed alpha-beta block",
  '''
import numpy as np
from vayesta.core.types.wf.project import transform_uc2
rng = np.random.default_rng(1)
c2 = tuple(rng.random((2, 2, 3, 3)) for i in range(4))
to = [np.linalg.qr(rng.random((2, 2)))[0] for i in range(2)]
tv = [np.linalg.qr(rng.random((3, 3)))[0] for i in range(2)]
out = transform_uc2(c2, to, tv)
ref = np.einsum("ijab,iI,jJ,aA,bB->IJAB", c2[2], to[1], to[0], tv[1], tv[0])
assert abs(out[2] - ref).max() < 1e-10
''')
B("S02", "C02", [(P + "ccsd.py", '''            projector = self.projector
        wf = self.project(projector.T, inplace=inplace)
        wf.projector = None
        if not sym:
            return wf
''', '''            projector = self.projector
        wf = self.project(projector.T, inplace=inplace)
        if not sym:
            return wf
        wf.projector = None
''')],
  "restore() of a projected restricted CCSD wave function without symmetrisation, followed by anything that looks at the projector",
  "the restored wave function still claims to be projected",
  '''
import numpy as np
from vayesta.core.types import Orbitals, CCSD_WaveFunction
rng = np.random.default_rng(1)
mo = Orbitals(np.eye(4), occ=2)
t2 = rng.random((2, 2, 2, 2)); t2 = t2 + t2.transpose(1, 0, 3, 2)
wf = CCSD_WaveFunction(mo, rng.random((2, 2)), t2)
p = np.linalg.qr(rng.random((2, 2)))[0]
r = wf.project(p).restore(sym=False)
assert abs(r.t2 - t2).max() < 1e-10
assert r.projector is None
r.as_cisd()
''')
B("S03", "C13", [("vayesta/core/bath/bno.py", '''            npos = np.clip(bno_occup, 0.0, None)
            nexcited = np.sum(npos)
''', '''            npos = np.clip(bno_occup, 0.0, None)
            nexcited = np.sum(bno_occup)
''')],
  "bath natural occupation numbers with negative entries (projected MP2 density) and a truncation/percentage threshold",
  "the number of bath orbitals is chosen against the sum including negative occupation numbers, so the discarded weight exceeds the threshold",
  '''
import numpy as np
from vayesta.core.bath.bno import BNO_Threshold
occ = np.array([0.5, 0.2, 0.05, -0.1])
n = BNO_Threshold("truncation", 0.01).get_number(occ)
kept = np.clip(occ, 0, None)[:n].sum()
assert np.clip(occ, 0, None).sum() - kept <= 0.01 + 1e-12, n
''')
B("S04", "C05", [(P + "ccsd.py", "                dm2nc = self.make_rdm2_non_cumulant(t_as_lambda=t_as_lambda, ao_basis=ao_basis)\n", "                dm2nc = self.make_rdm2_non_cumulant(ao_basis=ao_basis)\n")],
  "exact cumulant (with_dm1=False, approx_cumulant=False) requested with t_as_lambda=True on a wave function that also has different lambda amplitudes",
  "the non-cumulant part is built from the lambda amplitudes although the 2-RDM uses T as lambda",
  '''
import numpy as np
from vayesta.core.types import Orbitals, CCSD_WaveFunction
rng = np.random.default_rng(1)
mo = Orbitals(np.eye(4), occ=2)
sym = lambda x: x + x.transpose(1, 0, 3, 2)
t1, l1 = rng.random((2, 2)), rng.random((2, 2))
t2, l2 = sym(rng.random((2, 2, 2, 2))), sym(rng.random((2, 2, 2, 2)))
a = CCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2).make_rdm2(t_as_lambda=True, with_dm1=False, approx_cumulant=False)
b = CCSD_WaveFunction(mo, t1, t2, l1=t1, l2=t2).make_rdm2(with_dm1=False, approx_cumulant=False)
assert abs(a - b).max() < 1e-9
''')
B("S05", "C04", [("vayesta/core/helper.py", "        array = array.flatten().view(dtype)\n", '        array = array.ravel(order="K").view(dtype)\n')],
  "packing an array which is not C-contiguous, e.g. a transposed amplitude block",
  "packed arrays come back with permuted entries",
  '''
import numpy as np
from vayesta.core.helper import pack_arrays, unpack_arrays
a = np.arange(6.0).reshape(2, 3).T
out, = unpack_arrays(pack_arrays(a))
assert out.shape == a.shape and abs(out - a).max() == 0
''')
B("S06", "C14", [("vayesta/core/eris.py", '''        blk1 = blk0 + lab.shape[0]
        blk = np.s_[blk0:blk1]
        blk0 = blk1
        lab = pyscf.lib.unpack_tril(lab)
        cderi[blk] = einsum("Lab,ai,bj->Lij", lab, mo_coeff[0], mo_coeff[1])
''', '''        blk1 = blk0 + lab.shape[0]
        blk = np.s_[blk0:blk1]
        lab = pyscf.lib.unpack_tril(lab)
        cderi[blk] = einsum("Lab,ai,bj->Lij", lab, mo_coeff[0], mo_coeff[1])
''')],
  "density-fitted integrals of a molecule so large (or a block size so small) that the auxiliary functions come in several blocks",
  "later blocks of auxiliary functions overwrite the first one",
  '''
import numpy as np, pyscf.gto, pyscf.scf
from vayesta.core.eris import get_cderi_df
mol = pyscf.gto.M(atom="H 0 0 0; H 0 0 1", basis="sto-3g", verbose=0)
mf = pyscf.scf.RHF(mol).density_fit(); mf.kernel()
a = get_cderi_df(mf, mf.mo_coeff)[0]
b = get_cderi_df(mf, mf.mo_coeff, blksize=3)[0]
assert a.shape[0] > 3 and abs(a - b).max() < 1e-12
''')
B("S07", "C01", [(P + "cisd.py", '''            self = self.restore()
        t1 = self.c1 / self.c0
        t2 = self.c2 / self.c0 - einsum("ia,jb->ijab", t1, t1)
        l1, l2 = t1, t2
        wf = wf_types.RCCSD''', '''            self = self.restore(sym=False)
        t1 = self.c1 / self.c0
        t2 = self.c2 / self.c0 - einsum("ia,jb->ijab", t1, t1)
        l1, l2 = t1, t2
        wf = wf_types.RCCSD''')],
  "conversion of a projected CISD wave function whose projector is not the full space",
  "CISD -> CCSD conversion of a projected wave function loses the electron-exchange symmetrisation of the doubles",
  '''
import numpy as np
from vayesta.core.types import Orbitals, CISD_WaveFunction
rng = np.random.default_rng(1)
mo = Orbitals(np.eye(4), occ=2)
c2 = rng.random((2, 2, 2, 2)); c2 = c2 + c2.transpose(1, 0, 3, 2)
wf = CISD_WaveFunction(mo, 0.8, rng.random((2, 2)), c2)
p = rng.random((1, 2))
pw = wf.project(p)
a = pw.as_ccsd()
b = pw.restore().as_ccsd().project(p)
assert abs(a.t2 - b.t2).max() < 1e-10
''')
