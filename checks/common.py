import numpy as np
import vayesta
import vayesta.core
from vayesta.core.types import wf, Orbitals
from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals


def rmo(ctx, no, nv, coeff=None):
    n = no + nv
    coeff = np.eye(n) if coeff is None else coeff
    return SpatialOrbitals(coeff, occ=no)


def umo(ctx, no, nv, coeff=None):
    na, nb = no[0] + nv[0], no[1] + nv[1]
    coeff = (np.eye(na), np.eye(nb)) if coeff is None else coeff
    return SpinOrbitals(coeff, occ=no)
