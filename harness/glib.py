"""Building the objects of GaussOps.tla with the real library (shared by the workers that replay it)."""
import random
import numpy as np
from mrmustard import math, settings
from mrmustard.lab import *

RNG = random.Random(0)


def q(x):
    return x[0] / x[1]


def mat(M):
    return np.array([[q(x) for x in r] for r in M], dtype=float).reshape(len(M), len(M))


def vec(v):
    return np.array([q(x) for x in v], dtype=float)


def perm(n):                     # interleaved position of xxpp entry i
    return [2 * i for i in range(n)] + [2 * i + 1 for i in range(n)]


def xxpp(M):
    p = perm(len(M) // 2)
    return mat(M)[np.ix_(p, p)]


def xxppv(v):
    return vec(v)[perm(len(v) // 2)]


def ang(a):
    return float(np.arctan2(q(a[1]), q(a[0]))) + RNG.choice([0, 0, 0, 2 * np.pi])


def cmat(U):
    return np.array([[complex(q(z[0]), q(z[1])) for z in r] for r in U])


def h():
    return settings.HBAR / 2


def squeeze(t, ph):
    r, phi = np.log(q(t)), ang(ph)
    if RNG.random() < 0.2:       # the same squeezing with the opposite sign and angle
        r, phi = -r, phi + np.pi
    return float(r), float(phi)


def make_state(kind, par, ms):
    m0 = ms[0]
    if kind == "Vacuum":
        return Vacuum(ms if len(ms) > 1 or RNG.random() < 0.5 else m0)
    if kind == "Coherent":
        return Coherent(m0, complex(q(par[0]), q(par[1])))
    if kind == "SqueezedVacuum":
        return SqueezedVacuum(m0, *squeeze(*par))
    if kind == "DisplacedSqueezed":
        r, phi = squeeze(par[2], par[3])
        return DisplacedSqueezed(m0, complex(q(par[0]), q(par[1])), r, phi)
    if kind == "TwoModeSqueezedVacuum":
        return TwoModeSqueezedVacuum(ms, *squeeze(*par))
    if kind == "GKet":
        return GKet(ms, math.astensor(xxpp(par[0])))
    if kind == "Thermal":
        return Thermal(m0, q(par[0]))
    return GDM(ms, float(np.log(q(par[0]))), math.astensor(xxpp(par[1])))


def make_op(r, ms):
    kind, par, m0 = r["kind"], r["par"], ms[0]
    if kind == "D":
        op = Dgate(m0, complex(q(par[0]), q(par[1])))
    elif kind == "S":
        op = Sgate(m0, *squeeze(*par))
    elif kind == "R":
        op = Rgate(m0, ang(par[0]))
    elif kind == "P":
        op = Pgate(m0, q(par[0]))
    elif kind == "Identity":
        op = Identity(ms)
    elif kind == "BS":
        op = BSgate(ms, ang(par[0]), ang(par[1]))
    elif kind == "MZ":
        op = MZgate(ms, ang(par[0]), ang(par[1]), internal=par[2])
    elif kind == "S2":
        op = S2gate(ms, *squeeze(*par))
    elif kind == "CX":
        op = CXgate(ms, q(par[0]))
    elif kind == "CZ":
        op = CZgate(ms, q(par[0]))
    elif kind == "Int":
        op = Interferometer(ms, math.astensor(cmat(par[0])))
    elif kind == "RInt":
        op = RealInterferometer(ms, math.astensor(cmat(par[0]).real))
    elif kind == "Gg":
        op = Ggate(ms, math.astensor(xxpp(par[0])))
    elif kind == "Sym":
        op = Unitary.from_symplectic(ms, math.astensor(xxpp(par[0])))
    elif kind == "Att":
        op = Attenuator(m0, q(par[0]))
    elif kind == "Amp":
        op = Amplifier(m0, q(par[0]))
    elif kind == "GRN":
        op = GaussRandNoise(ms, math.astensor(xxpp(par[0]) * h()))
    elif kind == "XY":
        op = Channel.from_XY(ms, ms, math.astensor(xxpp(par[0])), math.astensor(xxpp(par[1]) * h()), math.astensor(xxppv(par[2]) * np.sqrt(h())))
    if r.get("var") == "inverse":
        op = op.inverse()
    elif r.get("var") == "dual":
        d = op.dual
        op = Unitary(ansatz=d.ansatz, wires=d.wires)
    return op
