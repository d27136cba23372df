"""Building real components from the spec's [legs, dims, arr] records and comparing back (used inside workers)."""
from wlib import *
from mrmustard.lab import CircuitComponent, Ket, DM, Unitary, Operation, Channel, Map
from mrmustard.physics.ansatz import ArrayAnsatz
from mrmustard.physics.wires import Wires

LBL = [1, 8, 17, 24]
SETS = [[1, 8, 17, 24], [0, 1, 2, 3], [2, 33, 1000, 1025], [3, 999, 20480, 40961], [7, 8192, 500003, 5000003]]
def relabel(i):
    """Mode labels are arbitrary natural numbers: another increasing choice for every case."""
    LBL[:] = SETS[i % len(SETS)]


def array_of(x):
    a = np.array([complex(*v) for v in x["arr"]], dtype=np.complex128)
    return a.reshape(x["dims"])


def sets(x):
    s = [set(), set(), set(), set()]
    for c, m in x["legs"]:
        s[c].add(LBL[m])
    return s


def mk(x, variant=0):
    """variant 0: bare component; 1: the natural class through its constructor; 2: through from_fock."""
    a = array_of(x)
    s = sets(x)
    ob, ib, ok, ik = (tuple(sorted(t)) for t in s)
    if variant and math.backend_name != "numpy":
        a = math.astensor(a)
    if variant == 2:
        if ok and not (ob or ib or ik):
            return Ket.from_fock(ok, a)
        if ok and ob == ok and not (ib or ik):
            return DM.from_fock(ok, a)
        if ok and ik and not (ob or ib):
            return (Unitary if ok == ik else Operation).from_fock(ok, ik, a)
        if ok and ik and ob == ok and ib == ik:
            return (Channel if ok == ik else Map).from_fock(ok, ik, a)
    if variant == 1:
        w = Wires(*s)
        an = ArrayAnsatz(a, 0)
        if ok and not (ob or ib or ik):
            return Ket(ansatz=an, wires=w)
        if ok and ob == ok and not (ib or ik):
            return DM(ansatz=an, wires=w)
        if ok and ik and not (ob or ib):
            return (Unitary if ok == ik else Operation)(ansatz=an, wires=w)
        if ok and ik and ob == ok and ib == ik:
            return (Channel if ok == ik else Map)(ansatz=an, wires=w)
    return CircuitComponent(ArrayAnsatz(a, 0), Wires(*s))


def legs_of(W):
    out = []
    for w in W.sorted_wires:
        out.append(((0 if w.is_out else 1) + (2 if w.is_ket else 0), w.mode, w.index))
    return out


def compare(got, want, what, probs):
    if not isinstance(got, CircuitComponent):
        probs.append((what, f"result is a {type(got).__name__}, expected a component"))
        return
    lg = [(c, LBL[m], i) for i, (c, m) in enumerate(want["legs"])]
    if legs_of(got.wires) != lg:
        probs.append((what, f"legs {legs_of(got.wires)} expected {lg}"))
        return
    a = arr(got.ansatz.array)
    w = array_of(want)
    if a.shape != w.shape:
        probs.append((what, f"array shape {a.shape} expected {w.shape}"))
    elif not close(a, w):
        k = np.unravel_index(np.argmax(np.abs(a - w)), w.shape) if w.shape else ()
        probs.append((what, f"entry {list(map(int, k))} is {a[k]} expected {w[k]}"))
    if want["legs"] and tuple(got.manual_shape) != w.shape:
        probs.append((what + "_cutoffs", f"manual_shape {got.manual_shape} but array shape {w.shape}"))


def fingerprint(x):
    return (type(x).__name__, legs_of(x.wires), x.wires.ids, tuple(x.manual_shape), arr(x.ansatz.array).tobytes(), arr(x.ansatz.array).shape)
