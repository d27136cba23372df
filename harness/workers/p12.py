"""Replays histories of Params.tla on real parameters, parameter sets and components."""
from wlib import *
import mrmustard.lab as lab
from mrmustard.lab import Coherent
from mrmustard.math.parameter_set import ParameterSet
from mrmustard.math.parameters import Constant, Variable

GOLD = np.array([[1.25, 0.75], [0.75, 1.25]])     # det 1: symplectic
def matrix(upd_or_name, v, n=None):
    t = 0.3 + 0.25 * v
    c, s = np.cos(t), np.sin(t)
    if "symplectic" in upd_or_name:
        m = np.array([[c, -s], [s, c]]) @ np.diag([np.exp(0.1 * v), np.exp(-0.1 * v)])
        if n == 2:
            Z = np.zeros((4, 4)); Z[np.ix_([0, 2], [0, 2])] = m; Z[np.ix_([1, 3], [1, 3])] = m
            m = Z
        return m
    if "orthogonal" in upd_or_name:
        return np.array([[c, -s], [s, c]]) if n != 1 else np.array([[1.0 if v % 2 else -1.0]])
    if "unitary" in upd_or_name:
        return np.array([[c, -s * np.exp(0.2j)], [s * np.exp(-0.2j), c]]) if n != 1 else np.array([[np.exp(1j * t)]])
    return np.diag([0.1 + 0.05 * v, 0.2]) + 0.01
MAT = {"symplectic", "orthogonal", "unitary", "Y"}
UNIT = dict(alpha=0.125 + 0.0625j, gain=None)
def value(name, val, upd=""):
    if name in MAT or name == "m":
        return matrix(name if name != "m" else upd, val["v"][0])
    f = (lambda v: 1.0 + v / 8) if name == "gain" else (lambda v: v * UNIT.get(name, 0.125))
    x = [f(v) for v in val["v"]]
    return x[0] if val["b"] == 0 else np.array(x)
def bnd(lo, hi):
    c = lambda x: None if x == "none" else float(x)
    return (c(lo), c(hi))
MODES = {1: [0, 3, 7], 2: [(0, 1), (2, 5)]}

class Bad(Exception):
    pass
_fresh = {}
def fresh(cls, m, vals, names):
    key = (cls, json.dumps(vals))
    if key not in _fresh:
        if len(_fresh) > 4000:
            _fresh.clear()
        kw = {n: value(n, v) for n, v in zip(names, vals)}
        _fresh[key] = getattr(lab, cls)(MODES[m][0], **kw)
    return _fresh[key]
def reps(c, live=True):
    """What a user sees of a component's representation."""
    a = c.ansatz
    if a is None:
        out = Coherent(c.modes[0], 0.5) >> c
        return [arr(out.fock_array((4, 4)))]
    r = []
    if hasattr(a, "A"):
        r += [arr(x) for x in a.triple]
        r.append(np.array(list(a.batch_shape) + [a.num_derived_vars, a.core_dims, a.batch_dims]))
    if live:
        r.append(arr(c.fock_array(3)))
    elif hasattr(a, "array"):
        r.append(arr(a.array))
    return r
def samereps(x, y):
    return len(x) == len(y) and all(close(p, q, 1e-9, 1e-10) for p, q in zip(x, y))

class Replay:
    def __init__(self, rec, idx):
        self.rec, self.par, self.set, self.comp, self.idx = rec, [], [], [], idx
        self.sliced = set()
        if rec["init"]:
            for p in rec["pars"][:4]:
                v0 = {"a": [1] if p["kind"] == "c" else [2], "b": [3, 4, 5] if p["kind"] == "v" else [6, 7, 1]}[p["name"]]
                self.par.append(self.make({**p, "val": dict(b=len(v0) if len(v0) > 1 else 0, v=v0)}))
            self.set = [ParameterSet(), ParameterSet()]
    def make(self, p):
        v = value(p["name"], p["val"], p["upd"])
        if self.idx % 3 == 1 and isinstance(v, np.ndarray):
            v = v.tolist()
        elif self.idx % 3 == 2 and isinstance(v, np.ndarray):
            v = math.astensor(v)
        if p["kind"] == "c":
            return Constant(v, p["name"])
        if p["upd"] == "update_euclidean" and self.idx % 2:
            return Variable(v, p["name"], bounds=bnd(p["lo"], p["hi"]))
        return Variable(v, p["name"], bnd(p["lo"], p["hi"]), p["upd"])
    def refused(self, f):
        try:
            f()
        except Exception:  # noqa: BLE001
            return True
        return False
    def names(self, c):
        return self.rec["argnames"][c]
    def step(self, st):
        op, k = st["op"], st["op"]["k"]
        if k == "par":
            self.par.append(self.make(op["p"]))
        elif k == "mat":
            f = dict(update_symplectic=Variable.symplectic, update_orthogonal=Variable.orthogonal, update_unitary=Variable.unitary)[op["u"]]
            p = f(None, "m", N=op["m"]) if op["v"] < 0 else f(matrix(op["u"], op["v"]), "m")
            x = arr(p.value)
            if op["v"] < 0:
                n = op["m"] * (2 if "symp" in op["u"] else 1)
                J = np.kron(np.array([[0, 1], [-1, 0]]), np.eye(op["m"]))
                good = x.shape == (n, n) and (close(x @ J @ x.T, J, 1e-8, 1e-8) if "symp" in op["u"] else close(x @ x.conj().T, np.eye(n), 1e-8, 1e-8))
                good = good and ("uni" in op["u"] or np.isrealobj(x))
                if not good:
                    raise Bad(f"{op['u']}: random initial value {x.tolist()} is not in the group of the requested size {op['m']}")
                p._x0 = x
            self.par.append(p)
        elif k == "set":
            self.set.append(ParameterSet())
        elif k == "add":
            r = self.refused(lambda: self.set[op["s"] - 1].add_parameter(self.par[op["p"] - 1]))
            if r != (st["out"] == "refused"):
                raise Bad(f"adding {self.par[op['p'] - 1].name}: {'refused' if r else 'accepted'}")
        elif k == "assign":
            p = self.par[op["p"] - 1]
            spec = self.rec["pars"][op["p"] - 1]
            v = value(spec["name"], op["v"], spec["upd"])
            holders = [p]
            for s in self.set:
                g = s.constants if isinstance(p, Constant) else s.variables
                if g.get(p.name) is p:
                    holders += [getattr(s, p.name), g[p.name], s.all_parameters[p.name]]
            for c in self.comp:
                if c.parameters.all_parameters.get(p.name) is p:
                    holders.append(getattr(c.parameters, p.name))
            h = holders[(op["via"] * 7 + self.idx) % len(holders)]
            def go():
                h.value = v
            r = self.refused(go)
            if r != (st["out"] == "refused"):
                raise Bad(f"assigning to {type(p).__name__} {p.name}: {'refused' if r else 'accepted'}")
        elif k == "scale":
            p = self.par[op["p"] - 1]
            self.par.append(p * op["by"] if op["side"] == 0 else op["by"] * p)
        elif k == "slice":
            s = self.set[op["s"] - 1]
            idx = tuple(i - 1 for i in op["idx"])
            new = s[idx[0]] if len(idx) == 1 and self.idx % 2 else s[list(idx)] if self.idx % 3 else s[idx]
            self.take(new, st)
            self.sliced.add(len(self.set) - 1)
        elif k == "build":
            kw = {}
            for n, a in zip(self.rec["argn"][op["cls"]], op["args"]):
                if a["use"]:
                    kw[n] = self.par[a["use"] - 1]
                    continue
                kw[n] = value(n, a["val"])
                if a["tr"]:
                    kw[n + "_trainable"] = True
                if a["bd"]:
                    kw[n + "_bounds"] = bnd(*a["bd"])
            m = MODES[op["m"]]
            c = getattr(lab, op["cls"])(m[self.idx % len(m)], **kw)
            self.take(c.parameters, st)
            self.comp.append(c)
        elif k == "on":
            c = self.comp[op["c"] - 1]
            n = len(c.modes)
            self.comp.append(c.on({1: [4, 9, 1], 2: [(3, 4), (1, 2)]}[n][self.idx % 2]))
        elif k == "derive":
            c = getattr(self.comp[op["c"] - 1], op["how"])
            self.take(c.parameters, st)
            self.comp.append(c)
        elif k == "rebuild":
            c = self.comp[op["c"] - 1]
            if op["how"] == "fock":
                n = c.to_fock(3)
            else:
                n = type(c)(c.modes if len(c.modes) > 1 else c.modes[0], **c.parameters.to_dict())
            self.take(n.parameters, st)
            self.comp.append(n)
        elif k == "tree":
            import jax
            c = self.comp[op["c"] - 1]
            leaves, tree = jax.tree_util.tree_flatten(c)
            n = jax.tree_util.tree_unflatten(tree, leaves)
            self.take(n.parameters, st)
            self.comp.append(n)
    def take(self, ps, st):
        """A registry the library made: its members are the specification's, new ones are numbered now."""
        exp = st["obs"]["sets"][-1]
        for grp, got in ((exp["c"], list(ps.constants.values())), (exp["v"], list(ps.variables.values()))):
            if len(grp) != len(got):
                raise Bad(f"{len(got)} parameters, expected {len(grp)}")
            for i, o in sorted(zip(grp, got), key=lambda t: t[0]):
                while len(self.par) < i:
                    self.par.append(None)
                if self.par[i - 1] is None:
                    if any(o is x for x in self.par):
                        raise Bad(f"parameter {o.name} is shared with an existing one where a new one is required")
                    self.par[i - 1] = o
                elif self.par[i - 1] is not o:
                    raise Bad(f"parameter {o.name} is not the object given")
        self.set.append(ps)
    def check(self, st):
        ob = st["obs"]
        for i, (p, v) in enumerate(zip(self.par, ob["vals"])):
            spec = self.rec["pars"][i]
            if p.name != spec["name"] or isinstance(p, Constant) != (spec["kind"] == "c"):
                raise Bad(f"parameter {i + 1}: {type(p).__name__} {p.name}, expected {spec['kind']} {spec['name']}")
            if spec["name"] == "m" and v["v"][0] < 0:
                want = p._x0
            else:
                want = value(spec["name"], v, spec["upd"])
            got = arr(p.value)
            if got.shape != np.shape(want) or not close(got, want, 1e-12, 1e-12):
                raise Bad(f"value of parameter {i + 1} ({p.name}) is {got.tolist()}, expected {np.asarray(want).tolist()}")
            if spec["kind"] == "v" and (p.update_fn != spec["upd"] or tuple(p.bounds) != bnd(spec["lo"], spec["hi"])):
                raise Bad(f"variable {p.name}: update {p.update_fn} bounds {p.bounds}, expected {spec['upd']} {bnd(spec['lo'], spec['hi'])}")
        for i, (s, e) in enumerate(zip(self.set, ob["sets"])):
            nm = list(s.names)
            if (sorted(nm) != sorted(e["n"])) if i in self.sliced else (nm != e["n"]):
                raise Bad(f"set {i + 1}: names {nm}, expected {e['n']}")
            for grp, got, lab_ in ((e["c"], s.constants, "constants"), (e["v"], s.variables, "variables")):
                want = [self.par[j - 1] for j in grp]
                if list(got.keys()) != [w.name for w in want] or any(a is not b for a, b in zip(got.values(), want)):
                    raise Bad(f"set {i + 1}: {lab_} {list(got.keys())}, expected {[w.name for w in want]}")
            al = s.all_parameters
            if list(al) != list(s.constants) + list(s.variables):
                raise Bad(f"set {i + 1}: all_parameters {list(al)}")
            for n in nm:
                if getattr(s, n) is not al[n]:
                    raise Bad(f"set {i + 1}: attribute {n} is not the parameter")
            if bool(s) != (len(e["n"]) > 0):
                raise Bad(f"set {i + 1}: bool {bool(s)}")
            tg = s.tagged_variables("t")
            if list(tg) != ["t/" + self.par[j - 1].name for j in e["v"]] or any(tg["t/" + self.par[j - 1].name] is not self.par[j - 1] for j in e["v"]):
                raise Bad(f"set {i + 1}: tagged variables {list(tg)}")
            d = s.to_dict()
            keys = []
            for j in e["c"] + e["v"]:
                p = self.par[j - 1]
                keys.append(p.name)
                if not np.array_equal(arr(d.get(p.name)), arr(p.value)):
                    raise Bad(f"set {i + 1}: to_dict {p.name}")
                if j in e["v"]:
                    keys += [p.name + "_trainable", p.name + "_bounds"]
                    if d.get(p.name + "_trainable") is not True or d.get(p.name + "_bounds") != p.bounds:
                        raise Bad(f"set {i + 1}: to_dict of variable {p.name}: {d}")
            if sorted(d) != sorted(keys):
                raise Bad(f"set {i + 1}: to_dict keys {sorted(d)}, expected {sorted(keys)}")
            words = s.to_string(6).split(", ") if nm else []
            if len(words) != len(nm):
                raise Bad(f"set {i + 1}: to_string {words}")
            for n, w in zip(nm, words):
                v = arr(al[n].value)
                if (v.shape != () and w != n) or (v.shape == () and abs(complex(w) - complex(v)) > 1e-5):
                    raise Bad(f"set {i + 1}: to_string shows {w} for {n}={v.tolist()}")
            if not (s == s) or str(len(nm)) not in repr(s) and nm:
                raise Bad(f"set {i + 1}: repr or equality")
        for i, (c, vals) in enumerate(zip(self.comp, ob["reps"])):
            spec = self.rec["comps"][i]
            if c.parameters is not self.set[spec["set"] - 1] and spec["how"] != "on":
                raise Bad(f"component {i + 1}: registry replaced")
            names = self.rec["argn"][spec["cls"]]
            f = fresh(spec["cls"], len(c.modes), vals, names)
            if i == len(self.comp) - 1 or (self.idx + len(self.par)) % 3 == 0 or st["op"]["k"] == "assign":
                how, j = spec["how"], i
                want = f
                if spec["live"] is False:
                    root = self.origin(i)
                    want = {"adjoint": lambda: f.adjoint, "dual": lambda: f.dual, "fock": lambda: f.to_fock(3)}[root]()
                if not samereps(reps(c, spec['live']), reps(want, spec['live'])):
                    raise Bad(f"component {i + 1} {spec['cls']} ({how}): representation is not that of the values {vals}")
                if spec["live"] and how in ("built", "dict", "tree", "on") and self.idx % 4 == 0 and c.ansatz is not None and not (c.ansatz == f.ansatz):
                    raise Bad(f"component {i + 1} {spec['cls']}: not equal to one built from its current values")
    def origin(self, i):
        h = self.rec["comps"][i]["how"]
        if h != "on":
            return h
        return self.origin(self.src[i])
    def run(self):
        self.src = {}
        n = 0
        for st in self.rec["trace"]:
            if st["op"]["k"] in ("on", "derive", "rebuild", "tree", "build"):
                if "c" in st["op"]:
                    self.src[n] = st["op"]["c"] - 1
                n += 1
        for t, st in enumerate(self.rec["trace"]):
            try:
                self.step(st)
                self.check(st)
            except Bad as e:
                return t, st, str(e)
            except Exception as e:  # noqa: BLE001
                return t, st, exc(e)
        return None

for i, rec in enumerate(payload["recs"]):
    rec["argn"] = payload["argn"]
    r = Replay(rec, i + payload["off"]).run()
    if r is None:
        emit(id=i, ok=True)
    else:
        t, st, msg = r
        emit(id=i, ok=False, key=f"{st['op']['k']}:{msg[:40]}", clause=f"{st['op']['k']}", detail=f"step {t + 1} {json.dumps(st['op'])}: {msg}",
             case=dict(init=rec["init"], steps=[s["op"] for s in rec["trace"][: t + 1]]))
done()
