"""C18: explicit-state exploration of the Python interface.

Every state is executed on the module built from /repo and decided against the C++ library called
directly (module mcref) and against a model of the attributes. States:
  flags      every constraint selection, set and read in every way
  attributes all sequences of assignments and contact operations up to a bounded length
  handles    all sequences of operations on objects that refer to each other, including their
             destruction (freed memory is overwritten, see run.py)
  calls      requests around every (function, constraint set) base, up to a bounded number of edits
"""
import argparse
import gc
import itertools
import json
import math
import mmap
import os
import signal
import struct
import sys
import time

import ndcurves  # noqa: F401  (registers the curves)
import numpy as np
import mcref
import hpp_bezier_com_traj as hb


class Bad(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, sig + ": " + msg)
        self.sig, self.msg = sig, msg


def need(cond, sig, msg):
    if not cond:
        raise Bad(sig, msg)


def close(a, b, tol=1e-11):
    if type(a) is str or type(b) is str:
        return a == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b))


def compare(got, want, sig, what):
    need(len(got) == len(want), sig, f"{what}: {len(got)} values instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        need(close(a, b), sig, f"{what}: value {i} is {a} instead of {b}")


def put(l, m, shape=None):
    """a matrix as the C++ side writes it; numpy shows one row or one column as a vector"""
    m = np.asarray(m)
    if shape is None:
        shape = m.shape if m.ndim == 2 else (m.size, 1)
    l += [shape[0], shape[1]] + [float(x) for x in (m.reshape(shape) if m.size == shape[0] * shape[1] else m).ravel()]


# ------------------------------------------------------------------ model of a request
def box(lo, hi):
    K, k = [], []
    for i in range(3):
        for s, v in ((1, hi[i]), (-1, -lo[i])):
            K.append([float(s) if j == i else 0.0 for j in range(3)])
            k.append(float(v))
    return K, k


KIN = {
    "none": ([], []),
    "box": box([-1, -1, -1], [1, 1, 2]),
    "row": ([[0.5, 0.25, 1.0]], [1.0]),
    "tight": box([-0.01, -0.2, 0.1], [0.04, 0.2, 0.9]),
    "edge": ([[1.0, 0.0, 0.5]], [0.395]),
}
FEET = {
    "two": [[0, 0.1, 0], [0, -0.1, 0]],
    "one": [[0, 0, 0]],
    "step": [[0.25, 0.1, 0.02], [0, -0.1, 0]],
    "far": [[3, 0.1, 0], [3, -0.1, 0]],
}


def phase(feet="two", mass=54.0, mu=0.5, kin="none", ang="none"):
    return dict(feet=FEET[feet], mass=mass, mu=mu, Kin=KIN[kin][0], kin=KIN[kin][1], Ang=KIN[ang][0], ang=KIN[ang][1])


def request():
    return dict(c0_=[0, 0, 0.8], dc0_=[0, 0, 0], ddc0_=[0, 0, 0], c1_=[0.03, 0, 0.82], dc1_=[0, 0, 0], ddc1_=[0, 0, 0],
                useAngularMomentum_=False, costFunction_=1, GIWCrepresentation_=1, flag_=1 | 2 | 8 | 16,
                constrainAcceleration_=False, maxAcceleration_=10.0, reduce_h_=1e-3, phases=[], l0=[0, 0, 0],
                T=1.2, Ts=[], step=0.2, solver=0, path=[])


VECTORS = ("c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_")
DEFAULT = request()
for v in VECTORS:
    DEFAULT[v] = [0, 0, 0]


def form(v, how):
    """the same numbers as different numpy arrays"""
    a = np.array(v, dtype=float)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 7.5)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    return a


def contact(q, how="plain", cone=True):
    e = mcref.contacts(q["feet"], q["mass"], q["mu"], cone)
    c = hb.ContactData(e)
    if q["kin"]:
        c.setKinematicConstraints(form(q["Kin"], how), form(q["kin"], how))
    if q["ang"]:
        c.setAngularConstraints(form(q["Ang"], how), form(q["ang"], how))
    return c


COST = [hb.CostFunction.ACCELERATION, hb.CostFunction.DISTANCE_TRAVELED, hb.CostFunction.TARGET_END_VELOCITY, hb.CostFunction.UNKNOWN_COST]
REP = [hb.GIWCRepresentation.DOUBLE_DESCRIPTION, hb.GIWCRepresentation.FORCE, hb.GIWCRepresentation.UNKNOWN_REPRESENTATION]
SOLVER = [hb.SolverType.SOLVER_QUADPROG, hb.SolverType.SOLVER_GLPK]


def code(enum, v):
    return next(x for x in enum if int(x) == v)


def build(r, how="plain"):
    p = hb.ProblemData()
    for v in VECTORS:
        setattr(p, v, form(r[v], how))
    p.useAngularMomentum_ = r["useAngularMomentum_"]
    p.costFunction_ = code(COST, r["costFunction_"])
    p.GIWCrepresentation_ = code(REP, r["GIWCrepresentation_"])
    k = p.constraints_
    k.flag_, k.constrainAcceleration_ = r["flag_"], r["constrainAcceleration_"]
    k.maxAcceleration_, k.reduce_h_ = r["maxAcceleration_"], r["reduce_h_"]
    for q in r["phases"]:
        p.addContact(contact(q, how))
    return p


# contact sets seen by the model: mass and generators from an object that nothing else touches
_eq = {}


def peeked(q):
    key = json.dumps([q["feet"], q["mass"], q["mu"]])
    if key not in _eq:
        l = mcref.peekContact(hb.ContactData(mcref.contacts(q["feet"], q["mass"], q["mu"], False)))
        _eq[key] = l[:3 + l[1] * l[2]]
    l = list(_eq[key])
    for n in ("kin", "ang"):
        put(l, q[n], (len(q[n]), 1))
    for n, N in (("kin", "Kin"), ("ang", "Ang")):
        if q[n]:
            put(l, q[N], (len(q[n]), 3))
    return l


def expected(r):
    l = []
    for v in VECTORS:
        put(l, r[v], (3, 1))
    l += [r["useAngularMomentum_"], r["costFunction_"], r["GIWCrepresentation_"]]
    l += [r["flag_"], r["constrainAcceleration_"], r["maxAcceleration_"], r["reduce_h_"], len(r["phases"])]
    for q in r["phases"]:
        l += peeked(q)
    return l


def readback(p, r):
    """the attributes read through the interface"""
    for v in VECTORS:
        a = np.asarray(getattr(p, v))
        need(a.size == 3, "read", f"{v} has {a.size} values")
        compare(list(a.ravel()), r[v], "read", v)
    need(type(p.useAngularMomentum_) is bool and p.useAngularMomentum_ == r["useAngularMomentum_"], "read", "useAngularMomentum_")
    need(p.costFunction_ == code(COST, r["costFunction_"]), "read", f"costFunction_ is {p.costFunction_!r}")
    need(p.GIWCrepresentation_ == code(REP, r["GIWCrepresentation_"]), "read", f"GIWCrepresentation_ is {p.GIWCrepresentation_!r}")
    readConstraints(p.constraints_, r)


def readConstraints(k, r):
    need(int(k.flag_) == r["flag_"], "read", f"flag_ is {k.flag_} instead of {r['flag_']}")
    need(k.constrainAcceleration_ == r["constrainAcceleration_"], "read", "constrainAcceleration_")
    need(k.maxAcceleration_ == r["maxAcceleration_"], "read", f"maxAcceleration_ is {k.maxAcceleration_} instead of {r['maxAcceleration_']}")
    need(k.reduce_h_ == r["reduce_h_"], "read", f"reduce_h_ is {k.reduce_h_} instead of {r['reduce_h_']}")


def raises(f, kind=RuntimeError):
    try:
        f()
    except kind:
        return True
    return False


# ------------------------------------------------------------------ flags
def checkFlag(f):
    k = hb.Constraints()
    r = request()
    r["flag_"] = f
    k.flag_ = f
    readConstraints(k, r)
    compare(mcref.peekConstraints(k), [f, False, 10.0, 1e-3], "value", "constraints")
    p = hb.ProblemData()
    p.constraints_.flag_ = f
    need(p.constraints_.flag_ == f, "read", "flag_ of a problem")
    compare(mcref.peekConstraints(p.constraints_), [f, False, 10.0, 1e-3], "value", "constraints of a problem")
    q = hb.ProblemData()
    q.constraints_ = k
    compare(mcref.peekConstraints(q.constraints_), [f, False, 10.0, 1e-3], "value", "constraints assigned to a problem")
    names = dict(INIT_POS=1, INIT_VEL=2, INIT_ACC=4, END_POS=8, END_VEL=0x10, END_ACC=0x20, INIT_JERK=0x40, END_JERK=0x80,
                 ONE_FREE_VAR=0, TWO_FREE_VAR=0x100, THREE_FREE_VAR=0x200, FOUR_FREE_VAR=0x400, FIVE_FREE_VAR=0x800, UNKNOWN=0x1000)
    v = 0
    for n, b in names.items():
        need(getattr(hb, n) == getattr(hb.ConstraintFlag, n), "names", n)
        if f & b:
            v = v | getattr(hb.ConstraintFlag, n)
    k.flag_ = v
    need(int(k.flag_) == f, "names", f"the names that make {f} select {int(k.flag_)}")
    return 4


# ------------------------------------------------------------------ attributes
OPS = []
for v in VECTORS:
    OPS += [("set", v, [0.25, -1.5, 3.0], "plain"), ("set", v, [1e-3, 2.0, -0.125], "strided")]
for n, vals in (("useAngularMomentum_", [True, False]), ("costFunction_", [2, 4, 8]), ("GIWCrepresentation_", [2, 4]),
                ("flag_", [7, 0x2ff]), ("constrainAcceleration_", [True]), ("maxAcceleration_", [0.235, 1e3]),
                ("reduce_h_", [0.0, 0.5])):
    OPS += [("set", n, v, "") for v in vals]
OPS += [("add", "two", "none", "none"), ("add", "step", "box", "row"), ("add", "one", "row", "box"), ("clear",)]
CONS = ("flag_", "constrainAcceleration_", "maxAcceleration_", "reduce_h_")


def checkOps(seq):
    p = hb.ProblemData()
    r = json.loads(json.dumps(DEFAULT))
    compare(mcref.peek(p), expected(r), "value", "a new problem")
    for i in seq:
        o = OPS[i]
        if o[0] == "set":
            r[o[1]] = o[2]
            t = p.constraints_ if o[1] in CONS else p
            if o[1] in VECTORS:
                a = form(o[2], o[3])
                setattr(t, o[1], a)
                a[:] = 99  # the value was taken, not the array
                b = np.asarray(getattr(t, o[1]))
                if b.flags.writeable:
                    b[:] = 98  # a value is returned, not the member
            elif o[1] == "costFunction_":
                t.costFunction_ = code(COST, o[2])
            elif o[1] == "GIWCrepresentation_":
                t.GIWCrepresentation_ = code(REP, o[2])
            else:
                setattr(t, o[1], o[2])
        elif o[0] == "add":
            q = phase(o[1], 54.0 if o[1] == "two" else 60.0, 0.5, o[2], o[3])
            c = contact(q, "strided" if o[1] == "one" else "fortran", False)
            readContact(c, q)
            p.addContact(c)
            r["phases"].append(q)
        else:
            p.clearContacts()
            r["phases"] = []
    compare(mcref.peek(p), expected(r), "value", "the problem")
    readback(p, r)
    return len(seq) + 2


def readContact(c, q):
    for n, N in (("kin", "Kin"), ("ang", "Ang")):
        get = lambda: getattr(c, N + "_")  # noqa: B023,E731
        if not q[n]:
            need(raises(get), "undefined", f"{N}_ that was not set can be read")
            continue
        M, m = get()
        compare(list(np.asarray(M, float).ravel()), [x for row in q[N] for x in row], "read", N)
        compare(list(np.asarray(m, float).ravel()), q[n], "read", n)
    compare(mcref.peekContact(c), peeked(q), "value", "contact")


# ------------------------------------------------------------------ handles
HANDLE = ["k=p.con", "k.set", "p.set", "q.con=k", "q.con=p.con", "del p", "new p", "p.add c", "q.add c", "c.kin", "c.kin2", "c.badkin",
          "e=c.eq", "e.feet", "c.eq=new", "del c", "c.eq=None", "churn"]


def churn():
    """reuses the memory that was just given back"""
    gc.collect()
    keep = []
    for _ in range(6):
        a = hb.ProblemData()
        a.constraints_.maxAcceleration_, a.constraints_.flag_, a.constraints_.reduce_h_ = -777.0, 0x1abc, -5.0
        b = hb.Constraints()
        b.maxAcceleration_, b.reduce_h_ = -888.0, -6.0
        keep += [a, b, mcref.contacts([[9, 9, 9], [8, 8, 8]], 1.0, 0.1, False), bytes(200), bytes(1000)]
    return keep


def checkHandles(seq):
    cons = lambda: dict(flag_=27, constrainAcceleration_=False, maxAcceleration_=10.0, reduce_h_=1e-3)  # noqa: E731
    p, pm = hb.ProblemData(), dict(con=cons(), phases=[])
    q, qm = hb.ProblemData(), dict(con=cons(), phases=[])
    k = km = None
    cm = dict(phase("two", 54.0), eq=dict(mass=54.0, feet=FEET["two"]))
    c = hb.ContactData(mcref.contacts(FEET["two"], 54.0, 0.5, False))
    e = em = None
    n, keep = 1.0, None
    snap = lambda: dict({x: cm[x] for x in cm if x != "eq"}, **cm["eq"])  # noqa: E731
    for i in seq:
        o = HANDLE[i]
        n += 1
        if o == "k=p.con" and p is not None:
            k, km = p.constraints_, pm["con"]
        elif o == "k.set" and k is not None:
            k.maxAcceleration_ = n
            k.reduce_h_ = n / 8
            km["maxAcceleration_"], km["reduce_h_"] = n, n / 8
        elif o == "p.set" and p is not None:
            p.constraints_.flag_ = int(n)
            pm["con"]["flag_"] = int(n)
        elif o == "q.con=k" and k is not None:
            q.constraints_ = k
            qm["con"] = dict(km)
        elif o == "q.con=p.con" and p is not None:
            q.constraints_ = p.constraints_
            qm["con"] = dict(pm["con"])
        elif o == "del p":
            p = pm = None
            gc.collect()
        elif o == "new p":
            p, pm = hb.ProblemData(), dict(con=cons(), phases=[])
        elif o == "p.add c" and p is not None and c is not None and cm["eq"]:
            p.addContact(c)
            pm["phases"].append(snap())
        elif o == "q.add c" and c is not None and cm["eq"]:
            q.addContact(c)
            qm["phases"].append(snap())
        elif o in ("c.kin", "c.kin2") and c is not None:
            K, kk = KIN["box" if o == "c.kin" else "row"]
            c.setKinematicConstraints(np.array(K), np.array(kk) + n)
            cm["Kin"], cm["kin"] = K, [x + n for x in kk]
        elif o == "c.badkin" and c is not None:
            need(raises(lambda: c.setKinematicConstraints(np.eye(3), np.ones(4))), "undefined", "limits of different sizes are accepted")
            need(raises(lambda: c.setAngularConstraints(np.eye(3), np.ones(4))), "undefined", "limits of different sizes are accepted")
        elif o == "e=c.eq" and c is not None:
            if cm["eq"]:
                e, em = c.contactPhase_, cm["eq"]
            else:
                need(raises(lambda: c.contactPhase_), "undefined", "a contact phase that was not given can be read")
        elif o == "e.feet" and e is not None:
            em["feet"] = [[n, 0, 0]]
            mcref.setFeet(e, em["feet"], 0.5, False)
        elif o == "c.eq=new" and c is not None:
            cm["eq"] = dict(mass=n, feet=FEET["one"])
            c.contactPhase_ = mcref.contacts(FEET["one"], n, 0.5, False)
        elif o == "c.eq=None" and c is not None:
            c.contactPhase_ = None
            cm["eq"] = None
        elif o == "del c":
            c = None
            gc.collect()
        elif o == "churn":
            keep = churn()
        else:
            return 0  # the operation is not possible here: the shorter sequence covers this one
    keep = keep, churn()

    def both(con):
        r = dict(DEFAULT)
        r.update(con)
        return r
    for x, m, name in ((p, pm, "p"), (q, qm, "q")):
        if x is None:
            continue
        r = both(m["con"])
        r["phases"] = m["phases"]
        compare(mcref.peek(x), expected(r), "handles", "problem " + name)
        readConstraints(x.constraints_, r)
    if k is not None:
        r = both(km)
        readConstraints(k, r)
        compare(mcref.peekConstraints(k), [r[x] for x in CONS], "handles", "constraints k")
    if c is not None:
        if cm["eq"]:
            readContact(c, snap())
        else:
            need(raises(lambda: c.contactPhase_), "undefined", "a contact phase that was not given can be read")
    if e is not None:
        w = peeked(dict(phase(), **em))
        compare(mcref.peekEq(e), w[:3 + w[1] * w[2]], "handles", "contact phase e")
    return len(seq)


# ------------------------------------------------------------------ calls
P, V, A, J = 1, 2, 4, 0x40
EP, EV, EA, EJ = 8, 0x10, 0x20, 0x80
COMFLAGS = [P | V | EP, P | V | EV, P | V | EV | EP, P | V | A, P | V | A | EP, P | V | A | EV | EP, P | V | A | EA | EV | EP]
JERK = P | V | A | J | EJ | EA | EV | EP
EEFLAGS = [JERK, JERK | 0x200, JERK | 0x800]
DIMS = {  # name: (what it changes, values after the default)
    "flag": COMFLAGS + EEFLAGS + [0, 3, 0x1000, JERK | 0x100],
    "cost": [1, 2, 4, 8],
    "rep": [1, 2, 4],
    "solver": [0, 1, 2],
    "am": [False, True],
    "acc": ["off", "on", "small"],
    "reduce": [1e-3, 0.0, 0.2],
    "phases": ["two", "one", "two,step", "two,two,one", "none", "far"],
    "kin": ["none", "box", "row", "tight", "edge"],
    "ang": ["none", "box"],
    "mu": [0.5, 0.3],
    "mass": [54.0, 10.0],
    "T": [1.2, 0.5],
    "step": [0.2, -1.0, 0.1],
    "c0": [[0, 0, 0.8], [0.02, -0.03, 0.75], [-2.5, 30, -0.4]],
    "dc0": [[0, 0, 0], [0.05, 0.02, 0], [4.0, 0, 0]],
    "ddc0": [[0, 0, 0], [0.1, 0, -0.2]],
    "c1": [[0.03, 0, 0.82], [-0.02, 0.04, 0.8], [-20, -1.5, -3]],
    "dc1": [[0, 0, 0], [0.03, 0, 0.01]],
    "ddc1": [[0, 0, 0], [0, 0.15, 0]],
    "l0": [[0, 0, 0], [0.3, -0.1, 0.2]],
    "path": [5, 2, 12],
    "form": ["plain", "fortran", "strided", "reversed"],
    "times": ["same", "extra"],
}
NAMES = list(DIMS)
FUNCTIONS = ["computeCOMTraj", "zeroStepCapturability", "zeroStepCapturability-kin", "computeEndEffector", "computeEndEffectorConstraints",
             "computeEndEffectorVelocityCost", "computeEndEffectorDistanceCost", "computeEndEffectorConstantWaypoints"]
READS = {  # what each kind of function depends on (the rest is edited for the constant waypoints only, once)
    "com": ["flag", "cost", "rep", "solver", "acc", "reduce", "phases", "kin", "mu", "mass", "T", "step", "c0", "dc0", "ddc0", "c1",
            "dc1", "ddc1", "form", "times"],
    "zero": ["am", "phases", "kin", "mu", "mass", "T", "step", "c0", "dc0", "l0", "form"],
    "ee": ["flag", "T", "c0", "dc0", "ddc0", "c1", "dc1", "ddc1", "path", "form", "phases"],
}


def kindOf(fn):
    return "com" if fn == "computeCOMTraj" else "zero" if fn.startswith("zero") else "ee"


def callBases():
    for fn in FUNCTIONS:
        k = kindOf(fn)
        flags = COMFLAGS if k == "com" else [COMFLAGS[2]] if k == "zero" else EEFLAGS + (COMFLAGS if fn.endswith("ConstantWaypoints") else [])
        for f in flags:
            s = {n: 0 for n in NAMES}
            s["flag"] = DIMS["flag"].index(f)
            if fn.endswith("-kin"):
                s["kin"] = 1
            yield fn, s


def callStates(depth):
    seen = set()
    tr = 0
    out = []
    for fn, b in callBases():
        dims = READS[kindOf(fn)]
        for d in range(depth + 1):
            for ds in itertools.combinations(dims, d):
                for vs in itertools.product(*[[v for v in range(len(DIMS[x])) if v != b[x]] for x in ds]):
                    tr += d
                    s = dict(b)
                    s.update(zip(ds, vs))
                    if fn == "zeroStepCapturability" and s["kin"] or fn.endswith("-kin") and not s["kin"]:
                        continue
                    key = (fn,) + tuple(s[n] for n in NAMES)
                    if key not in seen:
                        seen.add(key)
                        out.append(key)
    return out, tr


def callRequest(key):
    fn, g = key[0], {n: DIMS[n][key[1 + i]] for i, n in enumerate(NAMES)}
    r = request()
    r["flag_"], r["costFunction_"], r["GIWCrepresentation_"], r["solver"] = g["flag"], g["cost"], g["rep"], g["solver"]
    r["useAngularMomentum_"] = g["am"]
    r["constrainAcceleration_"] = g["acc"] != "off"
    r["maxAcceleration_"] = 0.6 if g["acc"] == "small" else 5.0
    r["reduce_h_"] = g["reduce"]
    r["phases"] = [] if g["phases"] == "none" else [phase(f, g["mass"], g["mu"], g["kin"], g["ang"]) for f in g["phases"].split(",")]
    for v in VECTORS:
        r[v] = g[v[:-1]]
    r["l0"], r["T"], r["step"] = g["l0"], g["T"], g["step"]
    r["Ts"] = [g["T"] * (1 + 0.25 * i) for i in range(len(r["phases"]) + (g["times"] == "extra"))]
    r["path"] = [[0.1 * math.sin(i + 0.5), 0.03 * (2 - i), 0.4 * math.cos(2.1 * i + 0.3)] for i in range(g["path"])]
    return fn, r, g["form"]


def curve(l, c):
    l += [c.min(), c.max(), c.degree if not callable(c.degree) else c.degree()]
    for i in range(5):
        t = c.min() + (c.max() - c.min()) * i / 4
        put(l, c(t), (3, 1))
        put(l, c.derivate(t, 1), (3, 1))


def result(res):
    l = [res.success, res.cost]
    try:
        put(l, res.x)
    except RuntimeError:
        l.append("undefined")
    c, d = res.c_of_t, res.dL_of_t
    del res
    gc.collect()
    curve(l, c)
    curve(l, d)
    return l


def pair(m, rows, cols):
    l = []
    put(l, m.A, (rows, cols))
    put(l, m.b, (rows, 1))
    return l


def checkCall(key):
    fn, r, how = callRequest(key)
    if fn.startswith("zeroStep") and len(r["phases"]) != 1:
        return 0  # this function takes one contact phase
    name = fn.split("-")[0]
    if name == "zeroStepCapturability":
        r["GIWCrepresentation_"] = 1
    want = mcref.ref(name, r)
    p = build(r, how)
    before = mcref.peek(p)
    compare(before, expected(r), "value", "the request")
    f = lambda v: form(v, how)  # noqa: E731
    try:
        if name == "computeCOMTraj":
            a = [p, f(r["Ts"]) if r["Ts"] else np.zeros(0), r["step"]]
            if r["solver"]:
                a.append(code(SOLVER, r["solver"]))
            got = result(hb.computeCOMTraj(*a))
        elif name == "zeroStepCapturability":
            q = r["phases"][0]
            a = [mcref.contacts(q["feet"], q["mass"], q["mu"], True), f(r["c0_"]), f(r["dc0_"]), f(r["l0"]), r["useAngularMomentum_"], r["T"], r["step"]]
            if q["kin"]:
                a += [f(q["Kin"]), f(q["kin"])]
            got = result(hb.zeroStepCapturability(*a))
        elif name == "computeEndEffector":
            got = result(hb.computeEndEffector(p, r["T"]))
        elif name == "computeEndEffectorDistanceCost":
            n = want[1][0] if want[1] else 0
            got = pair(hb.computeEndEffectorDistanceCost(p, r["T"], len(r["path"]), f(np.array(r["path"]).T)), n, n)
        elif name == "computeEndEffectorConstantWaypoints":
            got = []
            m = hb.computeEndEffectorConstantWaypoints(p, r["T"])
            put(got, m, (want[1][0], want[1][1]) if want[1] else None)
        else:
            m = getattr(hb, name)(p, r["T"])
            got = pair(m, want[1][0], want[1][1]) if want[1] else [0]
    except RuntimeError:
        got = None
    need((got is None) == (want[0] == "error"), "status", f"{name} {'raises' if got is None else 'does not raise'} an error")
    compare(mcref.peek(p), before, "modified", "the request after the call")
    if got is not None:
        compare(got, want[1], "result", name)
    return 2 if got is None or name[-4:] not in ("Traj", "lity", "ctor") else 3 if got[0] else 4


# ------------------------------------------------------------------ exploration
def states(thorough):
    out, tr = [], 0
    for f in range(8192):
        out.append(("flags", f))
    tr += 8192
    for part, ops, depth in (("attributes", OPS, 3), ("handles", HANDLE, 5 if thorough else 4)):
        for d in range(depth + 1):
            for s in itertools.product(range(len(ops)), repeat=d):
                out.append((part, s))
                tr += 1
    c, t = callStates(3 if thorough else 2)
    out += [("calls", k) for k in c]
    return out, tr + t


def execute(s):
    return {"flags": checkFlag, "attributes": checkOps, "handles": checkHandles, "calls": checkCall}[s[0]](s[1])


def describe(s):
    if s[0] == "flags":
        return f"flags;{s[1]}"
    if s[0] == "attributes":
        return "attributes;" + ",".join(str(i) for i in s[1]) + ";" + " ".join(str(OPS[i]) for i in s[1])
    if s[0] == "handles":
        return "handles;" + ",".join(str(i) for i in s[1]) + ";" + " | ".join(HANDLE[i] for i in s[1])
    ch = [f"{n}={DIMS[n][s[1][1 + i]]}" for i, n in enumerate(NAMES) if s[1][1 + i]]
    return f"calls;{s[1][0]};" + ",".join(str(i) for i in s[1][1:]) + ";" + " ".join(ch)


def parse(t):
    f = t.split(";")
    if f[0] == "flags":
        return ("flags", int(f[1]))
    if f[0] == "calls":
        return ("calls", (f[1],) + tuple(int(i) for i in f[2].split(",")))
    return (f[0], tuple(int(i) for i in f[1].split(",")) if f[1] else ())


class Sweep:
    """runs states in forked workers; a death is a finding of the state that was running"""

    def __init__(self, todo, workers, until, limit):
        self.todo, self.found, self.metrics, self.done = todo, [], {}, 0
        self.mem = mmap.mmap(-1, 4096)
        pids, pos = {}, list(range(workers))
        r, w = os.pipe()
        os.set_blocking(r, False)
        buf, deaths = b"", 0
        for k in range(workers):
            pids[self.start(k, k, workers, w)] = k
        begun = [time.time()] * workers
        last = [-2] * workers
        self.finished = True
        while pids:
            while True:
                try:
                    d = os.read(r, 1 << 16)
                except BlockingIOError:
                    break
                buf += d
            pid, st = os.waitpid(-1, os.WNOHANG)
            now = time.time()
            if pid in pids:
                k = pids.pop(pid)
                if st == 0:
                    continue
                i = self.at(k)
                sig = "timeout" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL else f"crash-{st}"
                self.found.append((i, sig, "the process died"))
                deaths += 1
                if deaths < 40:
                    pids[self.start(k, i + workers, workers, w)] = k
                else:
                    self.finished = False
                continue
            for p, k in pids.items():
                if self.at(k) != last[k]:
                    last[k], begun[k] = self.at(k), now
                elif now - begun[k] > limit:
                    os.kill(p, signal.SIGKILL)
            if now > until:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                self.finished = False
                break
            time.sleep(0.01)
        while True:
            try:
                d = os.read(r, 1 << 16)
            except BlockingIOError:
                break
            if not d:
                break
            buf += d
        os.close(r)
        os.close(w)
        for line in buf.decode(errors="replace").splitlines():
            f = json.loads(line)
            if f[0] == "bad":
                self.found.append(tuple(f[1:]))
            else:
                self.done += f[1]
                for m, v in f[2].items():
                    self.metrics[m] = self.metrics.get(m, 0) + v

    def at(self, k):
        return struct.unpack_from("q", self.mem, 8 * k)[0]

    def start(self, k, first, step, w):
        struct.pack_into("q", self.mem, 8 * k, first)
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            return pid
        nul = os.open("/dev/null", os.O_WRONLY)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        n, m = 0, {}

        def flush():
            nonlocal n, m
            os.write(w, (json.dumps(["ok", n, m]) + "\n").encode())
            n, m = 0, {}
        bad = 0
        for i in range(first, len(self.todo), step):
            struct.pack_into("q", self.mem, 8 * k, i)
            try:
                c = execute(self.todo[i])
                for name, v in ((self.todo[i][0], 1), (self.todo[i][0] + "_operations", c)):
                    m[name] = m.get(name, 0) + v
            except Bad as e:
                bad += 1
                if bad < 200:
                    os.write(w, (json.dumps(["bad", i, e.sig, e.msg[:600]]) + "\n").encode())
            except Exception as e:
                bad += 1
                if bad < 200:
                    os.write(w, (json.dumps(["bad", i, "exception", (type(e).__name__ + ": " + str(e))[:600]]) + "\n").encode())
            n += 1
            if n >= 200:
                flush()
        flush()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--known")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--deadline", type=float, default=600)
    a = ap.parse_args()
    if a.replay:
        try:
            execute(parse(a.replay))
            print("replay: 0 violation(s)")
            return 0
        except Exception as e:
            print("REPLAY-VIOLATION", type(e).__name__, e)
            return 1
    t0 = time.time()
    gc.collect()
    gc.freeze()
    todo, tr = states(a.tier == "thorough")
    s = Sweep(todo, a.workers, t0 + a.deadline, 60)
    listed = set(open(a.known).read().splitlines()) if a.known and os.path.exists(a.known) else set()
    hits = [[g, describe(todo[i])] for i, g, _ in s.found if g + "\t" + describe(todo[i]) in listed]
    by = {}
    for i, g, msg in sorted(f for f in s.found if f[1] + "\t" + describe(todo[f[0]]) not in listed):
        by.setdefault(g, []).append((i, msg))
    confirmed, un = [], []
    for g, l in by.items():
        ok = 0
        for i, msg in l[:4]:
            if ok >= 2:
                break
            again = Sweep([todo[i]], 1, time.time() + 150, 120)
            if any(x[1] == g for x in again.found):
                ok += 1
                confirmed.append(dict(sig=g, state=describe(todo[i]), msg=msg))
            else:
                un.append(f"{g} at {describe(todo[i])}: {msg}")
    d = dict(prop=a.prop, tier=a.tier, states=len(todo), transitions=tr, executed=s.done, exhaustive=s.finished and s.done + sum(f[1][:5] in ("crash", "timeo") for f in s.found) >= len(todo),
             bounds="all 8192 selections; all sequences of at most 3 assignments and contact operations; all sequences of at most "
                    + ("5" if a.tier == "thorough" else "4") + " operations on related objects; requests at most "
                    + ("3" if a.tier == "thorough" else "2") + " edits from every (function, constraint set) base",
             metrics=s.metrics, samples=[describe(todo[len(todo) * (2 * k + 1) // 10]) for k in range(5)], unconfirmed=un,
             violation_counts={g: len(l) for g, l in by.items()}, known_hits=hits, violations=confirmed, wall=round(time.time() - t0, 2))
    d["metrics"]["impl_runs"] = sum(v for m, v in s.metrics.items() if m.endswith("_operations"))
    t = json.dumps(d, indent=1)
    if a.out:
        open(a.out, "w").write(t)
    else:
        print(t)
    return 0


if __name__ == "__main__":
    sys.exit(main())
