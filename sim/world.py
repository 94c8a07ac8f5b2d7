"""Problems: a JSON spec becomes jaxfg objects and a numpy model.

The structure (variables, factor types, connectivity, noise types) is given by a
structure seed. Numbers are given by a value seed. jaxfg variables are kept per
structure, so that different values of one structure share compiled code.
"""

import random
from typing import Tuple

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as np
from jax import numpy as jnp
from overrides import overrides

import jaxfg

from . import ref

Array = jaxfg.hints.Array

# -- custom variables and factors ------------------------------------------------


@jdc.pytree_dataclass
class PairValue:
    a: Array
    b: jaxfg.hints.Scalar


class PairVariable(jaxfg.core.VariableBase[PairValue]):
    @classmethod
    @overrides
    def get_default_value(cls) -> PairValue:
        return PairValue(jnp.array([1.0, 2.0]), 3.0)


class ScaleVariable(jaxfg.core.VariableBase[Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> Array:
        return jnp.ones(1)

    @classmethod
    @overrides
    def manifold_retract(cls, x: Array, local_delta: Array) -> Array:
        return x * jnp.exp(local_delta)


@jdc.pytree_dataclass
class SphereValue:
    direction: Array
    radius: Array


class SphereVariable(jaxfg.core.VariableBase[SphereValue]):
    """Local parameterization smaller than the parameterization; two leaves."""

    @classmethod
    @overrides
    def get_default_value(cls) -> SphereValue:
        return SphereValue(jnp.array([1.0, 0.0]), jnp.ones(1))

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides
    def manifold_retract(cls, x: SphereValue, local_delta: Array) -> SphereValue:
        c, s = jnp.cos(local_delta[0]), jnp.sin(local_delta[0])
        a, b = x.direction[0], x.direction[1]
        return SphereValue(
            jnp.array([a * c - b * s, b * c + a * s]), x.radius + 2.0 * local_delta[1:]
        )


@jdc.pytree_dataclass
class Linear1(jaxfg.core.FactorBase[Tuple[Array]]):
    M0: Array
    c: Array

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        return self.M0 @ variable_values[0] - self.c


@jdc.pytree_dataclass
class Cloud(jaxfg.core.FactorBase[Tuple[Array]]):
    """A linear factor with data of any length, and an option."""

    data: Array
    which: jdc.Static[str] = "mean"

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        c = jnp.mean(self.data, axis=0) if self.which == "mean" else self.data[-1]
        return variable_values[0] - c


@jdc.pytree_dataclass
class Linear2(jaxfg.core.FactorBase[Tuple[Array, Array]]):
    M0: Array
    M1: Array
    c: Array

    @overrides
    def compute_residual_vector(
        self, variable_values: Tuple[jax.Array, jax.Array]
    ) -> jax.Array:
        x, y = variable_values
        return self.M0 @ x + self.M1 @ y - self.c


@jdc.pytree_dataclass
class Linear3(jaxfg.core.FactorBase[Tuple[Array, ...]]):
    M0: Array
    M1: Array
    M2: Array
    c: Array

    @overrides
    def compute_residual_vector(
        self, variable_values: Tuple[jax.Array, ...]
    ) -> jax.Array:
        x, y, z = variable_values
        return self.M0 @ x + self.M1 @ y + self.M2 @ z - self.c


@jdc.pytree_dataclass
class Rosen(jaxfg.core.FactorBase[Tuple[Array]]):
    a: jaxfg.hints.Scalar
    b: jaxfg.hints.Scalar

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        (x,) = variable_values
        return jnp.array([self.a - x[0], self.b * (x[1] - x[0] ** 2)])


@jdc.pytree_dataclass
class Wave(jaxfg.core.FactorBase[Tuple[Array]]):
    a: jaxfg.hints.Scalar
    b: jaxfg.hints.Scalar
    c: Array

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        (x,) = variable_values
        return self.a * jnp.sin(x) + self.b * x - self.c


@jdc.pytree_dataclass
class Sight(jaxfg.core.FactorBase[Tuple[jaxlie.SE2, Array]]):
    z: Array

    @overrides
    def compute_residual_vector(
        self, variable_values: Tuple[jaxlie.SE2, jax.Array]
    ) -> jax.Array:
        T, point = variable_values
        return T.inverse() @ point - self.z


@jdc.pytree_dataclass
class PairFactor(jaxfg.core.FactorBase[Tuple[PairValue]]):
    c: Array

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[PairValue]) -> jax.Array:
        (v,) = variable_values
        return jnp.array(
            [v.a[0] - self.c[0], v.a[1] * v.b - self.c[1], v.b - self.c[2]]
        )


@jdc.pytree_dataclass
class ScaleFactor(jaxfg.core.FactorBase[Tuple[Array]]):
    c: Array

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        return variable_values[0] - self.c


@jdc.pytree_dataclass
class RatioFactor(jaxfg.core.FactorBase[Tuple[Array, Array]]):
    c: Array

    @overrides
    def compute_residual_vector(
        self, variable_values: Tuple[jax.Array, jax.Array]
    ) -> jax.Array:
        s, x = variable_values
        return s * x[:1] - self.c


@jdc.pytree_dataclass
class SphereFactor(jaxfg.core.FactorBase[Tuple[SphereValue]]):
    c: Array

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[SphereValue]) -> jax.Array:
        (v,) = variable_values
        return v.radius * v.direction - self.c


LIE = {
    "SO2": (jaxfg.geometry.SO2Variable, jaxlie.SO2),
    "SE2": (jaxfg.geometry.SE2Variable, jaxlie.SE2),
    "SO3": (jaxfg.geometry.SO3Variable, jaxlie.SO3),
    "SE3": (jaxfg.geometry.SE3Variable, jaxlie.SE3),
}


def variable_class(name):
    if name in LIE:
        return LIE[name][0]
    if name == "Pair":
        return PairVariable
    if name == "Scale":
        return ScaleVariable
    if name == "Sphere":
        return SphereVariable
    return jaxfg.core.RealVectorVariable[int(name[1:])]


def to_value(name, p):
    """Flat numpy parameters -> jaxfg value."""
    p = np.asarray(p, dtype=np.float64 if jax.config.jax_enable_x64 else np.float32)
    if name in LIE:
        g = LIE[name][1]
        field = {"SO2": "unit_complex", "SE2": "unit_complex_xy", "SO3": "wxyz", "SE3": "wxyz_xyz"}[name]
        return g(**{field: jnp.asarray(p)})
    if name == "Pair":
        return PairValue(jnp.asarray(p[:2]), jnp.asarray(p[2]))
    if name == "Sphere":
        return SphereValue(jnp.asarray(p[:2]), jnp.asarray(p[2:]))
    return jnp.asarray(p)


def from_value(name, value):
    """jaxfg value -> flat numpy parameters (independent of jaxfg's flattening)."""
    if name in LIE:
        return np.asarray(value.parameters(), dtype=np.float64).reshape(-1)
    if name == "Pair":
        return np.concatenate(
            [np.asarray(value.a, np.float64).reshape(-1), np.asarray(value.b, np.float64).reshape(-1)]
        )
    if name == "Sphere":
        return np.concatenate(
            [np.asarray(value.direction, np.float64), np.asarray(value.radius, np.float64)]
        )
    return np.asarray(value, dtype=np.float64).reshape(-1)


# -- structures ------------------------------------------------------------------

FAMILIES = ("se2", "vec", "mixed", "se3", "robust", "so", "manifold")


def make_structure(spec):
    """`spec`: {"fam", "seed", "nv"} -> (kinds, list of factor skeletons)."""
    rng = random.Random("structure/%s/%s/%s" % (spec["fam"], spec["seed"], spec["nv"]))
    fam, nv = spec["fam"], spec["nv"]
    kinds, factors = [], []

    def noise(dim, huber=False):
        t = rng.choice(["diag", "full"])
        return {"t": t, "dim": dim, "huber": bool(huber)}

    def pose_graph(kind, ids, hub=0.0):
        d = ref.kind(kind).ldim
        fs = [{"type": "prior", "kind": kind, "vars": [ids[0]], "noise": noise(d)}]
        n_share = noise(d)
        for a, b in zip(ids, ids[1:]):
            fs.append(
                {"type": "between", "kind": kind, "vars": [a, b],
                 "noise": dict(n_share) if rng.random() < 0.6 else noise(d, rng.random() < hub)}
            )
        for _ in range(rng.randint(0, max(1, len(ids) - 1))):
            if len(ids) < 2:
                break
            a, b = rng.sample(ids, 2)
            fs.append({"type": "between", "kind": kind, "vars": [a, b], "noise": noise(d, rng.random() < hub)})
        for v in ids[1:]:
            if rng.random() < 0.3:
                fs.append({"type": "prior", "kind": kind, "vars": [v], "noise": noise(d, rng.random() < hub)})
        return fs

    def vectors(ids, hub=0.0):
        fs = []
        for v in ids:
            n = ref.kind(kinds[v]).pdim
            fs.append({"type": "linear", "rows": n, "vars": [v], "noise": noise(n)})
        for _ in range(rng.randint(1, len(ids) + 1)):
            k = rng.randint(1, min(3, len(ids)))
            rows = rng.randint(1, 3)
            vs = rng.sample(ids, k)
            fs.append({"type": "linear", "rows": rows, "vars": vs, "noise": noise(rows, rng.random() < hub)})
        for v in ids:
            # Factors that differ in the length of their data only.
            for _ in range(rng.choice([0, 0, 1, 2])):
                n = ref.kind(kinds[v]).pdim
                fs.append({"type": "linear", "rows": n, "vars": [v], "noise": {"t": "diag", "dim": n, "huber": False}, "cloud": rng.randint(1, 3), "which": rng.choice(["mean", "mean", "last"])})
        if rng.random() < 0.25:
            # A factor attached twice to one variable.
            v = rng.choice(ids)
            fs.append({"type": "linear", "rows": 2, "vars": [v, v], "noise": noise(2)})
        return fs

    def lift(ids):
        fs = []
        for v in ids:
            n = ref.kind(kinds[v]).pdim
            if n == 2 and rng.random() < 0.6:
                fs.append({"type": "rosen", "vars": [v], "noise": noise(2)})
            elif rng.random() < 0.5:
                fs.append({"type": "wave", "vars": [v], "noise": noise(n)})
        return fs

    if fam == "wire":
        # Structures that differ in their connections only: same variables, same
        # numbers and types of factors, same storage layout.
        kinds = ["R2"] * nv
        factors = [{"type": "linear", "rows": 2, "vars": [v], "noise": {"t": "diag", "dim": 2, "huber": False}} for v in range(nv)]
        pairs = [(a, b) for a in range(nv) for b in range(nv) if a != b]
        for a, b in rng.sample(pairs, nv - 1):
            factors.append({"type": "linear", "rows": 2, "vars": [a, b], "noise": {"t": "diag", "dim": 2, "huber": False}})
        return kinds, factors
    if fam in ("wide", "shift"):
        # Dense enough for a supernodal factorization, which relies on its analysis.
        def wide(rows, vs):
            return {"type": "linear", "rows": rows, "vars": list(vs), "noise": {"t": "diag", "dim": rows, "huber": False}}

        kinds = ["R24"] * 4
        priors = [wide(24, [v]) for v in range(4)]
        if fam == "wide":
            factors = priors + [wide(1, rng.sample(range(4), 3)) for _ in range(2)]
        elif spec["seed"] % 2:
            # The next two have the same sequence of columns and other row lengths.
            factors = [wide(1, [0]), wide(1, [1, 2, 3])] + priors
        else:
            factors = [wide(1, [0, 1, 2]), wide(1, [3])] + priors
        return kinds, factors
    if fam in ("se2", "se3"):
        kinds = [fam.upper()] * nv
        factors = pose_graph(fam.upper(), list(range(nv)))
    elif fam == "so":
        for _ in range(nv):
            kinds.append(rng.choice(["SO2", "SO3"]))
        for k in ("SO2", "SO3"):
            ids = [i for i in range(nv) if kinds[i] == k]
            if ids:
                factors += pose_graph(k, ids)
    elif fam == "linear":
        kinds = [rng.choice(["R1", "R2", "R3"]) for _ in range(nv)]
        factors = vectors(list(range(nv)))
    elif fam == "vec":
        kinds = [rng.choice(["R1", "R2", "R2", "R3"]) for _ in range(nv)]
        factors = vectors(list(range(nv))) + lift(list(range(nv)))
    elif fam == "robust":
        kinds = [rng.choice(["R1", "R2"]) for _ in range(nv)] + ["SE2"] * 2
        factors = vectors(list(range(nv)), hub=0.7) + pose_graph("SE2", [nv, nv + 1], hub=0.7)
        factors.append({"type": "linear", "rows": 2, "vars": [0], "noise": noise(2, True)})
    elif fam == "manifold":
        kinds = [rng.choice(["Pair", "Scale", "Sphere", "R1"]) for _ in range(nv)]
        kinds += ["Scale", "R1", "Sphere"]
        ids = range(len(kinds))
        for v in ids:
            if kinds[v] == "Pair":
                factors.append({"type": "pair", "vars": [v], "noise": noise(3)})
            elif kinds[v] == "Scale":
                factors.append({"type": "scale", "vars": [v], "noise": noise(1)})
            elif kinds[v] == "Sphere":
                factors.append({"type": "sphere", "vars": [v], "noise": noise(2)})
            else:
                factors.append({"type": "linear", "rows": 1, "vars": [v], "noise": noise(1)})
        ss = [v for v in ids if kinds[v] == "Scale"]
        rs = [v for v in ids if kinds[v] == "R1"]
        for _ in range(rng.randint(1, 3)):
            factors.append({"type": "ratio", "vars": [rng.choice(ss), rng.choice(rs)], "noise": noise(1)})
    elif fam == "mixed":
        kinds = ["SE2"] * max(2, nv - 2) + ["R2"] * 2 + [rng.choice(["R3", "Pair", "SO3"])]
        n2 = max(2, nv - 2)
        factors = pose_graph("SE2", list(range(n2)))
        for v in (n2, n2 + 1):
            factors.append({"type": "linear", "rows": 2, "vars": [v], "noise": noise(2)})
            for _ in range(rng.randint(1, 2)):
                factors.append({"type": "sight", "vars": [rng.randrange(n2), v], "noise": noise(2)})
        last = len(kinds) - 1
        if kinds[last] == "R3":
            factors.append({"type": "linear", "rows": 3, "vars": [last], "noise": noise(3)})
            factors.append({"type": "linear", "rows": 2, "vars": [last, n2], "noise": noise(2)})
        elif kinds[last] == "Pair":
            factors.append({"type": "pair", "vars": [last], "noise": noise(3)})
        else:
            factors += pose_graph("SO3", [last])
    else:
        raise AssertionError(fam)
    rng.shuffle(factors)
    # Shuffle variable numbering as well, so that types are not stored in order.
    perm = list(range(len(kinds)))
    rng.shuffle(perm)
    kinds2 = [None] * len(kinds)
    for i, k in enumerate(kinds):
        kinds2[perm[i]] = k
    for f in factors:
        f["vars"] = [perm[v] for v in f["vars"]]
    return kinds2, factors


def fill_noise(n, r):
    d = n["dim"]
    out = {}
    if n["t"] == "diag":
        out["diag"] = np.exp(r.uniform(-0.7, 1.2, d))
    else:
        L = np.tril(r.uniform(-0.6, 0.6, (d, d)), -1) + np.diag(np.exp(r.uniform(-0.7, 1.2, d)))
        out["sqrt"] = L
    if n["huber"]:
        out["huber"] = float(np.exp(r.uniform(-1.2, 1.0)))
    return out


def fill(kinds, skeletons, seed, spread=0.15):
    """Numbers for a structure: factors of the numpy model, and a ground truth."""
    r = np.random.RandomState(seed % (2**32))
    truth = []
    for k in kinds:
        kd = ref.kind(k)
        truth.append(kd.retract(kd.default, r.uniform(-1.0, 1.0, kd.ldim)))
    factors = []
    for sk in skeletons:
        f = {"type": sk["type"], "vars": list(sk["vars"]), "noise": fill_noise(sk["noise"], r)}
        t = sk["type"]
        if t in ("prior", "between"):
            g = ref.GROUPS[sk["kind"]]
            f["kind"] = sk["kind"]
            pert = g.exp(r.uniform(-spread, spread, g.ldim))
            if t == "prior":
                f["mu"] = g.mul(truth[f["vars"][0]], pert)
            else:
                a, b = (truth[v] for v in f["vars"])
                f["T"] = g.mul(g.mul(g.inv(a), b), pert)
        elif sk.get("cloud"):
            n = sk["rows"]
            f["data"] = truth[f["vars"][0]] + r.uniform(-spread, spread, (sk["cloud"], n))
            f["which"] = sk["which"]
            f["M"], f["c"] = [np.eye(n)], np.mean(f["data"], axis=0) if sk["which"] == "mean" else f["data"][-1]
        elif t == "linear":
            f["M"] = []
            for v in f["vars"]:
                n = ref.kind(kinds[v]).pdim
                M = r.uniform(-1, 1, (sk["rows"], n))
                if len(f["vars"]) == 1 and sk["rows"] == n:
                    M = M * min(0.3, 1.0 / n) + np.eye(n)
                f["M"].append(M)
            f["c"] = sum(M @ truth[v] for M, v in zip(f["M"], f["vars"])) + r.uniform(-spread, spread, sk["rows"])
        elif t == "rosen":
            f["a"], f["b"] = float(r.uniform(0.5, 1.5)), float(r.uniform(0.5, 3.0))
        elif t == "wave":
            x = truth[f["vars"][0]]
            f["a"], f["b"] = float(r.uniform(0.2, 0.8)), float(r.uniform(0.9, 1.5))
            f["c"] = f["a"] * np.sin(x) + f["b"] * x + r.uniform(-spread, spread, len(x))
        else:
            # residual form h(x) - c
            probe = dict(f)
            probe["c"] = probe["z"] = np.zeros(1)
            if t == "pair":
                probe["c"] = np.zeros(3)
            h, _ = ref.raw_residual(probe, [truth[v] for v in f["vars"]])
            f["z" if t == "sight" else "c"] = h + r.uniform(-spread, spread, len(h))
        factors.append(f)
    return factors, truth


def perturb(kinds, truth, seed, scale):
    """An initial estimate near the truth."""
    r = np.random.RandomState(seed % (2**32))
    out = {}
    for v, k in enumerate(kinds):
        kd = ref.kind(k)
        out[v] = kd.retract(truth[v], r.uniform(-scale, scale, kd.ldim))
    return out


def jax_noise(n):
    dt = np.float64 if jax.config.jax_enable_x64 else np.float32
    if "sqrt" in n:
        m = jaxfg.noises.Gaussian(sqrt_precision_matrix=np.asarray(n["sqrt"], dt))
    else:
        m = jaxfg.noises.DiagonalGaussian(sqrt_precision_diagonal=np.asarray(n["diag"], dt))
    if n.get("huber") is not None:
        m = jaxfg.noises.HuberWrapper(wrapped=m, delta=np.asarray(n["huber"], dt))
    return m


def jax_factor(f, variables):
    """Numpy model factor -> jaxfg factor on the given variables (by index)."""
    dt = np.float64 if jax.config.jax_enable_x64 else np.float32
    vs = tuple(variables[v] for v in f["vars"])
    n = jax_noise(f["noise"])
    t = f["type"]
    a = lambda x: np.asarray(x, dt)
    if t == "prior":
        return jaxfg.geometry.PriorFactor.make(vs[0], to_value(f["kind"], f["mu"]), n)
    if t == "between":
        return jaxfg.geometry.BetweenFactor.make(vs[0], vs[1], to_value(f["kind"], f["T"]), n)
    if "data" in f:
        return Cloud(variables=vs, noise_model=n, data=a(f["data"]), which=f["which"])
    if t == "linear":
        cls = {1: Linear1, 2: Linear2, 3: Linear3}[len(vs)]
        return cls(variables=vs, noise_model=n, c=a(f["c"]), **{"M%d" % i: a(M) for i, M in enumerate(f["M"])})
    if t == "rosen":
        return Rosen(variables=vs, noise_model=n, a=a(f["a"]), b=a(f["b"]))
    if t == "wave":
        return Wave(variables=vs, noise_model=n, a=a(f["a"]), b=a(f["b"]), c=a(f["c"]))
    if t == "sight":
        return Sight(variables=vs, noise_model=n, z=a(f["z"]))
    cls = {"pair": PairFactor, "scale": ScaleFactor, "ratio": RatioFactor, "sphere": SphereFactor}[t]
    return cls(variables=vs, noise_model=n, c=a(f["c"]))


def scattered(classes, seed):
    """Instances in this order, at addresses in another order."""
    rng = random.Random("addresses/%s" % seed)
    garbage = [object.__new__(rng.choice(classes)) for _ in range(8 * len(classes) + 8)]
    rng.shuffle(garbage)
    while garbage:
        garbage.pop()
    return [c() for c in classes]


class Structure:
    """Shared by all runs of a process that use the same structure spec."""

    cache = {}
    shared = {}

    def __init__(self, spec):
        self.spec = spec
        self.kinds, self.skeletons = make_structure(spec)
        if spec["fam"] in ("wire", "wide", "shift"):
            shared = Structure.shared.setdefault((spec["fam"], spec["nv"]), [variable_class(k)() for k in self.kinds])
            self.variables = list(shared)
        elif spec.get("inc") is not None:
            self.variables = scattered([variable_class(k) for k in self.kinds], spec["inc"])
        else:
            self.variables = [variable_class(k)() for k in self.kinds]
        self.index = {v: i for i, v in enumerate(self.variables)}
        self.used = sorted({v for f in self.skeletons for v in f["vars"]})

    @staticmethod
    def get(spec):
        key = (spec["fam"], spec["seed"], spec["nv"], spec.get("inc"))
        if key not in Structure.cache:
            Structure.cache[key] = Structure(dict(fam=key[0], seed=key[1], nv=key[2], inc=key[3]))
        return Structure.cache[key]


class Problem:
    """A structure with numbers: numpy model and jaxfg graph."""

    def __init__(self, spec):
        self.spec = spec
        self.s = Structure.get(spec)
        factors, self.truth = fill(self.s.kinds, self.s.skeletons, spec["values"], spec.get("spread", 0.15))
        self.model = ref.Graph(self.s.kinds, factors)
        self.factors = factors

    def jax_factors(self, order=None):
        fs = [jax_factor(f, self.s.variables) for f in self.factors]
        return fs if order is None else [fs[i] for i in order]

    def graph(self, order=None):
        return jaxfg.core.StackedFactorGraph.make(self.jax_factors(order))

    def initial(self, seed, scale):
        x = perturb(self.s.kinds, self.truth, seed, scale)
        return {v: x[v] for v in self.s.used}

    def assignments(self, x, order_seed=None):
        """jaxfg assignments; variables in an order drawn from `order_seed`."""
        vs = list(self.s.used)
        if order_seed is not None:
            random.Random("%s/%s" % (order_seed, self.spec["seed"])).shuffle(vs)
        return jaxfg.core.VariableAssignments.make_from_dict(
            {self.s.variables[v]: to_value(self.s.kinds[v], x[v]) for v in vs}
        )

    def read(self, assignments):
        """jaxfg assignments -> {index: flat parameters}."""
        return {
            v: from_value(self.s.kinds[v], assignments.get_value(self.s.variables[v]))
            for v in self.s.used
        }

    def columns(self, graph):
        """For each column of the model (by ascending variable), the jaxfg column."""
        cols = []
        lay = graph.local_storage_layout
        for v in self.model.used:
            i = lay.index_from_variable[self.s.variables[v]]
            cols.extend(range(i, i + ref.kind(self.s.kinds[v]).ldim))
        return np.array(cols)


# -- solvers -----------------------------------------------------------------------


def linear_solver(name, params=None):
    S = jaxfg.sparse
    p = params or {}
    if name == "chol":
        return S.CholmodSolver()
    if name == "cg":
        return S.ConjugateGradientSolver(tolerance=p.get("tolerance", 1e-12))
    if name == "icg":
        return S.InexactStepConjugateGradientSolver(inexact_step_eta=p.get("eta", 1e-2))
    raise AssertionError(name)


SOLVERS = {
    "gn": jaxfg.solvers.GaussNewtonSolver,
    "lm": jaxfg.solvers.LevenbergMarquardtSolver,
    "dl": jaxfg.solvers.DoglegSolver,
    "fix": jaxfg.solvers.FixedIterationGaussNewtonSolver,
}


def nonlinear_solver(name, linear, verbose=False, **params):
    return SOLVERS[name](verbose=verbose, linear_solver=linear, **params)
