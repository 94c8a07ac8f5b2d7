"""Independent model in numpy (float64) of variables, factors and graphs.

Values are flat parameter vectors in jaxfg's storage format. Nothing here uses
jax, jaxlie or jaxfg.
"""

import math

import numpy as np

# -- groups ------------------------------------------------------------------


def _hat(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def _qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return np.array(
        [
            w * W - x * X - y * Y - z * Z,
            w * X + x * W + y * Z - z * Y,
            w * Y - x * Z + y * W + z * X,
            w * Z + x * Y - y * X + z * W,
        ]
    )


def _qmat(q):
    w, x, y, z = q / math.sqrt(float(q @ q))
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


class SO2:
    pdim, ldim = 2, 1
    identity = np.array([1.0, 0.0])

    @staticmethod
    def exp(d):
        return np.array([math.cos(d[0]), math.sin(d[0])])

    @staticmethod
    def log(p):
        return np.array([math.atan2(p[1], p[0])])

    @staticmethod
    def mul(a, b):
        return np.array([a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]])

    @staticmethod
    def inv(a):
        return np.array([a[0], -a[1]])

    @staticmethod
    def adj(a):
        return np.eye(1)


class SE2:
    pdim, ldim = 4, 3
    identity = np.array([1.0, 0.0, 0.0, 0.0])

    @staticmethod
    def _V(t):
        if abs(t) < 1e-4:
            s, c = 1 - t * t / 6 + t**4 / 120, t / 2 - t**3 / 24
        else:
            s, c = math.sin(t) / t, (1 - math.cos(t)) / t
        return np.array([[s, -c], [c, s]])

    @staticmethod
    def exp(d):
        xy = SE2._V(d[2]) @ d[:2]
        return np.array([math.cos(d[2]), math.sin(d[2]), xy[0], xy[1]])

    @staticmethod
    def log(p):
        t = math.atan2(p[1], p[0])
        xy = np.linalg.solve(SE2._V(t), p[2:])
        return np.array([xy[0], xy[1], t])

    @staticmethod
    def mul(a, b):
        r = SO2.mul(a, b)
        return np.array(
            [
                r[0],
                r[1],
                a[0] * b[2] - a[1] * b[3] + a[2],
                a[1] * b[2] + a[0] * b[3] + a[3],
            ]
        )

    @staticmethod
    def inv(a):
        return np.array(
            [a[0], -a[1], -(a[0] * a[2] + a[1] * a[3]), -(-a[1] * a[2] + a[0] * a[3])]
        )

    @staticmethod
    def adj(a):
        c, s, x, y = a
        return np.array([[c, -s, y], [s, c, -x], [0, 0, 1.0]])


class SO3:
    pdim, ldim = 4, 3
    identity = np.array([1.0, 0.0, 0.0, 0.0])

    @staticmethod
    def exp(d):
        t = math.sqrt(float(d @ d))
        k = 0.5 - t * t / 48 + t**4 / 3840 if t < 1e-4 else math.sin(t / 2) / t
        return np.concatenate([[math.cos(t / 2)], k * d])

    @staticmethod
    def log(q):
        q = q if q[0] >= 0 else -q
        n = math.sqrt(float(q[1:] @ q[1:]))
        if n < 1e-7:
            k = 2.0 / q[0] - 2.0 / 3.0 * n * n / q[0] ** 3
        else:
            k = 2.0 * math.atan2(n, q[0]) / n
        return k * q[1:]

    mul = staticmethod(_qmul)

    @staticmethod
    def inv(q):
        return np.concatenate([[q[0]], -q[1:]])

    @staticmethod
    def adj(q):
        return _qmat(q)


class SE3:
    pdim, ldim = 7, 6
    identity = np.array([1.0, 0, 0, 0, 0, 0, 0])

    @staticmethod
    def _V(w):
        t = math.sqrt(float(w @ w))
        W = _hat(w)
        if t < 1e-3:
            b, c = 0.5 - t * t / 24 + t**4 / 720, 1 / 6 - t * t / 120 + t**4 / 5040
        else:
            b, c = (1 - math.cos(t)) / t**2, (t - math.sin(t)) / t**3
        return np.eye(3) + b * W + c * (W @ W)

    @staticmethod
    def exp(d):
        return np.concatenate([SO3.exp(d[3:]), SE3._V(d[3:]) @ d[:3]])

    @staticmethod
    def log(p):
        w = SO3.log(p[:4])
        return np.concatenate([np.linalg.solve(SE3._V(w), p[4:]), w])

    @staticmethod
    def mul(a, b):
        return np.concatenate([_qmul(a[:4], b[:4]), _qmat(a[:4]) @ b[4:] + a[4:]])

    @staticmethod
    def inv(a):
        q = SO3.inv(a[:4])
        return np.concatenate([q, -(_qmat(q) @ a[4:])])

    @staticmethod
    def adj(a):
        R = _qmat(a[:4])
        out = np.zeros((6, 6))
        out[:3, :3] = out[3:, 3:] = R
        out[:3, 3:] = _hat(a[4:]) @ R
        return out


GROUPS = {"SO2": SO2, "SE2": SE2, "SO3": SO3, "SE3": SE3}

# -- variable kinds ------------------------------------------------------------


class Kind:
    """Parameter dimension, local dimension, default value, retraction."""

    def __init__(self, name):
        self.name = name
        if name in GROUPS:
            g = GROUPS[name]
            self.pdim, self.ldim, self.default = g.pdim, g.ldim, g.identity
            self.retract = lambda x, d: g.mul(x, g.exp(d))
        elif name == "Pair":
            self.pdim = self.ldim = 3
            self.default = np.array([1.0, 2.0, 3.0])
            self.retract = lambda x, d: x + d
        elif name == "Scale":
            self.pdim = self.ldim = 1
            self.default = np.array([1.0])
            self.retract = lambda x, d: x * np.exp(d)
        elif name == "Sphere":  # unit circle embedded as (x, y, radius); local: 2
            self.pdim, self.ldim = 3, 2
            self.default = np.array([1.0, 0.0, 1.0])
            self.retract = lambda x, d: np.concatenate(
                [SO2.mul(x[:2], SO2.exp(d[:1])), x[2:] + 2.0 * d[1:]]
            )
        else:
            assert name.startswith("R")
            self.pdim = self.ldim = int(name[1:])
            self.default = np.zeros(self.pdim)
            self.retract = lambda x, d: x + d


_kinds = {}


def kind(name):
    if name not in _kinds:
        _kinds[name] = Kind(name)
    return _kinds[name]


# -- factors -------------------------------------------------------------------


def raw_residual(f, vals):
    """Unwhitened residual and list of Jacobians (one per variable)."""
    t = f["type"]
    if t == "prior":
        g = GROUPS[f["kind"]]
        r = g.log(g.mul(g.inv(vals[0]), f["mu"]))
        return r, [-np.eye(g.ldim)]
    if t == "between":
        g = GROUPS[f["kind"]]
        x = g.mul(g.inv(vals[0]), vals[1])
        xi = g.inv(x)
        return g.log(g.mul(xi, f["T"])), [g.adj(xi), -np.eye(g.ldim)]
    if t == "linear":
        r = -f["c"]
        for M, v in zip(f["M"], vals):
            r = r + M @ v
        return r, [M for M in f["M"]]
    if t == "rosen":
        (x,) = vals
        r = np.array([f["a"] - x[0], f["b"] * (x[1] - x[0] ** 2)])
        J = np.zeros((2, len(x)))
        J[0, 0] = -1.0
        J[1, 0] = -2 * f["b"] * x[0]
        J[1, 1] = f["b"]
        return r, [J]
    if t == "wave":
        (x,) = vals
        r = f["a"] * np.sin(x) + f["b"] * x - f["c"]
        return r, [np.diag(f["a"] * np.cos(x) + f["b"])]
    if t == "sight":  # SE2 pose observes a point in the plane
        T, l = vals
        c, s = T[0], T[1]
        RT = np.array([[c, s], [-s, c]])
        p = RT @ (l - T[2:])
        J = np.array([[-1, 0, p[1]], [0, -1, -p[0]]])
        return p - f["z"], [J, RT]
    if t == "pair":
        (v,) = vals
        r = np.array([v[0] - f["c"][0], v[1] * v[2] - f["c"][1], v[2] - f["c"][2]])
        return r, [np.array([[1.0, 0, 0], [0, v[2], v[1]], [0, 0, 1.0]])]
    if t == "scale":
        (v,) = vals
        return v - f["c"], [np.diag(v)]
    if t == "ratio":  # Scale and vector: s * x[0] - c
        s, x = vals
        J = np.zeros((1, len(x)))
        J[0, 0] = s[0]
        return np.array([s[0] * x[0]]) - f["c"], [np.array([[s[0] * x[0]]]), J]
    if t == "sphere":
        (v,) = vals
        r = np.array([v[2] * v[0], v[2] * v[1]]) - f["c"]
        return r, [
            np.array([[-v[2] * v[1], 2.0 * v[0]], [v[2] * v[0], 2.0 * v[1]]])
        ]
    raise AssertionError(t)


def noise_matrix(n):
    """Square-root precision of a noise spec."""
    if "sqrt" in n:
        return n["sqrt"]
    return np.diag(n["diag"])


def whiten(f, r, Js):
    n = f["noise"]
    W = noise_matrix(n)
    r = W @ r
    Js = [W @ J for J in Js]
    if n.get("huber") is not None:
        d = n["huber"]
        norm = math.sqrt(float(r @ r))
        if not norm < d:
            k = math.sqrt(d / norm)
            r = r * k
            Js = [J * k for J in Js]
    return r, Js


class Graph:
    """Variables are integers `0..n-1` with kinds; factors are dicts."""

    def __init__(self, kinds, factors):
        self.kinds = [kind(k) for k in kinds]
        self.factors = factors
        self.used = sorted({v for f in factors for v in f["vars"]})
        self.loc = {}
        i = 0
        for v in self.used:
            self.loc[v] = i
            i += self.kinds[v].ldim
        self.ldim = i

    def residuals(self, x):
        out = []
        for f in self.factors:
            r, Js = raw_residual(f, [x[v] for v in f["vars"]])
            out.append(whiten(f, r, [])[0])
        return out

    def cost(self, x):
        with np.errstate(all="ignore"):
            return float(sum(float(r @ r) for r in self.residuals(x)))

    def nll(self, x):
        out = self.cost(x)
        for f in self.factors:
            out -= 2.0 * math.log(abs(np.linalg.det(noise_matrix(f["noise"]))))
        return out

    def linearize(self, x):
        """Dense whitened Jacobian and residual, columns by ascending variable."""
        rows = []
        res = []
        for f in self.factors:
            r, Js = raw_residual(f, [x[v] for v in f["vars"]])
            r, Js = whiten(f, r, Js)
            A = np.zeros((len(r), self.ldim))
            for v, J in zip(f["vars"], Js):
                A[:, self.loc[v] : self.loc[v] + self.kinds[v].ldim] += J
            rows.append(A)
            res.append(r)
        return np.concatenate(rows), np.concatenate(res)

    def retract(self, x, d):
        """`d` is a vector with columns by ascending variable."""
        out = dict(x)
        for v in self.used:
            k = self.kinds[v]
            dv = d[self.loc[v] : self.loc[v] + k.ldim]
            if np.all(np.isfinite(dv)) and np.all(np.isfinite(x[v])):
                out[v] = k.retract(x[v], dv)
            else:
                out[v] = np.full(k.pdim, np.nan)
        return out

    def norm(self, x):
        return math.sqrt(sum(float(x[v] @ x[v]) for v in self.used))

    def margin(self, x):
        """Distance of the estimate from Huber switching points (relative)."""
        m = 1.0
        for f in self.factors:
            d = f["noise"].get("huber")
            if d is None:
                continue
            r, _ = raw_residual(f, [x[v] for v in f["vars"]])
            n = float(np.linalg.norm(noise_matrix(f["noise"]) @ r))
            m = min(m, abs(n / d - 1.0))
        return m
