"""Exact solutions of linear systems (with a sinusoidal disturbance), as reference."""
import numpy as np
from scipy.linalg import expm


class LinSys:
    """dx = A x + B u + E y + F p + d sin(omega t);  y = C1 x + D1 u  (algebraic)."""

    def __init__(self, spec):
        g = lambda k, r, c: np.array(spec[k], dtype=float).reshape(r, c)
        self.nx, self.nu, self.ny, self.np = (spec[k] for k in ("nx", "nu", "ny", "np"))
        self.A, self.B = g("A", self.nx, self.nx), g("B", self.nx, self.nu)
        self.F = g("F", self.nx, self.np)
        self.C1, self.D1 = g("C1", self.ny, self.nx), g("D1", self.ny, self.nu)
        self.d, self.omega = g("d", self.nx, 1), spec["omega"]
        self.E = g("E", self.nx, self.ny) if "E" in spec else np.zeros((self.nx, self.ny))
        # without the algebraic variables
        self.A0, self.B0 = self.A + self.E @ self.C1, self.B + self.E @ self.D1

    def transition(self, dt):
        return expm(self.A0 * dt)

    def step(self, x, u, t, dt, p=()):
        """The state after dt, with constant u."""
        nx = self.nx
        const = self.B0 @ np.reshape(u, (self.nu, 1)) + self.F @ np.reshape(p if len(p) else np.zeros(self.np), (self.np, 1))
        n = nx + 3  # x, sin, cos, 1
        M = np.zeros((n, n))
        M[:nx, :nx] = self.A0
        M[:nx, nx : nx + 1] = self.d
        M[:nx, nx + 2 : nx + 3] = const
        M[nx, nx + 1] = self.omega
        M[nx + 1, nx] = -self.omega
        z = np.concatenate([np.asarray(x, float).flatten(), [np.sin(self.omega * t), np.cos(self.omega * t), 1.0]])
        return (expm(M * dt) @ z)[:nx]

    def algebraic(self, x, u):
        return (self.C1 @ np.reshape(x, (self.nx, 1)) + self.D1 @ np.reshape(u, (self.nu, 1))).flatten()

    def model(self, cls=None, name="m", theta=None):
        from casadi import DM, mtimes, sin
        from yaocptool.modelling import SystemModel

        m = (cls or SystemModel)(name=name)
        x = m.create_state("x", self.nx)
        u = m.create_control("u", self.nu)
        p = m.create_parameter("p", self.np) if self.np else None
        y = m.create_algebraic_variable("y", self.ny) if self.ny else None
        rhs = mtimes(DM(self.A), x) + mtimes(DM(self.B), u)
        if p is not None:
            rhs += mtimes(DM(self.F), p)
        if theta is not None:
            rhs += DM(theta) * m.create_theta("th")
        if y is not None and self.E.any():
            rhs += mtimes(DM(self.E), y)
        if self.d.any():
            rhs += DM(self.d) * sin(self.omega * m.t)
        alg = None
        if y is not None:
            alg = [y - mtimes(DM(self.C1), x) - mtimes(DM(self.D1), u)]
        m.include_equations(ode=[rhs], alg=alg)
        return m


def gen(rng, nx=None, disturbance=True, n_p=None, ny=None, large=0.0):
    nx = nx or rng.choice([1, 2, 2, 3])
    nu = rng.choice([1, 1, 2])
    ny = rng.choice([0, 0, 1, 2]) if ny is None else ny
    if rng.random() < large:  # sometimes larger than usual
        nx, nu, ny = nx + rng.choice([0, 1, 2]), nu + rng.choice([0, 1]), ny + rng.choice([0, 1])
    n_p = rng.choice([0, 0, 1]) if n_p is None else n_p
    mat = lambda r, c, s=1.0: [[round(rng.uniform(-s, s), 2) for _ in range(c)] for _ in range(r)]
    A = mat(nx, nx, 0.6)
    for i in range(nx):
        A[i][i] = round(A[i][i] - 0.7, 2)
    d = mat(nx, 1) if disturbance and rng.random() < 0.4 else [[0.0]] * nx
    E = mat(nx, ny, 0.4) if ny and rng.random() < 0.6 else [[0.0] * ny for _ in range(nx)]
    return {
        "E": E,
        "nx": nx, "nu": nu, "ny": ny, "np": n_p,
        "A": A, "B": mat(nx, nu), "F": mat(nx, n_p), "C1": mat(ny, nx), "D1": mat(ny, nu, 0.4),
        "d": d, "omega": rng.choice([0.7, 1.9]),
    }
