"""Shared text and helpers of the checks."""

REAL = [
    "real arithmetic: rounding, overflow and underflow of floating point are outside the claim",
    "jax.make_jaxpr of the public function is the code's semantics (eager and jitted execution interpret the same jaxpr)",
    "float literals denote the simplest rational or rational multiple of a power of pi rounding to them",
    "the defining relations given to z3 for sqrt/sin/cos/exp/log/acos/atan2 are true of the real functions",
]


def H(lst):
    """normalise harness lists to (name, fn, opts)"""
    out = []
    for t in lst:
        out.append((t[0], t[1], dict(t[2]) if len(t) > 2 else {}))
    return out


def frame(c):
    """general rotation matrix from three free angles"""
    O, i, w = c.angle("O"), c.angle("i"), c.angle("w")
    return c.matmul(c.rotz(O), c.matmul(c.rotx(i), c.rotz(w)))


def spec_U(c, cls, chi, A):
    """closed-form universal functions U0..U5 for alpha = A^2, 0, -A^2"""
    if cls == "zero":
        x = chi
        return [c.num(1), x, x * x / 2, x ** 3 / 6, x ** 4 / 24, x ** 5 / 120]
    al = A * A if cls == "pos" else -A * A
    if cls == "pos":
        U0, U1 = c.cos(A * chi), c.sin(A * chi) / A
    else:
        U0, U1 = c.cosh(A * chi), c.sinh(A * chi) / A
    U2 = (1 - U0) / al
    U3 = (chi - U1) / al
    U4 = (chi * chi / 2 - U2) / al
    U5 = (chi ** 3 / 6 - U3) / al
    return [U0, U1, U2, U3, U4, U5]


def alpha_of(c, cls):
    if cls == "zero":
        return c.num(0), None
    A = c.var("A", pos=True)
    return (A * A if cls == "pos" else -A * A), A


CLS = ("pos", "zero", "neg")


def floats(c, carry):
    """float scalars carried by a loop (candidates for the anomaly)"""
    import numpy as np
    import vlib.expr as X
    out = []
    for v in carry:
        for x in np.asarray(v, dtype=object).reshape(-1):
            if isinstance(x, X.Expr) and not X.issp(x) and x.op != "c" and x not in out:
                if x.op == "v" and c.S.isint[c.S.var_atom(x.a[0])]:
                    continue
                out.append(x)
    return out


def kstate(c, cls, planar=False):
    """any initial state with nonzero angular momentum and mu > 0, in a rotated frame: r = R(rho,0,0), v = R(vr,vt,0);
    returns r, v, mu, rho, alpha, A, sigma0"""
    R = c.rotz(c.num(0)) if planar else frame(c)
    if cls == "zero":
        # parabolic: |r| = q^2, |v| = 2 n / q, mu = 2 n^2
        q, n, b = c.var("q", pos=True), c.var("n", pos=True), c.angle("b")
        if not c.symbolic:
            q, n = c.pow2(q), c.pow2(n)
        c.nonzero(c.sin(b))
        rho, mu = q * q, 2 * n * n
        vr, vt = 2 * n * c.cos(b) / q, 2 * n * c.sin(b) / q
        al, A = c.num(0), None
        s0 = rho * vr / c.sqrt(mu)
    else:
        rho, m, vr, vt = c.var("rho", pos=True), c.var("m", pos=True), c.var("vr", rng=(-1, 1)), c.var("vt", rng=(-1.3, 1.3))
        c.nonzero(vt)
        mu = m * m
        al = 2 / rho - (vr * vr + vt * vt) / mu
        c.assume(c.gt(al, 0) if cls == "pos" else c.lt(al, 0))
        A = c.sqrt(al if cls == "pos" else -al)
        s0 = rho * vr / m
    r = c.matvec(R, c.arr(rho, 0, 0))
    v = c.matvec(R, c.arr(vr, vt, 0))
    if cls == "zero" and not c.symbolic:
        # double precision: only states whose computed energy is exactly zero are parabolic
        import jax.numpy as jnp
        nr, nv = [float(jnp.linalg.vector_norm(jnp.asarray([float(x) for x in w]))) for w in (r, v)]
        c.assume(2 / nr - nv ** 2 / float(mu) == 0.0)
    return r, v, mu, rho, al, A, s0


def radius_axioms(c, cls, rho, A, s0):
    """callback: for the anomalies carried by the loop the orbit radius r0 U0 + sigma0 U1 + U2 is positive"""
    def f(carry):
        for x in floats(c, carry):
            c.link("chi", x)
            U = spec_U(c, cls, x, A)
            rs = rho * U[0] + s0 * U[1] + U[2]
            c.axiom(c.gt(rs, 0))
            c.hint(rs)
    return f


def any_time(c, cls, mu, rho, A, s0, name="t", steady=True):
    """an arbitrary requested time; when looking for counterexamples, the time at which the anomaly is the linked chi
    (steady: only where the solver's tolerance of 1e-6 in sqrt(mu) dt moves the state by less than 1e-5 of its size)"""
    if c.symbolic:
        return c.var(name, rng=(-1.5, 1.5))
    chi = c.var("chi", rng=(-2.5, 2.5))
    U = spec_U(c, cls, chi, A)
    m = c.sqrt(mu)
    if steady:
        al = 0 if cls == "zero" else A * A if cls == "pos" else -A * A
        rs = rho * U[0] + s0 * U[1] + U[2]
        w2 = (2 / rs - al) / rs ** 2          # (v / r)^2 / mu
        c.assume(1e-12 * w2 < 1e-10 and 1e-12 / (rs ** 6 * w2) < 1e-10)
    return (rho * U[1] + s0 * U[2] + U[3]) / m
