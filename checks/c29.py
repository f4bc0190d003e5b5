"""C29 reverse-mode gradients."""
from checks.common import REAL
from checks import c19

EXPLANATION = ("jax.vjp of the real functions is executed symbolically with every unit cotangent; the gradients so obtained, paired with arbitrary directions, are compared by z3, for all inputs, with the exact derivative of the traced "
               "operations, and for the analytic propagator with the implicit-function derivative of the two-body solution.")
BOUNDS = "all inputs where the function is differentiable (exclusions as in C19), energies exactly zero left out; scalar and single-vector arguments; every output component and every argument"
ASSUMPTIONS = REAL


def reverse(f, z, dz):
    import jax
    import jax.numpy as jnp
    import numpy as np
    y, pull = jax.vjp(f, *z)
    leaves, td = jax.tree_util.tree_flatten(y)
    out = []
    for i, l in enumerate(leaves):
        comp = []
        for k in range(l.size):
            w = np.zeros(l.size)
            w[k] = 1
            w = jnp.asarray(w.reshape(l.shape), dtype=l.dtype)
            g = pull(jax.tree_util.tree_unflatten(td, [w if j == i else jnp.zeros_like(b) for j, b in enumerate(leaves)]))
            comp.append(sum(jnp.sum(a * d) for a, d in zip(g, dz)))
        out.append(jnp.reshape(jnp.stack(comp), l.shape))
    return y, jax.tree_util.tree_unflatten(td, out)


def harnesses(tier):
    return [h for h in c19.derivatives(tier, reverse) if "zero" not in h[0] and "alpha0" not in h[0]]
