"""Bit-exact single precision: jaxprs of scalar float32/int32/bool code to z3 floating-point terms (SMT-LIB FloatingPoint, round to nearest even)."""
import time
import numpy as np
import z3

F32 = z3.Float32()
RNE = z3.RNE()


class Unsup(Exception):
    pass


def fv(x):
    return z3.FPVal(float(np.float32(x)), F32) if np.isfinite(np.float32(x)) else (z3.fpNaN(F32) if np.isnan(np.float32(x)) else z3.fpPlusInfinity(F32) if x > 0 else z3.fpMinusInfinity(F32))


def finite(x):
    return z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)))


class Fp:
    """transcendental functions are arbitrary, constrained only by facts any implementation has: ranges, signs, monotone bounds, special values"""

    def __init__(self):
        self.facts = []
        self.n = 0
        self.memo = {}
        self.prims = set()
        self.loops = []
        self.on_while = None

    def fresh(self, tag):
        self.n += 1
        return z3.FP("%s!%d" % (tag, self.n), F32)

    def trans(self, name, x):
        k = (name, x.get_id())
        if k in self.memo:
            return self.memo[k][0]
        y = self.fresh(name)
        self.memo[k] = (y, x)
        fin, zero, one = finite(x), z3.fpIsZero(x), fv(1)
        A = self.facts.append
        if name in ("sin", "cos"):
            A(z3.Implies(fin, z3.And(finite(y), z3.fpLEQ(z3.fpAbs(y), one))))
            A(z3.Implies(z3.Not(fin), z3.fpIsNaN(y)))
        elif name == "asinh":
            A(z3.Implies(fin, z3.And(finite(y), z3.fpLEQ(z3.fpAbs(y), z3.fpAbs(x)), z3.fpLEQ(z3.fpAbs(y), fv(90)), z3.fpIsNegative(y) == z3.fpIsNegative(x))))
            A(z3.Implies(z3.Not(fin), z3.Or(z3.fpIsNaN(y), z3.fpIsInf(y))))
        elif name == "log":
            A(z3.Implies(z3.And(fin, z3.fpGT(x, fv(0))), z3.And(finite(y), z3.fpLEQ(z3.fpAbs(y), fv(104)))))
            A(z3.Implies(zero, y == z3.fpMinusInfinity(F32)))
            A(z3.Implies(z3.And(z3.Not(zero), z3.fpLT(x, fv(0))), z3.fpIsNaN(y)))
            A(z3.Implies(z3.fpIsNaN(x), z3.fpIsNaN(y)))
            A(z3.Implies(z3.fpIsInf(x), z3.Or(z3.fpIsInf(y), z3.fpIsNaN(y))))
        elif name == "log1p":
            A(z3.Implies(z3.And(fin, z3.fpGT(x, fv(-1))), z3.And(finite(y), z3.fpLEQ(z3.fpAbs(y), fv(104)))))
            A(z3.Implies(z3.fpEQ(x, fv(-1)), y == z3.fpMinusInfinity(F32)))
            A(z3.Implies(z3.fpLT(x, fv(-1)), z3.fpIsNaN(y)))
            A(z3.Implies(z3.Not(fin), z3.Not(finite(y))))
        elif name == "sinh":
            A(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), fv(88))), z3.And(finite(y), z3.fpIsNegative(y) == z3.fpIsNegative(x))))
            A(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), fv(40))), z3.fpLEQ(z3.fpAbs(y), fv(1.2e17))))
        elif name == "cosh":
            A(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), fv(40))), z3.fpLEQ(z3.fpAbs(y), fv(1.2e17))))
            A(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), fv(88))), z3.And(finite(y), z3.fpGEQ(y, one))))
        elif name == "exp":
            A(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), fv(86))), z3.And(finite(y), z3.fpGT(y, fv(0)))))
            A(z3.Implies(z3.And(fin, z3.fpLEQ(x, fv(0))), z3.And(z3.fpLEQ(y, one), z3.fpGEQ(y, fv(0)))))
        else:
            raise Unsup(name)
        return y

    def run_closed(self, cj, ins):
        env = {}
        jp = cj.jaxpr if hasattr(cj, "jaxpr") else cj
        for v, c in zip(jp.constvars, getattr(cj, "consts", [])):
            env[v] = self.const(np.asarray(c))
        for v, x in zip(jp.invars, ins):
            env[v] = x

        def read(v):
            if hasattr(v, "val"):
                return self.const(np.asarray(v.val, dtype=v.aval.dtype))
            return env[v]
        for e in jp.eqns:
            o = self.eqn(e, [read(v) for v in e.invars])
            for v, x in zip(e.outvars, o):
                env[v] = x
        return [read(v) for v in jp.outvars]

    def const(self, a):
        if a.size != 1:
            raise Unsup("array constant")
        x = a.reshape(())[()]
        if a.dtype == bool:
            return z3.BoolVal(bool(x))
        if np.issubdtype(a.dtype, np.integer):
            return z3.BitVecVal(int(x), 32)
        return fv(x)

    def eqn(self, e, x):
        n, p = e.primitive.name, e.params
        self.prims.add(n)
        for v in list(e.invars) + list(e.outvars):
            if int(np.prod(v.aval.shape)) != 1:
                raise Unsup("array in %s" % n)
        av = e.invars[0].aval.dtype if e.invars else None
        isf = av is not None and np.issubdtype(av, np.floating)
        isi = av is not None and np.issubdtype(av, np.integer)
        if n in ("pjit", "jit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call", "custom_vjp_call", "custom_jvp_call_jaxpr"):
            for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
                if k in p:
                    return self.run_closed(p[k], x)
        if n == "while":
            cn, bn = p["cond_nconsts"], p["body_nconsts"]
            cc, bc, init = x[:cn], x[cn:cn + bn], x[cn + bn:]
            out = []
            for i, (v, s) in enumerate(zip(e.outvars, init)):
                if np.issubdtype(v.aval.dtype, np.floating):
                    out.append(self.fresh("loop"))
                elif v.aval.dtype == bool:
                    self.n += 1
                    out.append(z3.Bool("loop!%d" % self.n))
                else:
                    self.n += 1
                    out.append(z3.BitVec("loop!%d" % self.n, 32))
            self.loops.append(dict(init=init, out=out, cond=lambda c: self.run_closed(p["cond_jaxpr"], cc + c)[0], body=lambda c: self.run_closed(p["body_jaxpr"], bc + c)))
            return out
        if n in ("broadcast_in_dim", "squeeze", "reshape", "stop_gradient", "copy", "copy_p", "expand_dims", "device_put", "optimization_barrier"):
            return [x[0]]
        if n == "convert_element_type":
            to = np.dtype(p["new_dtype"])
            if to == av:
                return [x[0]]
            if to == bool and isf:
                return [z3.Not(z3.fpIsZero(x[0]))]
            if np.issubdtype(to, np.floating):
                return [z3.If(x[0], fv(1), fv(0)) if av == bool else z3.fpSignedToFP(RNE, x[0], F32)]
            if np.issubdtype(to, np.integer) and av == bool:
                return [z3.If(x[0], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))]
            raise Unsup("convert %s" % to)
        if n in ("and", "or", "not", "xor") and av == bool:
            return [{"and": z3.And, "or": z3.Or, "not": z3.Not, "xor": z3.Xor}[n](*x)]
        if n == "select_n":
            c = x[0]
            if c.sort() != z3.BoolSort():
                raise Unsup("select_n")
            return [z3.If(c, x[2], x[1])]
        if n == "is_finite":
            return [finite(x[0])]
        if n in ("gt", "lt", "ge", "le", "eq", "ne"):
            if isf:
                f = {"gt": z3.fpGT, "lt": z3.fpLT, "ge": z3.fpGEQ, "le": z3.fpLEQ, "eq": z3.fpEQ, "ne": lambda a, b: z3.Not(z3.fpEQ(a, b))}[n]
                return [f(*x)]
            a, b = x
            return [{"gt": lambda: a > b, "lt": lambda: a < b, "ge": lambda: a >= b, "le": lambda: a <= b, "eq": lambda: a == b, "ne": lambda: a != b}[n]()]
        if isi:
            a = x
            r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1]}.get(n)
            if r is None:
                raise Unsup(n)
            return [r()]
        if not isf:
            raise Unsup(n)
        if n in ("add", "add_any"):
            return [z3.fpAdd(RNE, *x)]
        if n == "sub":
            return [z3.fpSub(RNE, *x)]
        if n == "mul":
            return [z3.fpMul(RNE, *x)]
        if n == "div":
            return [z3.fpDiv(RNE, *x)]
        if n == "neg":
            return [z3.fpNeg(x[0])]
        if n == "abs":
            return [z3.fpAbs(x[0])]
        if n == "sqrt":
            return [z3.fpSqrt(RNE, x[0])]
        if n == "square":
            return [z3.fpMul(RNE, x[0], x[0])]
        if n == "integer_pow" and p["y"] in (2, 3, 4):
            s = z3.fpMul(RNE, x[0], x[0])
            return [s if p["y"] == 2 else z3.fpMul(RNE, s, x[0]) if p["y"] == 3 else z3.fpMul(RNE, s, s)]
        if n == "sign":
            a = x[0]
            return [z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsZero(a)), a, z3.If(z3.fpIsNegative(a), fv(-1), fv(1)))]
        if n in ("max", "min"):
            a, b = x
            g = z3.fpGT(a, b) if n == "max" else z3.fpLT(a, b)
            return [z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(g, a, b)))]
        if n == "nextafter":
            raise Unsup(n)
        return [self.trans(n, x[0])]


def solve(assertions, tmo, stats):
    s = z3.Then("simplify", "propagate-values", "fpa2bv", "simplify", "bit-blast", "sat").solver()
    s.set("timeout", tmo)
    for a in assertions:
        s.add(a)
    t0 = time.time()
    r = s.check()
    stats["queries"] += 1
    stats["solver_s"] += time.time() - t0
    k = str(r)
    stats[k] = stats.get(k, 0) + 1
    return k, (s.model() if k == "sat" else None)


def value(m, x):
    v = m.eval(x, model_completion=True)
    b = m.eval(z3.fpToIEEEBV(v), model_completion=True).as_long()
    return float(np.array([b], dtype=np.uint32).view(np.float32)[0])
