"""Terms over the reals: a floating-point term of the code is read as the real expression it computes, and compared with a
reference expression by its exact rational value at points (identity of rational functions)."""
from fractions import Fraction
import sem, ir
from sem import num


class NoValue(Exception):
    pass


def const(t):
    s = t[1]
    try:
        return Fraction(float(s))
    except (ValueError, OverflowError):
        v = ir.const_fp(("const", s))
        if v is None:
            raise NoValue(s)
        return Fraction(float(v))


def value(t, env):
    """exact value of a term; integers, booleans and reals alike"""
    if t in env:
        return env[t]
    k = t[0]
    if k == "i":
        return t[1]
    if k == "f":
        return const(t)
    if k == "not":
        return 1 - (value(t[1], env) & 1)
    if k == "fn":
        return call(t[1], [value(a, env) for a in t[2:]])
    if k == "x":
        op = t[1]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = value(t[3], env), value(t[4], env)
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if b == 0:
                raise NoValue("division by zero")
            return Fraction(a) / b
        if op == "fneg":
            return -value(t[3], env)
        if op.startswith("fcmp."):
            a, b = value(t[3], env), value(t[4], env)
            p = op[6:]
            if op[5:] in ("ord", "uno"):
                return int(op[5:] == "ord")
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if op in ("fpext", "fptrunc"):
            return value(t[4], env)
        if op in ("sitofp", "uitofp"):
            return value(t[4], env)
        if op == "select":
            return value(t[4] if value(t[3], env) & 1 else t[5], env)
        if op in ("and", "or", "xor") and t[2] == 1:
            a, b = value(t[3], env) & 1, value(t[4], env) & 1
            return a & b if op == "and" else a | b if op == "or" else a ^ b
        if op in ("fptosi", "fptoui"):
            v = value(t[4], env)
            return int(v) if v >= 0 else -int(-v)
        if len(t) == 5 and op in ("zext", "sext", "trunc"):
            return sem.evaluate(("x", op, t[2], t[3], num(value(t[4], env))), {})
        if len(t) == 5:
            return sem.evaluate(("x", op, t[2], num(value(t[3], env)), num(value(t[4], env))), {})
    if k == "lin":
        try:
            return sem.evaluate(t, env)
        except KeyError:
            pass
    raise NoValue(sem.show(t)[:80])


def call(f, a):
    if f == "fabs": return abs(a[0])
    if f == "max": return max(a)
    if f == "min": return min(a)
    if f == "floor": return Fraction(a[0] // 1)
    if f == "ceil": return Fraction(-(-a[0] // 1))
    if f == "pow" and a[1] == int(a[1]): return a[0] ** int(a[1])
    if f == "sqrt":
        x = Fraction(a[0])
        if x < 0:
            raise NoValue("root of a negative number")
        n, d = isqrt(x.numerator), isqrt(x.denominator)
        if n is None or d is None:          # to 200 bits
            import math
            return Fraction(math.isqrt((x.numerator << 400) // x.denominator), 1 << 200)
        return Fraction(n, d)
    raise NoValue(f)


def isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def maths(an, i, st, fn, d, args):
    """library functions on reals as terms"""
    import re
    m = re.match(r'llvm\.(fabs|sqrt|pow|maxnum|minnum|powi|fma|fmuladd|floor|ceil)\b', fn.strip('@"'))
    n = {"maxnum": "max", "minnum": "min"}.get(m.group(1), m.group(1)) if m else {"fabs": "fabs", "fabsf": "fabs", "sqrt": "sqrt", "sqrtf": "sqrt", "pow": "pow", "powf": "pow", "fmax": "max", "fmin": "min", "floor": "floor", "ceil": "ceil", "floorf": "floor", "ceilf": "ceil"}.get(fn.strip('@"'))
    if n is None:
        return NotImplemented
    if n in ("fma", "fmuladd"):
        return ("x", "fadd", i.ty, ("x", "fmul", i.ty, args[0], args[1]), args[2])
    if n == "powi":
        n = "pow"
    return ("fn", n) + tuple(args)
