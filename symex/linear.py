"""Linear normal form of z3 arithmetic terms over their leaf constants."""
import z3
from fractions import Fraction
from .engine import num_value


def linear(e, limit=400):
    """({leaf id: (leaf, coeff)}, const) or None when not linear."""
    out = {}
    const = [Fraction(0)]
    budget = [limit]

    def go(x, k):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        v = num_value(x)
        if v is not None:
            const[0] += k * v
            return True
        d = x.decl().kind()
        if d == z3.Z3_OP_ADD:
            return all(go(c, k) for c in x.children())
        if d == z3.Z3_OP_SUB:
            ch = x.children()
            return go(ch[0], k) and all(go(c, -k) for c in ch[1:])
        if d == z3.Z3_OP_UMINUS:
            return go(x.children()[0], -k)
        if d == z3.Z3_OP_TO_REAL:
            return go(x.children()[0], k)
        if d == z3.Z3_OP_MUL:
            f = Fraction(1)
            rest = []
            for c in x.children():
                cv = num_value(c)
                if cv is None:
                    rest.append(c)
                else:
                    f *= cv
            if len(rest) == 0:
                const[0] += k * f
                return True
            if len(rest) == 1:
                return go(rest[0], k * f)
            return False
        if d == z3.Z3_OP_DIV:
            a, b = x.children()
            bv = num_value(b)
            if bv is None or bv == 0:
                return False
            return go(a, k / bv)
        if d == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            i = x.get_id()
            if i in out:
                out[i] = (x, out[i][1] + k)
            else:
                out[i] = (x, k)
            return True
        return False
    if not go(e, Fraction(1)):
        return None
    return {i: t for i, t in out.items() if t[1] != 0}, const[0]


def int_part(e):
    """Split a real term into (z3 Int term, z3 Real rest or None) when every
    Int leaf has an integral coefficient; None when not applicable."""
    lf = linear(e)
    if lf is None:
        return None
    terms, const = lf
    ints, rest = [], []
    for leaf, k in terms.values():
        if z3.is_int(leaf):
            if k.denominator != 1:
                return None
            ints.append(leaf * int(k))
        else:
            rest.append(leaf * z3.RealVal(k))
    if const.denominator != 1:
        rest.append(z3.RealVal(const))
    else:
        ints.append(z3.IntVal(int(const)))
    if not ints:
        return None
    ie = z3.simplify(z3.Sum(*ints)) if len(ints) > 1 else ints[0]
    re_ = None
    if rest:
        re_ = z3.simplify(z3.Sum(*rest)) if len(rest) > 1 else rest[0]
    return ie, re_


def digit_layout(e, count, chars):
    """If int term e is a sum of digit characters at distinct decimal places
    (plus constant digits elsewhere), the list of `count` digits; else None.
    chars: {code id: SymChar}"""
    lf = linear(e)
    if lf is None:
        return None
    terms, const = lf
    pos = {}
    for i, (leaf, k) in terms.items():
        ch = chars.get(i)
        if ch is None or k.denominator != 1 or k <= 0:
            return None
        k = int(k)
        p = len(str(k)) - 1
        if 10 ** p != k or p in pos:
            return None
        pos[p] = ch
        const += 48 * k
    if const.denominator != 1 or const < 0:
        return None
    c = str(int(const)).zfill(count)
    n = max([len(c)] + [p + 1 for p in pos])
    c = c.zfill(n)
    out = []
    for p in range(n - 1, -1, -1):
        d = c[n - 1 - p]
        if p in pos:
            if d != '0':
                return None
            out.append(pos[p])
        else:
            out.append(d)
    return out
