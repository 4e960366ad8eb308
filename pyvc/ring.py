"""Rational-function normaliser: decides equalities of terms modulo rewriting rules.

A term is a z3 arithmetic expression.  It is converted into a quotient of two polynomials with
rational coefficients over its atoms (free constants, or opaque sub-terms).  Rules ``v**k -> n/d``
(square roots, sin^2 -> 1 - cos^2, absolute values, ...) are applied until no atom reaches its
power k.  Two terms are equal if the numerator of the difference reduces to zero.  Every division
that occurs in a term carries its own ``denominator != 0`` obligation (see sym.py).
"""

from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 60000


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_var(v):
    return {((v, 1),): Fraction(1)}


def p_add(a, b, sign=1):
    if len(b) > len(a) and sign == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + sign * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_scale(a, c):
    return {m: x * c for m, x in a.items()} if c else {}


ONE = p_const(1)


class Q:
    """quotient of polynomials"""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = ONE if d is None else d

    def norm(self):
        # cancel constants and the common monomial factor
        n, d = self.n, self.d
        if not n:
            return Q({}, ONE)
        if len(d) == 1:
            (m, c), = d.items()
            if m == ():
                return Q(p_scale(n, 1 / c), ONE)
        common = None
        for p in (n, d):
            for m in p:
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
                if not common:
                    break
            if not common:
                break
        if common:
            def cut(p):
                return {
                    tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c
                    for m, c in p.items()
                }

            n, d = cut(n), cut(d)
        # normalise by leading coefficient of d
        lead = d[max(d)]
        n, d = p_scale(n, 1 / lead), p_scale(d, 1 / lead)
        if n == d:
            return Q(ONE, ONE)
        if len(d) == 1 and () in d:
            return Q(n, ONE)
        if len(n) <= 4000 and len(d) <= 200:
            r = p_div(n, d)
            if r is not None:
                return Q(r, ONE)
        return Q(n, d)


def p_div(n, d):
    """n / d if the division is exact, otherwise None (graded lexicographic order)"""
    vs = sorted({v for m in d for v, _ in m} | {v for m in n for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}

    def key(m):
        e = [0] * len(vs)
        for v, x in m:
            e[idx[v]] = x
        return (sum(e), tuple(e))

    # quick degree test
    dn = {v: max((dict(m).get(v, 0) for m in n), default=0) for v in vs}
    for v in vs:
        if max(dict(m).get(v, 0) for m in d) > dn[v]:
            return None
    lead = max(d, key=key)
    lc = d[lead]
    ld = dict(lead)
    rem = dict(n)
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 2000:
            return None
        m = max(rem, key=key)
        md = dict(m)
        if any(md.get(v, 0) < e for v, e in ld.items()):
            return None
        t = tuple(sorted((v, e - ld.get(v, 0)) for v, e in md.items() if e - ld.get(v, 0)))
        c = rem[m] / lc
        quo[t] = c
        for k, x in d.items():
            kk = m_mul(t, k)
            y = rem.get(kk, 0) - c * x
            if y:
                rem[kk] = y
            else:
                rem.pop(kk, None)
    return quo


def q_add(a, b, sign=1):
    if a.d == b.d:
        return Q(p_add(a.n, b.n, sign), a.d).norm()
    return Q(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), sign), p_mul(a.d, b.d)).norm()


def q_mul(a, b):
    return Q(p_mul(a.n, b.n), p_mul(a.d, b.d)).norm()


def q_div(a, b):
    return Q(p_mul(a.n, b.d), p_mul(a.d, b.n)).norm()


def q_pow(a, n):
    if n >= 0:
        return Q(p_pow(a.n, n), p_pow(a.d, n)).norm()
    return Q(p_pow(a.d, -n), p_pow(a.n, -n)).norm()


class Ring:
    def __init__(self):
        self.rules = {}  # atom key -> (power, Q)
        self.order = []
        self.memo = {}
        self.atoms = {}

    def add_rule(self, atom, power, term):
        """atom**power -> term"""
        key = self.atom_key(atom)
        q = self.conv(term)
        self.rules[key] = (power, self.reduce(q))
        self.order.append(key)

    def atom_key(self, e):
        k = e.sexpr() if not z3.is_const(e) else e.decl().name()
        self.atoms[k] = e
        return k

    def conv(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        q = self._conv(e)
        self.memo[i] = (e, q)  # keep e alive so that ids stay unique
        return q

    def _conv(self, e):
        if z3.is_rational_value(e):
            return Q(p_const(e.as_fraction()))
        if z3.is_int_value(e):
            return Q(p_const(e.as_long()))
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = q_add(r, self.conv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = q_add(r, self.conv(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            q = self.conv(ch[0])
            return Q(p_scale(q.n, -1), q.d)
        if k == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = q_mul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_DIV:
            return q_div(self.conv(ch[0]), self.conv(ch[1]))
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_POWER and (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
            f = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if f.denominator == 1:
                return q_pow(self.conv(ch[0]), int(f))
        return Q(p_var(self.atom_key(e)))

    # ---------------------------------------------------------------- reduction by rules
    def _reduce_poly(self, p):
        """-> Q equal to p modulo rules"""
        num, den = p, ONE
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            if rounds > 200:
                raise TooBig()
            for key in reversed(self.order):
                power, rhs = self.rules[key]
                kmax = 0
                for m in num:
                    for v, e in m:
                        if v == key and e // power > kmax:
                            kmax = e // power
                if not kmax:
                    continue
                changed = True
                out = {}
                pn = [ONE]
                pd = [ONE]
                for _ in range(kmax):
                    pn.append(p_mul(pn[-1], rhs.n))
                    pd.append(p_mul(pd[-1], rhs.d))
                groups = {}
                for m, c in num.items():
                    e = 0
                    for v, x in m:
                        if v == key:
                            e = x
                    q = e // power
                    rest = tuple(
                        (v, x) if v != key else (v, x - q * power)
                        for v, x in m
                        if v != key or x - q * power
                    )
                    g = groups.setdefault(q, {})
                    g[rest] = g.get(rest, 0) + c
                for q, g in groups.items():
                    t = p_mul(p_mul(g, pn[q]), pd[kmax - q])
                    out = p_add(out, t)
                num = out
                den = p_mul(den, pd[kmax])
                break
        return Q(num, den)

    def reduce(self, q):
        a = self._reduce_poly(q.n)
        b = self._reduce_poly(q.d)
        return q_div(a, b)

    def is_zero(self, e):
        q = self.conv(e)
        if not q.n:
            return True
        return not self._reduce_poly(q.n).n

    def equal(self, a, b):
        return self.is_zero(a - b)

    def canon(self, e):
        """canonical (hashable) form of a term, modulo rules (not unique for quotients)"""
        q = self.reduce(self.conv(e)).norm()
        return (tuple(sorted(q.n.items())), tuple(sorted(q.d.items())))

    def const_value(self, e):
        q = self.reduce(self.conv(e)).norm()
        if not q.n:
            return Fraction(0)
        if len(q.n) == 1 and () in q.n and q.d == ONE:
            return q.n[()]
        return None
