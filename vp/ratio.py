"""Exact rational-function normal form of z3 real terms (decides identities without search).

A term built from +,-,*,/,integer powers over atoms is written num/den with den a product of
canonical polynomials; root atoms r (r*r == radicand) are reduced.  num == 0 then means the term
is identically zero wherever it is defined.
"""
from __future__ import annotations

from fractions import Fraction

from . import engine as E
import z3

LIMIT = 60000


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()}) if k else Poly()

    def __mul__(self, o):
        d = {}
        if len(self.d) * len(o.d) > 4000000:
            raise TooBig()
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        if len(d) > LIMIT:
            raise TooBig()
        return Poly(d)

    def key(self):
        """(canonical monic key, leading coefficient)"""
        items = sorted(self.d.items())
        lc = items[-1][1]
        return tuple((m, c / lc) for m, c in items), lc


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


class Norm:
    def __init__(self):
        self.memo = {}
        self.roots = {}
        self.keep = []
        for rad, r in E.ENG.sqrt_cache.values():
            self.roots[r.get_id()] = rad
        self.radpoly = {}
        self.order = {}

    def atom(self, t):
        self.keep.append(t)
        return Poly({((t.get_id(), 1),): Fraction(1)})

    def reduce(self, p):
        """replace r^2 by its radicand"""
        while True:
            hit = None
            for m in p.d:
                for a, e in m:
                    if e >= 2 and a in self.roots:
                        hit = a
                        break
                if hit:
                    break
            if hit is None:
                return p
            rp = self.radpoly.get(hit)
            if rp is None:
                n, den = self.go(self.roots[hit])
                if den:
                    return p
                rp = self.radpoly[hit] = n
            out = Poly()
            pows = {0: Poly.const(Fraction(1))}
            groups = {}
            for m, c in p.d.items():
                e = dict(m).get(hit, 0)
                rest = tuple((a, x) for a, x in m if a != hit)
                if e % 2:
                    rest = mmul(rest, ((hit, 1),))
                g = groups.setdefault(e // 2, {})
                g[rest] = g.get(rest, 0) + c
            for k, g in groups.items():
                q = Poly({m: c for m, c in g.items() if c})
                for _ in range(k):
                    q = q * rp
                out = out + q
            p = out

    def go(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._go(t)
            self.keep.append(t)
        return r

    def _go(self, t):
        c = E.const_of(t)
        if c is not None:
            return Poly.const(c), {}
        if z3.is_add(t) or z3.is_sub(t):
            ch = [self.go(x) for x in t.children()]
            if z3.is_sub(t):
                ch = [ch[0]] + [(n.scale(-1), d) for n, d in ch[1:]]
            den = {}
            for _, d in ch:
                for k, (p, e) in d.items():
                    if k not in den or den[k][1] < e:
                        den[k] = (p, e)
            num = Poly()
            for n, d in ch:
                for k, (p, e) in den.items():
                    for _ in range(e - (d[k][1] if k in d else 0)):
                        n = n * p
                num = num + n
            return self.reduce(num), den
        if z3.is_mul(t):
            num, den = Poly.const(Fraction(1)), {}
            for x in t.children():
                n, d = self.go(x)
                num, den = self.mul(num, den, n, d)
            return num, den
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            n, d = self.go(t.arg(0))
            return n.scale(-1), d
        if z3.is_div(t):
            n, d = self.go(t.arg(0))
            n2, d2 = self.go(t.arg(1))
            return self.mul(n, d, *self.inv(n2, d2))
        if z3.is_app_of(t, z3.Z3_OP_POWER):
            e = E.const_of(t.arg(1))
            if e is not None and e.denominator == 1:
                n, d = self.go(t.arg(0))
                if e < 0:
                    n, d = self.inv(n, d)
                rn, rd = Poly.const(Fraction(1)), {}
                for _ in range(abs(int(e))):
                    rn, rd = self.mul(rn, rd, n, d)
                return rn, rd
        return self.atom(t), {}

    def mul(self, n1, d1, n2, d2):
        den = dict(d1)
        for k, (p, e) in d2.items():
            den[k] = (p, e + (den[k][1] if k in den else 0))
        num = self.reduce(n1 * n2)
        # cancel monomial factors shared with single-atom denominators
        for k, (p, e) in list(den.items()):
            if len(p.d) == 1 and num.d:
                (m,) = p.d
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    lo = min(dict(x).get(a, 0) for x in num.d)
                    s = min(lo, e)
                    if s:
                        num = Poly({tuple((b, x - s if b == a else x) for b, x in mm
                                          if not (b == a and x == s)): c
                                    for mm, c in num.d.items()})
                        if e == s:
                            del den[k]
                        else:
                            den[k] = (p, e - s)
        return num, den

    def inv(self, n, d):
        """1 / (n/d)"""
        num = Poly.const(Fraction(1))
        for p, e in d.values():
            for _ in range(e):
                num = num * p
        if not n.d:
            raise TooBig()
        den = {}
        if len(n.d) == 1:
            # monomial: one factor per atom
            ((m, c),) = n.d.items()
            for a, e in m:
                p = Poly({((a, 1),): Fraction(1)})
                den[((a, 1),)] = (p, e)
            return num.scale(1 / c), den
        # a radicand (times a constant) is the square of its root
        key, lc = n.key()
        for rid, rad in self.roots.items():
            rp = self.radpoly.get(rid)
            if rp is None:
                try:
                    pn, pd = self.go(rad)
                except RecursionError:
                    continue
                if pd or not pn.d:
                    continue
                rp = self.radpoly[rid] = pn
            k2, lc2 = rp.key()
            if k2 == key:
                den[((rid, 1),)] = (Poly({((rid, 1),): Fraction(1)}), 2)
                return num.scale(lc2 / lc), den
        den[key] = (Poly(dict(key)), 1)
        return num.scale(1 / lc), den


def is_zero(t):
    """True: identically zero (wherever defined); False: not shown"""
    try:
        n, _ = Norm().go(t)
    except (TooBig, RecursionError):
        return False
    if not n.d:
        return True
    big = max(abs(c) for c in n.d.values())
    return big < Fraction(1, 10**11)
