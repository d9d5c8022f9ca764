"""Rational-function normaliser with algebraic relations (own decision procedure for identities).

Terms over R are brought to N/D with N, D polynomials over atoms. Relations used:
sqrt(u)^2 = u (u >= 0), sin^2 + cos^2 = 1, exp(a)exp(b) = exp(a+b), cos(acos x) = x,
sin(acos x) = sqrt(1-x^2), cos/sin(atan2(y,x)) = x, y over sqrt(x^2+y^2).
Every relation that needs a side condition records it; the caller has to discharge it.
"""
from fractions import Fraction
from terms import *
from terms import _mk
import math


class TooBig(Exception):
    pass


LIMIT = 60000


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mmul(ma, mb)
            v = r.get(m)
            if v is None:
                r[m] = ca * cb
            else:
                v += ca * cb
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


def isconst(p):
    return not p or (len(p) == 1 and () in p)


def constval(p):
    return p.get((), Fraction(0))


def pdiv(n, q):
    """exact quotient n/q of polynomials, or None"""
    lead = max(q)
    lc = q[lead]
    ld = dict(lead)
    n = dict(n)
    out = {}
    steps = 0
    while n:
        steps += 1
        if steps > 2000:
            return None
        m = max(n)
        x = dict(m)
        for k, e in ld.items():
            if x.get(k, 0) < e:
                return None
            x[k] -= e
        t = tuple(sorted((k, e) for k, e in x.items() if e))
        c = n[m] / lc
        out[t] = out.get(t, 0) + c
        for mq, cq in q.items():
            mm = mmul(t, mq)
            v = n.get(mm, 0) - c * cq
            if v == 0:
                n.pop(mm, None)
            else:
                n[mm] = v
    return out


class Ring:
    def __init__(self, pc=None, decide=None):
        self.side = {}          # side condition term -> 1
        self.memo = {}
        self.atom = {}          # atom id -> Term
        self.dens = {}          # id of a den! atom -> polynomial
        self.decide = decide    # optional callable: cond -> True/False/None

    # ---- polynomials over atoms
    def patom(self, t):
        self.atom[t.id] = t
        return {((t.id, 1),): Fraction(1)}

    def need(self, cond):
        if cond is True:
            return
        self.side[cond] = 1

    def ratio(self, t):
        """-> (N, D)"""
        if type(t) is not Term:
            return pconst(Fraction(t)), pconst(1)
        r = self.memo.get(t)
        if r is None:
            r = self._ratio(t)
            r = self.cancel(self.reduce(r[0]), r[1])
            self.memo[t] = r
        return r

    # Denominators are monomials over atoms. A polynomial in a denominator is represented by an
    # opaque atom den!(p); numerators may carry such atoms until expand() replaces them.
    def den(self, p):
        """monomial (with coefficient) standing for the polynomial p in a denominator"""
        p = self.reduce(self.expand(p))
        if not p:
            raise Unsupported("division by zero term")
        if len(p) == 1:
            return p
        common = None
        for m in p:
            x = dict(m)
            common = x if common is None else {k: min(v, x[k]) for k, v in common.items() if k in x}
            if not common:
                break
        if common:
            p = {tuple((k, e - common.get(k, 0)) for k, e in m if e - common.get(k, 0)): v for m, v in p.items()}
        lead = p[min(p)]
        p = {m: v / lead for m, v in p.items()}
        tp = self.pterm(p)
        sq = _mk("fn", ("sqrt", tp), "R")
        if sq.id in self.atom:
            core = ((sq.id, 2),)
        else:
            a = _mk("fn", ("den!", tp), "R")
            self.atom[a.id] = a
            self.dens[a.id] = p
            core = ((a.id, 1),)
        m = mmul(core, tuple(sorted(common.items()))) if common else core
        return {m: lead}

    def expand(self, p):
        """replace den! atoms by their polynomials"""
        while True:
            hit = None
            for m in p:
                for k, e in m:
                    if k in self.dens:
                        hit = k
                        break
                if hit:
                    break
            if hit is None:
                return p
            parts = {}
            for m, c in p.items():
                e = 0
                rest = []
                for k, x in m:
                    if k == hit:
                        e = x
                    else:
                        rest.append((k, x))
                q = parts.setdefault(e, {})
                q[tuple(rest)] = c
            out = {}
            top = max(parts)
            # Horner
            for e in range(top, -1, -1):
                if e != top:
                    out = pmul(out, self.dens[hit])
                if e in parts:
                    out = padd(out, parts[e])
            p = out

    def cancel(self, n, d):
        """cancel common monomial content (atoms in denominators are non-zero by side condition)"""
        if not n:
            return {}, pconst(1)
        (dm, dc), = d.items()
        if dc != 1:
            n = {m: v / dc for m, v in n.items()}
            d = {dm: Fraction(1)}
        if not dm:
            return n, d
        for k, e in dm:
            a = self.atom[k]
            if a.op == "fn" and a.args[0] == "sqrt" and type(a.args[1]) is not Term:
                # rationalise square roots of constants
                if e % 2:
                    n = self.reduce(pmul(n, {((k, 1),): Fraction(1)}))
                n = {m: v / Fraction(a.args[1]) ** ((e + 1) // 2) for m, v in n.items()}
                dm = tuple(x for x in dm if x[0] != k)
        common = dict(dm)
        for m in n:
            x = dict(m)
            common = {k: min(v, x[k]) for k, v in common.items() if k in x}
            if not common:
                break
        if common:
            n = {tuple((k, e - common.get(k, 0)) for k, e in m if e - common.get(k, 0)): v for m, v in n.items()}
            dm = tuple((k, e - common.get(k, 0)) for k, e in dm if e - common.get(k, 0))
        # numerators divisible by the polynomial behind a denominator atom
        if len(n) <= 400:
            for k, e in dm:
                a = self.atom[k]
                while True:
                    if k in self.dens:
                        q, step = self.dens[k], 1
                    elif a.op == "fn" and a.args[0] == "sqrt" and type(a.args[1]) is Term and e >= 2:
                        q, step = self.ratio_shallow_poly(a.args[1]), 2
                    else:
                        break
                    if e < step or len(q) > len(n):
                        break
                    r = pdiv(n, q)
                    if r is None:
                        break
                    n = r
                    e -= step
                dm = tuple((kk, (e if kk == k else ee)) for kk, ee in dm if not (kk == k and e == 0))
        return n, {dm: Fraction(1)}

    def _ratio(self, t):
        op = t.op
        if op == "lin":
            n, dm = pconst(t.args[0]), ()
            for a, k in t.args[1]:
                an, ad = self.ratio(a)
                (am, ac), = ad.items()
                if ac != 1:
                    an = {m: v / ac for m, v in an.items()}
                if am == dm:
                    n = padd(n, an, k)
                    continue
                x, y = dict(am), dict(dm)
                l = {q: max(x.get(q, 0), y.get(q, 0)) for q in set(x) | set(y)}
                fa = tuple(sorted((q, e - x.get(q, 0)) for q, e in l.items() if e - x.get(q, 0)))
                fd = tuple(sorted((q, e - y.get(q, 0)) for q, e in l.items() if e - y.get(q, 0)))
                if fd:
                    n = self.reduce(pmul(n, {fd: Fraction(1)}))
                if fa:
                    an = self.reduce(pmul(an, {fa: Fraction(1)}))
                n = padd(n, an, k)
                dm = tuple(sorted(l.items()))
            return n, {dm: Fraction(1)}
        if op == "mul":
            n, d = pconst(1), pconst(1)
            for a, p in t.args:
                an, ad = self.ratio(a)
                for _ in range(p):
                    n = self.reduce(pmul(n, an))
                    d = pmul(d, ad)
            return n, d
        if op == "inv":
            an, ad = self.ratio(t.args[0])
            if not an:
                raise Unsupported("division by zero term")
            if not isconst(an):
                self.need(not_(eq(t.args[0], 0)))
            return ad, self.den(an)
        if op == "toreal":
            return self.patom(t), pconst(1)
        if op == "ite":
            c = t.args[0]
            if self.decide is not None:
                v = self.decide(c)
                if v is True:
                    return self.ratio(t.args[1])
                if v is False:
                    return self.ratio(t.args[2])
            a = self.term(self.ratio(t.args[1]))
            b = self.term(self.ratio(t.args[2]))
            r = ite(self.cond(c), a, b)
            if type(r) is not Term:
                return pconst(r), pconst(1)
            if r.op == "ite":
                return self.patom(r), pconst(1)
            return self.ratio_shallow(r)
        if op == "fn":
            return self.fn(t)
        if op == "sum":
            b, n, body = t.args
            k = fresh("k", "I")
            o = subst(body, {b: k})
            R = Ring(decide=None)
            R.memo, R.atom, R.side, R.dens = {}, self.atom, {}, self.dens
            nn, dd = R.ratio(o)
            for c in R.side:
                self.need(forall(k, 0, n, c))
            if isconst(dd):
                r = sum_(k, n, R.term((nn, dd)))
            else:
                r = Fraction(0)
                for m, c in nn.items():
                    r = add(r, sum_(k, n, R.term(R.cancel({m: c}, dd))))
            if type(r) is not Term:
                return pconst(r), pconst(1)
            return self.ratio_shallow(r)
        return self.patom(t), pconst(1)

    def ratio_shallow(self, r):
        """polynomial of lin/mul structure treating everything else as atoms"""
        if type(r) is not Term:
            return pconst(r), pconst(1)
        if r.op == "lin":
            n = pconst(r.args[0])
            for a, k in r.args[1]:
                an, _ = self.ratio_shallow(a)
                n = padd(n, an, k)
            return n, pconst(1)
        if r.op == "mul":
            n = pconst(1)
            for a, p in r.args:
                an, _ = self.ratio_shallow(a)
                for _ in range(p):
                    n = pmul(n, an)
            return n, pconst(1)
        return self.patom(r), pconst(1)

    def cond(self, c):
        if type(c) is not Term:
            return c
        if self.decide is not None:
            v = self.decide(c)
            if v is not None:
                return v
        if c.op in ("lt0", "le0", "eq0") and c.args[0].sort == "R":
            try:
                n, d = self.ratio(c.args[0])
            except Unsupported:
                return c
            n = self.reduce(self.expand(n))
            if not n:
                v = 0
            if not n or isconst(n) and isconst(d):
                v = constval(n) / constval(d) if n else 0
                return v < 0 if c.op == "lt0" else v <= 0 if c.op == "le0" else v == 0
            return c
        if c.op in ("and", "or"):
            xs = [self.cond(x) for x in c.args]
            return and_(*xs) if c.op == "and" else or_(*xs)
        if c.op == "not":
            return not_(self.cond(c.args[0]))
        return c

    # ---- functions
    def fn(self, t):
        name = t.args[0]
        if name == "sqrt":
            return self.sqrt(self.ratio(t.args[1]))
        if name in ("sin", "cos"):
            a = t.args[1]
            if type(a) is Term and a.op == "fn" and a.args[0] == "acos":
                x = a.args[1]
                self.need(le(x, 1))
                self.need(le(-1, x))
                if name == "cos":
                    return self.ratio(x)
                return self.ratio(fn("sqrt", sub(Fraction(1), mul(x, x))))
            if type(a) is Term and a.op == "fn" and a.args[0] == "atan2":
                y, x = a.args[1], a.args[2]
                self.need(lt(0, add(mul(x, x), mul(y, y))))
                return self.ratio(div(x if name == "cos" else y, fn("sqrt", add(mul(x, x), mul(y, y)))))
        args = [self.term(self.ratio(a)) if sort_of(a) == "R" else a for a in t.args[1:]]
        r = fn(name, *args)
        if type(r) is not Term:
            return pconst(r), pconst(1)
        if r.op == "fn" and r.args[0] == name:
            return self.patom(r), pconst(1)
        return self.ratio_shallow(r)

    def sqrt(self, nd):
        n, d = nd
        if not n:
            return {}, pconst(1)
        (dm, dc), = d.items()
        # multiply by the odd part so that the denominator becomes a square
        odd = tuple((k, 1) for k, e in dm if e % 2)
        if not isconst(d) and odd:
            n = pmul(n, {odd: Fraction(1)})
            dm = mmul(dm, odd)
        n = self.reduce(self.expand(n))
        if dc != 1:
            n = {m: v / dc for m, v in n.items()}
        if not isconst(n) or constval(n) < 0:
            self.need(le(0, self.term((n, pconst(1)))))
        a = self.sqrt_poly(n)
        r = ()
        for k, e in dm:
            h = e // 2
            x = self.atom[k]
            if h % 2 and not self.nonneg(x):
                pos = le(0, self.unden(x))
                v = True if pos is True else self.decide(pos) if self.decide is not None else None
                if v is not True:
                    self.need(pos)
            r = mmul(r, ((k, h),))
        return a, {r: Fraction(1)}

    @staticmethod
    def unden(x):
        return x.args[1] if x.op == "fn" and x.args[0] == "den!" else x

    def sqrt_poly(self, p):
        if isconst(p):
            return self.sqrt_const(constval(p))
        # rational content
        num = 0
        den = 1
        for c in p.values():
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        cont = Fraction(num, den)
        q = {m: c / cont for m, c in p.items()}
        if len(q) == 1:
            (m, c), = q.items()
            if c > 0 and all(e % 2 == 0 for _, e in m):
                r = self.sqrt_const(cont * c)
                for k, e in m:
                    x = power(self.atom[k], e // 2)
                    if (e // 2) % 2:
                        v = None
                        pos = le(0, self.atom[k])
                        if self.decide is not None:
                            v = self.decide(pos)
                        if pos is True or v is True or self.nonneg(self.atom[k]):
                            r = pmul(r, self.ratio_shallow(x)[0])
                        else:
                            y = absr(x)
                            r = pmul(r, self.patom(y) if y.op == "ite" else self.ratio_shallow(y)[0])
                    else:
                        r = pmul(r, self.ratio_shallow(x)[0])
                return r
        else:
            # common even powers
            com = None
            for m in q:
                d = dict(m)
                com = d if com is None else {k: min(e, d.get(k, 0)) for k, e in com.items()}
            sq = {k: e - e % 2 for k, e in com.items() if e >= 2}
            if sq:
                rest = {tuple((k, e - sq.get(k, 0)) for k, e in m if e > sq.get(k, 0)): c * cont for m, c in q.items()}
                one = {tuple(sorted(sq.items())): Fraction(1)}
                return pmul(self.sqrt_poly(one), self.sqrt_poly(rest))
        # perfect square of a binomial/trinomial is not attempted
        a = fn("sqrt", self.term((q, pconst(1))))
        if type(a) is not Term:
            return pmul(pconst(a), self.sqrt_const(cont))
        return pmul(self.patom(a), self.sqrt_const(cont))

    @staticmethod
    def nonneg(a):
        return a.op == "fn" and a.args[0] in ("sqrt", "exp")

    def sqrt_const(self, c):
        if c == 0:
            return {}
        # sqrt(n/d) = sqrt(n*d)/d with square factors pulled out
        n = c.numerator * c.denominator
        r = Fraction(1, c.denominator)
        f = math.isqrt(n)
        if f * f == n:
            return pconst(r * f)
        k = 2
        while k * k <= n and k < 1000:
            while n % (k * k) == 0:
                n //= k * k
                r *= k
            k += 1
        return pmul(pconst(r), self.patom(_mk("fn", ("sqrt", Fraction(n)), "R")))

    # ---- relations on monomials
    def reduce(self, p):
        again = True
        while again:
            again = False
            out = {}
            for m, c in p.items():
                rep = None
                exps = []
                for k, e in m:
                    a = self.atom[k]
                    if a.op == "fn":
                        nm = a.args[0]
                        if nm == "sqrt" and e >= 2:
                            rep = (k, e, 2, self.ratio_shallow_poly(a.args[1]))
                            break
                        if nm == "sin" and e >= 2:
                            cs = fn("cos", a.args[1])
                            rep = (k, e, 2, padd(pconst(1), pmul(self.patom(cs), self.patom(cs)), -1))
                            break
                        if nm == "exp":
                            exps.append((k, e))
                if rep is None and (len(exps) > 1 or any(e > 1 for _, e in exps)):
                    tot = Fraction(0)
                    for k, e in exps:
                        tot = add(tot, scale(self.atom[k].args[1], e))
                    tot = self.term(self.ratio(tot))
                    ex = fn("exp", tot)
                    rest = tuple((k, e) for k, e in m if (k, e) not in exps)
                    q = {rest: c}
                    q = pmul(q, self.patom(ex) if type(ex) is Term else pconst(ex))
                    for mm, cc in q.items():
                        v = out.get(mm, 0) + cc
                        if v == 0:
                            out.pop(mm, None)
                        else:
                            out[mm] = v
                    continue
                if rep is None:
                    v = out.get(m, 0) + c
                    if v == 0:
                        out.pop(m, None)
                    else:
                        out[m] = v
                    continue
                k, e, s, r = rep
                again = True
                rest = tuple((kk, ee - s if kk == k else ee) for kk, ee in m if not (kk == k and ee == s))
                for mm, cc in pmul({rest: c}, r).items():
                    v = out.get(mm, 0) + cc
                    if v == 0:
                        out.pop(mm, None)
                    else:
                        out[mm] = v
            p = out
            if len(p) > LIMIT:
                raise TooBig()
        return p

    def ratio_shallow_poly(self, t):
        if type(t) is not Term:
            return pconst(t)
        return self.ratio_shallow(t)[0]

    # ---- back to terms
    def term(self, nd):
        n, d = nd
        tn = self.pterm(n)
        if isconst(d):
            return scale(tn, 1 / constval(d)) if type(tn) is Term else tn / constval(d)
        return div(tn, self.pterm(d))

    def pterm(self, p):
        r = Fraction(0)
        for m, c in sorted(p.items()):
            x = Fraction(1)
            for k, e in m:
                x = mul(x, power(self.unden(self.atom[k]), e))
            r = add(r, scale(x, c) if type(x) is Term else x * c)
        return r


def is_zero(t, decide=None):
    """-> (True/False/None, side conditions). True: t = 0 given the side conditions."""
    R = Ring(decide=decide)
    try:
        n, d = R.ratio(t)
        n = R.reduce(R.expand(n))
    except (TooBig, Unsupported, RecursionError):
        return None, []
    if not n:
        return True, list(R.side)
    return False, list(R.side)


def normalise(t, decide=None):
    R = Ring(decide=decide)
    try:
        r = R.term(R.ratio(t))
    except (TooBig, Unsupported, RecursionError):
        return t, []
    return r, list(R.side)
