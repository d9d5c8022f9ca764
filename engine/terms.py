"""Hash-consed terms over mathematical reals (R), integers (I) and booleans (B).

Concrete values are plain Python values (int, Fraction, bool); only symbolic values are Terms.
Linear arithmetic is kept canonical (op 'lin'), products are flattened (op 'mul').
"""
from fractions import Fraction
import math

_table = {}
_count = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_fv")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # no ordering/arith operators on purpose: use the constructors below


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        t._fv = None
        _table[key] = t
    return t


def is_sym(x):
    return type(x) is Term


def sort_of(x):
    if type(x) is Term:
        return x.sort
    if type(x) is bool:
        return "B"
    if type(x) is int:
        return "I"
    return "R"


class Unsupported(Exception):
    pass


def var(name, sort):
    return _mk("var", (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


# ---------------------------------------------------------------- arithmetic
def _lin(x):
    """-> (const, dict atom->coef)"""
    if type(x) is Term:
        if x.op == "lin":
            return x.args[0], dict(x.args[1])
        return 0, {x: 1}
    return x, {}


def _unlin(c, d, sort):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        if sort == "R":
            return Fraction(c)
        return int(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("lin", (c, tuple(items)), sort)


def _chk(x):
    if type(x) is float:
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite constant in arithmetic")
        return Fraction(x)
    return x


def add(a, b, sort=None):
    if type(a) is not Term and type(b) is not Term:
        return a + b
    a, b = _chk(a), _chk(b)
    s = sort or (a.sort if type(a) is Term else b.sort)
    ca, da = _lin(a)
    cb, db = _lin(b)
    if len(db) > len(da):
        da, db = db, da
    for k, v in db.items():
        nv = da.get(k, 0) + v
        if nv == 0:
            del da[k]
        else:
            da[k] = nv
    return _unlin(ca + cb, da, s)


def scale(a, k):
    if type(a) is not Term:
        return a * k
    if k == 0:
        return Fraction(0) if a.sort == "R" else 0
    if k == 1:
        return a
    c, d = _lin(a)
    return _unlin(c * k, {x: v * k for x, v in d.items()}, a.sort)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a - b
    return add(a, scale(_chk(b), -1))


def _factors(x):
    """-> (coef, dict base->power) for a non-lin or single-term lin; lin with several terms is one factor"""
    if type(x) is not Term:
        return x, {}
    if x.op == "mul":
        return 1, dict(x.args)
    if x.op == "lin":
        c, items = x.args
        if c == 0 and len(items) == 1:
            a, k = items[0]
            k2, d = _factors(a)
            return k * k2, d
        if x.sort == "R":
            # normalise content so that proportional sums share one factor
            lead = items[0][1]
            if lead != 1:
                return lead, {scale(x, Fraction(1) / lead): 1}
        return 1, {x: 1}
    return 1, {x: 1}


def _mkmul(d, sort):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return Fraction(1) if sort == "R" else 1
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("mul", tuple(items), sort)


def mul(a, b):
    if type(a) is not Term:
        if type(b) is not Term:
            return a * b
        return scale(b, _chk(a))
    if type(b) is not Term:
        return scale(a, _chk(b))
    sort = a.sort
    if sort == "I" and (a.op == "lin" or b.op == "lin"):
        ca, da = _lin(a)
        cb, db = _lin(b)
        if len(da) * len(db) <= 64:
            r = ca * cb
            if cb:
                r = add(r, _unlin(0, {k: v * cb for k, v in da.items()}, "I"))
            if ca:
                r = add(r, _unlin(0, {k: v * ca for k, v in db.items()}, "I"))
            for x, kx in da.items():
                for y, ky in db.items():
                    r = add(r, scale(mul(x, y), kx * ky))
            return r
    # keep if-then-else on top of products with constants only
    ka, fa = _factors(a)
    kb, fb = _factors(b)
    if len(fb) > len(fa):
        fa, fb = fb, fa
    for k, v in fb.items():
        fa[k] = fa.get(k, 0) + v
    # inv(x)*inv(y) stay separate factors; sqrt(x)^2 is resolved by the ring normaliser
    return scale(_mkmul(fa, sort), ka * kb)


def inv(a):
    if type(a) is not Term:
        if a == 0:
            raise Unsupported("division by the constant zero")
        return Fraction(1) / a
    k, f = _factors(a)
    if len(f) == 1 and list(f.values()) == [1]:
        (x, _), = f.items()
        return scale(_mk("inv", (x,), "R"), Fraction(1) / k)
    d = {}
    for x, p in f.items():
        y = _mk("inv", (x,), "R")
        d[y] = d.get(y, 0) + p
    return scale(_mkmul(d, "R"), Fraction(1) / k)


def div(a, b):
    if type(a) is not Term and type(b) is not Term:
        if b == 0:
            raise Unsupported("division by the constant zero")
        return Fraction(a) / b
    return mul(a, inv(b))


def power(a, n):
    if n == 0:
        return Fraction(1)
    if n < 0:
        return inv(power(a, -n))
    if type(a) is not Term:
        return a ** n
    k, f = _factors(a)
    return scale(_mkmul({x: p * n for x, p in f.items()}, a.sort), k ** n)


_REALS = {}


def toreal(a):
    if type(a) is not Term:
        return Fraction(a)
    if a.sort == "R":
        return a
    c, d = _lin(a)
    r = Fraction(c)
    out = {}
    for x, k in d.items():
        y = _toreal_atom(x)
        c2, d2 = _lin(y)
        r += c2 * k
        for z, kz in d2.items():
            out[z] = out.get(z, 0) + kz * k
    return _unlin(r, {x: k for x, k in out.items() if k}, "R")


def _toreal_atom(x):
    if x.op == "mul":
        r = Fraction(1)
        for a, p in x.args:
            r = mul(r, power(_toreal_atom(a), p))
        return r
    if x.op == "ite":
        r = _REALS.get(x)
        if r is None:
            r = _REALS[x] = ite(x.args[0], toreal(x.args[1]), toreal(x.args[2]))
        return r
    if x.op == "sum":
        bv, n, body = x.args
        return _mk("sum", (bv, n, toreal(body)), "R")
    return _mk("toreal", (x,), "R")


def fn(name, *args):
    """uninterpreted/transcendental function application, result R"""
    if all(type(a) is not Term for a in args):
        r = _fold_fn(name, args)
        if r is not None:
            return r
    if name == "sin" or name == "cos":
        a = args[0]
        # canonical sign of the argument
        if type(a) is Term:
            if a.op == "lin":
                lead = a.args[1][0][1]
                if lead < 0:
                    r = _mk("fn", (name, neg(a)), "R")
                    return neg(r) if name == "sin" else r
    if name == "exp" and args[0] == 0:
        return Fraction(1)
    if name == "sqrt" and type(args[0]) is Term and args[0].op == "mul" and all(p % 2 == 0 for _, p in args[0].args):
        r = Fraction(1)
        for x, p in args[0].args:
            r = mul(r, absr(power(x, p // 2)))
        return r
    return _mk("fn", (name,) + tuple(args), "R")


def _isqrt_frac(x):
    if x < 0:
        return None
    n, d = x.numerator, x.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


PI = Fraction(math.pi)
_snap = {}


def snap(v):
    """the rational meant by a floating literal: a short decimal, a small fraction or a small multiple of pi"""
    r = _snap.get(v)
    if r is None:
        r = _snap[v] = _snap_(v)
    return r


def _snap_(v):
    x = Fraction(v)
    if x.denominator == 1 or v == 0:
        return x
    digits = repr(abs(v)).split("e")[0].replace(".", "").strip("0")
    if len(digits) <= 14:
        return Fraction(repr(v))
    for k in (x / PI, x * PI):
        c = k.limit_denominator(1000)
        if c and abs(k / c - 1) < 4e-16:
            return c * PI if k == x / PI else c / PI
    c = x.limit_denominator(100000)
    if c and float(c) == v:
        return c
    return x


def _fold_fn(name, args):
    x = Fraction(args[0]) if type(args[0]) is not float else args[0]
    if type(x) is float:
        return None
    if name == "sqrt":
        return _isqrt_frac(x)
    if name == "sin" and x == 0:
        return Fraction(0)
    if name in ("sin", "cos") and (2 * x / PI).denominator == 1:
        k = int(2 * x / PI) + (1 if name == "cos" else 0)
        return Fraction((0, 1, 0, -1)[k % 4])
    if name == "acos" and x in (0, 1, -1):
        return PI * (1 - x) / 2
    if name in ("cos", "exp") and x == 0:
        return Fraction(1)
    if name == "log" and x == 1:
        return Fraction(0)
    return None


def absr(a):
    if type(a) is not Term:
        return abs(a)
    return ite(lt(a, 0), neg(a), a)


# ---------------------------------------------------------------- booleans
TRUE, FALSE = True, False


def not_(a):
    if type(a) is not Term:
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt0":
        return _cmp0("le0", neg(a.args[0]))
    if a.op == "le0":
        return _cmp0("lt0", neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return _mk("not", (a,), "B")


def _nary(op, args):
    absorbing = op == "or"
    s = {}
    for a in args:
        if type(a) is not Term:
            if bool(a) == absorbing:
                return absorbing
            continue
        if a.op == op:
            for x in a.args:
                s[x] = 1
        else:
            s[a] = 1
    for a in list(s):
        n = not_(a)
        if type(n) is Term and n in s:
            return absorbing
        if type(n) is Term and n.op not in ("and", "or") and False:
            pass
    if not s:
        return not absorbing
    if len(s) == 1:
        return next(iter(s))
    # absorption of one level: a or (not a and b) = a or b ; a and (not a or b) = a and b
    dual = "and" if op == "or" else "or"
    lits = {x for x in s if x.op != dual}
    if lits and len(lits) < len(s):
        neglits = {}
        for x in lits:
            n = not_(x)
            if type(n) is Term:
                neglits[n] = 1
        changed = False
        out = list(lits)
        for x in s:
            if x.op == dual:
                if any(y in lits for y in x.args):
                    changed = True
                    continue
                rest = [y for y in x.args if y not in neglits]
                if len(rest) < len(x.args):
                    changed = True
                    out.append(and_(*rest) if dual == "and" else or_(*rest))
                else:
                    out.append(x)
        if changed:
            return _nary(op, out)
    return _mk(op, tuple(sorted(s, key=lambda t: t.id)), "B")


def and_(*args):
    return _nary("and", args)


def or_(*args):
    return _nary("or", args)


def implies(a, b):
    return or_(not_(a), b)


def _cmp0(op, t):
    if type(t) is not Term:
        if op == "lt0":
            return t < 0
        if op == "le0":
            return t <= 0
        return t == 0
    # scale leading coefficient to +-1
    if t.op == "lin":
        lead = t.args[1][0][1]
        if t.sort == "R":
            k = abs(lead)
            if k != 1:
                t = scale(t, Fraction(1) / k)
            if op == "eq0" and lead < 0:
                t = neg(t)
        else:
            c, items = t.args
            g = 0
            for _, k in items:
                g = math.gcd(g, k)
            if op == "eq0":
                if c % g:
                    return False
                if lead < 0:
                    g = -g
                if g != 1:
                    t = _unlin(c // g, {a: k // g for a, k in items}, "I")
            else:
                if op == "lt0":  # integers: t<0 <=> t+1<=0
                    return _cmp0("le0", add(t, 1))
                if g != 1:
                    # sum + c <= 0 <=> sum/g <= floor(-c/g)
                    t = _unlin(-((-c) // g), {a: k // g for a, k in items}, "I")
        if type(t) is Term and t.op != "lin":
            pass
    elif t.sort == "I" and op == "lt0":
        return _cmp0("le0", add(t, 1))
    if type(t) is Term and t.op == "ite" and (type(t.args[1]) is not Term or type(t.args[2]) is not Term):
        return ite(t.args[0], _cmp0(op, t.args[1]), _cmp0(op, t.args[2]))
    if op == "eq0" and type(t) is Term and t.op == "mul":
        return or_(*[_cmp0("eq0", x) for x, _ in t.args])
    if op == "eq0" and type(t) is Term and t.op == "lin" and t.args[0] != 0 and len(t.args[1]) == 1:
        a, k = t.args[1][0]
        if a.op == "ite" and (type(a.args[1]) is not Term or type(a.args[2]) is not Term):
            v = -Fraction(t.args[0]) / k
            return ite(a.args[0], eq(a.args[1], v), eq(a.args[2], v))
    if op == "eq0" and type(t) is Term and t.op == "inv":
        pass
    return _mk(op, (t,), "B")


def _inf(a):
    return type(a) is float


def lt(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a < b
    if _inf(a):
        return a < 0
    if _inf(b):
        return b > 0
    return _cmp0("lt0", sub(a, b))


def le(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a <= b
    if _inf(a):
        return a < 0
    if _inf(b):
        return b > 0
    return _cmp0("le0", sub(a, b))


def eq(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a == b
    if _inf(a) or _inf(b):
        return False
    sa = sort_of(a)
    if sa == "B" or sort_of(b) == "B":
        if type(a) is not Term:
            a, b = b, a
        if type(b) is not Term:
            return a if b else not_(a)
        if a is b:
            return True
        return _mk("iff", (a, b) if a.id < b.id else (b, a), "B")
    return _cmp0("eq0", sub(a, b))


def _divides(x, t):
    """x is a factor of every summand of t (so t is 0 where x is)"""
    k, d = _lin(t)
    if k != 0:
        return False
    if x is t:
        return True
    for m in d:
        if m is x or m.op == "mul" and any(y is x and p > 0 for y, p in m.args):
            continue
        return False
    return True


def _unguard(c, a):
    """ite(c, a, 0) = ite(result, a, 0): conditions x != 0 dropped where x is a factor of a"""
    if c.op == "not" and c.args[0].op == "eq0":
        return True if _divides(c.args[0].args[0], a) else c
    if c.op == "and":
        return and_(*[_unguard(x, a) for x in c.args])
    if c.op == "not" and c.args[0].op == "or":
        return and_(*[_unguard(not_(x), a) for x in c.args[0].args])
    return c


def ite(c, a, b):
    if type(c) is not Term:
        return a if c else b
    if type(b) is not Term and type(a) is Term and a.sort != "B" and b == 0:
        c = _unguard(c, a)
    elif type(a) is not Term and type(b) is Term and b.sort != "B" and a == 0:
        c = not_(c)
        if type(c) is Term:
            c = _unguard(c, b)
        c = not_(c) if type(c) is Term else (not c)
    if type(c) is not Term:
        return a if c else b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is not Term and tb is not Term and a == b and ta == tb:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    sa = sort_of(a)
    sb = sort_of(b)
    if sa == "B" or sb == "B":
        if ta is not Term:
            return or_(c, b) if a else and_(not_(c), b)
        if tb is not Term:
            return or_(not_(c), a) if b else and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if sa != sb:
        if ta is float or tb is float:
            raise Unsupported("ite with non-finite branch")
        a, b = toreal(a), toreal(b)
        sa = "R"
        if a is b or (not is_sym(a) and not is_sym(b) and a == b):
            return a
    if ta is float or tb is float:
        raise Unsupported("ite with non-finite branch")
    if ta is Term and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if tb is Term and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    # common linear part: x + ite(c, u, v)
    if type(a) is Term and type(b) is Term:
        if a is b:
            return a
        ca, da = _lin(a)
        cb, db = _lin(b)
        common = {k: v for k, v in da.items() if db.get(k) == v}
        if common:
            ra = _unlin(ca, {k: v for k, v in da.items() if k not in common}, sa)
            rb = _unlin(cb, {k: v for k, v in db.items() if k not in common}, sa)
            return add(_unlin(0, common, sa), ite(c, ra, rb))
    elif type(a) is Term or type(b) is Term:
        # x + r versus constant: keep
        pass
    if type(a) is Term and a.op == "ite" and type(b) is Term or type(b) is Term and b.op == "ite":
        if type(b) is Term and b.op == "ite" and b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
    return _mk("ite", (c, a, b), sa)


# ---------------------------------------------------------------- arrays, binders
def select(arr, idxs, sort):
    """value of uninterpreted array symbol `arr` (a string) at the index tuple"""
    return _mk("sel", (arr,) + tuple(idxs), sort)


def bv(depth, sort="I"):
    return _mk("bv", (depth,), sort)


def maxbv(t):
    """largest bound-variable depth used as binder inside t (so that new binders stay distinct)"""
    if type(t) is not Term:
        return 0
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        todo = [y for y in _children(x) if type(y) is Term and y._fv is None]
        if todo:
            stack.extend(todo)
            continue
        m = 0
        if x.op == "bv":
            m = x.args[0]
        for y in _children(x):
            if type(y) is Term and y._fv > m:
                m = y._fv
        x._fv = m
        stack.pop()
    return t._fv


def _children(t):
    op = t.op
    if op in ("var", "bv"):
        return ()
    if op == "lin":
        return [a for a, _ in t.args[1]]
    if op == "mul":
        return [a for a, _ in t.args]
    if op == "fn" or op == "sel":
        return t.args[1:]
    if op == "fold":
        k, n, inits, bvs, bvk, steps = t.args
        return [n] + list(inits) + list(bvs) + [bvk] + list(steps)
    return t.args


def in_range(k, n, t):
    """simplify the integer comparisons in t that 0 <= k < n decides"""
    if type(t) is not Term:
        return t
    ls = atoms(t, lambda y: y.op in ("le0", "lt0", "eq0") and y.args[0].sort == "I")
    if not ls:
        return t
    m = {}
    gap = sub(n, k)     # >= 1
    for y in ls:
        x = y.args[0]
        c = 1 if y.op == "lt0" else 0

        def low(z):
            """largest provable constant lower bound of z, or None"""
            for f, b in ((k, 0), (gap, 1), (n, 1), (None, 0)):
                r = z if f is None else sub(z, f)
                if type(r) is not Term:
                    return r + b
            return None
        lo = low(x)
        if y.op == "eq0":
            if lo is not None and lo >= 1:
                m[y] = False
                continue
            hi = low(neg(x))
            if hi is not None and hi >= 1:
                m[y] = False
            continue
        if lo is not None and lo >= (1 - c):
            m[y] = False
            continue
        hi = low(neg(x))
        if hi is not None and hi >= c:
            m[y] = True
    return subst(t, m) if m else t


def sum_(k, n, body):
    body = in_range(k, n, body)
    """sum_{k=0}^{n-1} body(k); k is a variable term occurring in body"""
    sort = sort_of(body)
    if type(n) is int and n <= 0:
        return Fraction(0) if sort == "R" else 0
    if type(n) is int and n <= 8:
        r = Fraction(0) if sort == "R" else 0
        for i in range(n):
            r = add(r, subst(body, {k: i}))
        return r
    if type(body) is not Term:
        return mul(toreal(n) if sort == "R" else n, body)
    # linearity: split the body into summands, constants out
    c, d = _lin(body)
    total = Fraction(0) if sort == "R" else 0
    if c != 0:
        total = add(total, scale(toreal(n) if sort == "R" else n, c))
    for a, co in d.items():
        total = add(total, scale(_sum_atom(k, n, a, sort), co))
    return total


def _sum_atom(k, n, a, sort):
    if not occurs(k, a):
        return mul(toreal(n) if sort == "R" else n, a)
    out = Fraction(1) if sort == "R" else 1
    if a.op == "mul":
        ins = {}
        for x, p in a.args:
            if occurs(k, x):
                ins[x] = p
            else:
                out = mul(out, power(x, p))
        a = _mkmul(ins, sort)
    if type(a) is Term and a.op == "ite":
        # conditional summands: coefficients and factors without k come out
        c, v, w = a.args
        zero = Fraction(0) if sort == "R" else 0
        if type(v) is not Term and v == 0:
            c, v, w = not_(c), w, v
        if type(w) is not Term and w == 0 and type(c) is Term and occurs(k, c):
            c0, d = _lin(v)
            parts = [(None, c0)] if c0 != 0 else []
            parts += list(d.items())
            if len(parts) > 1 or parts[0][1] != 1 or parts[0][0] is not None and parts[0][0].op == "mul" and any(not occurs(k, y) for y, _ in parts[0][0].args):
                total = zero
                for x, co in parts:
                    f = Fraction(1) if sort == "R" else 1
                    if x is None:
                        x = f
                    elif x.op == "mul":
                        ins = {}
                        for y, p in x.args:
                            if occurs(k, y):
                                ins[y] = p
                            else:
                                f = mul(f, power(y, p))
                        x = _mkmul(ins, sort) if ins else (Fraction(1) if sort == "R" else 1)
                    elif not occurs(k, x):
                        f, x = x, (Fraction(1) if sort == "R" else 1)
                    g = ite(c, x, zero)
                    b = bv(maxbv(g) + 1)
                    total = add(total, scale(mul(f, _mk("sum", (b, n, subst(g, {k: b})), sort)), co))
                return mul(out, total)
    b = bv(maxbv(a) + 1)
    body = subst(a, {k: b})
    return mul(out, _mk("sum", (b, n, body), sort))


def fold_(k, n, states, inits, steps, which):
    """component `which` of iterating state -> steps n times from inits. states: variable terms."""
    steps = [in_range(k, n, x) for x in steps]
    if type(n) is int and n <= 0:
        return inits[which]
    if type(n) is int and n <= 4:
        cur = list(inits)
        for i in range(n):
            m = {k: i}
            m.update({s: c for s, c in zip(states, cur)})
            cur = [subst(st, m) for st in steps]
        return cur[which]
    m = max([maxbv(s) for s in steps] + [0]) + 1
    bk = bv(m)
    bs = tuple(bv(m + 1 + i, s.sort) for i, s in enumerate(states))
    mp = {k: bk}
    mp.update(dict(zip(states, bs)))
    nsteps = tuple(subst(s, mp) for s in steps)
    return _mk("fold", (which, n, tuple(inits), bs, bk, nsteps), states[which].sort)


def forall(k, lo, hi, body):
    if type(lo) is int and lo == 0:
        body = in_range(k, hi, body)
    if type(body) is not Term:
        return True if body else _mk("forall", (bv(1), lo, hi, False), "B")
    if not occurs(k, body):
        return or_(le(hi, lo), body)
    b = bv(maxbv(body) + 1)
    return _mk("forall", (b, lo, hi, subst(body, {k: b})), "B")


def occurs(x, t):
    if type(t) is not Term:
        return False
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        for z in _children(y):
            if type(z) is Term:
                st.append(z)
    return False


def atoms(t, pred):
    """set of subterms satisfying pred"""
    out = []
    seen = set()
    st = [t] if type(t) is Term else [x for x in t if type(x) is Term]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if pred(y):
            out.append(y)
        for z in _children(y):
            if type(z) is Term:
                st.append(z)
    return out


def rebuild(t, f):
    """reapply the smart constructor of t with children mapped by f"""
    op = t.op
    if op == "lin":
        c, items = t.args
        r = c
        if t.sort == "R":
            r = Fraction(c)
        for a, k in items:
            x = f(a)
            r = add(r, scale(x, k), t.sort) if (type(r) is Term or type(x) is Term) else r + x * k
        return r
    if op == "mul":
        r = 1
        first = True
        for a, p in t.args:
            x = f(a)
            x = power(x, p) if p != 1 else x
            r = x if first else mul(r, x)
            first = False
        return r
    if op == "inv":
        return inv(f(t.args[0]))
    if op == "toreal":
        return toreal(f(t.args[0]))
    if op == "fn":
        return fn(t.args[0], *[f(a) if type(a) is Term else a for a in t.args[1:]])
    if op == "not":
        return not_(f(t.args[0]))
    if op in ("and", "or"):
        return _nary(op, [f(a) for a in t.args])
    if op in ("lt0", "le0", "eq0"):
        return _cmp0(op, f(t.args[0]))
    if op == "iff":
        return eq(f(t.args[0]), f(t.args[1]))
    if op == "ite":
        c = f(t.args[0])
        if type(c) is not Term:
            x = t.args[1] if c else t.args[2]
            return f(x) if type(x) is Term else x
        g = lambda x: f(x) if type(x) is Term else x
        return ite(c, g(t.args[1]), g(t.args[2]))
    g = lambda x: f(x) if type(x) is Term else x
    if op == "sel":
        return select(t.args[0], [g(a) for a in t.args[1:]], t.sort)
    if op == "idiv":
        return idiv(g(t.args[0]), g(t.args[1]))
    if op == "imod":
        return imod(g(t.args[0]), g(t.args[1]))
    if op == "floor":
        return floor_(g(t.args[0]))
    # binders: open with a fresh variable, map, close again (no capture)
    if op == "sum":
        b, n, body = t.args
        k = fresh("k", "I")
        o = subst(body, {b: k})
        return sum_(k, g(n), g(o))
    if op == "fold":
        which, n, inits, bs, bk, steps = t.args
        k = fresh("k", "I")
        vs = [fresh("s", b.sort) for b in bs]
        mp = {bk: k}
        mp.update(dict(zip(bs, vs)))
        return fold_(k, g(n), vs, tuple(g(x) for x in inits), [g(subst(s, mp)) for s in steps], which)
    if op == "forall":
        b, lo, hi, body = t.args
        k = fresh("k", "I")
        o = subst(body, {b: k})
        return forall(k, g(lo), g(hi), g(o))
    if op in ("var", "bv"):
        return t
    raise Unsupported("rebuild " + op)


def subst(t, m):
    """simultaneous substitution of atoms (Terms) by values"""
    if type(t) is not Term or not m:
        return t
    return _Subst(m).go(t)



class _Subst:
    __slots__ = ("m", "memo", "hasm")

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.hasm = {}

    def has(self, t):
        """does any key occur in t?"""
        r = self.hasm.get(t)
        if r is not None:
            return r
        if t in self.m:
            r = True
        elif t.op in ("var", "bv"):
            r = False
        else:
            r = False
            for c in _children(t):
                if type(c) is Term and self.has(c):
                    r = True
                    break
        self.hasm[t] = r
        return r

    def go(self, t):
        r = self.m.get(t)
        if r is not None or t in self.m:
            return r
        r = self.memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, self.go) if self.has(t) else t
        self.memo[t] = r
        return r


# ---------------------------------------------------------------- integer ops
def idiv(a, b):
    """C-style truncating division is built by the interpreter; this is floor division, b > 0 constant or term"""
    if type(a) is not Term and type(b) is not Term:
        return a // b
    if type(b) is not Term:
        if b == 1:
            return a
        c, d = _lin(a)
        if b > 0 and all(k % b == 0 for k in d.values()):
            return _unlin(c // b, {x: k // b for x, k in d.items()}, "I")
        q = {x: (k // b) for x, k in d.items() if k % b == 0 and k}
        if q and b > 0:
            rest = _unlin(c, {x: k for x, k in d.items() if k % b}, "I")
            return add(_unlin(0, q, "I"), idiv(rest, b))
    return _mk("idiv", (a, b), "I")


def imod(a, b):
    if type(a) is not Term and type(b) is not Term:
        return a % b
    if type(b) is not Term:
        if b == 1:
            return 0
        c, d = _lin(a)
        if b > 0:
            d2 = {x: k % b for x, k in d.items() if k % b}
            if not d2:
                return c % b
            a = _unlin(c % b, d2, "I")
            if type(a) is not Term:
                return a % b
    return _mk("imod", (a, b), "I")


def floor_(a):
    if type(a) is not Term:
        return math.floor(a)
    if a.op == "toreal":
        return a.args[0]
    if a.sort == "I":
        return a
    if a.op == "lin":
        c, items = a.args
        ip = {}
        rest = {}
        for x, k in items:
            if x.op == "toreal" and Fraction(k).denominator == 1:
                ip[x.args[0]] = int(k)
            else:
                rest[x] = k
        cf = math.floor(c)
        if ip or cf:
            r = _unlin(cf, ip, "I")
            q = _unlin(c - cf, rest, "R")
            return add(r, floor_(q))
    if a.op == "ite":
        return ite(a.args[0], floor_(a.args[1]), floor_(a.args[2]))
    return _mk("floor", (a,), "I")


# ---------------------------------------------------------------- derivative
def diff(t, x):
    """derivative of the real term t with respect to variable x (x of sort R)"""
    memo = {}

    def go(t):
        if type(t) is not Term:
            return Fraction(0)
        r = memo.get(t)
        if r is not None:
            return r
        if t is x:
            r = Fraction(1)
        elif not occurs(x, t):
            r = Fraction(0)
        elif t.op == "lin":
            r = Fraction(0)
            for a, k in t.args[1]:
                r = add(r, scale(go(a), k))
        elif t.op == "mul":
            r = Fraction(0)
            for i, (a, p) in enumerate(t.args):
                da = go(a)
                if type(da) is not Term and da == 0:
                    continue
                term = scale(da, p)
                for j, (b, q) in enumerate(t.args):
                    e = q - 1 if i == j else q
                    if e:
                        term = mul(term, power(b, e))
                r = add(r, term)
        elif t.op == "inv":
            a = t.args[0]
            r = neg(mul(go(a), power(t, 2)))
        elif t.op == "ite":
            r = ite(t.args[0], go(t.args[1]), go(t.args[2]))
        elif t.op == "fn":
            name = t.args[0]
            a = t.args[1]
            da = go(a) if type(a) is Term else Fraction(0)
            if name == "sin":
                r = mul(da, fn("cos", a))
            elif name == "cos":
                r = neg(mul(da, fn("sin", a)))
            elif name == "exp":
                r = mul(da, t)
            elif name == "log":
                r = div(da, a)
            elif name == "sqrt":
                r = div(da, scale(t, 2))
            elif name == "acos":
                r = neg(div(da, fn("sqrt", sub(Fraction(1), mul(a, a)))))
            elif name == "atan2":
                y, xx = t.args[1], t.args[2]
                dx = go(xx) if type(xx) is Term else Fraction(0)
                r = div(sub(mul(da, xx), mul(y, dx)), add(mul(xx, xx), mul(y, y)))
            else:
                raise Unsupported("derivative of " + name)
        elif t.op == "sum":
            b, n, body = t.args
            k = fresh("k", "I")
            r = sum_(k, n, diff(subst(body, {b: k}), x))
        else:
            raise Unsupported("derivative of op " + t.op)
        memo[t] = r
        return r

    return go(t)


# ---------------------------------------------------------------- evaluation (floats)
def evalf(t, env):
    """float/int/bool value of a term under env: Term -> value, or callables for array symbols"""
    memo = {}

    def go(t):
        if type(t) is not Term:
            return t if type(t) in (int, bool) else float(t)
        if t in memo:
            return memo[t]
        r = _go(t)
        memo[t] = r
        return r

    def _go(t):
        if t in env:
            return env[t]
        op = t.op
        a = t.args
        if op == "lin":
            r = a[0] if t.sort == "I" else float(a[0])
            for x, k in a[1]:
                r += go(x) * (k if t.sort == "I" else float(k))
            return r
        if op == "mul":
            r = 1
            for x, p in a:
                r *= go(x) ** p
            return r
        if op == "inv":
            return 1.0 / go(a[0])
        if op == "toreal":
            return float(go(a[0]))
        if op == "floor":
            return math.floor(go(a[0]))
        if op == "idiv":
            return go(a[0]) // go(a[1])
        if op == "imod":
            return go(a[0]) % go(a[1])
        if op == "fn":
            f = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log,
                 "acos": lambda v: math.acos(max(-1.0, min(1.0, v))), "atan2": math.atan2, "pow": math.pow,
                 "asin": math.asin, "tan": math.tan, "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3), v)}.get(a[0])
            if f is None:
                if a[0] in env:
                    return env[a[0]](*[go(x) for x in a[1:]])
                raise KeyError(a[0])
            return f(*[go(x) for x in a[1:]])
        if op == "sel":
            return env[a[0]](*[go(x) for x in a[1:]])
        if op == "not":
            return not go(a[0])
        if op == "and":
            return all(go(x) for x in a)
        if op == "or":
            return any(go(x) for x in a)
        if op == "lt0":
            return go(a[0]) < 0
        if op == "le0":
            return go(a[0]) <= 0
        if op == "eq0":
            return go(a[0]) == 0
        if op == "iff":
            return go(a[0]) == go(a[1])
        if op == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        raise KeyError(op)

    return go(t)


def show(t, depth=6):
    if type(t) is not Term:
        if type(t) is Fraction:
            if t.denominator == 1:
                return str(t.numerator)
            return "%.17g" % float(t)
        return str(t)
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == "var":
        return a[0]
    if op == "bv":
        return "#%d" % a[0]
    if op == "lin":
        parts = [] if a[0] == 0 else [s(a[0])]
        for x, k in a[1]:
            parts.append(s(x) if k == 1 else "%s*%s" % (s(k), s(x)))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(s(x) if p == 1 else "%s^%d" % (s(x), p) for x, p in a)
    if op == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "sel":
        return "%s[%s]" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "lt0":
        return "%s<0" % s(a[0])
    if op == "le0":
        return "%s<=0" % s(a[0])
    if op == "eq0":
        return "%s=0" % s(a[0])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if op == "and" or op == "or":
        return "(" + (" & " if op == "and" else " | ").join(s(x) for x in a) + ")"
    if op == "not":
        return "!" + s(a[0])
    if op == "sum":
        return "Sum(%s<%s: %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "fold":
        return "Fold%d(n=%s; init=%s; step=%s)" % (a[0], s(a[1]), [s(x) for x in a[2]], [s(x) for x in a[5]])
    if op == "forall":
        return "forall(%s in %s..%s: %s)" % tuple(s(x) for x in a)
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
