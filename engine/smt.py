"""Discharging obligations: simplification, ring normaliser, z3, cvc5."""
import time
import z3
from fractions import Fraction
from terms import *
from terms import _children, _mk, _lin
import ring

STATS = {"z3_s": 0.0, "cvc5_s": 0.0, "ring_s": 0.0, "z3_n": 0, "ring_n": 0, "cvc5_n": 0, "feas_n": 0, "feas_s": 0.0}


INJECTIVE = set()   # input arrays without equal entries
BOUNDS = {}       # input arrays whose every entry lies in [lo, hi)


class Tr:
    """Term -> z3. Function applications, array reads, sums and folds are purified to constants
    (syntactic congruence); axioms for the functions are collected."""

    def __init__(self, congruence=True):
        self.memo = {}
        self.ax = []
        self.pure = {}
        self.sels = {}
        self.consts = {}
        self.congruence = congruence

    def const(self, name, sort):
        k = (name, sort)
        c = self.consts.get(k)
        if c is None:
            c = z3.Real(name) if sort == "R" else z3.Int(name) if sort == "I" else z3.Bool(name)
            self.consts[k] = c
        return c

    def lit(self, v, sort):
        if type(v) is bool or sort == "B":
            return z3.BoolVal(bool(v))
        if sort == "I":
            return z3.IntVal(int(v))
        v = Fraction(v)
        return z3.RealVal("%d/%d" % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)

    def go(self, t, sort=None):
        if type(t) is not Term:
            return self.lit(t, sort or sort_of(t))
        r = self.memo.get(t)
        if r is None:
            stack = [t]
            while stack:
                x = stack[-1]
                if x in self.memo:
                    stack.pop()
                    continue
                ch = _children(x)
                if x.op in ("sum", "fold", "forall"):
                    ch = ()
                todo = [y for y in ch if type(y) is Term and y not in self.memo]
                if todo:
                    stack.extend(todo)
                    continue
                self.memo[x] = self._go(x)
                stack.pop()
            r = self.memo[t]
        return r

    def pur(self, t):
        c = self.pure.get(t)
        if c is None:
            c = self.const("@p%d" % t.id, t.sort)
            self.pure[t] = c
        return c

    def _go(self, t):
        op, a = t.op, t.args
        g = self.go
        if op == "var":
            return self.const(a[0], t.sort)
        if op == "bv":
            return self.const("#%d%s" % (a[0], t.sort), t.sort)
        if op == "lin":
            parts = [] if a[0] == 0 else [self.lit(a[0], t.sort)]
            for x, k in a[1]:
                zx = g(x)
                parts.append(zx if k == 1 else self.lit(k, t.sort) * zx)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mul":
            r = None
            for x, p in a:
                zx = g(x)
                for _ in range(p):
                    r = zx if r is None else r * zx
            return r
        if op == "inv":
            c = self.pur(t)
            x = g(a[0])
            self.ax.append(z3.Or(x == 0, x * c == 1))
            return c
        if op == "toreal":
            return z3.ToReal(g(a[0]))
        if op == "floor":
            return z3.ToInt(g(a[0]))
        if op == "idiv":
            return g(a[0], "I") / g(a[1], "I")
        if op == "imod":
            return g(a[0], "I") % g(a[1], "I")
        if op == "fn":
            c = self.pur(t)
            nm = a[0]
            if nm == "sqrt":
                x = g(a[1], "R")
                self.ax.append(z3.Or(x < 0, z3.And(c >= 0, c * c == x)))
            elif nm == "exp":
                x = g(a[1], "R")
                self.ax.append(c > 0)
                self.ax.append(c >= 1 + x)
                self.ax.append(z3.Implies(x <= 0, c <= 1))
            elif nm in ("sin", "cos"):
                self.ax.append(z3.And(c >= -1, c <= 1))
                other = _mk("fn", ("cos" if nm == "sin" else "sin", a[1]), "R")
                if other in self.pure or other in self.memo:
                    o = self.pur(other)
                    self.ax.append(c * c + o * o == 1)
            elif nm == "acos":
                self.ax.append(z3.And(c >= 0, c <= self.lit(Fraction(3141592653589794, 10 ** 15), "R")))
            elif nm == "cbrt":
                x = g(a[1], "R")
                self.ax.append(c * c * c == x)
            return c
        if op == "sel":
            c = self.pur(t)
            idx = tuple(a[1:])
            if a[0] in BOUNDS:
                lo, hi = BOUNDS[a[0]]
                self.ax.append(z3.And(c >= g(lo, "I"), c < g(hi, "I")))
            if self.congruence:
                for t2 in self.sels.setdefault(a[0], []):
                    i2 = t2.args[1:]
                    same = [self.go(x, sort_of(x)) == self.go(y, sort_of(y)) for x, y in zip(idx, i2)]
                    self.ax.append(z3.Implies(z3.And(same) if len(same) > 1 else same[0], c == self.pur(t2)))
                    if a[0] in INJECTIVE:
                        self.ax.append(z3.Implies(c == self.pur(t2), same[0]))
                self.sels[a[0]].append(t)
            else:
                self.sels.setdefault(a[0], []).append(t)
            return c
        if op in ("sum", "fold"):
            return self.pur(t)
        if op == "forall":
            return self.pur(t)
        if op == "not":
            return z3.Not(g(a[0]))
        if op == "and":
            return z3.And([g(x) for x in a])
        if op == "or":
            return z3.Or([g(x) for x in a])
        if op == "iff":
            return g(a[0]) == g(a[1])
        if op in ("lt0", "le0", "eq0"):
            x = g(a[0])
            z = self.lit(0, a[0].sort)
            return x < z if op == "lt0" else x <= z if op == "le0" else x == z
        if op == "ite":
            return z3.If(g(a[0]), g(a[1], t.sort), g(a[2], t.sort))
        raise Unsupported("smt " + op)


def conjuncts(c, out):
    if type(c) is Term and c.op == "and":
        for x in c.args:
            conjuncts(x, out)
    else:
        out.append(c)
    return out


def instantiate(facts, goal):
    """ground instances of bounded foralls at the integer terms used as array indices and as bounds"""
    fas = [f for f in facts if type(f) is Term and f.op == "forall"]
    deep = [f for f in facts if type(f) is Term and f.op != "forall" and atoms(f, lambda y: y.op == "forall")]
    if not fas and not deep:
        return [], {}
    cand = {}
    base = [x for x in facts if type(x) is Term and x.op != "forall"] + ([goal] if type(goal) is Term else [])

    def isground(i):
        return not (atoms(i, lambda y: y.op == "bv") if type(i) is Term else False)

    at = {}
    for s in atoms(base, lambda y: y.op == "sel"):
        for n, i in enumerate(s.args[1:], 1):
            if sort_of(i) == "I" and isground(i):
                cand[i] = 1
                at.setdefault((s.args[0], n), {})[i] = 1
    for s in atoms(base, lambda y: y.op == "var" and y.sort == "I"):
        cand[s] = 1
    out = []
    defs = {}
    allf = {}
    for f in fas:
        allf[f] = 1
    for f in deep:
        for q in atoms(f, lambda y: y.op == "forall"):
            allf[q] = 1
    cl = list(cand)[:40]
    for f in allf:
        b, lo, hi, body = f.args
        more = {}
        for s in atoms(body, lambda y: y.op == "sel") if type(body) is Term else ():
            for n, i in enumerate(s.args[1:], 1):
                d = sub(i, b) if type(i) is Term and i is not b and occurs(b, i) else None
                if d is None or type(d) is Term and occurs(b, d):
                    continue
                for g in at.get((s.args[0], n), ()):  # the index is the binder plus d
                    more[sub(g, d)] = 1
        for i in cl + [x for x in list(more)[:12] if x not in cand] + [lo, sub(hi, 1)]:
            inst = or_(lt(i, lo), le(hi, i), subst(body, {b: i}))
            out.append(inst if f in fas else implies(f, inst))
    return out, defs


def _split_conds(t, limit=12):
    cs = {}
    for s in atoms(t, lambda y: y.op == "ite"):
        cs[s.args[0]] = 1
    return list(cs)


class Result:
    __slots__ = ("status", "backend", "model", "reason", "seconds")

    def __init__(self, status, backend, model=None, reason="", seconds=0.0):
        self.status, self.backend, self.model, self.reason, self.seconds = status, backend, model, reason, seconds


def z3_check(facts, neg_goal, timeout_ms, want_model=False, tactic=None):
    STATS["z3_n"] += 1
    t0 = time.time()
    tr = Tr()
    fs = [tr.go(f, "B") for f in facts]
    ng = tr.go(neg_goal, "B")
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", int(timeout_ms))
    for f in fs:
        s.add(f)
    s.add(ng)
    # axioms may be extended while translating: all collected now
    for x in tr.ax:
        s.add(x)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS["z3_s"] += dt
    m = None
    if r == z3.sat and want_model:
        m = extract_model(tr, s.model())
    return str(r), m, dt


def _val(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except Exception:
        pass
    return None


def extract_model(tr, m):
    out = {"vars": {}, "sels": {}}
    for (name, sort), c in tr.consts.items():
        if name.startswith("@p") or name.startswith("#"):
            continue
        v = _val(m.eval(c, model_completion=True))
        if v is not None:
            out["vars"][name] = v
    for arr, ts in tr.sels.items():
        for t in ts:
            idx = tuple(_val(m.eval(tr.go(i, sort_of(i)), model_completion=True)) for i in t.args[1:])
            v = _val(m.eval(tr.pure[t], model_completion=True))
            if v is not None and None not in idx:
                out["sels"].setdefault(arr, {})[idx] = v
    return out


def cvc5_check(facts, neg_goal, timeout_ms):
    """second back end, through SMT-LIB text"""
    import cvc5
    STATS["cvc5_n"] += 1
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    for f in facts:
        s.add(tr.go(f, "B"))
    s.add(tr.go(neg_goal, "B"))
    for x in tr.ax:
        s.add(x)
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setOption("nl-cov", "true")
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = ip.getSymbolManager()
        res = "unknown"
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm)
            o = str(o).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
    except Exception:
        res = "unknown"
    STATS["cvc5_s"] += time.time() - t0
    return res


_feas = {}


def relevant(facts, goal):
    """facts sharing variables (transitively) with the goal"""
    if len(facts) <= 6:
        return facts
    fv = {}

    def vs(t):
        r = fv.get(t)
        if r is None:
            r = frozenset(x.id if x.op == "var" else x.args[0] for x in atoms(t, lambda y: y.op in ("var", "sel")))
            fv[t] = r
        return r
    cur = set(vs(goal)) if type(goal) is Term else set()
    rest = [f for f in facts if type(f) is Term]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            v = vs(f)
            if v & cur or not v:
                out.append(f)
                if not v <= cur:
                    cur |= v
                    ch = True
            else:
                nr.append(f)
        rest = nr
    return out


def feasible(pc, cond, timeout_ms=300):
    """False only if pc & cond is proved unsatisfiable"""
    if cond is False:
        return False
    if type(cond) is Term:
        facts = []
        for p in pc:
            conjuncts(p, facts)
        fset = set(facts)
        for c in conjuncts(cond, []):
            n = not_(c)
            if type(n) is Term and n in fset:
                return False
        rel = relevant(facts, cond)
        key = (frozenset(x.id for x in rel), cond.id)
        r = _feas.get(key)
        if r is not None:
            return r
        STATS["feas_n"] += 1
        t0 = time.time()
        try:
            res = None
            hard = bool(atoms(cond, lambda y: y.op in ("inv", "fn")))
            if hard:
                c2, side = norm_cond(cond, rel)
                if c2 is False:
                    res = "unsat"
                elif c2 is True:
                    res = "sat"
            if res is None:
                inst, _ = instantiate(rel, cond)
                res, _, _ = z3_check(rel + [i for i in inst if i is not True], cond, timeout_ms)
                if res == "unknown" and not hard:
                    c2, side = norm_cond(cond, rel)
                    if c2 is False:
                        res = "unsat"
        except Unsupported:
            res = "unknown"
        STATS["feas_s"] += time.time() - t0
        r = res != "unsat"
        _feas[key] = r
        return r
    return True


def entails(pc, cond, timeout_ms=300):
    """True only if pc => cond is proved"""
    if cond is True:
        return True
    if cond is False:
        return not feasible(pc, True)
    return not feasible(pc, not_(cond), timeout_ms)


def norm_cond(c, facts):
    """simplify real comparisons in c by the ring normaliser, discharging side conditions from facts"""
    if type(c) is not Term:
        return c, []
    if c.op in ("and", "or"):
        xs = []
        for x in c.args:
            y, _ = norm_cond(x, facts)
            xs.append(y)
        return (and_(*xs) if c.op == "and" else or_(*xs)), []
    if c.op == "not":
        y, _ = norm_cond(c.args[0], facts)
        return not_(y), []
    if c.op in ("lt0", "le0", "eq0") and c.args[0].sort == "R":
        t, side = ring.normalise(c.args[0])
        if t is c.args[0]:
            return c, []
        for s in side:
            if not side_ok(facts, s):
                return c, []
        z = Fraction(0)
        if c.op == "lt0":
            return lt(t, z), []
        if c.op == "le0":
            return le(t, z), []
        return eq(t, z), []
    return c, []


_side = {}


def side_ok(facts, s, timeout_ms=2000):
    if type(s) is not Term:
        return bool(s)
    if s in facts:
        return True
    if s.op == "forall":
        b, lo, hi, body = s.args
        k = fresh("k", "I")
        return side_ok(facts + [x for x in (le(lo, k), lt(k, hi)) if x is not True], subst(body, {b: k}), timeout_ms)
    key = (frozenset(f.id for f in facts if type(f) is Term), s.id)
    r = _side.get(key)
    if r is None:
        r = structural(s)
        if not r:
            try:
                res, _, _ = z3_check(relevant(facts, s), not_(s), timeout_ms)
                r = res == "unsat"
            except Unsupported:
                r = False
        _side[key] = r
    return r


def structural(c):
    """cheap sign facts: sums of even powers and non-negative functions"""
    if type(c) is not Term:
        return bool(c)
    if c.op in ("le0", "lt0"):
        t = neg(c.args[0])
        return _pos(t, c.op == "lt0")
    return False


def _pos(t, strict):
    if type(t) is not Term:
        return t > 0 if strict else t >= 0
    if t.op == "lin":
        s = t.args[0] > 0
        if t.args[0] < 0:
            return False
        for a, k in t.args[1]:
            if k < 0 or not _pos(a, False):
                return False
            s = s or _pos(a, True)
        return s or not strict
    if t.op == "mul":
        if strict:
            return all(_pos(a, True) for a, p in t.args)
        return all(p % 2 == 0 or _pos(a, False) for a, p in t.args)
    if t.op == "fn":
        if t.args[0] == "exp":
            return True
        if t.args[0] == "sqrt":
            return not strict or _pos(t.args[1], True)
    if t.op == "inv":
        return _pos(t.args[0], strict) and not strict or _pos(t.args[0], True)
    if t.op == "ite":
        # |x|
        c, a, b = t.args
        if not strict and c.op in ("lt0", "le0") and type(b) is Term and c.args[0] is b and type(a) is Term and a is neg(b):
            return True
        return _pos(a, strict) and _pos(b, strict)
    return False


def unify_binders(facts, goal, budget):
    """sums/folds that are equal because their bodies are provably equal for every index (induction)"""
    bs = atoms([goal] + [f for f in facts if type(f) is Term], lambda y: y.op in ("sum", "fold"))
    gb = set(x.id for x in atoms(goal, lambda y: y.op in ("sum", "fold")))
    m = {}
    pairs = []
    for i, x in enumerate(bs):
        for y in bs[i + 1:]:
            if x.op == y.op and (x.id in gb or y.id in gb) and x.sort == y.sort:
                pairs.append((x, y) if x.id < y.id else (y, x))
    for x, y in pairs[:60]:
        if y in m or x in m:
            continue
        if same_binder(facts, x, y, budget):
            m[y] = x
    return m


def same_binder(facts, x, y, budget):
    if x.op == "sum":
        bx, nx, ex = x.args
        by, ny, ey = y.args
        if nx is not ny and eq(nx, ny) is not True and not entails(facts, eq(nx, ny)):
            return False
        k = fresh("k", "I")
        e1, e2 = subst(ex, {bx: k}), subst(ey, {by: k})
        f2 = facts + [le(0, k), lt(k, nx)]
        return prove(f2, eq(e1, e2), timeout_ms=1500, depth=budget - 1, cex=False).status == "proved"
    wx, nx, ix, sx, kx, tx = x.args
    wy, ny, iy, sy, ky, ty = y.args
    if len(sx) != len(sy) or nx is not ny and not entails(facts, eq(nx, ny)):
        return False
    import itertools
    perms = [p for p in itertools.permutations(range(len(sy))) if p[wx] == wy] if len(sy) <= 4 else [tuple(range(len(sy)))]
    for p in perms:
        if any(sx[i].sort != sy[p[i]].sort for i in range(len(sx))):
            continue
        if not all(entails(facts, eq(a, iy[p[i]])) for i, a in enumerate(ix)):
            continue
        k = fresh("k", "I")
        vs = [fresh("s", s.sort) for s in sx]
        mx = {kx: k}
        my = {ky: k}
        for i, v in enumerate(vs):
            mx[sx[i]] = v
            my[sy[p[i]]] = v
        f2 = facts + [le(0, k), lt(k, nx)]
        if all(prove(f2, eq(subst(tx[i], mx), subst(ty[p[i]], my)), timeout_ms=1500, depth=budget - 1, cex=False).status == "proved"
               for i in range(len(tx))):
            return True
    return False


_EXT = {}


_FB = {}


def _freebv(t):
    if type(t) is not Term:
        return frozenset()
    r = _FB.get(t.id)
    if r is not None:
        return r[1]
    if t.op == "bv":
        out = frozenset([t])
    else:
        out = frozenset().union(*[_freebv(c) for c in _children(t)] or [frozenset()])
        if t.op in ("sum", "forall"):
            out -= {t.args[0]}
        elif t.op == "fold":
            out -= set(t.args[3]) | {t.args[4]}
    _FB[t.id] = (t, out)
    return out


def _free_of_bound(x):
    return not _freebv(x)



def _leaves(t, out, s):
    if type(t) is Term and t.op == "ite" and occurs(s, t):
        _leaves(t.args[1], out, s)
        _leaves(t.args[2], out, s)
    elif not any(t is x or t == x for x in out):
        out.append(t)
    return out


def extremum(x):
    """facts about a fold that is a running minimum or maximum: it bounds every element and is one of them"""
    if x.id in _EXT:
        return _EXT[x.id][1]
    out = []
    w, n, init, ss, k, steps = x.args
    s, t, a = ss[w], steps[w], init[w]
    alone = not any(occurs(y, t) for y in ss if y is not s)
    if alone and x.sort in ("R", "I") and type(t) is Term and not atoms(t, lambda y: y.op in ("sum", "fold")):
        ls = [y for y in _leaves(t, [], s) if y is not s]
        if ls and not any(type(y) is Term and occurs(s, y) for y in ls):
            j, v = fresh("k", "I"), fresh("s", x.sort)
            m = {k: j, s: v}
            tt = subst(t, m)
            pre = [le(0, j), lt(j, n)]
            for cmp in (le, lambda p, q: le(q, p)):
                if not entails(pre, cmp(tt, v), 1000):
                    continue
                out.append(cmp(x, a))
                for y in ls:
                    yy = subst(y, m) if type(y) is Term else y
                    if entails(pre, cmp(tt, yy), 1000):
                        q = fresh("k", "I")
                        out.append(forall(q, 0, n, cmp(x, subst(y, {k: q}) if type(y) is Term else y)))
                e = fresh("at", "I")
                out.append(or_(eq(x, a), and_(le(0, e), lt(e, n), or_(*[eq(x, subst(y, {k: e}) if type(y) is Term else y) for y in ls]))))
                break
    _EXT[x.id] = (x, out)
    return out


def onehit(x, facts, cands):
    """a sum whose terms vanish at all but one position, or at all"""
    if x.op == "fold":
        # the last write wins: the initial value survives when the position is not hit
        i, n, inits, ss, k, steps = x.args
        zero, st, t = inits[i], ss[i], steps[i]
        def written(t):
            # the condition under which the step writes, and what it writes
            if t is st:
                return False, zero
            if type(t) is Term and t.op == "ite" and occurs(st, t):
                c, a, b = t.args
                ca, va = written(a)
                cb, vb = written(b)
                return or_(and_(c, ca), and_(not_(c), cb)), va if cb is False else vb if ca is False else ite(c, va, vb)
            return True, t

        c, v = written(t)
        if type(v) is Term and any(occurs(y, v) for y in ss) or type(c) is Term and any(occurs(y, c) for y in ss):
            return None
        return _onehit(facts, cands, n, k, c, v, zero)
    k, n, body = x.args
    c, v, w = body.args
    if not (type(w) is not Term and w == 0):
        if not (type(v) is not Term and v == 0):
            return None
        c, v = not_(c), w
    return _onehit(facts, cands, n, k, c, v, Fraction(0) if x.sort == "R" else 0)


def _onehit(facts, cands, n, k, c, v, zero):
    q = fresh("k", "I")
    at = lambda t, i: subst(t, {k: i}) if type(t) is Term else t
    pre = facts + [le(0, q), lt(q, n), at(c, q)]
    inst, _ = instantiate([f for f in pre if type(f) is Term], at(c, q))
    pre = pre + [i for i in inst if i is not True]
    if entails(pre, False, 500):
        return zero
    solved = []
    for e in atoms(at(c, q), lambda y: y.op == "eq0" and y.args[0].sort == "I"):
        # positions at which a single unknown can hit
        h, d = _lin(e.args[0])
        if d.get(q) in (1, -1):
            j = scale(sub(e.args[0], scale(q, d[q])), -d[q])
            if type(j) is not Term or not occurs(q, j):
                solved.append(j)
    for j in solved + [j for j in cands if j not in solved]:
        if entails(pre, eq(q, j), 500):
            return ite(and_(le(0, j), lt(j, n), at(c, j)), at(v, j), zero)
    return None


def decide(goal, facts):
    """the goal with the case distinctions on integers that the facts settle"""
    seen = set()
    for _ in range(40):
        c = None
        for x in atoms(goal, lambda y: y.op == "ite"):
            for a in atoms(x.args[0], lambda y: y.op in ("eq0", "le0", "lt0") and y.args[0].sort == "I"):
                if a not in seen and _free_of_bound(a):
                    c = a
                    break
            if c is not None:
                break
        if c is None:
            return goal
        seen.add(c)
        ints = [f for f in facts if not (type(f) is Term and any(y.sort == "R" for y in atoms(f, lambda y: True)))]
        if entails(ints, c, 300):
            goal = subst(goal, {c: True})
        elif entails(ints, not_(c), 300):
            goal = subst(goal, {c: False})
        if type(goal) is not Term:
            return goal
    return goal


_opaque = {}


def opaque(t):
    """t with a name for each sine and cosine of a term with case distinctions"""
    mp = {}
    for x in atoms(t, lambda y: y.op == "fn" and y.args[0] in ("sin", "cos") and _free_of_bound(y) and bool(atoms(y.args[1:], lambda z: z.op == "ite"))):
        if x not in _opaque:
            _opaque[x] = fresh("trig", "R")
        mp[x] = _opaque[x]
    return subst(t, mp) if mp else t


def unify(goal, facts, t0):
    """the goal with one of two applications of exp, sin, cos or sqrt whose arguments are equal fractions"""
    by = {}
    for x in atoms(goal, lambda y: y.op == "fn" and len(y.args) == 2 and type(y.args[1]) is Term):
        if x.args[0] in ("exp", "sin", "cos", "sqrt") and _free_of_bound(x) and not any(atoms([x], lambda y: y.op in ("ite", "sum", "fold"))):
            by.setdefault(x.args[0], []).append(x)
    for xs in by.values():
        xs = sorted(xs, key=lambda y: y.id)[:6]
        for i in range(len(xs)):
            for j in range(i):
                a, b = xs[i].args[1], xs[j].args[1]
                if set(atoms(a, lambda y: y.op == "var")) != set(atoms(b, lambda y: y.op == "var")):
                    continue
                r = ring_eq(facts, sub(a, b), t0)
                if r is not None and r.status == "proved":
                    return subst(goal, {xs[i]: xs[j]})
    return goal


def redundant(goal, facts):
    """the goal without the case distinctions on reals whose cases agree whenever the other one applies
    (a bound that is never exceeded)"""
    normal = None
    for x in sorted(atoms(goal, lambda y: y.op == "ite" and y.sort == "R"), key=lambda y: y.id)[:6]:
        c, a, b = x.args
        if type(c) is not Term or c.op not in ("lt0", "le0", "eq0") or c.args[0].sort != "R" or not _free_of_bound(x):
            continue
        d = sub(a, b)
        if any(atoms([y for y in (c, d) if type(y) is Term], lambda y: y.op in ("sum", "fold"))):
            continue
        n, _ = norm_cond(c, facts)
        e, _ = norm_cond(eq(d, Fraction(0)), facts)
        if normal is None:
            normal = facts + [f for f in (norm_cond(g, facts)[0] for g in facts if type(g) is Term and g.op in ("lt0", "le0") and not any(atoms([g], lambda y: y.op in ("sum", "fold", "ite")))) if type(f) is Term and f not in facts]
        for w, o, v in ((not_(n), not_(c), a), (n, c, b)):
            try:
                if e is True or z3_check(relevant(normal, or_(w, e)) + [w, o], not_(e), 1500)[0] == "unsat":
                    return subst(goal, {x: v})
            except Unsupported:
                pass
    return goal


def prove(pc, goal, timeout_ms=8000, depth=3, cex=True):
    """-> Result"""
    t0 = time.time()
    if goal is True:
        return Result("proved", "simplifier")
    facts = []
    for p in pc:
        conjuncts(p, facts)
    facts = [f for f in facts if f is not True]
    if any(f is False for f in facts):
        return Result("proved", "simplifier (dead path)")
    if type(goal) is Term and goal in set(facts):
        return Result("proved", "simplifier")
    if type(goal) is Term and goal.op == "and":
        worst = None
        backs = []
        for g in goal.args:
            r = prove(pc, g, timeout_ms, depth, cex)
            if r.status == "refuted":
                return r
            if r.status != "proved":
                worst = r
            backs.append(r.backend)
        if worst:
            return worst
        return Result("proved", max(backs, key=lambda b: ("simplifier", "ring", "z3", "cvc5").index(b.split()[0]) if b.split()[0] in ("simplifier", "ring", "z3", "cvc5") else 0), seconds=time.time() - t0)
    if type(goal) is Term and goal.op == "forall":
        b, lo, hi, body = goal.args
        k = fresh("k", "I")
        return prove(pc + [le(lo, k), lt(k, hi)], subst(body, {b: k}), timeout_ms, depth, cex)
    if type(goal) is Term and goal.op == "or":
        # assume the negation of all but the most interesting disjunct
        pass
    have = set(facts)
    for x in atoms([goal] + facts if type(goal) is Term else facts, lambda y: y.op == "fold"):
        if not _free_of_bound(x):
            continue
        facts = facts + [f for f in extremum(x) if f is not True and f not in have]
    tried = set()
    while type(goal) is Term:
        xs = []
        for x in atoms(goal, lambda y: y.op in ("sum", "fold")):
            body = x.args[2] if x.op == "sum" else x.args[5][x.args[0]]
            if x not in tried and _free_of_bound(x) and type(body) is Term and body.op == "ite":
                xs.append(x)
        if not xs:
            break
        x = next((x for x in xs if not any(y is not x and occurs(x, y) for y in xs)), xs[0])
        tried.add(x)
        cands = [y for y in atoms(goal, lambda y: y.op == "var" and y.sort == "I")]
        v = onehit(x, facts, cands[:6])
        if v is not None:
            goal = subst(goal, {x: v})
    if goal is True:
        return Result("proved", "simplifier", seconds=time.time() - t0)
    ng = not_(goal)
    # ring normaliser for equations
    if type(goal) is Term and goal.op == "eq0" and goal.args[0].sort == "R":
        g2 = opaque(goal.args[0])
        r = ring_eq(facts, g2, t0) if g2 is not goal.args[0] else None
        if r is not None:
            return r
        r = ring_eq(facts, goal.args[0], t0)
        if r is not None:
            return r
        g2 = unify(goal, facts, t0)
        if g2 is not goal:
            return prove(facts, g2, timeout_ms, depth, cex)
        g2 = decide(goal, facts)
        if g2 is not goal:
            return prove(facts, g2, timeout_ms, depth, cex)
        if depth > 0 and ring_split(facts, goal):
            return Result("proved", "ring", seconds=time.time() - t0)
        g2 = redundant(goal, facts) if depth > 2 else goal
        if g2 is not goal:
            return prove(facts, g2, timeout_ms, depth, cex)
    if type(goal) is Term and goal.op in ("lt0", "le0"):
        if structural(goal):
            return Result("proved", "simplifier (sign)", seconds=time.time() - t0)
        g2, _ = norm_cond(goal, facts)
        if g2 is True:
            return Result("proved", "ring", seconds=time.time() - t0)
        if type(g2) is Term and structural(g2):
            return Result("proved", "ring", seconds=time.time() - t0)
    if type(goal) is not Term and goal is False:
        ng = True
    rel = relevant(facts, goal) if type(goal) is Term else facts
    inst, _ = instantiate(rel, goal)
    inst = [i for i in inst if i is not True]
    if type(ng) is Term:
        rough = coarse(rel + inst, ng)
        if rough:
            try:
                if z3_check(rough[0], rough[1], min(timeout_ms, 1500))[0] == "unsat":
                    return Result("proved", "z3", seconds=time.time() - t0)
            except Unsupported:
                pass
            mm = settle(rel, [goal])
            fs2 = [assume(f, mm) if type(f) is Term and f not in mm else f for f in rel + inst] if mm else rel + inst
            goal2 = assume(goal, mm) if mm else goal
            if goal2 is True:
                return Result("proved", "z3", seconds=time.time() - t0)
            rough = flatten(fs2, goal2) if type(goal2) is Term else None
            if rough:
                try:
                    if z3_check(rough[0], rough[1], min(timeout_ms, 1500))[0] == "unsat":
                        return Result("proved", "z3", seconds=time.time() - t0)
                except Unsupported:
                    pass
    try:
        res, m, dt = z3_check(rel + inst, ng, min(timeout_ms, 2000) if depth > 1 else timeout_ms, want_model=cex)
    except Unsupported as e:
        return Result("unknown", "smt", reason=str(e))
    if res == "unsat":
        return Result("proved", "z3", seconds=time.time() - t0)
    first_model = m
    # binders
    if depth > 0 and type(goal) is Term and atoms(goal, lambda y: y.op in ("sum", "fold")):
        mp = unify_binders(facts, goal, depth)
        if mp:
            g2 = subst(goal, mp)
            f2 = [subst(f, mp) for f in facts]
            r = prove(f2, g2, timeout_ms, depth - 1, cex)
            if r.status == "proved":
                r.backend = r.backend + " + induction"
                return r
    # case split on if-then-else conditions for equations
    if depth > 0 and type(goal) is Term and goal.op == "eq0" and goal.args[0].sort == "R":
        cs = _split_conds(goal)
        if cs and len(cs) <= 10 and assume(goal, {cs[0]: True}) is not goal and assume(goal, {cs[0]: False}) is not goal:
            c = cs[0]
            rs = []
            for v in (True, False):
                cc = c if v else not_(c)
                if not feasible(facts, cc):
                    continue
                g2 = assume(goal, {c: v})
                f2 = facts + [cc]
                r = prove(f2, g2, timeout_ms, depth if len(cs) > 1 else depth, cex)
                rs.append(r)
                if r.status == "refuted":
                    break
            if rs and all(r.status == "proved" for r in rs):
                return Result("proved", "ring" if all("ring" in r.backend or "simpl" in r.backend for r in rs) else "z3", seconds=time.time() - t0)
            for r in rs:
                if r.status == "refuted":
                    return r
    if res == "unknown" and depth > 1:
        try:
            res, m, dt = z3_check(rel + inst, ng, timeout_ms, want_model=cex)
            if res == "unsat":
                return Result("proved", "z3", seconds=time.time() - t0)
            if res == "unknown":
                res, m, dt = z3_check(rel + inst, ng, timeout_ms, want_model=cex, tactic="qfnra-nlsat") if not _hasint(rel + inst, ng) else (res, m, dt)
                if res == "unsat":
                    return Result("proved", "z3 (nlsat)", seconds=time.time() - t0)
            if res == "unknown":
                if cvc5_check(rel + inst, ng, timeout_ms) == "unsat":
                    return Result("proved", "cvc5", seconds=time.time() - t0)
        except (Unsupported, z3.Z3Exception):
            pass
    if m is None:
        m = first_model
    if res == "sat":
        return Result("refuted", "z3", model=m, reason="sat", seconds=time.time() - t0)
    return Result("unknown", "z3", model=m, reason=res, seconds=time.time() - t0)


def coarse(facts, ng):
    """replace outermost sqrt terms by unknown nonnegative numbers: what holds for those holds for the roots"""
    m, extra = {}, []
    for x in atoms([f for f in facts + [ng] if type(f) is Term], lambda y: y.op == "fn" and y.args[0] == "sqrt"):
        if x not in m and _free_of_bound(x):
            v = fresh("root", "R")
            m[x] = v
            extra.append(le(0, v))
    if not m:
        return None
    return [subst(f, m) if type(f) is Term else f for f in facts] + extra, subst(ng, m)


_FLAT = ("ite", "inv", "fn", "fold", "sum", "sel")


def _outer(t, out):
    """outermost numeric subterms that are not sums or products"""
    if type(t) is not Term:
        return
    if t.sort == "R" and t.op in _FLAT:
        out[t] = None
        return
    for z in _children(t):
        _outer(z, out)


def settle(facts, terms):
    """truth values of integer conditions of if-then-else terms that the integer facts decide"""
    whole = lambda t: not atoms(t, lambda y: y.sort == "R" or y.op in ("forall", "fold", "sum", "bv"))
    known = [f for f in facts if type(f) is Term and whole(f)]
    m = {}
    cs = []
    for x in atoms([t for t in terms if type(t) is Term], lambda y: y.op == "ite"):
        c = x.args[0]
        if type(c) is Term and c not in cs and whole(c) and _free_of_bound(c):
            cs.append(c)
    for c in cs[:24]:
        if entails(known, c, 200):
            m[c] = True
        elif entails(known, not_(c), 200):
            m[c] = False
    return m


def flatten(facts, goal):
    """the goal over unknown numbers, of which only signs and the facts that mention them are kept"""
    out = {}
    _outer(goal, out)
    out = {x: v for x, v in out.items() if _free_of_bound(x)}
    if not out or len(out) > 12 or all(x.op == "sel" for x in out):
        return None
    m = {x: fresh("flat", "R") for x in out}
    fs = []
    for x, v in m.items():
        if x.op != "sel" and x.op != "fold":
            near = [f for f in relevant(facts, lt(0, x)) if type(f) is Term and not atoms(f, lambda y: y.op in ("forall", "fold", "sum"))]
            if structural(lt(0, x)) or entails(near, lt(0, x), 300):
                fs.append(lt(0, v))
            elif structural(le(0, x)) or entails(near, le(0, x), 300):
                fs.append(le(0, v))
    keys = list(m)
    for f in facts:
        if type(f) is Term and f.op != "forall" and any(occurs(x, f) for x in keys):
            g = subst(f, m)
            if not atoms(g, lambda y: y.op in ("fn", "inv", "fold", "sum", "forall")):
                fs.append(g)
        elif type(f) is Term and not atoms(f, lambda y: y.op in ("forall", "fold", "sum", "fn", "inv")) and len(atoms(f, lambda y: True)) < 12:
            fs.append(f)
    return fs, subst(not_(goal), m)


def _hasint(facts, ng):
    return bool(atoms([f for f in facts + [ng] if type(f) is Term], lambda y: y.sort == "I"))


def assume(t, m):
    """replace condition terms (and their negations) by truth values"""
    mm = {}
    for c, v in m.items():
        mm[c] = v
        n = not_(c)
        if type(n) is Term:
            mm[n] = not v
    return subst(t, mm)


def ring_split(facts, goal, budget=5):
    """equation proved by the ring normaliser in every case of its if-then-else conditions"""
    cs = _split_conds(goal)
    if not cs or budget == 0:
        return False
    c = cs[0]
    for v in (True, False):
        cc = c if v else not_(c)
        g2 = assume(goal, {c: v})
        if g2 is True:
            continue
        if not feasible(facts, cc):
            continue
        if type(g2) is not Term or g2.op != "eq0":
            return False
        f2 = facts + [cc]
        if ring_eq(f2, g2.args[0], 0) is None and not ring_split(f2, g2, budget - 1):
            return False
    return True


def ring_eq(facts, t, t0):
    STATS["ring_n"] += 1
    r0 = time.time()

    def decide(c):
        if c in facts:
            return True
        n = not_(c)
        if type(n) is Term and n in facts:
            return False
        return None
    z, side = ring.is_zero(t, decide)
    STATS["ring_s"] += time.time() - r0
    if z is True:
        for s in side:
            if not side_ok(facts, s):
                return None
        return Result("proved", "ring", seconds=time.time() - t0)
    return None
