"""Loop summaries: a generic iteration is executed symbolically, the recurrences of everything it
changes are solved (invariant, affine, sum, last value, quantified flag, element-wise / scatter array
update, general fold), and the code after the loop continues from the solved state.
"""
import math
from fractions import Fraction
from terms import *
from terms import _lin, _unlin, _fresh
import smt
import symex
from symex import Ptr, PIte, FnPtr, Pack, UNDEF, IDX, Obj, State, Ctl, LoopCtx, SummaryFail, MergeFail, NULL, DEAD


class Item:
    __slots__ = ("key", "kind", "ty", "init", "var", "step", "closed", "obj", "arr", "base", "unit")
    # kind: I R B P(pointer into obj) A(array field)


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is Term:
        return False
    if ta is Ptr or ta is FnPtr:
        return a == b
    if ta is PIte:
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is Pack:
        return all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.parts, b.parts)) and len(a.parts) == len(b.parts)
    return a == b


def mkitem(eng, key, ty, init, new):
    it = Item()
    it.key, it.ty, it.init = key, ty, init
    it.step = it.closed = it.obj = it.arr = None
    if type(init) is Ptr or type(new) is Ptr or ty == "p":
        if type(init) is Ptr and type(new) is Ptr and init.obj == new.obj:
            it.kind, it.obj = "P", init.obj
            it.base = init.off
            it.unit = gcd_of(sub(new.off, init.off)) or 1
            it.init = 0
            it.var = fresh("X", "I")
            return it
        # a pointer that does not stay in one object: taken as indeterminate at the head of the loop,
        # which any use before the next write reports
        it.kind, it.var, it.closed = "D", DEAD, DEAD
        return it
    if type(init) in (PIte, Pack, tuple, FnPtr):
        raise SummaryFail("structured value carried by the loop")
    if type(init) is float:
        raise SummaryFail("non-finite value carried by the loop")
    it.kind = "R" if ty in ("d", "f", "x") else "B" if ty == "i1" else "I"
    if it.kind == "I" and type(new) is Term and new.sort == "R":
        it.kind = "R"
    it.var = fresh("X", it.kind)
    if init is UNDEF or init is None:
        it.init = fresh("undef", it.kind)
    return it


def gcd_of(t):
    """a common divisor of every value of the integer term"""
    if type(t) is not Term:
        return abs(t)
    if t.op == "lin":
        g = abs(t.args[0])
        for a, k in t.args[1]:
            g = math.gcd(g, k * gcd_of(a))
        return g
    if t.op == "ite":
        return math.gcd(gcd_of(t.args[1]), gcd_of(t.args[2]))
    return 1


def exdiv(t, u):
    if u == 1:
        return t
    if type(t) is not Term:
        if t % u:
            raise SummaryFail("pointer step")
        return t // u
    if t.op == "lin":
        if t.args[0] % u:
            raise SummaryFail("pointer step")
        r = t.args[0] // u
        for a, k in t.args[1]:
            if k % u == 0:
                r = add(r, scale(a, k // u), "I")
            else:
                g = math.gcd(k, u)
                r = add(r, scale(exdiv(a, u // g), k // g), "I")
        return r
    if t.op == "ite":
        return ite(t.args[0], exdiv(t.args[1], u), exdiv(t.args[2], u))
    raise SummaryFail("pointer step")


def wrapval(it, v):
    if it.kind == "D":
        return DEAD
    if it.kind == "P":
        return Ptr(it.obj, add(it.base, scale(v, it.unit) if type(v) is Term else v * it.unit))
    return v


def unwrap(it, v):
    if it.kind == "P":
        if type(v) is Ptr and v.obj == it.obj:
            return exdiv(sub(v.off, it.base), it.unit)
        raise SummaryFail("pointer carried by the loop changes object")
    if type(v) in (Ptr, PIte, Pack, tuple, FnPtr, float) or v is UNDEF or v is None:
        if v is UNDEF or v is None:
            return fresh("undef", it.kind)
        raise SummaryFail("unexpected value carried by the loop")
    if it.kind == "B" and type(v) is int:
        return bool(v)
    if it.kind == "I" and type(v) is bool:
        return int(v)
    if it.kind == "R" and type(v) is int:
        return Fraction(v)
    return v


def place(eng, st, env, items, vals):
    for it in items:
        if it.kind == "D" and DEAD.obj not in st.mem:
            o = Obj(DEAD.obj, 0)
            o.freed = True
            st.mem[DEAD.obj] = o
        v = vals[it]
        k = it.key
        if k[0] == "phi":
            env[k[1]] = wrapval(it, v)
        elif k[0] == "cell":
            o = st.w(k[1])
            c = o.cells.get(k[2])
            ty = it.ty
            if type(v) is Term and v.sort == "R" and ty not in ("d", "f"):
                ty = "d"
            o.cells[k[2]] = (wrapval(it, v), k[3], ty)
        else:
            o = st.w(k[1])
            if o.fields is None:
                ref = Obj(0, None)
                ref.stride = k[4]
                n = eng.arr_like(o, ref)
                n.id = o.id
                st.mem[k[1]] = n
                o = n
            o.fields[(k[2], k[3])] = (v, it.ty)


def collect(eng, pre, post, preenv, postenv, fn, h, known, orig):
    """items changed by one iteration and not yet carried"""
    out = []
    for p in fn.blocks[h]["phis"]:
        d = p[0]
        if ("phi", d) in known:
            continue
        if not same(preenv[d], postenv[d]):
            out.append(mkitem(eng, ("phi", d), p[1], preenv[d], postenv[d]))
    for oid, o1 in pre.mem.items():
        o2 = post.mem.get(oid)
        if o2 is None or o1 is o2:
            continue
        if o1.freed != o2.freed:
            raise SummaryFail("object freed in the loop")
        if o2.fields is None:
            if o1.fields is not None:
                raise SummaryFail("object representation")
            for off in set(o2.cells) | set(o1.cells):
                c1, c2 = o1.cells.get(off), o2.cells.get(off)
                if c2 is None:
                    raise SummaryFail("cell removed in the loop")
                key = ("cell", oid, off, c2[1])
                if key in known:
                    continue
                if c1 is None:
                    v1 = eng.zero(c2[2]) if o1.default is not None else UNDEF
                    # cells refined from wider ones
                    if o1.default is None and any(a < off + c2[1] and a + x[1] > off for a, x in o1.cells.items()):
                        v1 = eng.coerce(eng.load_odd(o1, off, c2[2], c2[1]), c2[2], c2[2])
                        raise SummaryFail("cell granularity changes in the loop")
                else:
                    if c1[1] != c2[1]:
                        raise SummaryFail("cell granularity changes in the loop")
                    v1 = c1[0]
                    if c1[2] != c2[2]:
                        v1 = eng.coerce(v1, c1[2], c2[2])
                if c1 is not None and same(v1, c2[0]):
                    continue
                out.append(mkitem(eng, key, c2[2], v1, c2[0]))
        else:
            o0 = orig.mem[oid]
            a1 = o0 if o0.fields is not None else eng.arr_like(o0, o2)
            for f, (b2, t2) in o2.fields.items():
                key = ("field", oid, f[0], f[1], o2.stride)
                if key in known:
                    continue
                b1 = a1.fields.get(f)
                v1 = b1[0] if b1 is not None else eng.base_body(a1, f[0], f[1], t2)
                if same(v1, b2) and not any(x[0] == "cell" and x[1] == oid for x in known):
                    continue
                if t2 == "p" or type(b2) in (Ptr, PIte):
                    raise SummaryFail("array of pointers updated in the loop")
                it = Item()
                it.key, it.ty, it.init = key, t2, v1
                it.kind = "A"
                it.step = it.closed = it.obj = None
                it.arr = "A!%d" % fresh("A", "I").id
                it.var = select(it.arr, [IDX], eng.sort(t2))
                out.append(it)
    return out


def getpost(eng, st, env, it):
    k = it.key
    if it.kind == "D":
        return DEAD
    if k[0] == "phi":
        return unwrap(it, env[k[1]])
    o = st.mem[k[1]]
    if k[0] == "cell":
        c = o.cells.get(k[2])
        if c is None or c[1] != k[3]:
            raise SummaryFail("cell lost")
        return unwrap(it, eng.coerce(c[0], c[2], it.ty) if c[2] != it.ty and not (type(c[0]) is Term and c[0].sort == "R") else c[0])
    b = o.fields[(k[2], k[3])][0]
    if type(b) in (Ptr, PIte):
        raise SummaryFail("array of pointers updated in the loop")
    return b


def skolem(t, mark, keep, K, memo):
    """variables introduced inside the iteration become functions of the iteration number"""
    if type(t) is not Term:
        return t
    vs = atoms(t, lambda y: y.op == "var" and "!" in y.args[0] and y not in keep and _num(y) > mark)
    if not vs:
        ss = atoms(t, lambda y: y.op == "sel" and y.args[0].startswith("sk!") and memo.get(y.args[0]) is None and _numn(y.args[0]) > mark)
    m = {}
    for v in vs:
        m[v] = select("sk!" + v.args[0], [K], v.sort)
    return subst(t, m)


def _num(v):
    try:
        return int(v.args[0].rsplit("!", 1)[1])
    except ValueError:
        return 0


def _numn(n):
    try:
        return int(n.rsplit("!", 1)[1])
    except ValueError:
        return 0


def one_iteration(eng, fr, st, env, h, loop, ctl):
    ctx = LoopCtx(loop, fr)
    ctx.unroll = True
    inner = Ctl(frozenset([h]), loop.blocks, ctl.loops + (ctx,))
    outs = eng.run(fr, st, env, h, 0, inner)
    back = [o for o in outs if o[0] == "at" and o[3] == h]
    rest = [o for o in outs if not (o[0] == "at" and o[3] == h)]
    back = eng.merge_at(fr, back, None)
    return back, rest


def summarise(eng, fr, st, env, h, loop, ctl):
    fn = fr.fn
    base = st
    baselen = len(st.pc)
    if getattr(eng, "sumdepth", 0) > 4:
        raise SummaryFail("nesting")
    eng.sumdepth = getattr(eng, "sumdepth", 0) + 1
    try:
        return _summarise(eng, fr, st, env, h, loop, ctl, baselen)
    finally:
        eng.sumdepth -= 1


def _summarise(eng, fr, st, env, h, loop, ctl, baselen):
    fn = fr.fn
    items = []
    known = set()
    K = fresh("K", "I")
    # ---- discovery
    eng.quiet += 1
    try:
        for rnd in range(14):
            s = st.fork()
            e = list(env)
            vals = {it: it.var for it in items}
            place(eng, s, e, items, vals)
            s.assume(le(0, K))
            pre = s.fork()
            pree = list(e)
            plen = len(s.pc)
            mark = _fresh[0]
            try:
                back, rest = one_iteration(eng, fr, s, e, h, loop, ctl)
            except (Unsupported, MergeFail) as x:
                raise SummaryFail(str(x))
            if len(back) != 1:
                raise SummaryFail("%d ways round the loop" % len(back))
            _, ps, pe, _, _ = back[0]
            new = collect(eng, pre, ps, pree, pe, fn, h, known, st)
            if not new:
                break
            conv = {it.key[1] for it in new if it.kind == "A"}
            items = [it for it in items if not (it.key[0] == "cell" and it.key[1] in conv)]
            known = {it.key for it in items}
            for it in new:
                items.append(it)
                known.add(it.key)
                if it.kind == "A":
                    # all cells of this object now live in the array
                    pass
        else:
            raise SummaryFail("write set does not stabilise")
    finally:
        eng.quiet -= 1
    keep = {it.var for it in items if it.kind != "D"}
    keep.add(K)
    memo = {}
    for it in items:
        it.step = skolem(getpost(eng, ps, pe, it), mark, keep, K, memo)
    cont = [skolem(c, mark, keep, K, memo) for c in ps.pc[plen:]]
    exits = []
    for o in rest:
        exits.append(and_(*[skolem(c, mark, keep, K, memo) for c in o[1].pc[plen:]]))
    solve(eng, st, items, K, mark)
    eng.summaries.append((fn.dem, len(items)))
    cl = {it.var: it.closed for it in items if it.kind not in "AD"}
    arrs = {it.arr: it for it in items if it.kind == "A"}
    exits = [close(x, cl, arrs) for x in exits]
    cont = [close(x, cl, arrs) for x in cont]

    def vals_at(k):
        m = {K: k}
        out = {}
        for it in items:
            v = it.closed
            out[it] = subst(v, m) if type(v) is Term else v
        return out

    # ---- natural exit
    N = None
    nat = None
    facts = list(st.pc)
    for j, x in enumerate(exits):
        n = natural(x, K)
        if n is not None:
            n, extra = n
            N, nat = n, j
            if extra is not True:
                if not smt.feasible(tuple(facts), extra):
                    raise SummaryFail("loop never reaches its exit")
                st.assume(extra)
            if type(N) is Term and not smt.entails(st.pc, le(0, N)):
                N = ite(le(0, N), N, 0) if smt.feasible(st.pc, le(0, N)) else 0
            elif type(N) is not Term:
                N = max(N, 0)
            break
    if N is None and st.ghost.get("inv"):
        raise SummaryFail("no trip count")
    # conditions every completed iteration satisfies, beyond K < N
    cj = []
    for c in cont:
        smt.conjuncts(c, cj)
    cj = [c for c in cj if type(c) is Term and not (N is not None and natural(not_(c), K) is not None and smt.entails(st.pc + (le(0, K), lt(K, N)), c))]
    outs = []

    def allk(upto):
        k = fresh("k", "I")
        return [forall(k, 0, upto, subst(c, {K: k})) for c in cj]

    # ---- the body once more, in an arbitrary iteration, for the obligations inside it
    if not eng.quiet:
        s = st.fork()
        e = list(env)
        k = fresh("K", "I")
        s.assume(le(0, k))
        if N is not None:
            s.assume(lt(k, N))
        for f in allk(k):
            s.assume(f)
        place(eng, s, e, items, vals_at(k))
        try:
            one_iteration(eng, fr, s, e, h, loop, ctl)
        except (Unsupported, MergeFail) as x:
            raise SummaryFail(str(x))

    def exit_run(k, extra, expect_back):
        s = st.fork()
        e = list(env)
        for f in extra:
            s.assume(f)
        for f in allk(k):
            s.assume(f)
        place(eng, s, e, items, vals_at(k))
        eng.quiet += 0
        try:
            back, rest = one_iteration(eng, fr, s, e, h, loop, ctl)
        except (Unsupported, MergeFail) as x:
            raise SummaryFail(str(x))
        if back and not expect_back:
            for o in back:
                if smt.feasible(o[1].pc, True) and smt.z3_check([f for p in o[1].pc for f in smt.conjuncts(p, [])], True, 500)[0] != "unsat":
                    raise SummaryFail("exit of the loop not reached at the computed trip count")
        return rest

    if N is not None and len(exits) == 1:
        outs += exit_run(N, [], False)
    elif N is not None:
        E = fresh("E", "I")
        outs += exit_run(E, [le(0, E), lt(E, N)], True)
        outs += [o for o in exit_run(N, [], True)]
    else:
        E = fresh("E", "I")
        outs += exit_run(E, [le(0, E)], True)
    if not outs:
        raise SummaryFail("no way out of the loop")
    return outs


def inductive(eng, fr, st, env, h, loop, ctl, invs):
    """the loop cut at its head by the invariants stated in the contract: whatever an iteration may change
    is arbitrary there except for what the invariants say"""
    fn = fr.fn
    items, known = [], set()

    def inv(s, f, c):
        outs = eng.call_ptr(f, [c], s, fr.depth + 1)
        if len(outs) != 1 or outs[0][0] != "ret":
            raise SummaryFail("invariant does not evaluate to one value")
        return outs[0][1], eng.tobool(outs[0][2])

    for f, c, lab in invs:
        s, v = inv(st.fork(), f, c)
        eng.obligation(s, v, "loop invariant on entry: " + lab)
    eng.quiet += 1
    try:
        for rnd in range(14):
            s = st.fork()
            e = list(env)
            place(eng, s, e, items, {it: it.var for it in items})
            for f, c, lab in invs:
                s, v = inv(s, f, c)
                s.assume(v)
            pre, pree = s.fork(), list(e)
            try:
                back, rest = one_iteration(eng, fr, s, e, h, loop, ctl)
            except (Unsupported, MergeFail) as x:
                raise SummaryFail(str(x))
            new = []
            for o in back:
                for it in collect(eng, pre, o[1], pree, o[2], fn, h, known, st):
                    if it.key not in {x.key for x in new}:
                        new.append(it)
            if not new:
                break
            conv = {it.key[1] for it in new if it.kind == "A"}
            items = [it for it in items if not (it.key[0] == "cell" and it.key[1] in conv)]
            known = {it.key for it in items}
            for it in new:
                items.append(it)
                known.add(it.key)
        else:
            raise SummaryFail("write set does not stabilise")
    finally:
        eng.quiet -= 1
    if any(it.kind not in "NRIBAD" for it in items):
        pass
    s = st.fork()
    e = list(env)
    place(eng, s, e, items, {it: it.var for it in items})
    for f, c, lab in invs:
        s, v = inv(s, f, c)
        s.assume(v)
    back, rest = one_iteration(eng, fr, s, e, h, loop, ctl)
    for o in back:
        for f, c, lab in invs:
            s, v = inv(o[1].fork(), f, c)
            eng.obligation(s, v, "loop invariant kept: " + lab)
    eng.summaries.append((fn.dem, len(items)))
    if not rest:
        raise SummaryFail("no way out of the loop")
    return rest


def close(t, cl, arrs):
    if type(t) is not Term:
        return t
    t = subst(t, cl)
    return close_arrays(t, arrs)


def close_arrays(t, arrs):
    if not arrs or type(t) is not Term:
        return t
    for _ in range(6):
        ss = atoms(t, lambda y: y.op == "sel" and y.args[0] in arrs)
        if not ss:
            return t
        m = {}
        for x in ss:
            b = arrs[x.args[0]].closed
            if b is None:
                return t
            m[x] = subst(b, {IDX: x.args[1]}) if type(b) is Term else b
        t = subst(t, m)
    raise SummaryFail("array reads too deep")


def natural(x, K):
    """exit condition that is a single linear integer literal in K -> (first K satisfying it, side condition)"""
    if type(x) is not Term:
        return None
    if x.op == "le0" and x.args[0].sort == "I":
        c, d = _lin(x.args[0])
        k = d.get(K, 0)
        if k >= 0:
            return None
        rest = _unlin(c, {a: v for a, v in d.items() if a is not K}, "I")
        if occurs(K, rest):
            return None
        # k*K + rest <= 0  <=>  K >= rest / -k
        return neg(idiv(neg(rest), -k)), True
    if x.op == "eq0" and x.args[0].sort == "I":
        c, d = _lin(x.args[0])
        k = d.get(K, 0)
        if k == 0:
            return None
        rest = _unlin(c, {a: v for a, v in d.items() if a is not K}, "I")
        if occurs(K, rest):
            return None
        if k in (1, -1):
            n = neg(rest) if k == 1 else rest
            return n, le(0, n)
    return None


def solve(eng, st, items, K, mark):
    scal = [it for it in items if it.kind not in "AD"]
    arrs = [it for it in items if it.kind == "A"]
    cl = {}
    carr = {}
    uns = list(scal)
    una = list(arrs)
    names = {it.arr: it for it in arrs}

    def dep(t, but=None):
        """unsolved things t depends on"""
        if type(t) is not Term:
            return False
        uv = {it.var for it in uns if it is not but}
        un = {it.arr for it in una}
        return bool(atoms(t, lambda y: y in uv or (y.op == "sel" and y.args[0] in un)))

    progress = True
    while progress and (uns or una):
        progress = False
        for it in list(uns):
            s = close(it.step, cl, carr)
            it.step = s
            c = scalar(it, s, K, dep)
            if c is not None:
                it.closed = c[0]
                cl[it.var] = c[0]
                uns.remove(it)
                progress = True
        for it in list(una):
            s = close(it.step, cl, carr)
            it.step = s
            r = array(eng, st, it, s, K, dep)
            if r is not None:
                it.closed = r[0]
                carr[it.arr] = it
                una.remove(it)
                progress = True
        if not progress and uns:
            # a simultaneous fold over scalars depending on each other only
            grp = list(uns)
            ch = True
            while ch:
                ch = False
                for it in list(grp):
                    vs = {x.var for x in uns if x not in grp}
                    un = {x.arr for x in una}
                    if type(it.step) is Term and atoms(it.step, lambda y: y in vs or (y.op == "sel" and y.args[0] in un)):
                        grp.remove(it)
                        ch = True
            if grp:
                # smallest closed subset containing the first
                for first in grp:
                    need = [first]
                    i = 0
                    while i < len(need):
                        s = need[i].step
                        if type(s) is Term:
                            for x in grp:
                                if x not in need and occurs(x.var, s):
                                    need.append(x)
                        i += 1
                    if len(need) <= len(grp):
                        break
                if any(x.kind == "B" for x in need):
                    pass
                states = [x.var for x in need]
                inits = [x.init for x in need]
                steps = [x.step for x in need]
                k = fresh("k", "I")
                steps = [subst(s, {K: k}) if type(s) is Term else s for s in steps]
                for i, x in enumerate(need):
                    x.closed = fold_(k, K, states, inits, steps, i)
                for x in need:
                    cl[x.var] = x.closed
                    uns.remove(x)
                progress = True
    if uns or una:
        raise SummaryFail("recurrence not solved (%s)" % ", ".join(str(it.key) + " step " + show(it.step, 5)[:160] for it in (uns + una)[:3]))


def real(k, kind):
    return toreal(k) if kind == "R" else k


def scalar(it, s, K, dep):
    x = it.var
    if s is x:
        return (it.init,)
    if it.kind == "B":
        if type(s) is not Term:
            return (ite(eq(K, 0), it.init, s),)
        if not occurs(x, s):
            if dep(s):
                return None
            return (ite(eq(K, 0), it.init, subst(s, {K: sub(K, 1)})),)
        if dep(s, it):
            return None
        # x or q(k), x and q(k)
        s1, s0 = subst(s, {x: True}), subst(s, {x: False})
        k = fresh("k", "I")
        if s1 is True:
            q = s0
            return (or_(it.init, not_(forall(k, 0, K, not_(subst(q, {K: k}) if type(q) is Term else q)))),)
        if s0 is False:
            q = s1
            return (and_(it.init, forall(k, 0, K, subst(q, {K: k}) if type(q) is Term else q)),)
        return None
    if type(s) is Term and s.op == "ite" and it.kind == "I" and not dep(s, it):
        # a value set once a condition holds, kept otherwise
        c, a, b = s.args
        if a is x:
            c, a, b = not_(c), b, a
        if b is x and type(a) is not Term and not occurs(x, c):
            k = fresh("k", "I")
            return (ite(forall(k, 0, K, not_(subst(c, {K: k}))), it.init, a),)
    d = sub(s, x)
    if not (type(d) is Term and occurs(x, d)):
        if dep(d):
            return None
        if type(d) is not Term or not occurs(K, d):
            return (add(it.init, mul(real(K, it.kind), d)),)
        k = fresh("k", "I")
        return (add(it.init, sum_(k, K, subst(d, {K: k}))),)
    if not (type(s) is Term and occurs(x, s)):
        if dep(s):
            return None
        return (ite(eq(K, 0), it.init, subst(s, {K: sub(K, 1)}) if type(s) is Term else s),)
    return None


def chain(t, s, conds, out):
    """ite chain -> list of (condition, value) with default s"""
    if type(t) is Term and t.op == "ite":
        c, a, b = t.args
        chain(a, s, conds + [c], out)
        chain(b, s, conds + [not_(c)], out)
        return out
    if t is not s:
        out.append((and_(*conds), t))
    return out


def ownread(t, arr, s, cond_eqs):
    """replace reads of the array at the position being written by the state variable s"""
    if type(t) is not Term:
        return t
    m = {}
    for x in atoms(t, lambda y: y.op == "sel" and y.args[0] == arr):
        if x.args[1] is IDX or x.args[1] in cond_eqs:
            m[x] = s
    return subst(t, m)


def solveidx(c):
    """g from IDX == g"""
    if type(c) is Term and c.op == "eq0" and c.args[0].sort == "I":
        c0, d = _lin(c.args[0])
        k = d.get(IDX, 0)
        if k in (1, -1):
            rest = _unlin(c0, {a: v for a, v in d.items() if a is not IDX}, "I")
            if not occurs(IDX, rest):
                return scale(rest, -k) if type(rest) is Term else -k * rest
    return None


def own(t, arr, s):
    """own-position reads inside the guarded branches"""
    def go(t, eqs):
        if type(t) is not Term:
            return t
        if t.op == "ite":
            c, a, b = t.args
            gs = []
            for x in smt.conjuncts(c, []):
                g = solveidx(x)
                if g is not None:
                    gs.append(g)
            nb = []
            for x in smt.conjuncts(not_(c), []):
                g = solveidx(x)
                if g is not None:
                    nb.append(g)
            return ite(ownread(c, arr, s, eqs), go(a, eqs + gs), go(b, eqs + nb))
        if t.op == "lin":
            r = t.args[0] if t.sort == "I" else Fraction(t.args[0])
            for a, k in t.args[1]:
                x = go(a, eqs)
                r = add(r, scale(x, k), t.sort) if (type(x) is Term or type(r) is Term) else r + k * x
            return r
        return ownread(t, arr, s, eqs)
    return go(t, [])


def array(eng, st, it, t, K, dep):
    s = fresh("s", it.var.sort)
    t = own(t, it.arr, s)
    if type(t) is Term and atoms(t, lambda y: y.op == "sel" and y.args[0] == it.arr):
        return None
    if dep(t, it):
        return None
    init = it.init
    if t is s:
        return (init,)
    if it.var.sort != "B":
        d = sub(t, s)
        if not (type(d) is Term and occurs(s, d)):
            # scatter-add: fold as a sum, or closed form when each position is hit once
            ch = chain(d, Fraction(0) if it.var.sort == "R" else 0, [], [])
            ch = [(c, v) for c, v in ch if not (type(v) is not Term and v == 0)]
            r = ranges(ch, K, None)
            if r is not None:
                out = Fraction(0) if it.var.sort == "R" else 0
                for c, v in r:
                    out = ite(c, v, out)
                return (add(init, out, it.var.sort) if (type(init) is Term or type(out) is Term) else init + out,)
            k = fresh("k", "I")
            dd = subst(d, {K: k}) if type(d) is Term else d
            return (add(init, sum_(k, K, dd)),)
    ch = chain(t, s, [], [])
    r = ranges(ch, K, s)
    if r is not None:
        out = init
        for c, v in r:
            v = subst(v, {s: init}) if type(v) is Term else v
            out = symex.merge_val(c, v, out)
        return (out,)
    if type(t) is Term and occurs(s, t) or True:
        k = fresh("k", "I")
        tt = subst(t, {K: k}) if type(t) is Term else t
        return (fold_(k, K, [s], [init], [tt], 0),)


def ranges(ch, K, s):
    """guards IDX == c*K + g (disjoint images): -> [(range condition, value in terms of IDX)]"""
    out = []
    forms = []
    for c, v in ch:
        cs = smt.conjuncts(c, [])
        g = None
        rest = []
        for x in cs:
            gx = solveidx(x) if g is None else None
            if gx is not None and occurs(K, gx):
                g = gx
            else:
                rest.append(x)
        if g is None:
            return None
        c0, d = _lin(g)
        k = d.get(K, 0)
        g0 = _unlin(c0, {a: q for a, q in d.items() if a is not K}, "I")
        if k == 0 or occurs(K, g0):
            return None
        forms.append((k, g0))
        if k in (1, -1):
            ks = scale(sub(IDX, g0), k)
            cond = []
        else:
            m = abs(k)
            dd = sub(IDX, g0)
            if k < 0:
                dd = neg(dd)
            cond = [eq(imod(dd, m), 0)]
            ks = idiv(dd, m)
        # drop "not the other position" guards
        rr = []
        for x in rest:
            n = not_(x)
            gx = solveidx(n) if type(n) is Term else None
            rr.append(subst(x, {K: ks}))
        cond = and_(*(cond + [le(0, ks), lt(ks, K)] + rr))
        out.append((cond, subst(v, {K: ks}) if type(v) is Term else v))
    # disjointness of the images
    for i in range(len(forms)):
        for j in range(i):
            (k1, g1), (k2, g2) = forms[i], forms[j]
            if abs(k1) != abs(k2):
                return None
            d = sub(g1, g2)
            m = imod(d, abs(k1)) if abs(k1) > 1 else 0
            if type(m) is Term or m == 0:
                if k1 == k2 and type(d) is not Term and d == 0:
                    continue    # same position, guards exclusive within one iteration
                return None
    return out
