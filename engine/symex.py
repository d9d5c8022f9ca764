"""Verification-condition generator: symbolic execution of LLVM IR over mathematical numbers.

Branches are merged at post-dominators, loops with symbolic trip counts are replaced by
inductively checked summaries (loops.py), calls are entered unless the callee is modelled.
"""
import json
import math
import sys
import time
from fractions import Fraction
from terms import *
from terms import _lin, _unlin
import smt

sys.setrecursionlimit(200000)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return type(o) is Ptr and self.obj == o.obj and (self.off is o.off or (type(self.off) is int and type(o.off) is int and self.off == o.off))

    def __hash__(self):
        return hash((self.obj, self.off if type(self.off) is int else self.off.id))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is FnPtr and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class PIte:
    """pointer (or other non-numeric) chosen by a condition"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "PIte(%s,%s,%s)" % (self.c, self.a, self.b)


class Pack:
    """integer assembled from differently typed cells: ((offset, value, size, type), ...)"""
    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts, self.size = parts, size


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()
NULL = Ptr(0, 0)
DEAD = Ptr(-7, 0)    # some pointer nothing is known about: any use is refused
IDX = var("@i", "I")


def pite(c, a, b):
    if type(c) is not Term:
        return a if c else b
    if a is b or (type(a) is type(b) and a == b and type(a) in (Ptr, FnPtr)):
        return a
    if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
        return Ptr(a.obj, ite(c, a.off, b.off))
    if type(a) is PIte and a.c is c:
        a = a.a
    if type(b) is PIte and b.c is c:
        b = b.b
    if (type(a) is type(b)) and a == b and type(a) in (Ptr, FnPtr):
        return a
    return PIte(c, a, b)


class MergeFail(Exception):
    pass


def linked(a, b, mems):
    """two pointers into linked structures (tree nodes): such paths are kept apart"""
    if type(a) is not Ptr or type(b) is not Ptr or a.obj == b.obj:
        return False
    for p, m in zip((a, b), mems):
        o = m.get(p.obj)
        if o is not None and sum(1 for v, _, t in o.cells.values() if t == "p" and type(v) is Ptr) >= 3:
            return True
    return False


def merge_val(c, a, b):
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if a is UNDEF or a is None:
        return b
    if b is UNDEF or b is None:
        return a
    if ta in (Ptr, FnPtr, PIte) or tb in (Ptr, FnPtr, PIte):
        if ta in (Ptr, FnPtr, PIte) and tb in (Ptr, FnPtr, PIte):
            return pite(c, a, b)
        # null stored as integer zero
        if ta is int and a == 0:
            return pite(c, NULL, b)
        if tb is int and b == 0:
            return pite(c, a, NULL)
        raise MergeFail("pointer with number")
    if ta is tuple and tb is tuple:
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if ta is Pack or tb is Pack:
        if ta is Pack and tb is Pack and [p[0] for p in a.parts] == [p[0] for p in b.parts]:
            return Pack(tuple((p[0], merge_val(c, p[1], q[1]), p[2], p[3]) for p, q in zip(a.parts, b.parts)), a.size)
        raise MergeFail("pack")
    if ta is float or tb is float:
        if ta is float and tb is float and (a == b):
            return a
        raise MergeFail("non-finite")
    if ta is bool and tb is not bool and not (tb is Term and b.sort == "B"):
        a = int(a)
    if tb is bool and ta is not bool and not (ta is Term and a.sort == "B"):
        b = int(b)
    return ite(c, a, b)


class Obj:
    __slots__ = ("id", "size", "cells", "stride", "fields", "default", "name", "const", "freed", "kind", "param")

    def __init__(self, id, size, name="", default=None):
        self.id, self.size, self.name, self.default = id, size, name, default
        self.cells = {}
        self.stride = None
        self.fields = None     # symbolic array: (fieldoff, size, type) -> body over IDX
        self.const = False
        self.freed = False
        self.kind = None
        self.param = None

    def copy(self):
        o = Obj(self.id, self.size, self.name, self.default)
        o.cells = dict(self.cells)
        o.stride = self.stride
        o.fields = dict(self.fields) if self.fields is not None else None
        o.const = self.const
        o.freed = self.freed
        o.kind = self.kind
        o.param = self.param
        return o


class State:
    __slots__ = ("mem", "own", "pc", "ghost")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        if c is True:
            return
        self.pc = self.pc + (c,)

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o


class Ctl:
    __slots__ = ("stops", "region", "loops")

    def __init__(self, stops=frozenset(), region=None, loops=()):
        self.stops, self.region, self.loops = stops, region, loops


class LoopCtx:
    __slots__ = ("loop", "decided", "fr", "unroll", "iters", "forks")

    def __init__(self, loop, fr):
        self.loop, self.fr = loop, fr
        self.decided = False
        self.unroll = False
        self.forks = 0
        self.iters = 0


class NeedSummary(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class SummaryFail(Exception):
    pass


class PathEnd(Exception):
    """path abandoned (requires false etc.)"""


class Func:
    def __init__(self, name, j):
        self.name = name
        self.dem = j["dem"]
        self.decl = "decl" in j
        self.ret = j["ret"]
        if self.decl:
            return
        self.nargs, self.nvals = j["nargs"], j["nvals"]
        self.blocks = j["blocks"]
        self.loops = [Loop(self, l["h"], frozenset(l["b"])) for l in j["loops"]]
        self.headers = {l.h: l for l in self.loops}
        self.ipdom_ = None
        self.preds_ = None

    def succs(self, b):
        t = self.blocks[b]["ins"][-1]
        op = t[0]
        if op == "br":
            return [t[3], t[4]]
        if op == "jmp":
            return [t[2]]
        if op == "switch":
            return [t[3]] + [x[1] for x in t[4]]
        if op == "invoke":
            return [t[6], t[7]]
        return []

    def ipdom(self, b):
        if self.ipdom_ is None:
            self._pdom()
        return self.ipdom_.get(b)

    def _pdom(self):
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        rets = [b for b in range(n) if self.blocks[b]["ins"][-1][0] == "ret"]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        reach = set(rets)
        st = list(rets)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach:
                    reach.add(p)
                    st.append(p)
        self.ipdom_ = {}
        if not rets:
            return
        EXIT = n
        rs = [[s for s in succ[b] if s in reach] for b in range(n)]
        for r in rets:
            rs[r] = [EXIT]
        # reverse postorder on reverse graph from EXIT
        rpred = {b: [] for b in list(reach) + [EXIT]}
        for b in reach:
            for s in rs[b]:
                rpred[s].append(b)
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(rpred[EXIT]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(rpred[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        num = {x: i for i, x in enumerate(order)}
        order.reverse()
        idom = {EXIT: EXIT}
        ch = True

        def inter(a, b):
            while a != b:
                while num[a] < num[b]:
                    a = idom[a]
                while num[b] < num[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for b in order:
                if b == EXIT:
                    continue
                new = None
                for s in rs[b]:
                    if s in idom:
                        new = s if new is None else inter(new, s)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.ipdom_ = {b: d for b, d in idom.items() if d != EXIT and b != EXIT}


class Loop:
    __slots__ = ("fn", "h", "blocks")

    def __init__(self, fn, h, blocks):
        self.fn, self.h, self.blocks = fn, h, blocks


class Frame:
    __slots__ = ("fn", "depth", "allocas")

    def __init__(self, fn, depth):
        self.fn, self.depth = fn, depth
        self.allocas = []


def wrap(v, bits):
    v &= (1 << bits) - 1
    if v >> (bits - 1):
        v -= 1 << bits
    return v


TSIZE = {"d": 8, "f": 4, "p": 8, "i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "x": 16}


def _leaf_gcd(a):
    """a number that divides every value the term can take"""
    if type(a) is not Term:
        return a
    if a.op == "ite":
        return math.gcd(_leaf_gcd(a.args[1]), _leaf_gcd(a.args[2]))
    c, d = _lin(a)
    if len(d) == 1 and a in d:
        return 1
    g = c
    for b, k in d.items():
        g = math.gcd(g, k * _leaf_gcd(b))
    return g


def _leaf_div(a, k, s):
    if type(a) is not Term:
        return a * k // s
    if a.op == "ite":
        return ite(a.args[0], _leaf_div(a.args[1], k, s), _leaf_div(a.args[2], k, s))
    c, d = _lin(a)
    r = c * k // s
    for b, j in d.items():
        r = add(r, mul(j * k // s, b) if j * k % s == 0 else _leaf_div(b, j * k, s))
    return r


class Engine:
    def __init__(self, path, opts=None):
        with open(path) as f:
            j = json.load(f)
        self.raw = j
        self.fns = {}
        self.opts = {"max_steps": 20000000, "unroll": 200, "mode": "proof", "bound": 3}
        if opts:
            self.opts.update(opts)
        self.steps = 0
        self.nobj = 0
        self.gobj = {}
        self.obls = []
        self.deadline = getattr(self, "deadline", time.time() + 1e6)
        self.entered = {}
        self.direct = {}
        self.caller = None
        self.models = {}
        self.inputs = {}
        self.covered = {}
        self.log = []
        self.summaries = []
        self.safety = {"checked": 0, "assumed": 0}
        self.assumed = {}
        self.tid = {}
        self.curh = ""
        self.quiet = 0
        self.concmemo = {}
        self.invariants = []
        import models
        models.install(self)
        import loops
        self.loopmod = loops
        st = State()
        st.mem[0] = Obj(0, 0, "null")
        self.st0 = st
        for g in j["globals"]:
            self.galloc(g)
        for g, d in j["globals"].items():
            self.ginit(g, d)
        for c in j["ctors"]:
            outs = self.call(c, [], self.st0, 0)
            outs = [o for o in outs if o[0] == "ret"]
            if len(outs) != 1:
                raise Unsupported("global constructor " + c)
            self.st0 = outs[0][1]

    # ------------------------------------------------------------ program
    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            j = self.raw["functions"].get(name)
            if j is None:
                raise Unsupported("unknown function " + name)
            f = Func(name, j)
            self.fns[name] = f
        return f

    def alloc(self, st, size, name="", default=None):
        self.nobj += 1
        o = Obj(self.nobj, size, name, default)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def galloc(self, g):
        d = self.raw["globals"][g]
        o = self.alloc(self.st0, d["size"] or None, "global " + g)
        o.const = bool(d["const"])
        self.gobj[g] = o.id

    def ginit(self, g, d):
        o = self.st0.mem[self.gobj[g]]
        if "init" in d:
            self.put_const(o, 0, d["type"], d["init"])

    def put_const(self, o, off, ty, c):
        if type(ty) is list:
            if c[0] == "zero":
                if o.default is None and off == 0:
                    o.default = 0
                else:
                    self.put_zero(o, off, ty)
                return
            if c[0] == "undef":
                return
            if c[0] == "agg":
                if ty[0] == "s":
                    for (fo, ft), x in zip(ty[2], c[2]):
                        self.put_const(o, off + fo, ft, x)
                else:
                    for i, x in enumerate(c[2]):
                        self.put_const(o, off + i * ty[4], ty[3], x)
                return
            raise Unsupported("initializer")
        if c[0] == "undef":
            return
        o.cells[off] = (self.const(c), TSIZE[ty], ty)

    def put_zero(self, o, off, ty):
        if type(ty) is list:
            if ty[0] == "s":
                for fo, ft in ty[2]:
                    self.put_zero(o, off + fo, ft)
            else:
                for i in range(ty[2]):
                    self.put_zero(o, off + i * ty[4], ty[3])
            return
        o.cells[off] = (self.zero(ty), TSIZE[ty], ty)

    def zero(self, ty):
        if type(ty) is list:
            if ty[0] == "s":
                return tuple(self.zero(t) for _, t in ty[2])
            return tuple(self.zero(ty[3]) for _ in range(ty[2]))
        if ty in ("d", "f", "x"):
            return Fraction(0)
        if ty == "p":
            return NULL
        if ty == "i1":
            return False
        return 0

    def const(self, c):
        k = c[0]
        if k == "i":
            if c[2] == 1:
                return c[1] != "0"
            return int(c[1])
        if k == "f":
            v = float.fromhex(c[1]) if "0x" in c[1] else float(c[1])
            if math.isinf(v) or math.isnan(v):
                return v
            return snap(v)
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef_of(c[1])
        if k == "zero":
            return self.zero(c[1])
        if k == "fn":
            return FnPtr(c[1])
        if k == "g":
            return Ptr(self.gobj[c[1]], c[2])
        if k == "off":
            b = self.const(c[1])
            if type(b) is FnPtr:
                raise Unsupported("offset of function")
            return Ptr(b.obj, b.off + c[2])
        if k == "agg":
            return tuple(self.const(x) for x in c[2])
        if k == "ce":
            a, b = self.const(c[2]), self.const(c[3])
            return self.binop(None, c[1], a, b, "i64")
        raise Unsupported("constant " + str(c)[:80])

    def undef_of(self, ty):
        if type(ty) is list:
            if ty[0] == "s":
                return tuple(self.undef_of(t) for _, t in ty[2])
            return tuple(self.undef_of(ty[3]) for _ in range(ty[2]))
        return UNDEF

    # ------------------------------------------------------------ memory
    def norm_ptr(self, p):
        if type(p) is int:
            if p == 0:
                return NULL
            raise Unsupported("integer used as pointer")
        return p

    def load(self, st, p, ty, size):
        tp = type(p)
        if tp is PIte:
            # dead null alternatives are dropped when the condition is decided
            c = p.c
            pa, pb = self.norm_ptr(p.a), self.norm_ptr(p.b)
            if self.isnull(pa) and not smt.feasible(st.pc, c):
                return self.load(st, pb, ty, size)
            if self.isnull(pb) and not smt.feasible(st.pc, not_(c)):
                return self.load(st, pa, ty, size)
            if self.isnull(pa) or self.isnull(pb):
                raise Unsupported("possibly null dereference")
            a = self.load(st, pa, ty, size)
            b = self.load(st, pb, ty, size)
            return merge_val(c, a, b)
        if tp is not Ptr:
            raise Unsupported("load through %s" % (p,))
        if type(ty) is list:
            if ty[0] == "s":
                return tuple(self.load(st, Ptr(p.obj, add(p.off, fo)), ft, self.tsize(ft)) for fo, ft in ty[2])
            return tuple(self.load(st, Ptr(p.obj, add(p.off, i * ty[4])), ty[3], self.tsize(ty[3])) for i in range(ty[2]))
        if p.obj == 0:
            raise Unsupported("null dereference")
        o = st.mem[p.obj]
        if o.freed:
            raise Unsupported("use after free")
        off = p.off
        if o.fields is None and type(off) is int:
            cell = o.cells.get(off)
            if cell is not None and cell[1] == size:
                return self.coerce(cell[0], cell[2], ty)
            return self.load_odd(o, off, ty, size)
        if o.fields is None and type(o.size) is int and o.size <= 4096:
            return self.load_symoff(st, o, off, ty, size)
        return self.load_arr(st, p.obj, off, ty, size)

    def tsize(self, ty):
        if type(ty) is list:
            return ty[1]
        return TSIZE[ty]

    def coerce(self, v, t, ty):
        if t == ty or v is UNDEF:
            return v
        if ty == "i1" and t != "i1":
            return self.tobool(v)
        if t == "i1":
            v = self.frombool(v)
            t = "i8"
        if ty in ("d", "f") and t in ("d", "f"):
            return v
        if ty == "p" and type(v) is int and v == 0:
            return NULL
        if ty[0] == "i" and v == NULL and type(v) is Ptr:
            return 0
        if ty[0] == "i" and t[0] == "i" or ty == "p" or t == "p":
            return v
        if ty == "d" and t == "i64":
            if type(v) is int and v == 0:
                return Fraction(0)
            if type(v) is int:
                import struct
                x = struct.unpack("<d", struct.pack("<q", v))[0]
                return Fraction(x) if math.isfinite(x) else x
            return v   # bit copy of a double carried through an integer register
        if ty == "i64" and t == "d":
            if type(v) is Fraction and v == 0:
                return 0
            return Pack(((0, v, 8, "d"),), 8)
        raise Unsupported("reinterpretation %s as %s" % (t, ty))

    def load_odd(self, o, off, ty, size):
        parts = []
        for co, (v, s, t) in o.cells.items():
            if co < off + size and co + s > off:
                parts.append((co, v, s, t))
        if not parts:
            if o.default is not None:
                return self.zero(ty)
            return UNDEF
        parts.sort()
        if len(parts) == 1:
            co, v, s, t = parts[0]
            if type(v) is int and s > size and t[0] == "i":
                sh = (off - co) * 8
                return wrap(v >> sh, size * 8)
            if s > size and type(v) is Pack:
                for po, pv, ps, pt in v.parts:
                    if co + po == off and ps == size:
                        return self.coerce(pv, pt, ty)
            if type(v) is Term and s > size and t[0] == "i" and co == off:
                # value known to fit? keep it modulo
                return self.trunc(v, size * 8)
        if all(type(v) is int or type(v) is bool for _, v, s, t in parts) and ty[0] == "i":
            r = 0
            covered = 0
            for co, v, s, t in parts:
                if co < off or co + s > off + size:
                    raise Unsupported("partial cell")
                r |= (int(v) & ((1 << (8 * s)) - 1)) << (8 * (co - off))
                covered += s
            return wrap(r, size * 8)
        if all(co >= off and co + s <= off + size for co, v, s, t in parts):
            return Pack(tuple((co - off, v, s, t) for co, v, s, t in parts), size)
        raise Unsupported("overlapping access")

    def load_symoff(self, st, o, off, ty, size):
        c, d = _lin(off)
        g = 0
        for k in d.values():
            g = math.gcd(g, k)
        cand = []
        r = None
        offs = range(c % g, o.size - size + 1, g) if o.default is not None else sorted(o.cells)
        for co in offs:
            if (co - c) % g:
                continue
            cell = o.cells.get(co)
            if cell is None:
                if o.default is None:
                    continue
                cell = (self.zero(ty), size, ty)
            if cell[1] != size:
                continue
            cond = eq(off, co)
            if cond is False:
                continue
            cand.append((cond, self.coerce(cell[0], cell[2], ty), co))
        if len(cand) > 1:
            # drop infeasible alternatives when few
            if len(cand) <= 40:
                cand = [x for x in cand if smt.feasible(st.pc, x[0])]
        if not cand:
            raise Unsupported("symbolic offset matches no cell")
        self.bounds(st, o, off, size)
        r = cand[-1][1]
        for cond, v, _ in reversed(cand[:-1]):
            r = merge_val(cond, v, r)
        return r

    def bounds(self, st, o, off, size):
        if o.size is None or self.quiet:
            return
        self.safety["checked"] += 1
        ok = smt.entails(st.pc, and_(le(0, off), le(add(off, size), o.size)), 500)
        if not ok:
            self.safety["assumed"] += 1
            st.assume(and_(le(0, off), le(add(off, size), o.size)))

    def split_off(self, o, off, size):
        """-> (field offset, index) in a symbolic array object"""
        c, d = _lin(off)
        g = 0
        for a, k in d.items():
            g = math.gcd(g, k * _leaf_gcd(a))
        if o.stride is None:
            if g == 0 and o.kind:
                g = o.kind
            o.stride = g if g >= size else size
            if g and g < size:
                raise Unsupported("stride smaller than access")
        s = o.stride
        if any(k % s for k in d.values()):
            # cases such as ite(c, 8, 16) are divided leaf by leaf
            if any(k * _leaf_gcd(a) % s for a, k in d.items()):
                raise Unsupported("offset not a multiple of the stride")
            f = c % s
            r = (c - f) // s
            for a, k in d.items():
                r = add(r, mul(k // s, a) if k % s == 0 else _leaf_div(a, k, s))
            return f, r
        f = c % s
        return f, _unlin((c - f) // s, {a: k // s for a, k in d.items()}, "I")

    def to_array(self, st, oid, off, size):
        """turn a cell object into a symbolic array object"""
        o = st.w(oid)
        if o.fields is None:
            o.fields = {}
            f, idx = self.split_off(o, off, size)
            byfield = {}
            for co, (v, s, t) in o.cells.items():
                byfield.setdefault((co % o.stride, s, t), []).append((co // o.stride, v))
            for (fo, s, t), lst in byfield.items():
                body = self.base_body(o, fo, s, t)
                for i, v in lst:
                    body = self.body_merge(eq(IDX, i), v, body)
                o.fields[(fo, s)] = (body, t)
            o.cells = {}
        return o

    def body_merge(self, c, v, body):
        return merge_val(c, v, body)

    def base_body(self, o, fo, size, ty):
        if o.default is not None:
            return self.zero(ty)
        if ty == "p":
            return UNDEF
        return select("undef%d_%d" % (o.id, fo), [IDX], self.sort(ty))

    def sort(self, ty):
        return "R" if ty in ("d", "f", "x") else "B" if ty == "i1" else "I"

    def subst_val(self, v, m):
        tv = type(v)
        if tv is Term:
            return subst(v, m)
        if tv is Ptr:
            if type(v.off) is Term:
                return Ptr(v.obj, subst(v.off, m))
            return v
        if tv is PIte:
            return pite(subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        if tv is tuple:
            return tuple(self.subst_val(x, m) for x in v)
        if tv is Pack:
            return Pack(tuple((a, self.subst_val(b, m), c, d) for a, b, c, d in v.parts), v.size)
        if tv is FamPtr:
            return FamPtr(v.fam, tuple(self.subst_val(i, m) for i in v.idx), self.subst_val(v.off, m))
        return v

    def load_arr(self, st, oid, off, ty, size):
        o = st.mem[oid]
        if o.fields is None:
            o = self.to_array(st, oid, off, size)
        f, idx = self.split_off(o, off, size)
        self.bounds(st, o, off, size)
        b = o.fields.get((f, size))
        if b is None:
            st_o = st.w(oid)
            for (fo, s) in st_o.fields:
                if fo < f + size and fo + s > f:
                    raise Unsupported("overlapping field in symbolic array")
            b = (self.base_body(o, f, size, ty), ty)
            st_o.fields[(f, size)] = b
        v = self.subst_val(b[0], {IDX: idx})
        return self.coerce(v, b[1], ty)

    def store(self, st, p, v, ty, size):
        tp = type(p)
        if tp is PIte:
            pa, pb = self.norm_ptr(p.a), self.norm_ptr(p.b)
            for q, c in ((pa, p.c), (pb, not_(p.c))):
                if self.isnull(q):
                    continue
                if not smt.feasible(st.pc, c):
                    continue
                if smt.entails(st.pc, c):
                    self.store(st, q, v, ty, size)
                else:
                    old = self.load(st, q, ty, size)
                    self.store(st, q, merge_val(c, v, old), ty, size)
            return
        if tp is not Ptr:
            raise Unsupported("store through %s" % (p,))
        if type(ty) is list:
            if v is UNDEF:
                return
            if ty[0] == "s":
                for (fo, ft), x in zip(ty[2], v):
                    self.store(st, Ptr(p.obj, add(p.off, fo)), x, ft, self.tsize(ft))
            else:
                for i, x in enumerate(v):
                    self.store(st, Ptr(p.obj, add(p.off, i * ty[4])), x, ty[3], self.tsize(ty[3]))
            return
        if p.obj == 0:
            raise Unsupported("null dereference")
        if type(v) is Pack:
            for po, pv, ps, pt in v.parts:
                self.store(st, Ptr(p.obj, add(p.off, po)), pv, pt, ps)
            return
        o = st.w(p.obj)
        if o.freed:
            raise Unsupported("use after free")
        off = p.off
        if type(v) is Term and ty == "i64" and v.sort == "R":
            ty = "d"
        if o.fields is None and type(off) is int:
            cell = o.cells.get(off)
            if cell is None or cell[1] != size:
                # remove/split overlapped cells
                for co in [c for c, x in o.cells.items() if c < off + size and c + x[1] > off]:
                    cv, cs, ct = o.cells.pop(co)
                    if co >= off and co + cs <= off + size:
                        continue
                    if type(cv) is int and ct[0] == "i":
                        for k in range(cs):
                            if not (off <= co + k < off + size):
                                o.cells[co + k] = (wrap(cv >> (8 * k), 8), 1, "i8")
                    elif type(cv) is Pack:
                        for po, pv, ps, pt in cv.parts:
                            if not (co + po < off + size and co + po + ps > off):
                                o.cells[co + po] = (pv, ps, pt)
                    elif type(cv) is Ptr:
                        pass  # the bytes left of a pointer are not a value
                    else:
                        raise Unsupported("partial overwrite")
            o.cells[off] = (v, size, ty)
            return
        if o.fields is None and type(o.size) is int and o.size <= 4096:
            c, d = _lin(off)
            g = 0
            for k in d.values():
                g = math.gcd(g, k)
            n = 0
            self.bounds(st, o, off, size)
            if o.default is not None or not o.cells:
                for co in range(c % g, o.size - size + 1, g):
                    if co not in o.cells:
                        o.cells[co] = (self.zero(ty) if o.default is not None else UNDEF, size, ty)
            for co in sorted(o.cells):
                cv, cs, ct = o.cells[co]
                if (co - c) % g or cs != size:
                    continue
                cond = eq(off, co)
                if cond is False or (type(cond) is Term and not smt.feasible(st.pc, cond)):
                    continue
                o.cells[co] = (merge_val(cond, v, self.coerce(cv, ct, ty)), size, ty)
                n += 1
            if not n:
                raise Unsupported("symbolic store matches no cell")
            return
        if o.fields is None:
            o = self.to_array(st, p.obj, off, size)
        f, idx = self.split_off(o, off, size)
        self.bounds(st, o, off, size)
        o = st.w(p.obj)
        b = o.fields.get((f, size))
        if b is None:
            for (fo, s) in o.fields:
                if fo < f + size and fo + s > f:
                    raise Unsupported("overlapping field in symbolic array")
            b = (self.base_body(o, f, size, ty), ty)
        o.fields[(f, size)] = (merge_val(eq(IDX, idx), v, self.coerce(b[0], b[1], ty) if b[0] is not UNDEF else UNDEF), ty)

    def memcpy(self, st, dst, src, n):
        dst, src = self.norm_ptr(dst), self.norm_ptr(src)
        if type(n) is int and n == 0:
            return
        if type(dst) is PIte or type(src) is PIte:
            if type(n) is not int:
                raise Unsupported("conditional memcpy")
            if type(src) is PIte:
                # copy word by word
                tmpa = self.alloc(st, n, "tmp")
                tmpb = self.alloc(st, n, "tmp")
                self.memcpy(st, Ptr(tmpa.id, 0), src.a, n)
                self.memcpy(st, Ptr(tmpb.id, 0), src.b, n)
                oa, ob = st.mem[tmpa.id], st.mem[tmpb.id]
                t = self.alloc(st, n, "tmp")
                t.cells = self.merge_cells(src.c, oa, ob)
                return self.memcpy(st, dst, Ptr(t.id, 0), n)
            raise Unsupported("conditional memcpy target")
        so = st.mem[src.obj]
        do = st.w(dst.obj)
        if type(n) is int and type(src.off) is int and type(dst.off) is int and so.fields is None and do.fields is None:
            items = []
            for co, (v, s, t) in so.cells.items():
                if co < src.off + n and co + s > src.off:
                    if co < src.off or co + s > src.off + n:
                        v2 = self.load_odd(so, max(co, src.off), "i%d" % (8 * (min(co + s, src.off + n) - max(co, src.off))), min(co + s, src.off + n) - max(co, src.off))
                        items.append((max(co, src.off), v2, min(co + s, src.off + n) - max(co, src.off), "i%d" % (8 * (min(co + s, src.off + n) - max(co, src.off)))))
                    else:
                        items.append((co, v, s, t))
            for co in [c for c, x in do.cells.items() if c >= dst.off and c + x[1] <= dst.off + n]:
                del do.cells[co]
            if so.default is not None and do.default is None:
                for k in range(0, n, 8):
                    w = min(8, n - k)
                    if not any(co < src.off + k + w and co + s > src.off + k for co, v, s, t in items):
                        self.store(st, Ptr(dst.obj, dst.off + k), 0, "i%d" % (8 * w) if w in (1, 2, 4, 8) else "i8", w)
                do = st.w(dst.obj)
            for co, v, s, t in items:
                self.store(st, Ptr(dst.obj, dst.off + co - src.off), v, t, s)
            return
        # symbolic: copy of whole elements between arrays
        if so.fields is None:
            if type(n) is int and type(dst.off) is int:
                # symbolic source offset, constant size: element-wise of the source cell size
                sizes = {s for v, s, t in so.cells.values()}
                if len(sizes) == 1:
                    s = sizes.pop()
                    t = next(iter(so.cells.values()))[2]
                    for k in range(0, n, s):
                        self.store(st, Ptr(dst.obj, dst.off + k), self.load(st, Ptr(src.obj, add(src.off, k)), t, s), t, s)
                    return
            if not so.cells:
                raise Unsupported("memcpy of uninitialised symbolic object")
            s = next(iter(so.cells.values()))[1]
            self.to_array(st, src.obj, src.off, s)
            so = st.mem[src.obj]
        if not so.fields:
            return
        w = so.stride
        if type(n) is int and n < w or (type(n) is int and n <= 4 * w and n % w == 0):
            for k in range(0, n, w):
                for (fo, s), (b, t) in list(so.fields.items()):
                    if k + fo < n:
                        self.store(st, Ptr(dst.obj, add(dst.off, k + fo)), self.load(st, Ptr(src.obj, add(src.off, k + fo)), t, s), t, s)
            return
        if do.fields is None:
            do.stride = w if do.stride is None else do.stride
            self.to_array(st, dst.obj, dst.off, w)
            do = st.w(dst.obj)
        if do.stride != w:
            raise Unsupported("memcpy between different strides")
        f1, i1 = self.split_off(so, src.off, w)
        f2, i2 = self.split_off(do, dst.off, w)
        if f1 or f2:
            raise Unsupported("memcpy inside an element")
        cnt = idiv(n, w)
        inr = and_(le(i2, IDX), lt(IDX, add(i2, cnt)))
        for (fo, s), (b, t) in list(so.fields.items()):
            ob = do.fields.get((fo, s), (self.base_body(do, fo, s, t), t))
            nb = self.subst_val(b, {IDX: add(IDX, sub(i1, i2))})
            do.fields[(fo, s)] = (merge_val(inr, nb, ob[0]), t)

    def merge_cells(self, c, oa, ob, mems=()):
        out = {}
        for k in set(oa.cells) | set(ob.cells):
            a, b = oa.cells.get(k), ob.cells.get(k)
            if a is None:
                if oa.default is not None:
                    a = (self.zero(b[2]), b[1], b[2])
                else:
                    out[k] = b
                    continue
            if b is None:
                if ob.default is not None:
                    b = (self.zero(a[2]), a[1], a[2])
                else:
                    out[k] = a
                    continue
            if a[0] is b[0] and a[1] == b[1]:
                out[k] = a
                continue
            if a[1] != b[1]:
                raise MergeFail("cell sizes")
            ta = a[2]
            va, vb = a[0], b[0]
            if a[2] != b[2]:
                if {a[2], b[2]} == {"p", "i64"} or {a[2], b[2]} == {"i8", "i1"} or {a[2], b[2]} == {"d", "i64"}:
                    ta = "p" if "p" in (a[2], b[2]) else "i8" if "i8" in (a[2], b[2]) else "d"
                    va, vb = self.coerce(va, a[2], ta), self.coerce(vb, b[2], ta)
                else:
                    raise MergeFail("cell types")
            if ta == "p" and linked(va, vb, mems):
                raise MergeFail("linked structures differ")
            out[k] = (merge_val(c, va, vb), a[1], ta)
        return out

    def memset(self, st, p, v, n):
        p = self.norm_ptr(p)
        if type(n) is int and n == 0:
            return
        if type(p) is not Ptr:
            raise Unsupported("memset target")
        o = st.w(p.obj)
        if type(n) is int and type(p.off) is int and o.fields is None:
            if v == 0 and p.off == 0 and type(o.size) is int and n == o.size:
                o.cells = {}
                o.default = 0
                return
            for co in [c for c, x in o.cells.items() if c >= p.off and c + x[1] <= p.off + n]:
                del o.cells[co]
            k = 0
            while k < n:
                w = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
                val = 0
                for i in range(w):
                    val |= (v & 255) << (8 * i)
                self.store(st, Ptr(p.obj, p.off + k), wrap(val, 8 * w), "i%d" % (8 * w), w)
                k += w
            return
        if v == 0 and o.fields is None and not o.cells and type(p.off) is int and p.off == 0 and (n is o.size or eq(n, o.size) is True):
            o.default = 0
            return
        if v == 0 and type(n) is int and n <= 64 and n % 8 == 0:
            for k in range(0, n, 8):
                self.store(st, Ptr(p.obj, add(p.off, k)), 0, "i64", 8)
            return
        if v == 0 and o.fields is None and o.cells:
            self.to_array(st, p.obj, p.off, next(iter(o.cells.values()))[1])
            o = st.w(p.obj)
        if v == 0 and o.fields:
            # zero whole elements of an array
            w = o.stride
            f, i = self.split_off(o, p.off, w)
            if not f:
                inr = and_(le(i, IDX), lt(IDX, add(i, idiv(n, w))))
                for (fo, s), (b, t) in list(o.fields.items()):
                    o.fields[(fo, s)] = (merge_val(inr, self.zero(t), b), t)
                return
        raise Unsupported("symbolic memset")

    def cstr(self, st, p):
        if type(p) is not Ptr:
            raise Unsupported("string pointer")
        o = st.mem[p.obj]
        s = []
        i = p.off
        while True:
            c = self.load(st, Ptr(p.obj, i), "i8", 1)
            if type(c) is not int:
                raise Unsupported("symbolic string")
            if c == 0:
                break
            s.append(chr(c & 255))
            i += 1
        return "".join(s)

    # ------------------------------------------------------------ numbers
    def isnull(self, p):
        return type(p) is Ptr and p.obj == 0 and type(p.off) is int and p.off == 0

    def tobool(self, v):
        if type(v) is bool:
            return v
        if type(v) is int:
            return bool(v & 1)
        if type(v) is Term:
            if v.sort == "B":
                return v
            if v.op == "ite":
                return ite(v.args[0], self.tobool(v.args[1]), self.tobool(v.args[2]))
            return eq(imod(v, 2), 1)
        raise Unsupported("bool of %r" % (v,))

    def frombool(self, v):
        if type(v) is bool:
            return int(v)
        if type(v) is Term and v.sort == "B":
            return ite(v, 1, 0)
        return v

    def trunc(self, v, bits):
        if type(v) is int:
            return wrap(v, bits)
        if type(v) is Term:
            return v    # mathematical integers: no wrap-around (assumption)
        if type(v) is Pack:
            for po, pv, ps, pt in v.parts:
                if po == 0 and ps * 8 == bits:
                    return pv
        return v

    def binop(self, st, op, a, b, ty):
        if type(ty) is list:
            return tuple(self.binop(st, op, x, y if b is not None else None, ty[3]) for x, y in zip(a, b if b is not None else a))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == "f":
            if op == "fneg":
                return -a if type(a) is float else neg(a)
            if type(a) is float or type(b) is float:
                return self.fspecial(op, a, b)
            if op == "fadd":
                return add(a, b, "R")
            if op == "fsub":
                return sub(a, b)
            if op == "fmul":
                return mul(a, b)
            if op == "fdiv":
                if type(b) is not Term and b == 0:
                    if type(a) is not Term:
                        return math.nan if a == 0 else math.copysign(math.inf, a)
                    raise Unsupported("division of a symbolic value by zero")
                return div(a, b)
            raise Unsupported(op)
        if type(a) is bool or type(b) is bool or ty == "i1":
            if ty == "i1":
                a, b = self.tobool(a), self.tobool(b)
                if op == "and":
                    return and_(a, b)
                if op == "or":
                    return or_(a, b)
                if op == "xor":
                    return not_(eq(a, b))
                if op == "add" or op == "sub":
                    return not_(eq(a, b))
                raise Unsupported("i1 " + op)
            a, b = self.frombool(a), self.frombool(b)
        if type(a) is Ptr or type(b) is Ptr or type(a) is PIte or type(b) is PIte:
            return self.ptrarith(op, a, b)
        if type(a) is Pack or type(b) is Pack:
            return self.packop(op, a, b, int(ty[1:]))
        bits = int(ty[1:])
        ca, cb = type(a) is int, type(b) is int
        if op == "add":
            r = a + b if ca and cb else add(a, b, "I")
        elif op == "sub":
            r = a - b if ca and cb else sub(a, b)
        elif op == "mul":
            r = a * b if ca and cb else mul(a, b)
        elif op == "sdiv":
            if ca and cb:
                if b == 0:
                    raise Unsupported("integer division by zero")
                q = abs(a) // abs(b)
                r = q if (a >= 0) == (b >= 0) else -q
            else:
                r = self.sdiv(st, a, b)
        elif op == "srem":
            if ca and cb:
                if b == 0:
                    raise Unsupported("integer division by zero")
                r = math.fmod(a, b) if False else (abs(a) % abs(b)) * (1 if a >= 0 else -1)
            else:
                r = sub(a, mul(b, self.sdiv(st, a, b)))
        elif op == "udiv":
            if ca and cb:
                m = (1 << bits) - 1
                r = (a & m) // (b & m)
            else:
                r = self.sdiv(st, a, b)
        elif op == "urem":
            if ca and cb:
                m = (1 << bits) - 1
                r = (a & m) % (b & m)
            else:
                r = sub(a, mul(b, self.sdiv(st, a, b)))
        elif op == "shl":
            if cb:
                r = a << b if ca else scale(a, 1 << b)
            else:
                raise Unsupported("symbolic shift")
        elif op == "lshr":
            if ca and cb:
                r = (a & ((1 << bits) - 1)) >> b
            elif cb:
                r = idiv(a, 1 << b)
                if st is not None and not smt.entails(st.pc, le(0, a)):
                    if b == bits - 1:
                        r = ite(lt(a, 0), 1, 0)
                    else:
                        raise Unsupported("lshr of possibly negative value")
            else:
                raise Unsupported("symbolic shift")
        elif op == "ashr":
            if ca and cb:
                r = a >> b
            elif cb:
                r = idiv(a, 1 << b)
            else:
                raise Unsupported("symbolic shift")
        elif op == "and":
            if ca and cb:
                r = a & b
            else:
                if ca:
                    a, b, ca, cb = b, a, cb, ca
                if not cb:
                    raise Unsupported("symbolic and")
                if b == 0:
                    r = 0
                elif b == -1:
                    r = a
                elif b > 0 and (b & (b + 1)) == 0:
                    r = imod(a, b + 1)
                elif b < 0 and ((-b) & (-b - 1)) == 0:
                    r = sub(a, imod(a, -b))
                elif a.op == "ite":
                    r = ite(a.args[0], self.binop(st, "and", a.args[1], b, ty), self.binop(st, "and", a.args[2], b, ty))
                else:
                    raise Unsupported("symbolic and")
        elif op == "or":
            if ca and cb:
                r = a | b
            else:
                if ca and a == 0:
                    r = b
                elif cb and b == 0:
                    r = a
                else:
                    # disjoint bits (address arithmetic)
                    if ca:
                        a, b, ca, cb = b, a, cb, ca
                    if cb and b > 0:
                        k = 1
                        while k <= b:
                            k <<= 1
                        if imod(a, k) == 0:
                            r = add(a, b)
                        elif a.op == "ite":
                            r = ite(a.args[0], self.binop(st, "or", a.args[1], b, ty), self.binop(st, "or", a.args[2], b, ty))
                        else:
                            raise Unsupported("symbolic or")
                    elif type(a) is Term and a.op == "ite":
                        r = ite(a.args[0], self.binop(st, "or", a.args[1], b, ty), self.binop(st, "or", a.args[2], b, ty))
                    else:
                        raise Unsupported("symbolic or")
        elif op == "xor":
            if ca and cb:
                r = a ^ b
            elif cb and b == -1:
                r = sub(-1, a)
            elif cb and type(a) is Term and a.op == "ite":
                r = ite(a.args[0], self.binop(st, "xor", a.args[1], b, ty), self.binop(st, "xor", a.args[2], b, ty))
            else:
                raise Unsupported("symbolic xor")
        else:
            raise Unsupported(op)
        if type(r) is int:
            return wrap(r, bits)
        return r

    def sdiv(self, st, a, b):
        if type(b) is int and b > 0:
            q = idiv(a, b)
            if type(q) is not Term or not atoms(q, lambda y: y.op == "idiv"):
                c, d = _lin(a)
                if c % b == 0 and all(k % b == 0 for k in d.values()):
                    return q    # exact
            if st is not None and smt.entails(st.pc, le(0, a)):
                return q
            return ite(le(0, a), q, neg(idiv(neg(a), b)))
        if type(b) is Term:
            # exact quotients of products
            c, d = _lin(a)
            if c == 0 and d:
                from terms import _factors, _mkmul
                out = 0
                okk = True
                _, fb = _factors(b)
                for x, k in d.items():
                    kx, fx = _factors(x)
                    if b.op == "lin" or any(fx.get(y, 0) < p for y, p in fb.items()):
                        okk = False
                        break
                    g = dict(fx)
                    for y, p in fb.items():
                        g[y] -= p
                    out = add(out, scale(_mkmul(g, "I"), k * kx))
                if okk and (st is None or smt.entails(st.pc, not_(eq(b, 0)))):
                    return out
            if st is not None and smt.entails(st.pc, and_(le(0, a), lt(0, b))):
                return idiv(a, b)
        raise Unsupported("symbolic division")

    def fspecial(self, op, a, b):
        # arithmetic with a non-finite operand
        if type(a) is not Term and type(b) is not Term:
            x, y = float(a), float(b)
            try:
                r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            except ZeroDivisionError:
                r = math.nan if x == 0 else math.inf
            return Fraction(r) if math.isfinite(r) else r
        if op == "fadd":
            return a if type(a) is float else b
        if op == "fsub":
            return a if type(a) is float else -b
        if op == "fdiv" and type(b) is float and math.isinf(b):
            return Fraction(0)
        raise Unsupported("arithmetic with non-finite constant")

    def packop(self, op, a, b, bits):
        # reassembling of small structs passed in integer registers
        if op == "lshr" and type(a) is Pack and type(b) is int and b % 8 == 0:
            k = b // 8
            parts = tuple((o - k, v, s, t) for o, v, s, t in a.parts if o >= k)
            if len(parts) == 1 and parts[0][0] == 0:
                return parts[0][1]
            return Pack(parts, a.size)
        if op == "shl" and type(a) is Pack:
            k = b // 8
            return Pack(tuple((o + k, v, s, t) for o, v, s, t in a.parts), a.size)
        if op == "or":
            pa = a.parts if type(a) is Pack else ((0, a, 4, "i32"),)
            pb = b.parts if type(b) is Pack else ((0, b, 4, "i32"),)
            return Pack(tuple(sorted(pa + pb, key=lambda p: p[0])), bits // 8)
        if op == "and" and type(a) is Pack and type(b) is int:
            return Pack(tuple(p for p in a.parts if (b >> (8 * p[0])) & 1), a.size)
        raise Unsupported("operation on packed value " + op)

    def ptrarith(self, op, a, b):
        if type(a) is PIte:
            return self.rejoin(a.c, self.ptrarith2(op, a.a, b), self.ptrarith2(op, a.b, b))
        if type(b) is PIte:
            return self.rejoin(b.c, self.ptrarith2(op, a, b.a), self.ptrarith2(op, a, b.b))
        if op == "sub" and type(a) is Ptr and type(b) is Ptr:
            if a.obj == b.obj:
                return sub(a.off, b.off)
            raise Unsupported("difference of pointers to different objects")
        if op == "add":
            if type(a) is Ptr and type(b) is not Ptr:
                return Ptr(a.obj, add(a.off, b))
            if type(b) is Ptr and type(a) is not Ptr:
                return Ptr(b.obj, add(b.off, a))
        if op == "sub" and type(a) is Ptr:
            return Ptr(a.obj, sub(a.off, b))
        if op == "and" and type(a) is Ptr and type(b) is int:
            if 0 < b < 8 and type(a.off) is int:
                return a.off & b
            if b < 0:
                return Ptr(a.obj, a.off & b) if type(a.off) is int else a
        if op == "or" and type(b) is int and b == 0:
            return a
        raise Unsupported("pointer arithmetic " + op)

    def ptrarith2(self, op, a, b):
        if type(a) in (Ptr, PIte) or type(b) in (Ptr, PIte):
            return self.ptrarith(op, a, b)
        return self.binop(None, op, a, b, "i64")

    def rejoin(self, c, x, y):
        return merge_val(c, x, y)

    def icmp(self, st, pred, a, b, ty):
        if type(ty) is list:
            return tuple(self.icmp(st, pred, x, y, ty[3]) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            raise Unsupported("branch on an uninitialised value")
        if ty == "p" or type(a) in (Ptr, PIte, FnPtr) or type(b) in (Ptr, PIte, FnPtr):
            return self.pcmp(pred, a, b)
        if ty == "i1":
            a, b = self.tobool(a), self.tobool(b)
            if pred == "eq":
                return eq(a, b)
            if pred == "ne":
                return not_(eq(a, b))
            a, b = self.frombool(a), self.frombool(b)
        if type(a) is bool:
            a = int(a)
        if type(b) is bool:
            b = int(b)
        if type(a) is Pack or type(b) is Pack:
            raise Unsupported("compare packed")
        if type(a) is Term and a.sort == "B":
            a = self.frombool(a)
        if type(b) is Term and b.sort == "B":
            b = self.frombool(b)
        if pred == "eq":
            return eq(a, b)
        if pred == "ne":
            return not_(eq(a, b))
        if pred == "slt":
            return lt(a, b)
        if pred == "sle":
            return le(a, b)
        if pred == "sgt":
            return lt(b, a)
        if pred == "sge":
            return le(b, a)
        if type(a) is int and type(b) is int:
            m = (1 << int(ty[1:])) - 1
            a &= m
            b &= m
            return {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred]
        if pred in ("ugt", "uge"):
            a, b = b, a
            pred = "ult" if pred == "ugt" else "ule"

        def nonneg(x):
            if type(x) is int:
                return x >= 0
            return smt.entails(st.pc, le(0, x))
        na, nb = nonneg(a), nonneg(b)
        cmp = lt if pred == "ult" else le
        if na and nb:
            return cmp(a, b)
        if type(b) is int and b < 0:     # huge unsigned constant
            if na:
                return True
            return or_(le(0, a), and_(lt(a, 0), cmp(a, b)))
        pa, pb = le(0, a), le(0, b)
        return or_(and_(pa, pb, cmp(a, b)), and_(not_(pa), not_(pb), cmp(a, b)), and_(pa, not_(pb)))

    def pcmp(self, pred, a, b):
        if type(a) is PIte:
            return ite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if type(b) is PIte:
            return ite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if type(a) is int:
            a = NULL if a == 0 else a
        if type(b) is int:
            b = NULL if b == 0 else b
        if a == DEAD or b == DEAD:
            raise Unsupported("comparison of an unknown pointer")
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            x, y = a.off, b.off
            return {"eq": eq, "ne": lambda p, q: not_(eq(p, q)), "ult": lt, "ule": le, "ugt": lambda p, q: lt(q, p),
                    "uge": lambda p, q: le(q, p), "slt": lt, "sle": le, "sgt": lambda p, q: lt(q, p), "sge": lambda p, q: le(q, p)}[pred](x, y)
        if pred == "eq":
            return a == b
        if pred == "ne":
            return not (a == b)
        # unrelated objects: an arbitrary but fixed order (object creation order)
        ka = a.obj if type(a) is Ptr else -1
        kb = b.obj if type(b) is Ptr else -1
        return {"ult": ka < kb, "ule": ka <= kb, "ugt": ka > kb, "uge": ka >= kb}[pred]

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of an uninitialised value")
        if pred == "true":
            return True
        if pred == "false":
            return False
        na = type(a) is float and math.isnan(a)
        nb = type(b) is float and math.isnan(b)
        if pred == "ord":
            return not (na or nb)
        if pred == "uno":
            return na or nb
        if na or nb:
            return pred[0] == "u"
        if type(a) is not Term and type(b) is not Term and (type(a) is float or type(b) is float):
            a, b = float(a), float(b)
        p = pred[1:]
        if p == "eq":
            return eq(a, b)
        if p == "ne":
            return not_(eq(a, b))
        if p == "lt":
            return lt(a, b)
        if p == "le":
            return le(a, b)
        if p == "gt":
            return lt(b, a)
        return le(b, a)

    def cast(self, op, v, st_, dt, st=None):
        if v is UNDEF:
            return UNDEF
        if type(dt) is list and type(v) is tuple and type(st_) is list and st_[0] == "a" and dt[0] == "a" and st_[2] == dt[2]:
            return tuple(self.cast(op, x, st_[3], dt[3], st) for x in v)
        if op in ("zext", "sext"):
            if st_ == "i1":
                v = self.frombool(v)
                if op == "sext":
                    return -v if type(v) is int else neg(v)
                return v
            if type(v) is Pack:
                return v
            if op == "zext":
                if type(v) is int:
                    return v & ((1 << int(st_[1:])) - 1)
                if type(v) is Term and st is not None and not smt.entails(st.pc, le(0, v)):
                    return ite(le(0, v), v, add(v, 1 << int(st_[1:])))
            return v
        if op == "trunc":
            if dt == "i1":
                return self.tobool(v)
            return self.trunc(v, int(dt[1:]))
        if op in ("sitofp", "uitofp"):
            if type(v) is bool or st_ == "i1":
                v = self.frombool(v)
            if type(v) is int:
                if op == "uitofp":
                    v &= (1 << int(st_[1:])) - 1
                return Fraction(v)
            return toreal(v)
        if op in ("fptosi", "fptoui"):
            if type(v) is float:
                raise Unsupported("integer conversion of non-finite value")
            if type(v) is Term:
                return ite(le(0, v), floor_(v), neg(floor_(neg(v))))
            return int(v)
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast":
            if type(dt) is list or type(st_) is list:
                if type(dt) is list and type(st_) is list and self.tsize(dt) == self.tsize(st_) and dt[0] == st_[0] == "a" and dt[2] == st_[2]:
                    return v
                raise Unsupported("vector bitcast")
            return self.coerce(v, st_, dt)
        raise Unsupported(op)

    # ------------------------------------------------------------ control
    def val(self, env, x):
        if type(x) is int:
            v = env[x]
            return v
        return self.const(x)

    def call(self, name, args, st, depth):
        """-> list of ('ret', st, value) / ('throw', st, exc)"""
        m = self.models.get(name)
        if m is not None:
            return m(self, st, args)
        f = self.fn(name)
        if f.decl:
            m = self.find_model(f)
            if m is None:
                raise Unsupported("external function %s" % f.dem)
            self.models[name] = m
            return m(self, st, args)
        m = self.find_override(f)
        if m is not None:
            return m(self, st, args)
        if depth > 400:
            raise Unsupported("call depth")
        self.entered[f.dem] = self.entered.get(f.dem, 0) + 1
        if self.caller is not None and not any(n in self.caller for n in ("maxwell::", "std::", "mfem::", "Eigen::", "nlohmann::", "__gnu")):
            self.direct[f.dem] = self.direct.get(f.dem, 0) + 1
        fr = Frame(f, depth)
        env = [None] * f.nvals
        env[:len(args)] = args
        try:
            outs = self.run(fr, st, env, 0, 0, Ctl())
        except RecursionError:
            raise Unsupported("recursion")
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                for a in fr.allocas:
                    if a in s.mem:
                        if a in s.own:
                            s.own.discard(a)
                        del s.mem[a]
                res.append(("ret", s, o[3]))
            else:
                res.append(o)
        # several returns differ only in unmergeable values: keep them apart
        return res

    def find_override(self, f):
        return None

    def find_model(self, f):
        import models
        return models.lookup(self, f)

    def do_call(self, fr, st, env, ins):
        callee = ins[2]
        self.caller = fr.fn.dem.split("(")[0]
        args = [self.val(env, a) for a in ins[3]]
        for i, sz in ins[5]:
            o = self.alloc(st, sz, "byval")
            self.memcpy(st, Ptr(o.id, 0), args[i], sz)
            args[i] = Ptr(o.id, 0)
        if type(callee) is list and callee[0] == "fn":
            return self.call(callee[1], args, st, fr.depth + 1)
        t = self.val(env, callee)
        return self.call_ptr(t, args, st, fr.depth + 1)

    def call_ptr(self, t, args, st, depth):
        if type(t) is FnPtr:
            return self.call(t.name, args, st, depth)
        if type(t) is PIte:
            outs = []
            s2 = st.fork()
            for s, c, tt in ((st, t.c, t.a), (s2, not_(t.c), t.b)):
                if not smt.feasible(s.pc, c):
                    continue
                s.assume(c)
                outs += self.call_ptr(tt, list(args), s, depth)
            return outs
        raise Unsupported("call through %r" % (t,))

    def phis(self, fn, env, prev, target):
        ph = fn.blocks[target]["phis"]
        if ph:
            vals = []
            for p in ph:
                for b, x in p[2]:
                    if b == prev:
                        vals.append((p[0], self.val(env, x)))
                        break
                else:
                    raise Unsupported("phi without edge")
            for d, v in vals:
                env[d] = v

    def run(self, fr, st, env, b, i, ctl):
        fn = fr.fn
        prev = None
        while True:
            blk = fn.blocks[b]["ins"]
            n = len(blk)
            jump = None
            while i < n:
                ins = blk[i]
                op = ins[0]
                self.steps += 1
                if self.steps & 255 == 0:
                    if self.steps > self.opts["max_steps"]:
                        raise Unsupported("step budget")
                    if time.time() > self.deadline:
                        raise Unsupported("time budget")
                if op == "load":
                    env[ins[1]] = self.load(st, self.val(env, ins[2]), ins[3], ins[4])
                elif op == "store":
                    self.store(st, self.val(env, ins[3]), self.val(env, ins[2]), ins[4], ins[5])
                elif op == "gep":
                    env[ins[1]] = self.gep(self.val(env, ins[2]), ins[3], [(self.val(env, x), s) for x, s in ins[4]])
                elif op == "bin":
                    env[ins[1]] = self.binop(st, ins[2], self.val(env, ins[3]), None if ins[4] is None else self.val(env, ins[4]), ins[5])
                elif op == "icmp":
                    env[ins[1]] = self.icmp(st, ins[2], self.val(env, ins[3]), self.val(env, ins[4]), ins[5])
                elif op == "fcmp":
                    env[ins[1]] = self.fcmp(ins[2], self.val(env, ins[3]), self.val(env, ins[4]))
                elif op == "call" or op == "invoke":
                    outs = self.do_call(fr, st, env, ins)
                    if op == "invoke":
                        conts = []
                        res = []
                        for o in outs:
                            e2 = env if len(outs) == 1 else list(env)
                            if o[0] == "ret":
                                if ins[1] >= 0:
                                    e2[ins[1]] = o[2]
                                conts.append((o[1], e2, ins[6]))
                            else:
                                if self.catches(fn, ins[7], o[2]):
                                    o[1].ghost["exc"] = o[2]
                                    conts.append((o[1], e2, ins[7]))
                                else:
                                    res.append(o)
                        if len(conts) == 1 and not res:
                            st, env, t = conts[0]
                            jump = t
                            break
                        return res + self.continue_all(fr, conts, b, ctl)
                    if len(outs) == 1 and outs[0][0] == "ret":
                        st = outs[0][1]
                        if ins[1] >= 0:
                            env[ins[1]] = outs[0][2]
                    else:
                        res = []
                        # merging of several normal returns happens where possible
                        rets = [o for o in outs if o[0] == "ret"]
                        res += [o for o in outs if o[0] != "ret"]
                        for k, o in enumerate(rets):
                            e2 = list(env) if k < len(rets) - 1 else env
                            if ins[1] >= 0:
                                e2[ins[1]] = o[2]
                            res += self.run(fr, o[1], e2, b, i + 1, ctl)
                        return res
                elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"):
                    env[ins[1]] = self.cast(op, self.val(env, ins[2]), ins[3], ins[4], st)
                elif op == "select":
                    c = self.val(env, ins[2])
                    if type(c) is tuple:
                        env[ins[1]] = tuple(merge_val(ci, x, y) if type(ci) is Term else (x if ci else y) for ci, x, y in zip(c, self.val(env, ins[3]), self.val(env, ins[4])))
                    elif type(c) is Term:
                        env[ins[1]] = merge_val(c, self.val(env, ins[3]), self.val(env, ins[4]))
                    elif c is UNDEF:
                        raise Unsupported("select on undefined value")
                    else:
                        env[ins[1]] = self.val(env, ins[3]) if c else self.val(env, ins[4])
                elif op == "alloca":
                    cnt = self.val(env, ins[3])
                    o = self.alloc(st, ins[2] * cnt, "local")
                    fr.allocas.append(o.id)
                    env[ins[1]] = Ptr(o.id, 0)
                elif op == "extractvalue":
                    v = self.val(env, ins[2])
                    for k in ins[3]:
                        if v is UNDEF:
                            break
                        v = v[k]
                    env[ins[1]] = v
                elif op == "insertvalue":
                    env[ins[1]] = self.insert(self.val(env, ins[2]), self.val(env, ins[3]), ins[4], ins[5])
                elif op == "extractelement":
                    env[ins[1]] = self.val(env, ins[2])[self.val(env, ins[3])]
                elif op == "insertelement":
                    v = list(self.val(env, ins[2]))
                    v[self.val(env, ins[4])] = self.val(env, ins[3])
                    env[ins[1]] = tuple(v)
                elif op == "shufflevector":
                    a, c = self.val(env, ins[2]), self.val(env, ins[3])
                    both = tuple(a) + tuple(c if type(c) is tuple else (UNDEF,) * len(a))
                    env[ins[1]] = tuple(UNDEF if k < 0 else both[k] for k in ins[4])
                elif op == "freeze":
                    env[ins[1]] = self.val(env, ins[2])
                elif op == "jmp":
                    jump = ins[2]
                    break
                elif op == "br":
                    c = self.val(env, ins[2])
                    if c is UNDEF:
                        raise Unsupported("branch on an uninitialised value")
                    ctx = self.exit_ctx(fn, b, ins, ctl)
                    if ctx is not None and type(c) is not Term:
                        ctx.decided = True
                    if type(c) is Term:
                        # decided by the path condition?
                        ft = smt.feasible(st.pc, c)
                        if not ft:
                            c = False
                        elif not smt.feasible(st.pc, not_(c)):
                            c = True
                    if type(c) is not Term:
                        jump = ins[3] if c else ins[4]
                        break
                    if ctx is not None and not ctx.unroll:
                        ctx.forks += 1
                        if not ctx.decided or ctx.forks > 60:
                            raise NeedSummary(ctx)
                    return self.fork(fr, st, env, b, [(c, ins[3]), (not_(c), ins[4])], ctl)
                elif op == "switch":
                    c = self.val(env, ins[2])
                    if type(c) is bool:
                        c = int(c)
                    if type(c) is not Term:
                        jump = ins[3]
                        for v, t in ins[4]:
                            if v == c:
                                jump = t
                        break
                    alts = []
                    rest = True
                    for v, t in ins[4]:
                        e = eq(c, v)
                        alts.append((and_(rest, e), t))
                        rest = and_(rest, not_(e))
                    alts.append((rest, ins[3]))
                    return self.fork(fr, st, env, b, alts, ctl)
                elif op == "ret":
                    v = None if ins[2] is None else self.val(env, ins[2])
                    return [("ret", st, env, v)]
                elif op == "landingpad":
                    env[ins[1]] = self.landing(st, ins)
                elif op == "resume":
                    v = self.val(env, ins[2])
                    return [("throw", st, st.ghost.get("exc"))]
                elif op == "unreachable":
                    raise Unsupported("unreachable executed in " + fn.dem)
                elif op == "atomicrmw":
                    p = self.val(env, ins[3])
                    old = self.load(st, p, ins[5], ins[6])
                    x = self.val(env, ins[4])
                    new = self.binop(st, ins[2], old, x, ins[5]) if ins[2] in ("add", "sub", "and", "or") else x
                    self.store(st, p, new, ins[5], ins[6])
                    env[ins[1]] = old
                elif op == "nop":
                    pass
                else:
                    raise Unsupported("instruction %s" % ins[2:3])
                i += 1
            # jump
            t = jump
            self.phis(fn, env, b, t)
            prev, b, i = b, t, 0
            r = self.arrive(fr, st, env, prev, b, ctl)
            if r is not None:
                if r[0] == "go":
                    _, st, env, prev, b = r
                    continue
                return r[1]

    def arrive(self, fr, st, env, prev, b, ctl):
        """block b reached from prev (phis done). None: go on; ('done', outs) or ('go', ...) after a loop"""
        fn = fr.fn
        while True:
            if b in ctl.stops or (ctl.region is not None and b not in ctl.region):
                return ("done", [("at", st, env, b, prev)])
            loop = fn.headers.get(b)
            if loop is None or prev in loop.blocks:
                if loop is not None:
                    for c in ctl.loops:
                        if c.loop is loop:
                            c.iters += 1
                            if c.iters > self.opts["unroll"] and c.unroll:
                                raise Unsupported("loop not summarised and not bounded in " + fn.dem)
                            if c.iters > 100000:
                                raise Unsupported("loop too long")
                return None
            outs = self.enter_loop(fr, st, env, b, loop, ctl)
            at = [o for o in outs if o[0] == "at"]
            oth = [o for o in outs if o[0] != "at"]
            at = self.merge_at(fr, at, len(st.pc) if False else None)
            if len(at) == 1 and not oth:
                _, st, env, b, prev = at[0]
                r = self.arrive_simple(fr, b, prev, ctl)
                if r == "stop":
                    return ("done", at)
                if r == "loop":
                    continue
                return ("go", st, env, prev, b)
            res = oth
            for o in at:
                res = res + self.cont_at(fr, o, ctl)
            return ("done", res)

    def arrive_simple(self, fr, b, prev, ctl):
        if b in ctl.stops or (ctl.region is not None and b not in ctl.region):
            return "stop"
        loop = fr.fn.headers.get(b)
        if loop is not None and prev not in loop.blocks:
            return "loop"
        return None

    def cont_at(self, fr, o, ctl):
        _, st, env, b, prev = o
        r = self.arrive(fr, st, env, prev, b, ctl)
        if r is None:
            return self.run(fr, st, env, b, 0, ctl)
        if r[0] == "go":
            _, st, env, prev, b = r
            return self.run(fr, st, env, b, 0, ctl)
        return r[1]

    def continue_all(self, fr, conts, prev, ctl):
        res = []
        for st, env, t in conts:
            self.phis(fr.fn, env, prev, t)
            res += self.cont_at(fr, ("at", st, env, t, prev), ctl)
        return res

    def exit_ctx(self, fn, b, ins, ctl):
        for c in reversed(ctl.loops):
            if b in c.loop.blocks:
                if ins[3] not in c.loop.blocks or ins[4] not in c.loop.blocks:
                    return c
                return None
        return None

    def fork(self, fr, st, env, b, alts, ctl):
        fn = fr.fn
        j = fn.ipdom(b)
        base = len(st.pc)
        inner = Ctl(ctl.stops | {j}, ctl.region, ctl.loops) if j is not None else ctl
        alts2 = []
        # targets grouped (switch cases sharing a target)
        for c, t in alts:
            if c is False:
                continue
            if type(c) is Term and len(alts) > 2 and not smt.feasible(st.pc, c):
                continue
            alts2.append((c, t))
        outs = []
        cur = st
        for k, (c, t) in enumerate(alts2):
            s = cur.fork() if k < len(alts2) - 1 else cur
            e = list(env) if k < len(alts2) - 1 else env
            s.assume(c)
            self.phis(fn, e, b, t)
            try:
                outs += self.cont_at(fr, ("at", s, e, t, b), inner)
            except PathEnd:
                pass
        if j is None:
            return outs
        at = [o for o in outs if o[0] == "at" and o[3] == j]
        oth = [o for o in outs if not (o[0] == "at" and o[3] == j)]
        if not at:
            return oth
        at = self.merge_at(fr, at, base)
        res = oth
        if j in ctl.stops or (ctl.region is not None and j not in ctl.region):
            return res + at
        for o in at:
            res = res + self.cont_at(fr, o, ctl)
        return res

    def merge_at(self, fr, at, base):
        """merge outcomes at the same block where possible"""
        if len(at) <= 1:
            return at
        groups = {}
        for o in at:
            groups.setdefault(o[3], []).append(o)
        res = []
        for b, os in groups.items():
            while len(os) > 1:
                x, y = os[-2], os[-1]
                m = self.merge2(fr, x, y)
                if m is None:
                    break
                os = os[:-2] + [m]
            res += os
        return res

    def merge2(self, fr, x, y):
        _, s1, e1, b, p1 = x
        _, s2, e2, _, p2 = y
        loop = fr.fn.headers.get(b)
        if loop is not None and (p1 in loop.blocks) != (p2 in loop.blocks):
            return None
        if s1.ghost.get("choice") != s2.ghost.get("choice"):
            return None
        k = 0
        n = min(len(s1.pc), len(s2.pc))
        while k < n and s1.pc[k] is s2.pc[k]:
            k += 1
        c1 = and_(*s1.pc[k:])
        c2 = and_(*s2.pc[k:])
        # choosing condition: the first differing conjunct decides
        d1 = s1.pc[k] if k < len(s1.pc) else True
        d2 = s2.pc[k] if k < len(s2.pc) else True
        if type(d1) is Term and type(d2) is Term and (not_(d1) is d2):
            sel = d1
        else:
            sel = c1
        if sel is True:
            return None
        try:
            env = self.merge_env(sel, e1, e2, (s1.mem, s2.mem))
            mem = self.merge_mem(sel, s1, s2)
        except (MergeFail, Unsupported):
            return None
        st = State()
        st.mem = mem
        st.pc = s1.pc[:k]
        st.assume(or_(c1, c2))
        st.ghost = s1.ghost
        return ("at", st, env, b, p1)

    def merge_env(self, c, e1, e2, mems=()):
        out = []
        for a, b in zip(e1, e2):
            if a is b:
                out.append(a)
            elif a is None or b is None:
                out.append(a if b is None else b)
            else:
                if linked(a, b, mems):
                    raise MergeFail("linked structures differ")
                out.append(merge_val(c, a, b))
        return out

    def merge_mem(self, c, s1, s2):
        mem = {}
        m1, m2 = s1.mem, s2.mem
        for k, o1 in m1.items():
            o2 = m2.get(k)
            if o2 is None or o1 is o2:
                mem[k] = o1
                continue
            mem[k] = self.merge_obj(c, o1, o2, (m1, m2))
        for k, o2 in m2.items():
            if k not in m1:
                mem[k] = o2
        return mem

    def merge_obj(self, c, o1, o2, mems=()):
        if o1.freed != o2.freed:
            raise MergeFail("freed on one side")
        if o1.fields is not None or o2.fields is not None:
            if o1.fields is None or o2.fields is None:
                if o1.fields is None:
                    o1 = self.arr_like(o1, o2)
                else:
                    o2 = self.arr_like(o2, o1)
            if o1.stride != o2.stride:
                raise MergeFail("strides")
            o = o1.copy()
            for k in set(o1.fields) | set(o2.fields):
                a, b = o1.fields.get(k), o2.fields.get(k)
                if a is None:
                    a = (self.base_body(o1, k[0], k[1], b[1]), b[1])
                if b is None:
                    b = (self.base_body(o2, k[0], k[1], a[1]), a[1])
                o.fields[k] = (merge_val(c, a[0], b[0]), a[1])
            return o
        o = o1.copy()
        o.cells = self.merge_cells(c, o1, o2, mems)
        if o1.default is None and o2.default is not None:
            o.default = None
        return o

    def arr_like(self, o, ref):
        n = o.copy()
        n.stride = ref.stride
        n.fields = {}
        byfield = {}
        for co, (v, s, t) in o.cells.items():
            byfield.setdefault((co % n.stride, s, t), []).append((co // n.stride, v))
        for (fo, s, t), lst in byfield.items():
            body = self.base_body(n, fo, s, t)
            for i, v in lst:
                body = merge_val(eq(IDX, i), v, body)
            n.fields[(fo, s)] = (body, t)
        n.cells = {}
        return n

    def gep(self, p, co, idx):
        tp = type(p)
        if tp is PIte:
            return pite(p.c, self.gep(self.norm_ptr(p.a), co, idx), self.gep(self.norm_ptr(p.b), co, idx))
        if tp is int and p == 0:
            p = NULL
            tp = Ptr
        if tp is not Ptr:
            if p is UNDEF or p is None:
                return UNDEF
            raise Unsupported("gep on %r" % (p,))
        off = p.off + co if type(p.off) is int else add(p.off, co)
        for v, s in idx:
            if type(v) is int:
                off = off + v * s if type(off) is int else add(off, v * s)
            elif v is UNDEF:
                return UNDEF
            else:
                if type(v) is bool or v.sort == "B":
                    v = self.frombool(v)
                off = add(off, scale(v, s) if type(v) is Term else v * s)
        return Ptr(p.obj, off)

    def insert(self, agg, v, idx, ty):
        if not idx:
            return v
        if agg is UNDEF:
            agg = self.undef_of(ty)
        k = idx[0]
        sub_ty = ty[2][k][1] if ty[0] == "s" else ty[3]
        lst = list(agg)
        lst[k] = self.insert(lst[k], v, idx[1:], sub_ty)
        return tuple(lst)

    # ------------------------------------------------------------ exceptions
    def typeid(self, p):
        if type(p) is Ptr:
            if p.obj == 0:
                return 0
            k = p.obj
        else:
            raise Unsupported("typeinfo")
        if k not in self.tid:
            self.tid[k] = len(self.tid) + 1
        return self.tid[k]

    def gname(self, oid):
        for g, o in self.gobj.items():
            if o == oid:
                return g
        return None

    def bases(self, ti):
        """typeinfo object id -> list of (base typeinfo id, offset)"""
        import models
        o = self.st0.mem.get(ti)
        g = self.gname(ti)
        out = []
        if o is not None and 16 in o.cells and type(o.cells[16][0]) is Ptr:
            out.append((o.cells[16][0].obj, 0))
        elif o is not None and 20 in o.cells and type(o.cells[20][0]) is int:
            n = o.cells[20][0]
            for i in range(n):
                b = o.cells.get(24 + 16 * i)
                fl = o.cells.get(32 + 16 * i)
                if b and type(b[0]) is Ptr:
                    out.append((b[0].obj, (fl[0] >> 8) if fl else 0))
        elif g is not None:
            for b in models.STD_BASES.get(g, ()):
                if b in self.gobj:
                    out.append((self.gobj[b], 0))
                else:
                    out.append((b, 0))
        return out

    def derives(self, ti, target):
        if ti == target:
            return True
        import models
        if type(ti) is str:
            if target == self.gobj.get(ti, None):
                return True
            return any(self.derives(self.gobj.get(b, b), target) for b in models.STD_BASES.get(ti, ()))
        return any(self.derives(b, target) for b, _ in self.bases(ti))

    def catches(self, fn, pad, exc):
        ins = fn.blocks[pad]["ins"][0]
        if ins[0] != "landingpad":
            raise Unsupported("landing pad")
        if ins[2]:
            return True
        return self.selector(ins, exc) is not None

    def selector(self, ins, exc):
        for iscatch, c in ins[3]:
            if not iscatch:
                continue
            p = self.const(c)
            if self.isnull(p):
                return self.typeid(p) if False else 0x7fff
            if self.derives(exc[1], p.obj):
                return self.typeid(p)
        return None

    def landing(self, st, ins):
        exc = st.ghost["exc"]
        s = self.selector(ins, exc)
        return (exc[0], 0 if s is None else s)

    # ------------------------------------------------------------ loops
    def enter_loop(self, fr, st, env, b, loop, ctl):
        snap_st = st.fork()
        snap_env = list(env)
        ctx = LoopCtx(loop, fr)
        nob, nstep = len(self.obls), self.steps
        saved = self.save_marks()
        inner = Ctl(ctl.stops - {b}, loop.blocks if ctl.region is None else loop.blocks, ctl.loops + (ctx,))
        try:
            return self.run(fr, st, env, b, 0, inner)
        except NeedSummary as e:
            if e.ctx is not ctx:
                raise
        self.restore_marks(saved)
        del self.obls[nob:]
        try:
            s2 = snap_st.fork()
            return self.loopmod.summarise(self, fr, s2, list(snap_env), b, loop, ctl)
        except SummaryFail as e:
            self.log.append("loop in %s not summarised: %s" % (fr.fn.dem[:80], e))
            reason = str(e)
        del self.obls[nob:]
        self.restore_marks(saved)
        if snap_st.ghost.get("inv"):
            try:
                return self.loopmod.inductive(self, fr, snap_st.fork(), list(snap_env), b, loop, ctl, snap_st.ghost["inv"])
            except SummaryFail as e:
                reason += "; invariant: %s" % e
            del self.obls[nob:]
            self.restore_marks(saved)
        ctx = LoopCtx(loop, fr)
        ctx.unroll = True
        inner = Ctl(ctl.stops - {b}, loop.blocks, ctl.loops + (ctx,))
        try:
            return self.run(fr, snap_st, snap_env, b, 0, inner)
        except Unsupported as e:
            raise Unsupported("%s [summary: %s]" % (e, reason))

    def save_marks(self):
        return (dict(self.safety), len(self.summaries))

    def restore_marks(self, m):
        self.safety = dict(m[0])
        del self.summaries[m[1]:]

    # ------------------------------------------------------------ obligations
    def obligation(self, st, goal, label):
        if self.quiet:
            return
        self.obls.append({"label": label, "pc": st.pc, "goal": goal, "harness": self.curh})

    def run_harness(self, name):
        self.curh = name
        self.obls = []
        self.deadline = getattr(self, "deadline", time.time() + 1e6)
        self.quiet = 0
        st = self.st0.fork()
        outs = self.call(name, [], st, 0)
        return outs


class FamPtr:
    __slots__ = ("fam", "idx", "off")

    def __init__(self, fam, idx, off):
        self.fam, self.idx, self.off = fam, idx, off
