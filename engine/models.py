"""Models of functions without a body in the IR: maths, memory, C++ runtime, harness primitives."""
import math
from fractions import Fraction
from terms import *
import smt
import symex
from symex import Ptr, PIte, FnPtr, UNDEF, NULL, Obj, IDX, State

STD_BASES = {
    "_ZTISt13runtime_error": ("_ZTISt9exception",),
    "_ZTISt11logic_error": ("_ZTISt9exception",),
    "_ZTISt12out_of_range": ("_ZTISt11logic_error",),
    "_ZTISt16invalid_argument": ("_ZTISt11logic_error",),
    "_ZTISt12length_error": ("_ZTISt11logic_error",),
    "_ZTISt12domain_error": ("_ZTISt11logic_error",),
    "_ZTISt11range_error": ("_ZTISt13runtime_error",),
    "_ZTISt14overflow_error": ("_ZTISt13runtime_error",),
    "_ZTISt9bad_alloc": ("_ZTISt9exception",),
    "_ZTISt8bad_cast": ("_ZTISt9exception",),
    "_ZTISt17bad_function_call": ("_ZTISt9exception",),
    "_ZTISt12system_error": ("_ZTISt13runtime_error",),
    "_ZTISt19bad_optional_access": ("_ZTISt9exception",),
    "_ZTISt18bad_variant_access": ("_ZTISt9exception",),
}


def ret(st, v=None):
    return [("ret", st, v)]


def real(x):
    if type(x) is int:
        return Fraction(x)
    if type(x) is float and math.isfinite(x):
        return Fraction(x)
    return x


def conc(name, pyf):
    def m(e, st, args):
        a = [real(x) for x in args]
        if any(type(x) is float for x in a) or any(x is UNDEF for x in a):
            if any(x is UNDEF for x in a):
                return ret(st, UNDEF)
            try:
                r = pyf(*[float(x) for x in a])
            except (ValueError, OverflowError):
                r = math.nan
            return ret(st, real(r))
        return ret(st, fn(name, *a))
    return m


def m_sqrt(e, st, args):
    a = real(args[0])
    if type(a) is not Term:
        if type(a) is float or a < 0:
            return ret(st, math.nan if type(a) is not float or not a > 0 else a)
    return ret(st, fn("sqrt", a))


_norms = {}  # square root of a sum of squares -> the sum


def m_pow(e, st, args):
    a, b = real(args[0]), args[1]
    if type(a) is Term and a in _norms and type(b) in (int, Fraction) and b == 2:
        return ret(st, _norms[a])
    if type(b) is Fraction and b.denominator == 1:
        b = int(b)
    if type(b) is int:
        if b < 0 and type(a) is not Term and a == 0:
            return ret(st, math.inf)
        return ret(st, power(a, b))
    if type(b) is Fraction and b == Fraction(1, 2):
        return ret(st, fn("sqrt", a))
    if type(b) is Fraction and b.denominator == 2:
        n = int(b * 2)
        return ret(st, power(fn("sqrt", a), n))
    if type(b) is Term and b.op == "toreal":
        pass
    return ret(st, fn("pow", a, real(b)))


def m_fabs(e, st, args):
    a = real(args[0])
    if type(a) is float:
        return ret(st, abs(a))
    if a is UNDEF:
        return ret(st, a)
    return ret(st, absr(a))


def m_abs(e, st, args):
    a = args[0]
    if type(a) is not Term:
        return ret(st, abs(a))
    return ret(st, ite(lt(a, 0), neg(a), a))


def m_floor(e, st, args):
    return ret(st, toreal(floor_(real(args[0]))))


def m_ceil(e, st, args):
    return ret(st, neg(toreal(floor_(neg(real(args[0]))))))


def m_round(e, st, args):
    a = real(args[0])
    if type(a) is not Term:
        r = math.floor(abs(a) + Fraction(1, 2))
        return ret(st, Fraction(r if a >= 0 else -r))
    h = Fraction(1, 2)
    return ret(st, ite(le(0, a), toreal(floor_(add(a, h))), neg(toreal(floor_(add(neg(a), h))))))


def m_lround(e, st, args):
    r = m_round(e, st, args)[0][2]
    return ret(st, floor_(r) if type(r) is Term else int(r))


def m_ftrunc(e, st, args):
    a = real(args[0])
    if type(a) is not Term:
        return ret(st, Fraction(int(a)))
    return ret(st, ite(le(0, a), toreal(floor_(a)), neg(toreal(floor_(neg(a))))))


def m_fmax(e, st, args):
    a, b = real(args[0]), real(args[1])
    return ret(st, e.binmax(a, b)) if False else ret(st, ite(lt(a, b), b, a))


def m_fmin(e, st, args):
    a, b = real(args[0]), real(args[1])
    return ret(st, ite(lt(b, a), b, a))


def m_imax(e, st, args):
    return ret(st, ite(lt(args[0], args[1]), args[1], args[0]))


def m_imin(e, st, args):
    return ret(st, ite(lt(args[1], args[0]), args[1], args[0]))


def m_hypot(e, st, args):
    r = Fraction(0)
    for a in args:
        r = add(r, mul(real(a), real(a)))
    x = fn("sqrt", r)
    if type(x) is Term:
        _norms[x] = r
    return ret(st, x)


def m_fma(e, st, args):
    return ret(st, add(mul(args[0], args[1]), args[2], "R"))


def m_fmod(e, st, args):
    a, b = real(args[0]), real(args[1])
    if type(a) is not Term and type(b) is not Term:
        q = Fraction(int(a / b))
        return ret(st, a - q * b)
    q = div(a, b)
    q = ite(le(0, q), toreal(floor_(q)), neg(toreal(floor_(neg(q)))))
    return ret(st, sub(a, mul(q, b)))


def m_copysign(e, st, args):
    a, b = real(args[0]), real(args[1])
    return ret(st, ite(lt(b, 0), neg(absr(a)), absr(a)))


def m_tan(e, st, args):
    a = real(args[0])
    if type(a) is not Term and a == 0:
        return ret(st, a)
    return ret(st, div(fn("sin", a), fn("cos", a)))


def m_sincos(e, st, args):
    e.store(st, args[1], fn("sin", real(args[0])), "d", 8)
    e.store(st, args[2], fn("cos", real(args[0])), "d", 8)
    return ret(st)


def nop(e, st, args):
    return ret(st)


def first(e, st, args):
    return ret(st, args[0])


def m_memcpy(e, st, args):
    e.memcpy(st, args[0], args[1], args[2])
    return ret(st, args[0])


def m_memset(e, st, args):
    e.memset(st, args[0], args[1], args[2])
    return ret(st, args[0])


def m_new(e, st, args):
    n = args[0]
    o = e.alloc(st, n, "heap")
    return ret(st, Ptr(o.id, 0))


def m_calloc(e, st, args):
    n = mul(args[0], args[1])
    o = e.alloc(st, n, "heap", 0)
    return ret(st, Ptr(o.id, 0))


def m_delete(e, st, args):
    p = args[0]
    if type(p) is Ptr and p.obj:
        o = st.w(p.obj)
        if o.freed:
            raise Unsupported("double free")
        o.freed = True
        o.cells = {}
        o.fields = None
    return ret(st)


def m_ovf(op):
    def m(e, st, args):
        a, b = args
        r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
        return ret(st, (r, False))
    return m


def m_throw(e, st, args):
    return [("throw", st, (args[0], args[1].obj))]


def throw_std(ti):
    def m(e, st, args):
        o = e.alloc(st, 64, "exception")
        t = e.gobj.get(ti, ti)
        return [("throw", st, (Ptr(o.id, 0), t))]
    return m


def m_rethrow(e, st, args):
    return [("throw", st, st.ghost.get("exc"))]


def m_abort(what):
    def m(e, st, args):
        e.obligation(st, False, "%s not reached" % what)
        return []
    return m


def m_assert_fail(e, st, args):
    try:
        txt = e.cstr(st, args[0])
    except Unsupported:
        txt = "assertion"
    e.obligation(st, False, "assert(%s)" % txt[:120])
    return []


def m_guard_acquire(e, st, args):
    v = e.load(st, args[0], "i8", 1)
    if v is UNDEF:
        v = 0
    if type(v) is int and v == 0:
        e.store(st, args[0], 1, "i8", 1)
        return ret(st, 1)
    return ret(st, 0)


def m_dyncast(e, st, args):
    return dyncast(e, st, args[0], args[1], args[2])


def dyncast(e, st, p, src, dst):
    if type(p) is PIte:
        s2 = st.fork()
        outs = []
        for s, c, q in ((st, p.c, p.a), (s2, not_(p.c), p.b)):
            if smt.feasible(s.pc, c):
                s.assume(c)
                outs += dyncast(e, s, q, src, dst)
        return outs
    if e.isnull(p):
        return ret(st, NULL)
    vp = e.load(st, p, "p", 8)
    if type(vp) is not Ptr:
        raise Unsupported("dynamic_cast without vtable")
    ti = e.load(st, Ptr(vp.obj, vp.off - 8), "p", 8)
    top = e.load(st, Ptr(vp.obj, vp.off - 16), "i64", 8)
    if type(top) is Ptr:
        top = 0
    full = Ptr(p.obj, add(p.off, top))
    r = find_base(e, ti.obj, dst.obj, 0)
    if r is None:
        return ret(st, NULL)
    return ret(st, Ptr(full.obj, add(full.off, r)))


def find_base(e, ti, dst, off):
    if ti == dst:
        return off
    for b, o in e.bases(ti):
        r = find_base(e, b, dst, off + o)
        if r is not None:
            return r
    return None


def m_typeid_for(e, st, args):
    return ret(st, e.typeid(args[0]))


def m_begin_catch(e, st, args):
    return ret(st, args[0])


def m_strlen(e, st, args):
    return ret(st, len(e.cstr(st, args[0])))


def m_memcmp(e, st, args):
    n = args[2]
    if type(n) is not int:
        raise Unsupported("symbolic memcmp")
    for i in range(n):
        a = e.load(st, e.gep(args[0], i, []), "i8", 1)
        b = e.load(st, e.gep(args[1], i, []), "i8", 1)
        if type(a) is not int or type(b) is not int:
            raise Unsupported("symbolic memcmp")
        if a != b:
            return ret(st, 1 if (a & 255) > (b & 255) else -1)
    return ret(st, 0)


def m_strcmp(e, st, args):
    a, b = e.cstr(st, args[0]), e.cstr(st, args[1])
    return ret(st, (a > b) - (a < b))


def m_memchr(e, st, args):
    n = args[2]
    for i in range(n):
        a = e.load(st, e.gep(args[0], i, []), "i8", 1)
        if type(a) is not int:
            raise Unsupported("symbolic memchr")
        if (a & 255) == (args[1] & 255):
            return ret(st, e.gep(args[0], i, []))
    return ret(st, NULL)


# ---------------------------------------------------------------- harness primitives
def name_of(e, st, p):
    n = e.cstr(st, p)
    k = st.ghost.get("#" + n, 0)
    st.ghost["#" + n] = k + 1
    return n if k == 0 else "%s~%d" % (n, k)


def v_real(e, st, args):
    n = name_of(e, st, args[0])
    e.inputs[n] = ("real",)
    return ret(st, var(n, "R"))


def v_int(e, st, args):
    n = name_of(e, st, args[0])
    e.inputs[n] = ("int",)
    if e.opts["mode"] == "bounded":
        lo, hi = args[1], args[2]
    return ret(st, var(n, "I"))


def v_bool(e, st, args):
    n = name_of(e, st, args[0])
    e.inputs[n] = ("bool",)
    return ret(st, var(n, "B"))


def v_choose(e, st, args):
    n = name_of(e, st, args[0])
    e.inputs[n] = ("choose",)
    v = var(n, "I")
    outs = []
    for i in range(args[1]):
        s = st.fork()
        s.assume(eq(v, i))
        s.ghost["choice"] = s.ghost.get("choice", ()) + ((n, i),)
        outs.append(("ret", s, i))
    return outs


def v_size(e, st, args):
    """size parameter: symbolic, or enumerated when the engine runs in bounded mode"""
    n = name_of(e, st, args[0])
    e.inputs[n] = ("int",)
    lo = args[1]
    if e.opts["mode"] == "bounded":
        v = var(n, "I")
        outs = []
        for i in range(lo, max(lo, min(args[2], e.opts["bound"])) + 1):
            s = st.fork()
            s.assume(eq(v, i))
            s.ghost["choice"] = s.ghost.get("choice", ()) + ((n, i),)
            outs.append(("ret", s, i))
        return outs
    v = var(n, "I")
    st.assume(le(lo, v))
    return ret(st, v)


def v_array(sort, ty, size):
    def m(e, st, args, named=None):
        n = name_of(e, st, args[0])
        if named:
            named(n)
        e.inputs[n] = (sort + "array",)
        cnt = args[1]
        o = e.alloc(st, mul(cnt, size), "input " + n)
        if type(cnt) is int and cnt <= 64:
            for i in range(cnt):
                o.cells[i * size] = (select(n, [i], sort), size, ty)
        else:
            o.stride = size
            o.fields = {(0, size): (select(n, [IDX], sort), ty)}
        return ret(st, Ptr(o.id, 0))
    return m


def v_index_array(e, st, args, distinct=False):
    def named(n):
        smt.BOUNDS[n] = (args[2], args[3])
        if distinct:
            smt.INJECTIVE.add(n)
    return v_array("I", "i32", 4)(e, st, args, named)


def v_injection(e, st, args):
    c = le(args[1], sub(args[3], args[2]))
    if c is not True:
        if not smt.feasible(st.pc, c):
            return []
        st.assume(c)
    return v_index_array(e, st, args, True)


def v_requires(e, st, args):
    c = e.tobool(args[0])
    if c is False:
        return []
    if type(c) is Term:
        if not smt.feasible(st.pc, c):
            return []
        st.assume(c)
    return ret(st)


def v_ensures(e, st, args):
    c = e.tobool(args[0])
    e.obligation(st, c, e.cstr(st, args[1]))
    return ret(st)


def v_ensures_eq(e, st, args):
    a, b = real(args[0]), real(args[1])
    lab = e.cstr(st, args[-1])
    if a is UNDEF or b is UNDEF:
        e.obligation(st, False, lab)
        return ret(st)
    if type(a) is float or type(b) is float:
        e.obligation(st, type(a) is float and type(b) is float and (a == b or (a != a and b != b)), lab)
        return ret(st)
    e.obligation(st, eq(a, b), lab)
    return ret(st)


def v_cover(e, st, args):
    lab = e.cstr(st, args[0])
    if not e.quiet:
        e.covered.setdefault(e.curh, {}).setdefault(lab, []).append(st.pc)
    return ret(st)


def v_ufn(e, st, args):
    n = e.cstr(st, args[0])
    return ret(st, select("u:" + n, [real(x) for x in args[1:]], "R"))


def v_ufi(e, st, args):
    n = e.cstr(st, args[0])
    return ret(st, select("u:" + n, list(args[1:]), "R"))


def v_ufii(e, st, args):
    n = e.cstr(st, args[0])
    return ret(st, select("u:" + n, list(args[1:]), "I"))


def v_diff(e, st, args):
    t, x = args
    if type(x) is not Term or x.op != "var":
        raise Unsupported("derivative with respect to a non-variable")
    if type(t) is not Term:
        return ret(st, Fraction(0))
    return ret(st, diff(t, x))


def v_unbounded(e, st, args):
    o = e.alloc(st, None, "buffer")
    o.kind = args[0]
    return ret(st, Ptr(o.id, 0))


def v_symbolic(e, st, args):
    return ret(st, True)


def v_assume(e, st, args):
    c = e.tobool(args[0])
    lab = e.cstr(st, args[1])
    e.assumed[lab] = e.assumed.get(lab, 0) + 1
    if c is False:
        return []
    st.assume(c)
    return ret(st)


def v_invariant(e, st, args):
    st.ghost["inv"] = st.ghost.get("inv", ()) + ((args[0], args[1], e.cstr(st, args[2])),)
    return ret(st)


def v_concrete(e, st, args):
    return ret(st, type(args[0]) is not Term)


def m_true(e, st, args):
    return ret(st, True)


def m_false(e, st, args):
    return ret(st, False)


def m_zero(e, st, args):
    return ret(st, 0)


def m_undef(e, st, args):
    return ret(st, UNDEF)


def m_fpclass(e, st, args):
    a, m = args
    if type(a) is float and a != a:
        return ret(st, bool(m & 3))
    if type(a) is float and a in (math.inf, -math.inf):
        return ret(st, bool(m & (512 if a > 0 else 4)))
    if m & 0x1f8 == 0x1f8:
        return ret(st, True)
    if m & 0x1f8 == 0:
        return ret(st, False)
    raise Unsupported("floating-point class")


def m_ctlz(bits):
    def f(e, st, args):
        if type(args[0]) is int:
            return ret(st, bits - args[0].bit_length())
        raise Unsupported("leading zeros of a symbolic number")
    return f


NAMES = {
    "sqrt": m_sqrt, "pow": m_pow, "fabs": m_fabs, "floor": m_floor, "ceil": m_ceil, "round": m_round, "trunc": m_ftrunc,
    "fmax": m_fmax, "fmin": m_fmin, "hypot": m_hypot, "cabs": m_hypot, "fma": m_fma, "fmod": m_fmod, "copysign": m_copysign, "tan": m_tan,
    "sincos": m_sincos, "abs": m_abs, "labs": m_abs, "lround": m_lround, "llround": m_lround, "lrint": m_lround, "rint": m_round, "nearbyint": m_round,
    "sin": conc("sin", math.sin), "cos": conc("cos", math.cos), "exp": conc("exp", math.exp), "log": conc("log", math.log),
    "acos": conc("acos", math.acos), "asin": conc("asin", math.asin), "atan": conc("atan", math.atan), "atan2": conc("atan2", math.atan2), "cbrt": conc("cbrt", math.cbrt),
    "jn": conc("jn", lambda n, x: math.nan), "j0": conc("j0", lambda x: math.nan), "j1": conc("j1", lambda x: math.nan),
    "log10": conc("log10", math.log10), "log2": conc("log2", math.log2), "sinh": conc("sinh", math.sinh), "cosh": conc("cosh", math.cosh), "tanh": conc("tanh", math.tanh),
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "strlen": m_strlen, "memcmp": m_memcmp, "bcmp": m_memcmp, "strcmp": m_strcmp, "memchr": m_memchr,
    "malloc": m_new, "calloc": m_calloc, "free": m_delete, "_Znwm": m_new, "_Znam": m_new, "_ZdlPv": m_delete, "_ZdaPv": m_delete,
    "_ZdlPvm": m_delete, "_ZdaPvm": m_delete, "_ZnwmSt11align_val_t": m_new, "_ZdlPvSt11align_val_t": m_delete,
    "__cxa_allocate_exception": m_new, "__cxa_free_exception": m_delete, "__cxa_throw": m_throw, "__cxa_rethrow": m_rethrow,
    "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": nop, "__cxa_atexit": m_zero, "__cxa_guard_acquire": m_guard_acquire,
    "__cxa_guard_release": nop, "__cxa_guard_abort": nop, "__dynamic_cast": m_dyncast, "__cxa_pure_virtual": m_abort("pure virtual call"),
    "__cxa_get_exception_ptr": first, "atexit": m_zero, "__cxa_bad_cast": throw_std("_ZTISt8bad_cast"), "__cxa_throw_bad_array_new_length": throw_std("_ZTISt9bad_alloc"),
    "abort": m_abort("abort()"), "_ZSt9terminatev": m_abort("std::terminate()"), "__clang_call_terminate": m_abort("std::terminate()"), "exit": m_abort("exit()"),
    "__assert_fail": m_assert_fail, "__gxx_personality_v0": nop,
    "_ZSt16__throw_bad_castv": throw_std("_ZTISt8bad_cast"), "_ZSt17__throw_bad_allocv": throw_std("_ZTISt9bad_alloc"), "_ZSt28__throw_bad_array_new_lengthv": throw_std("_ZTISt9bad_alloc"),
    "_ZSt20__throw_length_errorPKc": throw_std("_ZTISt12length_error"), "_ZSt20__throw_out_of_rangePKc": throw_std("_ZTISt12out_of_range"),
    "_ZSt24__throw_out_of_range_fmtPKcz": throw_std("_ZTISt12out_of_range"), "_ZSt19__throw_logic_errorPKc": throw_std("_ZTISt11logic_error"),
    "_ZSt24__throw_invalid_argumentPKc": throw_std("_ZTISt16invalid_argument"), "_ZSt20__throw_runtime_errorPKc": throw_std("_ZTISt13runtime_error"),
    "_ZSt25__throw_bad_function_callv": throw_std("_ZTISt17bad_function_call"), "_ZSt27__throw_bad_optional_accessv": throw_std("_ZTISt19bad_optional_access"),
    "_ZSt26__throw_bad_variant_accessPKc": throw_std("_ZTISt18bad_variant_access"), "_ZSt26__throw_bad_variant_accessb": throw_std("_ZTISt18bad_variant_access"),
    "vf_real": v_real, "vf_int": v_int, "vf_bool": v_bool, "vf_choose": v_choose, "vf_size": v_size, "vf_requires": v_requires, "vf_ensures": v_ensures,
    "vf_ensures_eq": v_ensures_eq, "vf_ensures_near": v_ensures_eq, "vf_cover": v_cover, "vf_real_array": v_array("R", "d", 8), "vf_int_array": v_array("I", "i32", 4), "vf_index_array": v_index_array, "vf_injection": v_injection,
    "vf_ufn1": v_ufn, "vf_ufn2": v_ufn, "vf_ufn3": v_ufn, "vf_ufn4": v_ufn, "vf_ufi1": v_ufi, "vf_ufi2": v_ufi, "vf_ufi3": v_ufi, "vf_ufii1": v_ufii, "vf_ufii2": v_ufii,
    "vf_diff": v_diff, "vf_unbounded": v_unbounded, "vf_assume": v_assume, "vf_is_concrete": v_concrete, "vf_invariant": v_invariant,
}

INTR = {
    "llvm.sqrt": m_sqrt, "llvm.pow": m_pow, "llvm.powi": m_pow, "llvm.fabs": m_fabs, "llvm.floor": m_floor, "llvm.ceil": m_ceil, "llvm.round": m_round,
    "llvm.trunc": m_ftrunc, "llvm.rint": m_round, "llvm.nearbyint": m_round, "llvm.lround": m_lround, "llvm.llround": m_lround, "llvm.maxnum": m_fmax, "llvm.minnum": m_fmin, "llvm.sin": NAMES["sin"], "llvm.cos": NAMES["cos"],
    "llvm.exp": NAMES["exp"], "llvm.log": NAMES["log"], "llvm.log10": NAMES["log10"], "llvm.fmuladd": m_fma, "llvm.fma": m_fma, "llvm.copysign": m_copysign, "llvm.abs": m_abs,
    "llvm.smax": m_imax, "llvm.smin": m_imin, "llvm.umax": m_imax, "llvm.umin": m_imin, "llvm.memcpy": m_memcpy, "llvm.memmove": m_memcpy,
    "llvm.memset": m_memset, "llvm.lifetime": nop, "llvm.dbg": nop, "llvm.assume": nop, "llvm.expect": first, "llvm.is.constant": m_false,
    "llvm.umul.with.overflow": m_ovf("mul"), "llvm.smul.with.overflow": m_ovf("mul"), "llvm.uadd.with.overflow": m_ovf("add"), "llvm.sadd.with.overflow": m_ovf("add"), "llvm.usub.with.overflow": m_ovf("sub"),
    "llvm.ctlz.i64": m_ctlz(64), "llvm.ctlz.i32": m_ctlz(32), "llvm.is.fpclass": m_fpclass, "llvm.eh.typeid.for": m_typeid_for, "llvm.experimental": nop, "llvm.trap": m_abort("trap"), "llvm.stacksave": m_undef, "llvm.stackrestore": nop,
    "llvm.objectsize": lambda e, st, a: ret(st, -1), "llvm.launder": first, "llvm.invariant": nop, "llvm.prefetch": nop, "llvm.donothing": nop,
}


def install(e):
    for k, v in NAMES.items():
        if k in e.raw["functions"] and "decl" not in e.raw["functions"][k]:
            continue
        e.models[k] = v


def m_clock(e, st, args):
    return ret(st, fresh("clock", "I"))


PREFIX = [
    ("_ZNSt6chrono3_V212steady_clock3now", m_clock), ("_ZNSt6chrono3_V212system_clock3now", m_clock), ("omp_get_wtime", m_clock),
    # constructors/destructors of library exceptions
    ("_ZNSt13runtime_errorC", nop), ("_ZNSt11logic_errorC", nop), ("_ZNSt12out_of_rangeC", nop), ("_ZNSt16invalid_argumentC", nop),
    ("_ZNSt12length_errorC", nop), ("_ZNSt12domain_errorC", nop), ("_ZNSt9exceptionC", nop), ("_ZNSt9bad_allocC", nop), ("_ZNSt8bad_castC", nop),
    ("_ZNSt13runtime_errorD", nop), ("_ZNSt11logic_errorD", nop), ("_ZNSt12out_of_rangeD", nop), ("_ZNSt16invalid_argumentD", nop),
    ("_ZNSt12length_errorD", nop), ("_ZNSt12domain_errorD", nop), ("_ZNSt9exceptionD", nop), ("_ZNSt8ios_base4Init", nop), ("_ZNSt11range_errorC", nop), ("_ZNSt11range_errorD", nop),
]


def lookup(e, f):
    n = f.name
    if n.startswith("llvm."):
        best = None
        for k, v in INTR.items():
            if n.startswith(k) and (best is None or len(k) > best[0]):
                best = (len(k), v)
        return best[1] if best else None
    if n in NAMES:
        return NAMES[n]
    for p, v in PREFIX:
        if n.startswith(p):
            return v
    return None
