"""Models of Python built-ins (trusted semantics of the host language)."""
import z3
from .core import *
from . import core


def bi(name):
    def deco(fn):
        REG[name] = Builtin(name, fn)
        return fn
    return deco


REG = {}


def make(world):
    return dict(REG)


def bmeth(name, self_, fn):
    return Builtin(name, lambda it, a, k: fn(it, self_, a, k))


# ------------------------------------------------------------------ functions
@bi("len")
def _len(it, a, k):
    v = a[0]
    if isinstance(v, (bytes, str, tuple, range)):
        return len(v)
    if isinstance(v, (SBytes, SList, SFixed)):
        return mk_int(segs_len(v.segs))
    if isinstance(v, SDict):
        return len(v.d)
    if isinstance(v, SSet):
        return len(v.items)
    if isinstance(v, SMap):
        if v.has is not v.has_init:
            raise Unsupported("length of a modified map")
        return mk_int(v.n)
    if isinstance(v, EnumClass):
        return len(v.members)
    if isinstance(v, SObj):
        return it.call(it.getattr(v, "__len__"), [], {})
    if is_int(v) or v is None:
        it.raise_("TypeError", "no len()")
    raise Unsupported("len of %r" % (v,))


@bi("range")
def _range(it, a, k):
    for x in a:
        if not is_int(x):
            it.raise_("TypeError", "range of a non-integer")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = [x.value if isinstance(x, EnumMember) else x for x in (lo, hi, st)]
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return range(lo, hi, st)
    if not isinstance(st, int) or st <= 0:
        raise Unsupported("range step")
    l, h = zi(lo), zi(hi)
    if st == 1:
        n = z3.If(h > l, h - l, I(0))
    else:
        n = z3.If(h > l, (h - l + (st - 1)) / I(st), I(0))
    return SList(norm_segs((Gen(z3.simplify(n), lambda q: mk_int(l + q * st)),)))


@bi("isinstance")
def _isinstance(it, a, k):
    v, t = a
    return inst(it, v, t)


INT_LIKE = {"int"}


def inst(it, v, t):
    if isinstance(t, tuple):
        return any(inst(it, v, x) for x in t)
    if isinstance(v, (Poison, LastIter)):
        raise Unsupported("isinstance of a loop temporary")
    if isinstance(v, Mock) and "__isinstance__" in v.attrs:
        return v.attrs["__isinstance__"](t)
    if isinstance(t, Builtin):
        n = t.name
        if n == "int":
            return is_int(v)
        if n == "bool":
            return isinstance(v, (bool, SBool))
        if n == "str":
            return isinstance(v, (str, SStr))
        if n == "bytes":
            return isinstance(v, (bytes, SBytes))
        if n == "bytearray":
            return isinstance(v, SByteArray)
        if n == "list":
            return isinstance(v, (SList, SFixed)) and not isinstance(v, SByteArray)
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "dict":
            return isinstance(v, (SDict, SMap))
        if n == "set":
            return isinstance(v, SSet)
        if n == "object":
            return True
        if n == "float":
            return isinstance(v, float)
    if isinstance(t, Ext):
        if t.path in ("collections.abc.Iterable", "collections.Iterable", "typing.Iterable",
                      "collections.abc.Sequence", "typing.Sequence"):
            seq = isinstance(v, (bytes, SBytes, SList, SFixed, tuple, str, SStr))
            if t.path.endswith("Iterable"):
                return seq or isinstance(v, (SDict, SMap, SSet, LazyGen))
            return seq
        if t.path in ("numbers.Integral", "numbers.Number"):
            return is_int(v)
        h = it.w.type_tests.get(t.path)
        if h is not None:
            return h(it, v)
        raise Unsupported("isinstance(..., %s)" % t.path)
    if isinstance(t, SClass):
        if isinstance(v, SObj):
            return t in v.cls.mro()
        if isinstance(v, EnumMember):
            return t in v.cls.mro()
        if isinstance(v, SInt):
            if v.cls is t:
                return True
            if isinstance(v.cls, SClass):
                return t in v.cls.mro()
            return False
        if isinstance(v, FamObj):
            return v.fam.cls is t
        return False
    raise Unsupported("isinstance(%r, %r)" % (v, t))


@bi("issubclass")
def _issubclass(it, a, k):
    c, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, SClass):
        return any(x in c.mro() for x in ts)
    raise Unsupported("issubclass")


def to_byte_vals(it, segs):
    """bytes(iterable of ints): ValueError unless every element is 0..255."""
    ctx = it.ctx
    out = []
    for s in segs:
        if isinstance(s, Lit):
            for v in s.vals:
                if not is_int(v):
                    it.raise_("TypeError", "an integer is required")
                if isinstance(v, EnumMember):
                    v = v.value
                if isinstance(v, (bool,)):
                    v = int(v)
                if isinstance(v, int):
                    if not 0 <= v <= 255:
                        it.raise_("ValueError", "bytes must be in range(0, 256)")
                else:
                    e = zi(v)
                    if not ctx.branch(z3.And(e >= 0, e <= 255)):
                        it.raise_("ValueError", "bytes must be in range(0, 256)")
                    v = mk_int(e)
                out.append(Lit([v]))
        else:
            kk = ctx._fresh("bk", z3.IntSort())
            with ctx.scoped():
                ctx.solver.add(z3.And(kk >= 0, kk < s.n))
                ctx.instantiate(kk)
                x = s.at(kk)
                e = zi(x)
                r = ctx.check(z3.Not(z3.And(e >= 0, e <= 255)))
            if r != z3.unsat:
                # some element may be out of range
                p = ctx._fresh("allbytes", z3.BoolSort())
                at = s.at
                n = s.n
                w = ctx._fresh("bad", z3.IntSort())
                ctx.add_fact(I(0), n, lambda q: z3.Implies(p, z3.And(zi(at(q)) >= 0, zi(at(q)) <= 255)))
                ew = zi(at(w))
                ctx.axiom(z3.Implies(z3.Not(p), z3.And(w >= 0, w < n, z3.Not(z3.And(ew >= 0, ew <= 255)))))
                if not ctx.branch(p):
                    it.raise_("ValueError", "bytes must be in range(0, 256)")
            out.append(s)
    return mk_bytes(norm_segs(out))


@bi("bytes")
def _bytes(it, a, k):
    if not a:
        return b""
    v = a[0]
    if isinstance(v, (bytes, SBytes)):
        return v
    if is_int(v):
        if isinstance(v, int):
            if v < 0:
                it.raise_("ValueError", "negative count")
            return bytes(v)
        e = zi(v)
        if it.ctx.branch(e < 0):
            it.raise_("ValueError", "negative count")
        return mk_bytes((Gen(e, lambda q: 0),))
    if isinstance(v, str):
        if len(a) > 1 or "encoding" in k:
            return v.encode()
        it.raise_("TypeError", "string argument without an encoding")
    if v is None:
        it.raise_("TypeError", "cannot convert None to bytes")
    if isinstance(v, SByteArray):
        return mk_bytes(v.segs)
    if isinstance(v, SObj) and v.cls.lookup("__bytes__")[0] is not None:
        return it.call(it.getattr(v, "__bytes__"), [], {})
    return to_byte_vals(it, segs_of(it.as_iterable(v)))


@bi("bytearray")
def _bytearray(it, a, k):
    if not a and not k:
        return SByteArray(())
    return SByteArray(segs_of(_bytes(it, a, k)))


@bi("int")
def _int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        return SInt(v.e, None, v.parts)
    if isinstance(v, SBool):
        return SInt(zi(v))
    if isinstance(v, EnumMember):
        return v.value
    if isinstance(v, str):
        try:
            return int(v, *[x for x in a[1:]])
        except ValueError:
            it.raise_("ValueError", "invalid literal for int()")
    if isinstance(v, float):
        return int(v)
    if v is None or isinstance(v, (SList, SFixed, SDict, tuple)):
        it.raise_("TypeError", "int() argument")
    raise Unsupported("int of %r" % (v,))


@bi("float")
def _float(it, a, k):
    if a and isinstance(a[0], (int, float)):
        return float(a[0])
    raise Unsupported("float()")


@bi("bool")
def _bool(it, a, k):
    if not a:
        return False
    v = a[0]
    if isinstance(v, SBool):
        return v
    return it.truth(v)


@bi("str")
def _str(it, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str):
        return v
    if isinstance(v, SStr):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    return it.ctx.str("str")


@bi("repr")
def _repr(it, a, k):
    return it.ctx.str("repr")


@bi("hex")
def _hex(it, a, k):
    return hex(a[0]) if isinstance(a[0], int) else it.ctx.str("hex")


@bi("format")
def _format(it, a, k):
    return it.ctx.str("format")


@bi("list")
def _list(it, a, k):
    if not a:
        return SList(())
    v = it.as_iterable(a[0])
    r = SList(norm_segs(segs_of(v)))
    if hasattr(v, "of_map"):
        r.of_map = v.of_map
    return r


@bi("tuple")
def _tuple(it, a, k):
    if not a:
        return ()
    v = it.as_iterable(a[0])
    segs = norm_segs(segs_of(v))
    if all(isinstance(s, Lit) for s in segs):
        return tuple(x for s in segs for x in s.vals)
    r = SList(segs)        # only ever iterated / compared: documented
    if hasattr(v, "of_map"):
        r.of_map = v.of_map
    return r


@bi("dict")
def _dict(it, a, k):
    d = SDict({})
    if a:
        v = a[0]
        if isinstance(v, SDict):
            d.d.update(v.d)
        elif isinstance(v, Mock) and "__as_dict__" in v.attrs:
            return v.attrs["__as_dict__"]
        else:
            for x in it.concrete_iter(v):
                kk, vv = it.concrete_iter(x)
                dk = dkey(kk)
                if dk is None and kk is not None:
                    raise Unsupported("symbolic dict key")
                d.d[dk] = (kk, vv)
    for kk, vv in k.items():
        d.d[kk] = (kk, vv)
    return d


@bi("set")
def _set(it, a, k):
    return SSet(it.concrete_iter(a[0]) if a else [])


@bi("frozenset")
def _fset(it, a, k):
    return SSet(it.concrete_iter(a[0]) if a else [])


def _minmax(it, a, k, gt):
    vals = a if len(a) > 1 else it.concrete_iter(a[0])
    if not vals:
        it.raise_("ValueError", "empty sequence")
    if k:
        raise Unsupported("min/max with key")
    r = vals[0]
    for v in vals[1:]:
        if isinstance(r, int) and isinstance(v, int):
            r = (max if gt else min)(r, v)
        elif is_int(r) and is_int(v):
            x, y = zi(r), zi(v)
            r = mk_int(z3.If(y > x if gt else y < x, y, x))
        else:
            raise Unsupported("min/max")
    return r


@bi("min")
def _min(it, a, k):
    return _minmax(it, a, k, False)


@bi("max")
def _max(it, a, k):
    return _minmax(it, a, k, True)


@bi("sum")
def _sum(it, a, k):
    r = a[1] if len(a) > 1 else 0
    for x in it.concrete_iter(a[0]):
        r = it.binop("Add", r, x)
    return r


@bi("any")
def _any(it, a, k):
    return _anyall(it, a[0], True)


@bi("all")
def _all(it, a, k):
    return _anyall(it, a[0], False)


def _anyall(it, v, want):
    ctx = it.ctx
    if isinstance(v, LazyGen) and getattr(v, "sym", None) is None:
        for x in v.it:
            if it.truth(x) == want:
                return want
        return not want
    v = it.as_iterable(v)
    for s in segs_of(v):
        if isinstance(s, Lit):
            for x in s.vals:
                if it.truth(x) == want:
                    return want
        else:
            p = ctx._fresh("anyall", z3.BoolSort())     # p: some element has truth == want
            w = ctx._fresh("wit", z3.IntSort())

            def tr(x):
                if isinstance(x, (bool,)):
                    return z3.BoolVal(x)
                if isinstance(x, SBool):
                    return x.e
                if is_int(x):
                    return zi(x) != 0
                raise Unsupported("any/all over non-booleans")
            at = s.at
            hit = (lambda q: tr(at(q)) if want else z3.Not(tr(at(q))))
            ctx.axiom(z3.Implies(p, z3.And(w >= 0, w < s.n, hit(w))))
            ctx.add_fact(I(0), s.n, lambda q, hit=hit, p=p: z3.Implies(hit(q), p))
            if ctx.branch(p):
                return want
    return not want


@bi("next")
def _next(it, a, k):
    g = a[0]
    if isinstance(g, LazyGen):
        for x in g.it:
            return x
        if len(a) > 1:
            return a[1]
        it.raise_("StopIteration")
    if isinstance(g, Mock) and "__next__" in g.attrs:
        return it.call(g.attrs["__next__"], [], {})
    raise Unsupported("next of %r" % (g,))


@bi("iter")
def _iter(it, a, k):
    return LazyGen(iter(it.concrete_iter(a[0])))


@bi("enumerate")
def _enumerate(it, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    segs = norm_segs(segs_of(it.as_iterable(a[0])))
    out, pos = [], zi(st)
    for s in segs:
        if isinstance(s, Lit):
            out.append(Lit([(mk_int(pos + i), v) for i, v in enumerate(s.vals)]))
        else:
            at, p = s.at, pos
            out.append(Gen(s.n, lambda q, at=at, p=p: (mk_int(p + q), at(q))))
        pos = z3.simplify(pos + seg_len(s))
    return SList(norm_segs(out))


@bi("zip")
def _zip(it, a, k):
    ls = [norm_segs(segs_of(it.as_iterable(x))) for x in a]
    if all(all(isinstance(s, Lit) for s in l) for l in ls):
        vs = [[v for s in l for v in s.vals] for l in ls]
        return SList(norm_segs([Lit(list(zip(*vs)))])) if vs and min(map(len, vs)) else SList(())
    lits = [len([v for s in l for v in s.vals]) for l in ls if all(isinstance(s, Lit) for s in l)]
    if lits:
        k = min(lits)
        if k > 40:
            raise Unsupported("zip of symbolic sequences")
        for l in ls:
            n = segs_len(l)
            if not it.ctx.branch(n >= k):
                k = next((j for j in range(k) if it.ctx.branch(n == j)), 0)
        if not k:
            return SList(())
        return SList(norm_segs([Lit([tuple(index_segs(it.ctx, l, z3.IntVal(j)) for l in ls) for j in range(k)])]))
    if any(len(l) != 1 for l in ls):
        raise Unsupported("zip of symbolic sequences")
    n = ls[0][0].n
    for l in ls[1:]:
        if not it.ctx.branch(n <= l[0].n):
            n = l[0].n
    ats = [l[0].at for l in ls]
    return SList(norm_segs([Gen(n, lambda q: tuple(at(q) for at in ats))]))


@bi("reversed")
def _reversed(it, a, k):
    return it.getslice(it.as_iterable(a[0]), None, None, -1)


@bi("sorted")
def _sorted(it, a, k):
    vals = it.concrete_iter(a[0])
    if k or not all(isinstance(v, (int, str)) for v in vals):
        raise Unsupported("sorted of symbolic values")
    return SList(norm_segs([Lit(sorted(vals))]))


@bi("map")
def _map(it, a, k):
    f = a[0]
    vals = [it.concrete_iter(x) for x in a[1:]]
    return LazyGen(it.call(f, list(xs), {}) for xs in zip(*vals))


@bi("filter")
def _filter(it, a, k):
    f = a[0]
    return LazyGen(x for x in it.concrete_iter(a[1]) if it.truth(it.call(f, [x], {}) if f is not None else x))


@bi("abs")
def _abs(it, a, k):
    v = a[0]
    return abs(v) if isinstance(v, int) else mk_int(z3.If(zi(v) < 0, -zi(v), zi(v)))


@bi("divmod")
def _divmod(it, a, k):
    return (it.binop("FloorDiv", a[0], a[1]), it.binop("Mod", a[0], a[1]))


@bi("getattr")
def _getattr(it, a, k):
    if not isinstance(a[1], str):
        h = it.ctx.shared.get("sym_getattr")
        if h is not None:
            return h(it, a)
        return sym_getattr(it, a)
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2])
    return it.getattr(a[0], a[1])


def sym_getattr(it, a):
    """getattr(obj, "prefix" + x): one of the attributes with that prefix, or none."""
    ctx = it.ctx
    pr = str_prefix(a[1].e) if isinstance(a[1], SStr) else None
    if pr is None or not isinstance(a[0], SObj):
        raise Unsupported("getattr with a symbolic name")
    names = set(a[0].attrs)
    for c in a[0].cls.mro():
        if isinstance(c, SClass):
            names |= set(c.ns)
        elif isinstance(c, Ext) and c.path not in it.w.plain_bases:
            raise Unsupported("getattr with a symbolic name on a library class")
    for n in sorted(n for n in names if isinstance(n, str) and n.startswith(pr[0])):
        if ctx.branch(pr[1] == str_term(ctx, n[len(pr[0]):])):
            return it.getattr(a[0], n)
    if len(a) > 2:
        return a[2]
    it.raise_("AttributeError", "no such attribute")


@bi("hasattr")
def _hasattr(it, a, k):
    return it.getattr(a[0], a[1], MISSING2) is not MISSING2


MISSING2 = object()


@bi("setattr")
def _setattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with a symbolic name")
    it.setattr(a[0], a[1], a[2])


@bi("delattr")
def _delattr(it, a, k):
    it.ctx.delitem(a[0].attrs, a[1])


@bi("vars")
def _vars(it, a, k):
    o = a[0]
    if isinstance(o, SObj):
        return SDict({n: (n, v) for n, v in o.attrs.items()})
    raise Unsupported("vars of %r" % (o,))


@bi("type")
def _type(it, a, k):
    v = a[0]
    if isinstance(v, SObj):
        return v.cls
    if isinstance(v, EnumMember):
        return v.cls
    raise Unsupported("type()")


@bi("id")
def _id(it, a, k):
    raise Unsupported("id()")


@bi("callable")
def _callable(it, a, k):
    return isinstance(a[0], (SFunc, Bound, Builtin, SClass))


@bi("print")
def _print(it, a, k):
    return None


for _n in ("classmethod", "staticmethod", "property", "object", "memoryview", "slice"):
    REG.setdefault(_n, Builtin(_n, lambda it, a, k: (_ for _ in ()).throw(Unsupported("builtin"))))


@bi("__import__")
def _imp(it, a, k):
    raise Unsupported("__import__")


# ------------------------------------------------------------------ ints
def to_bytes(it, v, a, k):
    ctx = it.ctx
    length = a[0] if a else k.get("length", MISSING)
    order = a[1] if len(a) > 1 else k.get("byteorder", MISSING)
    signed = k.get("signed", False)
    if length is MISSING or order is MISSING:
        it.raise_("TypeError", "to_bytes")
    if isinstance(length, EnumMember):
        length = length.value
    if isinstance(length, SInt):
        for c in range(0, 9):
            if ctx.branch(length.e == c):
                length = c
                break
        else:
            raise Unsupported("to_bytes with symbolic length")
    if order not in ("little", "big"):
        it.raise_("ValueError", "byteorder")
    signed = it.truth(signed)
    if isinstance(v, EnumMember):
        v = v.value
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        try:
            return v.to_bytes(length, order, signed=signed)
        except OverflowError:
            it.raise_("OverflowError", "int too big to convert")
    e = zi(v)
    if length == 0:
        if ctx.branch(e == 0):
            return b""
        it.raise_("OverflowError", "int too big to convert")
    if signed:
        ok = z3.And(e >= -(1 << (8 * length - 1)), e < (1 << (8 * length - 1)))
    else:
        ok = z3.And(e >= 0, e < (1 << (8 * length)))
    if not ctx.branch(ok):
        it.raise_("OverflowError", "int too big to convert")
    parts = getattr(v, "parts", None)
    if parts is not None and len(parts) == length and not signed:
        vals = list(parts)
    elif length == 1 and not signed:
        vals = [mk_int(e)]
    else:
        vals = [mk_int((e / I(1 << (8 * i)) if i else e) % I(256)) for i in range(length)]
    if order == "big":
        vals.reverse()
    return mk_bytes((Lit(vals),))


def from_bytes(it, a, k):
    v = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder")
    signed = it.truth(k.get("signed", False))
    if isinstance(v, SByteArray):
        v = mk_bytes(v.segs)
    if isinstance(v, (SList, SFixed, tuple)):
        v = to_byte_vals(it, segs_of(v))
    if not isinstance(v, (bytes, SBytes)):
        it.raise_("TypeError", "from_bytes")
    segs = norm_segs(segs_of(v))
    if any(not isinstance(s, Lit) for s in segs):
        n = segs_len(segs)
        for c in range(0, 9):
            if it.ctx.branch(n == c):
                vals = [index_segs(it.ctx, segs, I(q)) for q in range(c)]
                break
        else:
            raise Unsupported("from_bytes of unknown length")
    else:
        vals = [x for s in segs for x in s.vals]
    if order == "big":
        vals = list(reversed(vals))
    elif order != "little":
        it.raise_("ValueError", "byteorder")
    if all(isinstance(x, int) for x in vals):
        return int.from_bytes(bytes(vals), "little", signed=signed)
    e = I(0)
    for i, x in enumerate(vals):
        e = e + zi(x) * (1 << (8 * i))
    n = len(vals)
    if signed:
        top = zi(vals[-1])
        e = z3.If(top >= 128, e - (1 << (8 * n)), e)
        return mk_int(e)
    return SInt(z3.simplify(e), None, tuple(vals))


def typed_range(cls):
    import re
    m = re.search(r"\.(u?)int(\d+)(_t|s)$", cls if isinstance(cls, str) else "")
    if m:
        bits = int(m.group(2))
        if m.group(1):
            return 0, (1 << bits) - 1, bits // 8, False
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1, bits // 8, True
    if isinstance(cls, str) and cls.split(".")[-1] in ("NWK", "PanId", "Group", "ClusterId", "AttributeId"):
        return 0, 65535, 2, False
    if isinstance(cls, str) and cls.split(".")[-1] in ("Channels",):
        return 0, (1 << 32) - 1, 4, False
    return None


def serialize(it, v, a, k):
    if isinstance(v, SFixed):
        return mk_bytes(v.segs)
    if isinstance(v, SInt):
        cls = v.cls
        if isinstance(cls, str):
            r = typed_range(cls)
            return to_bytes(it, v, [r[2], "little"], {"signed": r[3]})
        if isinstance(cls, EnumClass):
            return to_bytes(it, v, [enum_size(it, cls), "little"], {})
    if isinstance(v, EnumMember):
        return to_bytes(it, v.value, [enum_size(it, v.cls), "little"], {})
    it.raise_("AttributeError", "serialize")


def enum_size(it, cls):
    for b in cls.mro():
        if isinstance(b, Ext):
            p = b.path
            if p.endswith("uint8_t") or p.endswith("enum8"):
                return 1
            if p.endswith("enum16") or p.endswith("uint16_t"):
                return 2
    raise Unsupported("size of enum %s" % cls.name)


# ------------------------------------------------------------------ attributes
def fam_read(it, fam, field, key):
    return fam_val(it, fam.fields[field], key)


def fam_val(it, v, key):
    from .interp import FamUpd
    from .loops import FieldLoop
    while isinstance(v, FamUpd):
        if it.ctx.must(key == v.key):
            return v.val
        if it.ctx.must(key != v.key):
            v = v.old
            continue
        if it.ctx.branch(key == v.key):
            return v.val
        v = v.old
    if isinstance(v, FieldLoop):
        return v.read(it, key, lambda old, k: fam_val(it, old, k))
    return v(it, key) if callable(v) else v


def smap_pop(it, m, a):
    ctx = it.ctx
    key = a[0]
    if key is None:
        present = False
    else:
        present = ctx.branch(m.has(zi(key)))
    if not present:
        if len(a) > 1:
            return a[1]
        it.raise_("KeyError", key)
    e = zi(key)
    old = m.has
    v = smap_value(it, m, e)
    ctx.set(m, "has", SmapRem(old, e))
    return v


def smap_value(it, m, e):
    """Value under a key that is present: the last one stored, or the family's."""
    for o, key, v in reversed(it.ctx.shared.get("map_stores", [])):
        if o is m and it.ctx.branch(key == e):
            return v
    return FamObj(m.fam, e)


class SmapRem:
    """has' = has without key e."""
    def __init__(self, old, key):
        self.old, self.key = old, key

    def __call__(self, q):
        return z3.And(self.old(q), q != self.key)


def get_attr(it, o, name):
    from .interp import Module, SuperObj
    ctx = it.ctx
    if isinstance(o, Module):
        if name in o.ns:
            return o.ns[name]
        try:
            return it.w.load(o.name + "." + name)
        except Unsupported:
            return MISSING
    if isinstance(o, SObj):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Poison):
                raise Unsupported("use of attribute %s: %s" % (name, v.why))
            if isinstance(v, (LastIter, LazyChoice)):
                v = it.resolve_last(v)
                if v is MISSING:
                    return MISSING
                ctx.setitem(o.attrs, name, v)
            return v
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        v, owner = o.cls.lookup(name)
        if v is not None:
            return bind(it, v, o, o.cls)
        for c in o.cls.mro():
            if isinstance(c, Ext):
                h = it.ctx.shared.get("ext_attr")
                if h is not None:
                    r = h(it, o, c, name)
                    if r is not MISSING:
                        return r
                x = it.w.ext.get(c.path + "." + name)
                if x is not None:
                    return Bound(x, o) if isinstance(x, Builtin) else x
        if it.w.is_exc(o.cls):
            if name == "with_traceback":
                return Builtin(name, lambda i, a, k: o)
            if name == "__str__":
                return Builtin(name, lambda i, a, k: i.call(i.w.builtins["str"], [o], {}))
            if name == "__cause__":
                return None
            if name in ("__context__", "__traceback__", "__suppress_context__", "add_note", "__notes__"):
                raise Unsupported("%s of an exception" % name)
        if any(isinstance(c, Ext) and c.path not in it.w.plain_bases for c in o.cls.mro()):
            raise Unsupported("attribute %s inherited from a library class" % name)
        return MISSING
    if isinstance(o, SuperObj):
        mro = o.obj.cls.mro() if isinstance(o.obj, SObj) else o.obj.mro()
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if isinstance(c, SClass) and name in c.ns:
                return bind(it, c.ns[name], o.obj if isinstance(o.obj, SObj) else None, o.obj.cls if isinstance(o.obj, SObj) else o.obj)
            if isinstance(c, Ext):
                x = it.w.ext.get(c.path + "." + name)
                if x is not None:
                    return Bound(x, o.obj) if isinstance(x, Builtin) else x
                h = ctx.shared.get("ext_attr")
                if h is not None:
                    r = h(it, o.obj, c, name)
                    if r is not MISSING:
                        return r
        if name == "__init__":
            if isinstance(o.obj, SObj) and it.w.is_exc(o.obj.cls):
                return Builtin("__init__", lambda i, a, k: ctx.setitem(o.obj.attrs, "args", tuple(a)))
            return Builtin("__init__", lambda i, a, k: None)
        raise Unsupported("super().%s" % name)
    if isinstance(o, EnumClass):
        if name in o.ns:
            v = o.ns[name]
            return v if isinstance(v, EnumMember) else bind(it, v, None, o)
        if name == "__members__":
            return SDict({k: (k, v) for k, v in o.members.items()})
        if name == "__name__":
            return o.name
        return MISSING
    if isinstance(o, SClass):
        v, owner = o.lookup(name)
        if v is not None:
            return bind(it, v, None, o)
        if name in ("__name__", "__qualname__"):
            return o.name
        for c in o.mro():
            if isinstance(c, Ext):
                x = it.w.ext.get(c.path + "." + name)
                if x is not None:
                    return x
        return MISSING
    if isinstance(o, EnumMember):
        if name == "name":
            return o.name
        if name == "value":
            return o.value
        if name in o.cls.ns and not isinstance(o.cls.ns[name], EnumMember):
            return bind(it, o.cls.ns[name], o, o.cls)
        if name in o.cls.members:
            return o.cls.members[name]
        if name == "to_bytes":
            return bmeth(name, o, to_bytes)
        if name == "serialize":
            return bmeth(name, o, serialize)
        if name == "__class__":
            return o.cls
        return MISSING
    if isinstance(o, Ext):
        p = o.path + "." + name
        if p in it.w.ext:
            return it.w.ext[p]
        return Ext(p)
    if isinstance(o, ExcClass):
        return MISSING
    if isinstance(o, Mock):
        if name in o.attrs:
            return o.attrs[name]
        if "__getattr__" in o.attrs:
            return o.attrs["__getattr__"](it, name)
        raise Unsupported("attribute %s of %s" % (name, o.name))
    if isinstance(o, FamObj):
        if name in o.fam.fields:
            v = fam_read(it, o.fam, name, o.key)
            if isinstance(v, LazyAttr):
                v = v.fn(it)
            return v
        if o.fam.cls is not None:
            v, owner = o.fam.cls.lookup(name)
            if v is not None:
                return bind(it, v, o, o.fam.cls)
        raise Unsupported("attribute %s of family %s" % (name, o.fam.name))
    if is_int(o) and not isinstance(o, SBool) or isinstance(o, bool):
        if name == "to_bytes":
            return bmeth(name, o, to_bytes)
        if name == "serialize" and isinstance(o, SInt) and o.cls is not None:
            return bmeth(name, o, serialize)
        if isinstance(o, SInt) and isinstance(o.cls, EnumClass):
            if name == "value":
                return SInt(o.e)
            if name == "name":
                ms = list(o.cls.members.values())
                e = ctx.str("enumname").e if o.cls.open or not ms else str_term(ctx, ms.pop().name)
                for m in ms:
                    e = z3.If(o.e == m.value, str_term(ctx, m.name), e)
                return SStr(e)
            if name in o.cls.ns and not isinstance(o.cls.ns[name], EnumMember):
                return bind(it, o.cls.ns[name], o, o.cls)
        if name == "bit_length":
            raise Unsupported("bit_length")
        if name == "real":
            return o
        return MISSING
    if isinstance(o, (str, SStr)):
        return str_attr(it, o, name)
    if isinstance(o, (bytes, SBytes)):
        return bytes_attr(it, o, name)
    if isinstance(o, SByteArray):
        return bytearray_attr(it, o, name)
    if isinstance(o, (SList, SFixed)):
        return list_attr(it, o, name)
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return list_attr(it, SList(segs_of(o)), name)
        return MISSING
    if isinstance(o, SDict):
        return dict_attr(it, o, name)
    if isinstance(o, SMap):
        return map_attr(it, o, name)
    if isinstance(o, SSet):
        if name == "add":
            return Builtin("add", lambda i, a, k: ctx.set(o, "items", o.items + [a[0]]))
        if name == "discard":
            raise Unsupported("set.discard")
        return MISSING
    if isinstance(o, Builtin) and o.name == "int" and name == "from_bytes":
        return Builtin("from_bytes", lambda i, a, k: from_bytes(i, a, k))
    if isinstance(o, Builtin) and o.name == "dict" and name == "fromkeys":
        raise Unsupported("dict.fromkeys")
    if isinstance(o, Builtin) and o.name in ("str", "bytes", "list", "dict", "int"):
        return Builtin(name, lambda i, a, k: i.call(i.getattr(a[0], name), a[1:], k))
    if o is None:
        return MISSING
    if isinstance(o, (SFunc, Bound)):
        if name == "__name__":
            f = o.f if isinstance(o, Bound) else o
            return getattr(getattr(f, "node", None), "name", "f")
        if isinstance(o, SFunc) and hasattr(o, "fattrs") and name in o.fattrs:
            return o.fattrs[name]
        return MISSING
    if isinstance(o, Property):
        if name in ("setter", "getter"):
            return Builtin(name, lambda i, a, k: o)
    if isinstance(o, Coro):
        raise Unsupported("attribute of a coroutine")
    if isinstance(o, SVal):
        raise Unsupported("attribute %s of an opaque value" % name)
    if isinstance(o, LazyGen):
        raise Unsupported("generator attribute")
    raise Unsupported("attribute %s of %r" % (name, o))


class ExcMark:
    pass


class LazyAttr:
    def __init__(self, fn):
        self.fn = fn


def bind(it, v, o, cls):
    if isinstance(v, (SFunc, Builtin)):
        return Bound(v, o) if o is not None else v
    if isinstance(v, ClassMethod):
        return Bound(v.f, cls)
    if isinstance(v, StaticMethod):
        return v.f
    if isinstance(v, Property):
        if o is None:
            return v
        return it.call(Bound(v.f, o), [], {})
    return v


def str_attr(it, o, name):
    ctx = it.ctx
    if name in ("format",):
        def fmt(i, a, k):
            if isinstance(o, str) and all(isinstance(x, str) for x in a) and not k and o.count("{}") == len(a) and o.count("{") == len(a):
                return o.format(*a)
            return ctx.str("fmt")
        return Builtin("format", fmt)
    if isinstance(o, str):
        if not hasattr(o, name):
            return MISSING

        def m(i, a, k):
            if name == "join":
                xs = i.concrete_iter(a[0])
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
                return ctx.str("join")
            if name in ("encode",):
                return o.encode()
            if all(isinstance(x, (str, int)) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) or x is None for x in a):
                r = getattr(o, name)(*a)
                if isinstance(r, list):
                    return SList(norm_segs([Lit(r)]))
                return r
            if name in ("startswith", "endswith"):
                return ctx.bool(name)
            return ctx.str(name)
        return Builtin(name, m)
    # symbolic string
    if name in ("startswith", "endswith"):
        def sw(i, a, k):
            f = z3.Function("str." + name, StrSort, StrSort, z3.BoolSort())
            xs = a[0] if isinstance(a[0], tuple) else (a[0],)
            return mk_bool(z3.Or([f(o.e, str_term(ctx, x)) for x in xs]))
        return Builtin(name, sw)
    if name in ("replace", "lower", "upper", "strip", "join", "encode"):
        return Builtin(name, lambda i, a, k: ctx.str(name))
    raise Unsupported("method %s of a symbolic string" % name)


def bytes_attr(it, o, name):
    ctx = it.ctx
    if name == "hex":
        return Builtin("hex", lambda i, a, k: ctx.str("hex"))
    if name == "join":
        def join(i, a, k):
            out = ()
            first = True
            for x in i.concrete_iter(a[0]):
                if not first:
                    out += segs_of(o)
                if not isinstance(x, (bytes, SBytes, SByteArray)):
                    i.raise_("TypeError", "join")
                out += segs_of(x)
                first = False
            return mk_bytes(out)
        return Builtin("join", join)
    if name == "startswith":
        def sw(i, a, k):
            p = a[0]
            if not isinstance(p, bytes):
                raise Unsupported("startswith")
            n = segs_len(segs_of(o))
            if not ctx.branch(n >= len(p)):
                return False
            return mk_bool(z3.And([z3.BoolVal(True)] + [at_formula(ctx, segs_of(o), I(q)) == p[q] for q in range(len(p))]))
        return Builtin(name, sw)
    if name == "decode":
        return Builtin(name, lambda i, a, k: ctx.str("decode"))
    if name in ("to_bytes", "serialize", "value", "append", "items", "keys", "get", "name"):
        return MISSING
    if hasattr(bytes, name):
        if isinstance(o, bytes) and name in ("index", "find", "count", "endswith"):
            return Builtin(name, lambda i, a, k: getattr(o, name)(*a))
        raise Unsupported("bytes.%s" % name)
    return MISSING


def as_bytes(it, v):
    """The bytes an argument of a bytearray operation stands for."""
    return segs_of(to_byte_vals(it, segs_of(it.as_iterable(v)))) if not isinstance(v, (bytes, SBytes, SByteArray)) else segs_of(v)


def bytearray_attr(it, o, name):
    ctx = it.ctx
    if name == "append":
        return Builtin(name, lambda i, a, k: ctx.set(o, "segs", norm_segs(o.segs + segs_of(to_byte_vals(i, (Lit([a[0]]),))))))
    if name == "extend":
        return Builtin(name, lambda i, a, k: ctx.set(o, "segs", norm_segs(o.segs + as_bytes(i, a[0]))))
    if name == "copy":
        return Builtin(name, lambda i, a, k: SByteArray(o.segs))
    if name == "insert":
        def ins(i, a, k):
            list_attr(i, o, name).fn(i, [a[0]] + [x for s in segs_of(to_byte_vals(i, (Lit([a[1]]),))) for x in s.vals], k)
        return Builtin(name, ins)
    if name in ("clear", "pop", "remove"):
        return list_attr(it, o, name)
    if name in ("reverse",):
        raise Unsupported("bytearray.%s" % name)
    if not hasattr(bytearray, name):
        return MISSING
    if name in ("hex", "decode", "startswith", "endswith", "index", "find", "count"):
        return bytes_attr(it, mk_bytes(o.segs), name)
    raise Unsupported("bytearray.%s" % name)


def list_attr(it, o, name):
    ctx = it.ctx
    if name == "serialize" and isinstance(o, SFixed):
        return bmeth("serialize", o, serialize)
    if isinstance(o, SFixed) and name in ("append", "extend", "pop", "insert"):
        raise Unsupported("mutation of a fixed list")
    if name == "append":
        return Builtin(name, lambda i, a, k: ctx.set(o, "segs", norm_segs(o.segs + (Lit([a[0]]),))))
    if name == "extend":
        return Builtin(name, lambda i, a, k: ctx.set(o, "segs", norm_segs(o.segs + segs_of(i.as_iterable(a[0])))))
    if name == "copy":
        return Builtin(name, lambda i, a, k: SList(o.segs))
    if name == "clear":
        return Builtin(name, lambda i, a, k: ctx.set(o, "segs", ()))
    if name == "insert":
        def ins(i, a, k):
            vals = i.concrete_iter(o)
            if not isinstance(a[0], int):
                raise Unsupported("insert")
            vals.insert(a[0], a[1])
            ctx.set(o, "segs", norm_segs([Lit(vals)]))
        return Builtin(name, ins)
    if name == "pop":
        def pop(i, a, k):
            vals = i.concrete_iter(o)
            idx = a[0] if a else -1
            if not isinstance(idx, int):
                raise Unsupported("pop")
            if not vals:
                i.raise_("IndexError", "pop from empty list")
            v = vals.pop(idx)
            ctx.set(o, "segs", norm_segs([Lit(vals)]))
            return v
        return Builtin(name, pop)
    if name == "remove":
        def rem(i, a, k):
            vals = i.concrete_iter(o)
            for q, x in enumerate(vals):
                if ctx.branch(veq(ctx, x, a[0])):
                    ctx.set(o, "segs", norm_segs([Lit(vals[:q] + vals[q + 1:])]))
                    return None
            i.raise_("ValueError", "not in list")
        return Builtin(name, rem)
    if name == "index":
        def idx(i, a, k):
            for q, x in enumerate(i.concrete_iter(o)):
                if ctx.branch(veq(ctx, x, a[0])):
                    return q
            i.raise_("ValueError", "not in list")
        return Builtin(name, idx)
    if name in ("sort", "reverse", "count"):
        raise Unsupported("list.%s" % name)
    return MISSING


def dict_attr(it, o, name):
    ctx = it.ctx
    if name == "get":
        def get(i, a, k):
            c = i.contains(o, a[0])
            if i.truth(c):
                return i.getitem(o, a[0])
            return a[1] if len(a) > 1 else None
        return Builtin(name, get)
    if name == "items":
        return Builtin(name, lambda i, a, k: SList(norm_segs([Lit([(kv, vv) for kv, vv in o.d.values()])])))
    if name == "keys":
        return Builtin(name, lambda i, a, k: SList(norm_segs([Lit([kv for kv, vv in o.d.values()])])))
    if name == "values":
        return Builtin(name, lambda i, a, k: SList(norm_segs([Lit([vv for kv, vv in o.d.values()])])))
    if name == "copy":
        return Builtin(name, lambda i, a, k: SDict(dict(o.d)))
    if name == "update":
        def upd(i, a, k):
            src = REG["dict"].fn(i, a, k)
            for kk, v in src.d.items():
                ctx.setitem(o.d, kk, v)
        return Builtin(name, upd)
    if name == "setdefault":
        def sd(i, a, k):
            if not i.truth(i.contains(o, a[0])):
                i.setitem(o, a[0], a[1] if len(a) > 1 else None)
            return i.getitem(o, a[0])
        return Builtin(name, sd)
    if name == "pop":
        def pop(i, a, k):
            if i.truth(i.contains(o, a[0])):
                v = i.getitem(o, a[0])
                i.delitem(o, a[0])
                return v
            if len(a) > 1:
                return a[1]
            i.raise_("KeyError", a[0])
        return Builtin(name, pop)
    if name == "clear":
        def clr(i, a, k):
            for kk in list(o.d):
                ctx.delitem(o.d, kk)
        return Builtin(name, clr)
    return MISSING


def map_attr(it, o, name):
    ctx = it.ctx
    if name == "get":
        def get(i, a, k):
            if a[0] is not None and ctx.branch(o.has(zi(a[0]))):
                return smap_value(i, o, zi(a[0]))
            return a[1] if len(a) > 1 else None
        return Builtin(name, get)
    if name == "pop":
        return Builtin(name, lambda i, a, k: smap_pop(i, o, a))
    if name == "keys":
        return Builtin(name, lambda i, a, k: i.as_iterable(o))
    if name in ("values", "items"):
        def vals(i, a, k):
            g = i.as_iterable(o)
            s = g.segs[0]
            at = s.at
            if name == "values":
                r = SList((Gen(s.n, lambda q: FamObj(o.fam, at(q).e)),))
            else:
                r = SList((Gen(s.n, lambda q: (at(q), FamObj(o.fam, at(q).e))),))
            r.of_map = o
            return r
        return Builtin(name, vals)
    if name in ("setdefault", "update", "clear", "copy"):
        raise Unsupported("map.%s" % name)
    return MISSING
