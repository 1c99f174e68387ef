"""Small functions run both by Python and by the verifier's interpreter (tools/conform.py).
Parameters by name: a, b, c ints; d, e bytes; l, m lists of ints; s, t strings; f bool; x int or None."""
import enum


class Col(enum.IntEnum):
    RED = 1
    GREEN = 2
    BLUE = 7

    @classmethod
    def from_value(cls, v):
        return cls(v)

    def twice(self):
        return self.value * 2


class Err(Exception):
    def __init__(self, status, msg=""):
        super().__init__(msg)
        self.status = status


class SubErr(Err):
    pass


class Base:
    shared = 3

    def __init__(self, v, w=5):
        self.v = v
        self.w = w

    def sum(self):
        return self.v + self.w

    @property
    def double(self):
        return self.v * 2

    @staticmethod
    def plus(p, q):
        return p + q

    @classmethod
    def make(cls, v):
        return cls(v, cls.shared)

    def over(self):
        return "base"


class Derived(Base):
    def __init__(self, v):
        super().__init__(v, w=v + 1)
        self.extra = [v]

    def sum(self):
        return super().sum() * 10

    def over(self):
        return super().over() + "+derived"

    def __eq__(self, o):
        return isinstance(o, Derived) and self.v == o.v


# ---- integers
def i_arith(a, b): return (a + b, a - b, a * 3, -a, abs(b - a))
def i_floordiv(a, b): return (a // 7, a % 7, (a - b) // 5, (a - b) % 5)
def i_div_zero(a, b): return a // b
def i_shift(a, b): return (a >> 2, (a << 3) & 0xFF, a & 0x1F, a | 0x40, a ^ b)
def i_mask(a, b): return ((a & 0xE0) >> 5, a & 0x1F, ((a & 7) << 5) | (b & 31))
def i_mask2(a): return (a & 3, (a >> 2) & 3, (a >> 4) & 7, (a & 0x70) >> 4)
def i_invert(a): return ~a & 0xFF
def i_cmp(a, b): return (a < b, a <= b, a == b, a != b, a > b, a >= b)
def i_chain(a, b): return 0 <= a < b <= 255
def i_minmax(a, b, c): return (min(a, b), max(a, b, c), min([a, b, c]))
def i_bool(a, b): return (a and b, a or b, not a, bool(b))
def i_ternary(a, b): return a if a > b else b
def i_pow(a): return (2 ** 3, a ** 2)
def i_divmod(a, b): return divmod(a, 16)
def i_tobytes(a): return a.to_bytes(2, "little")
def i_tobytes_big(a): return a.to_bytes(4, "big")
def i_tobytes_signed(a, b): return (a - b).to_bytes(2, "little", signed=True)
def i_tobytes_overflow(a): return a.to_bytes(1, "little")
def i_frombytes(d): return int.from_bytes(d[:2], "little")
def i_frombytes_big(d): return int.from_bytes(d[:3], "big")
def i_frombytes_signed(d): return int.from_bytes(d[:1], "little", signed=True)
def i_int(x): return int(x)
def i_bits(a): return [i for i in range(8) if a >> i & 1]
def i_sumbits(a): return sum(1 << i for i in [0, 2, 5] if a & (1 << i))
def i_aug(a, b):
    a += b
    a -= 1
    a <<= 1
    a |= 1
    a &= 0xFFF
    a ^= 5
    return a
# ---- bytes
def b_len(d, e): return (len(d), len(d + e), len(d) + len(e))
def b_index(d, a): return d[a]
def b_neg(d): return d[-1]
def b_slices(d): return (d[1:], d[:2], d[1:3], d[-2:], d[:-1], d[5:2])
def b_slice_var(d, a, b): return d[a:b]
def b_iter(d):
    r = 0
    for x in d:
        r ^= x
    return r
def b_sum(d):
    r = 0
    for x in d:
        r = r + x
    return r
def b_enum(d): return [i + x for i, x in enumerate(d[:3])]
def b_rev(d): return list(reversed(d[:3]))
def b_step(d): return bytes(d[::-1])
def b_concat(d, e): return d + b"\x00" + e
def b_eq(d, e): return (d == e, d != e, d == d + b"", d[:1] == b"\xfe")
def b_in(d, a): return a in d
def b_bytes(a, b): return bytes([a, b])
def b_bytes_n(a): return bytes(a % 5)
def b_bytes_of_list(l): return bytes(l)
def b_list(d): return list(d)
def b_join(d, e): return b"".join([d, e, b"!"])
def b_mult(a): return b"\xff" * (a % 4)
def b_truth(d): return 1 if d else 0
def b_index_error(d): return d[20]
def b_while(d):
    i, r = 0, []
    while i < len(d) and d[i] != 0:
        r.append(d[i])
        i += 1
    return (i, r)
def b_pop_front(d):
    out = []
    while len(d) > 2:
        out.append(d[0])
        d = d[1:]
    return (out, d)
def b_starts(d): return (d.startswith(b"\xfe"), d[0:1] == b"\xfe")
def b_dict_key(d): return {b"a": 1}.get(d, 2)
# ---- bytearray
def ba_new(d): return bytes(bytearray(d))
def ba_append(d, a):
    r = bytearray(d)
    r.append(a)
    return (bytes(r), len(r), r[-1])
def ba_extend(d, e):
    r = bytearray()
    r.extend(d)
    r += e
    r.extend([1, 2])
    return bytes(r)
def ba_alias(d):
    r = bytearray(d)
    q = r
    q += b"x"
    p = bytes(r)
    q.append(3)
    return (p, bytes(r), r == q, r is q)
def ba_copy(d):
    r = bytearray(d)
    q = r[:]
    q.append(1)
    return (bytes(r), bytes(q))
def ba_del(d, a):
    r = bytearray(d)
    del r[:a]
    return bytes(r)
def ba_del2(d):
    r = bytearray(d)
    del r[1:3]
    return bytes(r)
def ba_set(d, a):
    r = bytearray(b"abc")
    r[1] = a
    return bytes(r)
def ba_setslice(d, e):
    r = bytearray(d)
    r[1:2] = e
    return bytes(r)
def ba_setall(d, e):
    r = bytearray(d)
    r[:] = e
    return bytes(r)
def ba_setslice2(d, a, b):
    r = bytearray(d)
    r[a:b] = b"zz"
    return bytes(r)
def ba_clear(d):
    r = bytearray(d)
    r.clear()
    return (bytes(r), bool(r))
def ba_eq(d): return (bytearray(d) == d, d == bytearray(d), bytearray(d) == bytearray(d), bytearray(d) == list(d))
def ba_add(d, e): return (type(bytearray(d) + e) is bytearray, bytes(bytearray(d) + e), bytes(d + bytearray(e)))
def ba_isinst(d): return (isinstance(bytearray(d), bytes), isinstance(bytearray(d), (bytes, bytearray)), isinstance(bytearray(d), list))
def ba_bad(d, a):
    r = bytearray(d)
    r.append(a + 256)
    return 1
def ba_bad2(d):
    r = bytearray(d)
    r += [1]
    r += "x"
    return 1
def ba_in(d, a): return a in bytearray(d)
def ba_slice_kind(d): return isinstance(bytearray(d)[1:], bytearray)
def ba_join(d, e): return b"".join([bytearray(d), e])
def ba_from(d): return int.from_bytes(bytearray(d[:2]), "little")
def ba_loop(d):
    r = bytearray()
    for x in d:
        r.append(x ^ 0xFF)
    return bytes(r)
def ba_iter(d): return [x for x in bytearray(d[:2])]
# ---- lists, tuples
def l_basic(l, a): return (len(l), l + [a], [a] * 3, a in l)
def l_slices(l): return (l[1:], l[:-1], l[-2:], l[::-1])
def l_append(l, a):
    r = []
    r.append(a)
    r.extend(l)
    r += [7]
    r.insert(0, 9)
    return r
def l_alias(a):
    p = [a]
    q = p
    q.append(2)
    p = p + [3]
    return (p, q)
def l_iadd_alias(a):
    p = [a]
    q = p
    p += [4]
    return (p is q, q)
def l_del(a, b):
    r = [a, b, 3, 4]
    del r[1:3]
    return r
def l_setslice(a, b):
    r = [1, 2, 3, 4]
    r[1:3] = [a, b, a]
    return r
def l_setslice_neg(a):
    r = [1, 2, 3, 4]
    r[-1:] = [a]
    r[3:1] = [8]
    return r
def l_set(a):
    r = [1, 2, 3]
    r[1] = a
    r[-1] = 0
    return r
def l_pop(a):
    r = [a, 2, 3]
    p = r.pop()
    q = r.pop(0)
    return (p, q, r)
def l_remove(a, b):
    r = [a, b, a]
    r.remove(b)
    return r
def l_index(a, b): return [1, a, b].index(b)
def l_unpack(a, b):
    p, q = b, a
    (r, (u, v)) = (p, (q, p))
    return (p, q, r, u, v)
def l_star(a, b):
    def g(*args, **kw):
        return (args, sorted(kw.items()))
    return g(a, *[b, 1], k=2, **{"z": a})
def l_comp(l, a): return [y + a for y in l if y > 1]
def l_comp2(a, b): return [(p, q) for p in [a, b] for q in [1, 2] if p != q]
def l_map(l): return list(map(lambda y: y + 1, l))
def l_filter(l): return list(filter(lambda y: y > 2, l))
def l_zip(l, m): return list(zip(l, m))
def l_enumerate(l): return [(i, y) for i, y in enumerate(l, 1)]
def l_sum(l): return sum(l)
def l_any(l, a): return (any(y == a for y in l), all(y < 300 for y in l))
def l_sorted(a, b, c): return sorted([3, 1, 2])
def l_reversed(l): return list(reversed(l))
def l_first(l): return next((y for y in l if y > 2), None)
def l_nested(a):
    r = [[0] for _ in range(3)]
    r[1].append(a)
    q = [[0]] * 2
    q[0].append(a)
    return (r, q)
def l_tuple_cmp(a, b): return (a, b) == (b, a)
def l_tuple_in(a): return a in (1, 2, 3)
def l_range(a): return list(range(3, 10, 3)) + list(range(a % 4))
def l_concat_loop(l):
    r = []
    for y in l:
        r.append(y * 2)
    return r
def l_for_else(l, a):
    for i, y in enumerate(l):
        if y == a:
            break
    else:
        return -1
    return i
def l_continue(l):
    r = 0
    for y in l:
        if y % 2:
            continue
        r += y
    return r
# ---- dicts
def d_basic(a, b):
    r = {"k": a, 2: b}
    r["n"] = a + b
    del r["k"]
    return (r, len(r), "k" in r, 2 in r)
def d_get(a): return ({"x": a}.get("x"), {"x": a}.get("y"), {"x": a}.get("y", 5))
def d_missing(a): return {"x": a}["y"]
def d_order(a): return list({"b": 1, "a": a, "c": 3}.items())
def d_update(a):
    r = {"p": 1, "q": 2}
    r.update({"q": a})
    r.update(z=3)
    return list(r.items())
def d_setdefault(a):
    r = {}
    r.setdefault("k", []).append(a)
    r.setdefault("k", []).append(2)
    return r
def d_pop(a):
    r = {"k": a}
    return (r.pop("k"), r.pop("k", 7), r)
def d_comp(l): return {y: i for i, y in enumerate([1, 5, 6])}
def d_symkey(a): return {1: "one", 2: "two"}.get(a, "other")
def d_symkey2(a):
    t = {1: 10, 2: 20, 7: 70}
    if a in t:
        return t[a]
    return None
def d_alias(a):
    r = {"l": [1]}
    q = dict(r)
    q["l"].append(a)
    q["m"] = 1
    return (r, q)
def d_iter(a):
    r = []
    for k, v in {"a": a, "b": 2}.items():
        r.append((k, v))
    return r
def d_merge(a): return {**{"a": 1}, "b": a, **{"a": 3}}
def d_clear(a):
    r = {"a": a}
    q = r
    r.clear()
    return q
def d_bool(a): return (bool({}), bool({1: a}))
# ---- control flow, exceptions
def c_try(a):
    r = []
    try:
        r.append(1)
        if a > 5:
            raise ValueError("x")
        r.append(2)
    except ValueError:
        r.append(3)
    else:
        r.append(4)
    finally:
        r.append(5)
    return r
def c_finally_return(a):
    try:
        if a > 5:
            return 1
        raise KeyError
    except KeyError:
        return 2
    finally:
        a = 9
def c_finally_override(a):
    try:
        return 1
    finally:
        if a > 5:
            return 2
def c_reraise(a):
    try:
        try:
            raise SubErr(a)
        except Err as e:
            if e.status > 3:
                raise
            return e.status
    except SubErr as e:
        return -e.status
def c_except_order(a):
    try:
        if a % 3 == 0:
            raise SubErr(1)
        if a % 3 == 1:
            raise ValueError
        return {}[1]
    except SubErr:
        return "sub"
    except (ValueError, TypeError):
        return "value"
    except Exception:
        return "other"
def c_except_unmatched(a):
    try:
        raise KeyError
    except ValueError:
        return 1
def c_loop_try(l):
    r = []
    for y in [1, 2, 3]:
        try:
            if y == 2:
                continue
            r.append(y)
        finally:
            r.append(-y)
    return r
def c_break_finally(a):
    r = []
    while True:
        try:
            if a > 3:
                break
            a += 1
        finally:
            r.append(a)
        if len(r) > 5:
            break
    return r
def c_assert(a):
    assert a < 100, "big"
    return a
def c_nested_fn(a, b):
    n = 0

    def inc(k):
        nonlocal n
        n += k
        return n
    inc(a)
    return inc(b)
def c_late_binding(a):
    fs = []
    for i in [1, 2, 3]:
        fs.append(lambda: i + a)
    return [g() for g in fs]
def c_default_shared(a):
    def g(y, acc=[]):
        acc.append(y)
        return acc
    g(a)
    return g(2)
def c_kwonly(a):
    def g(p, *, q=2):
        return (p, q)
    return (g(a), g(1, q=a))
def c_unbound(a):
    if a > 3:
        z = 1
    return z
def c_type_error(a): return a + None
def c_type_error2(a): return None < a
def c_attr_error(a): return a.nothing
def c_none(x): return (x is None, x is not None, x == None)
def c_walrus(a):
    if (y := a + 1) > 3:
        return y
    return -y
def c_while_else(a):
    i = 0
    while i < 3:
        if i == a:
            break
        i += 1
    else:
        return "none"
    return i
def c_and_or(a, x): return x or a
def c_chained_if(a):
    if a < 2:
        return "lo"
    elif a < 10:
        return "mid"
    else:
        return "hi"
def c_global_enum(a):
    try:
        return Col(a).name
    except ValueError:
        return None
# ---- enums
def e_value(a): return (Col.RED.value, Col.BLUE + 1, Col.GREEN == 2, Col.RED < Col.BLUE)
def e_ctor(a): return Col(a).value
def e_from(a): return Col.from_value(a).twice()
def e_name(a): return Col["GREEN"].name
def e_iter(a): return [int(m) for m in Col]
def e_in(a): return a in (Col.RED, Col.BLUE)
def e_dict(a): return {Col.RED: "r", Col.BLUE: "b"}.get(a)
def e_is(a): return Col(2) is Col.GREEN
def e_mask(a): return Col.BLUE << 5 | a & 31
# ---- classes
def k_basic(a):
    o = Base(a)
    return (o.sum(), o.double, Base.plus(a, 1), o.plus(1, 2), Base.make(a).w)
def k_derived(a):
    o = Derived(a)
    o.extra.append(1)
    return (o.sum(), o.over(), o.extra, o == Derived(a), o == Derived(a + 1), isinstance(o, Base))
def k_attr(a):
    o = Base(a)
    o.shared = a
    return (o.shared, Base.shared, hasattr(o, "nope"), getattr(o, "nope", 3), getattr(o, "v"))
def k_bound(a):
    o = Base(a)
    g = o.sum
    o.v = 100
    return g()
def k_identity(a):
    p, q = Base(a), Base(a)
    return (p is q, p == q, p == p)
def k_setattr(a):
    o = Base(a)
    setattr(o, "v", 8)
    return o.v
# ---- strings
def s_fmt(a): return "n=%d" % 5
def s_cmp(s, t): return (s == t, s != t, s == "abc")
def s_lower(s): return "ABC".lower() + "x"
def s_dict(s): return {"abc": 1, "x": 2}.get(s, 0)
def s_in(s): return s in ("abc", "x")
def s_end(a): return ("fooid".endswith("id"), "abc"[1:], "a,b".split(","))
def s_truth(s): return bool(s)
# ---- more containers and functions
def m_star_list(l, a): return [a, *l, a]
def m_star_call(l, a): return max(*[a, 3, 4])
def m_dict_list(a): return [k for k in {"x": a, "y": 2}]
def m_dict_vals(a): return sum({"x": a, "y": 2}.values())
def m_nested_get(a): return {"x": {"y": [a, 2]}}["x"]["y"][0]
def m_list_of_dict(a):
    r = [{"i": i, "v": a + i} for i in range(3)]
    r[1]["v"] = 0
    return r
def m_swap(a, b):
    r = [a, b]
    r[0], r[1] = r[1], r[0]
    return r
def m_aug_item(a):
    r = {"n": 1, "l": [1, 2]}
    r["n"] += a
    r["l"][0] *= 3
    return r
def m_aug_attr(a):
    o = Base(a)
    o.v += 2
    o.w -= a
    return (o.v, o.w)
def m_eval_order(a):
    log = []

    def t(n):
        log.append(n)
        return n
    {t(1): t(2)}
    [t(3), t(4)]
    x = t(5) + t(6)
    d = {}
    d[t(7)] = t(8)
    t(9) if t(10) else t(11)
    return log
def m_eval_order2(a):
    log = []

    def t(n):
        log.append(n)
        return n

    def g(*p, **k):
        return 0
    g(t(1), *[t(2)], k=t(3), **{"z": t(4)})
    r = t(5) < t(6) < t(5) < t(8)
    return (log, r)
def m_short(a):
    log = []

    def t(v):
        log.append(v)
        return v
    r = t(0) or t(a) or t(3)
    q = t(1) and t(0) and t(9)
    return (r, q, log)
def m_default_eval(a):
    n = [1]

    def g(p=n[0]):
        return p
    n[0] = a
    return g()
def m_arg_mutation(a):
    def g(r):
        r.append(a)
        r = [0]
        return r
    q = [1]
    g(q)
    return q
def m_closure_cell(a):
    def mk(n):
        def g():
            return n
        n += 1
        return g
    return mk(a)()
def m_recursion(a):
    def g(n):
        return 0 if n <= 0 else n + g(n - 1)
    return g(a % 6)
def m_exc_args(a):
    try:
        raise Err(a, "message")
    except Err as e:
        return (e.status, e.args, str(e))
def m_exc_scope(a):
    e = 5
    try:
        raise ValueError("x")
    except ValueError as e:
        pass
    return e
def m_exc_in_except(a):
    try:
        try:
            raise ValueError
        except ValueError:
            raise KeyError("k")
    except KeyError as k:
        return (k.args, isinstance(k.__cause__, Exception))
def m_exc_from(a):
    try:
        try:
            raise ValueError(a)
        except ValueError as v:
            raise Err(1) from v
    except Err as e:
        return isinstance(e.__cause__, ValueError)
def m_exc_finally_raise(a):
    r = []
    try:
        try:
            if a > 2:
                raise ValueError
        finally:
            r.append(1)
            if a > 5:
                raise KeyError
    except Exception as e:
        r.append(type(e).__name__ if False else isinstance(e, KeyError))
    return r
def m_exc_else(a):
    r = []
    for y in [0, a]:
        try:
            z = 10 // y if y in (1, 2, 5) else {}[y]
        except KeyError:
            r.append("k")
        else:
            r.append(z)
    return r
def m_nested_break(a):
    r = []
    for y in [1, 2, 3]:
        for z in [1, 2, 3]:
            if z == y:
                break
            if y == a:
                continue
            r.append((y, z))
        else:
            r.append("full")
    return r
def m_while_cond(d):
    n = 0
    while n < len(d) and d[n] == 0xFE:
        n += 1
    return n
def m_parse(d):
    """length-prefixed items"""
    out, pos = [], 0
    while pos < len(d):
        n = d[pos] % 3
        out.append(d[pos + 1:pos + 1 + n])
        pos += 1 + n
    return out
def m_struct_like(a, b):
    buf = b""
    for v, n in ((a, 2), (b, 1)):
        buf += (v % 256).to_bytes(n, "little")
    return buf
def m_type_map(a):
    t = {"u8": lambda v: bytes([v % 256]), "u16": lambda v: (v % 65536).to_bytes(2, "little")}
    return t["u16"](a) + t["u8"](a)
def m_getattr_dyn(a):
    return getattr(Base(a), "su" + "m")()
def m_isinstance(a, x): return (isinstance(a, int), isinstance(x, (int, str)), isinstance(Col.RED, int), isinstance("s", str), isinstance(True, int))
def m_bool_arith(a, b): return ((a > b) + (a > 2), sum([a > 1, b > 1]))
def m_int_float(a): return (a / 2 > 3, a * 0.5 == 1)
def m_range_loop(a):
    r = []
    for i in range(0, 4):
        r.append(a >> (8 * i) & 0xFF)
    return bytes(r)
def m_set(a, b):
    r = set()
    r.add(a)
    r.add(b)
    return (len(r) if a != b else 1, a in r, 999 in r)
def m_str_concat(a): return "a" + "b" * 2
def m_tuple_idx(a, b): return (a, b, 3)[1:] + (4,)
def m_tuple_unpack_loop(a):
    return [p + q for p, q in ((a, 1), (2, 3))]
def m_lambda_default(a): return [g() for g in [lambda i=i: i + a for i in range(3)]]
def m_all_eq(d, e): return len(d) == len(e) and all(p == q for p, q in zip(list(d)[:0], list(e)[:0]))
def m_cond_expr_chain(a): return "x" if a == 1 else "y" if a == 2 else "z"
def m_is_bool(f): return (f is True, f is False, not f)
def m_del_local(a):
    z = a
    del z
    return z
def m_global_shadow(a):
    if a > 3:
        enum = 1
    return enum
def m_none_attr(x): return x.foo
def m_call_none(x): return x()
def m_index_type(l): return l["a"]
def m_iter_int(a):
    return [y for y in a]
def m_missing_arg(a):
    def g(p, q):
        return p
    return g(a)
def m_extra_arg(a):
    def g(p):
        return p
    return g(a, 1)
def m_bad_kw(a):
    def g(p):
        return p
    return g(q=a)
def m_unpack_bad(a):
    p, q = [a]
    return p
def m_hex(a): return a == 0xFF
def m_neg_mod(a, b): return ((a - 20) % 8, (a - 20) // 8, -a % 4)
def m_neg_shift(a): return ((a - 20) >> 2, (a - 20) & 0xFF)
def m_neg_and(a): return ((a - 20) & 7, (a - 300) & 0xFFFF)
def m_big(a): return (a << 48) + 5 > 1 << 50
def m_enum_arith(a): return [Col.RED | Col.GREEN, Col.BLUE & 3, Col.BLUE - Col.RED]
def m_enum_bad(a): return Col["NOPE"]
def m_enum_eq(a): return [Col(c).name for c in (1, 2, 7) if c == a]
def m_super_attr(a): return Derived(a).make(3).w if False else Base.make(a).sum()
def m_class_attr_write(a):
    o = Base(a)
    o.shared += 1
    return (o.shared, Base.shared)
def m_prop(a): return Derived(a).double
def m_prop_set(a):
    o = Base(a)
    o.double = 3
    return 1
def m_method_kw(a): return Base(v=a, w=2).sum() + Base(w=a, v=1).w
def m_eq_none(a): return Base(a) == None
def m_not_in(a): return a not in [1, 2, 3]
def m_reversed_range(a): return [i for i in reversed(range(3))]
def m_list_eq(l, m): return (l == m, l != m, l == list(l))
def m_in_dict_vals(a): return a in {"x": 1, "y": 2}.values()
def m_print(a):
    assert a >= 0
    assert (a, "always true")
    return a
def m_pass(a):
    for _ in range(2):
        pass
    return None
def m_ann(a):
    z: int = a
    w: int
    return z
def m_import(a):
    import enum as en
    return en is enum
def m_multi_assign(a):
    p = q = [a]
    p.append(1)
    return q
def m_chain_cmp(a, b, c): return a < b < c or a == b == c
def m_str_join(a): return ",".join(["a", "b"])
def m_min_key(a, b): return min([a, b], default=0)
def m_dict_in_place(a):
    r = {"a": 1}
    for k in list(r):
        r[k] = a
    return r
def m_next_default(l): return next(iter([1, 2]), None)
def m_slice_assign_grow(a):
    r = [1, 2, 3]
    r[len(r):] = [a]
    return r
def n_star1(l):
    p, *q = l
    return [p, q]
def n_star2(l):
    *p, q = l
    return [p, q]
def n_star3(d):
    p, *q, r = d
    return [p, q, r]
def n_star4(l, m):
    (p, *q), r = l, m
    return [p, q, r]
def n_unpack_bytes(d):
    p, q = d
    return p * 256 + q
def n_unpack_list(l):
    [p] = l
    return p
def n_star_for(a, b, c):
    r = []
    for p, *q in [(a, b, c), (c,), (b, a)]:
        r.append((p, q))
    return r
def n_count(a):
    import itertools
    k = itertools.count()
    g = itertools.count(a, 2)
    return [next(k), next(g), next(k), next(g)]
def n_zip(l, m): return list(zip(l, m))
def n_zip_enum(l, d):
    r = []
    for i, (p, q) in enumerate(zip(l, d)):
        r.append(i + p * q)
    return r
def n_zip_sum(l, d):
    t = 0
    for p, q in zip(l, d):
        t += p + q
    return t
