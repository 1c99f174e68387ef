"""voluptuous, the part of it a configuration schema is made of: Schema (dictionaries, extend, extra), Required/Optional with defaults,
types, literals, callables, Any, All, In, Maybe, Range, Coerce, PathExists. Everything else is Unsupported when a value meets it."""
from .core import *
from .builtins_ import inst

EXTRA = {"PREVENT_EXTRA": 0, "ALLOW_EXTRA": 1, "REMOVE_EXTRA": 2}
KINDS = ("Schema", "Any", "All", "In", "NotIn", "PathExists", "IsFile", "IsDir", "IsDevice", "Range", "Coerce", "Length", "Match", "Clamp", "Url", "Email",
         "Optional", "Required", "Exclusive", "Inclusive", "Remove", "Extra", "Maybe", "Unique", "Msg", "Number", "Boolean", "Lower", "Upper", "Strip", "Replace")


def register(ext, EX, exc):
    invalid = exc("voluptuous.Invalid", ["Exception"], ["voluptuous.error.Invalid"])
    exc("voluptuous.MultipleInvalid", ["voluptuous.Invalid"], ["voluptuous.error.MultipleInvalid"])

    def bad(it, why="not valid"):
        it.raise_(EX("voluptuous.MultipleInvalid"), why)

    def make(kind):
        def ctor(it, a, k):
            m = Mock("vol", kind=kind, args=tuple(a), kw=dict(k), ident=next_serial())
            m.attrs["__call__"] = Builtin("vol." + kind, lambda i, x, y: check(i, m, x[0]))
            if kind == "Schema":
                m.attrs["schema"] = a[0] if a else k.get("schema")
                m.attrs["extra"] = k.get("extra", a[2] if len(a) > 2 else 0)
                m.attrs["extend"] = Builtin("extend", extend(m))
            if kind in ("Optional", "Required"):
                m.attrs["schema"] = a[0] if a else k["schema"]
                m.attrs["default"] = k.get("default", a[2] if len(a) > 2 else MISSING)
                m.attrs["__eq__"] = Builtin("__eq__", lambda i, x, y: i.compare("Eq", m.attrs["schema"], x[0].attrs["schema"] if marker(x[0]) else x[0]))
            return m
        return Builtin("voluptuous." + kind, ctor)
    serial = [0]

    def next_serial():
        serial[0] += 1
        return serial[0]

    def marker(v):
        return isinstance(v, Mock) and v.attrs.get("kind") in ("Optional", "Required")

    def extend(m):
        def go(it, a, k):
            base, more = m.attrs["schema"], a[0]
            if not isinstance(base, SDict) or not isinstance(more, SDict):
                raise Unsupported("extension of a schema that is no dictionary")
            names = lambda key: key.attrs["schema"] if marker(key) else key
            new = {names(key) for key, _ in more.d.values()}
            d = {n: e for n, e in base.d.items() if names(e[0]) not in new}
            d.update(more.d.items())
            return it.call(ext["voluptuous.Schema"], [SDict(d)], {"extra": k.get("extra", m.attrs["extra"])})
        return go

    def sub(it, spec, v):
        """None if v does not meet the specification, else (result,)."""
        try:
            return (check(it, spec, v),)
        except PyRaise as e:
            if it.exc_matches(e.exc, (invalid,)):
                return None
            raise

    def check(it, spec, v):
        ctx = it.ctx
        if isinstance(spec, Mock) and spec.name == "vol":
            kind, a, k = spec.attrs["kind"], spec.attrs["args"], spec.attrs["kw"]
            if kind == "Schema":
                s = spec.attrs["schema"]
                return dictionary(it, s, v, spec.attrs["extra"]) if isinstance(s, SDict) else check(it, s, v)
            if kind == "Any":
                for s in a:
                    r = sub(it, s, v)
                    if r is not None:
                        return r[0]
                bad(it)
            if kind == "All":
                for s in a:
                    v = check(it, s, v)
                return v
            if kind == "Maybe":
                return None if v is None else check(it, a[0], v)
            if kind in ("In", "NotIn"):
                c = a[0] if a else k["container"]
                if it.truth(it.compare("In", v, c)) != (kind == "In"):
                    bad(it)
                return v
            if kind in ("PathExists", "IsFile", "IsDir", "IsDevice"):
                h = ctx.shared.get("path_exists")
                if h is None:
                    raise Unsupported("whether a path exists")
                if not h(it, v, kind):
                    bad(it, "path does not exist")
                return v
            if kind == "Range":
                for n, op in (("min", "GtE"), ("max", "LtE")):
                    b = k.get(n)
                    if b is not None:
                        if k.get(n + "_included", True) is not True:
                            raise Unsupported("range with excluded ends")
                        try:
                            ok = it.truth(it.compare(op, v, b))
                        except PyRaise:
                            ok = False
                        if not ok:
                            bad(it, "out of range")
                return v
            if kind == "Coerce":
                return called(it, a[0], v)
            raise Unsupported("schema with %s" % kind)
        if isinstance(spec, SDict):
            return dictionary(it, spec, v, 0)
        if isinstance(spec, Builtin) and spec.name in ("int", "str", "bytes", "bool", "float", "list", "dict", "tuple", "object") or isinstance(spec, SClass):
            if not inst(it, v, spec):
                bad(it, "wrong type")
            return v
        if isinstance(spec, (Builtin, SFunc, Bound)):
            return called(it, spec, v)
        if spec is None or isinstance(spec, (int, str, bytes)):
            if isinstance(v, Mock) or not it.truth(it.compare("Eq", v, spec)):
                bad(it, "another value")
            return v
        raise Unsupported("schema with %r" % (spec,))

    def called(it, f, v):
        try:
            return it.call(f, [v], {})
        except PyRaise as e:
            if it.exc_matches(e.exc, tuple(EX_(n) for n in ("ValueError", "TypeError"))):
                bad(it, "rejected")
            raise

    def EX_(n):
        from .interp import EXC
        return EXC[n]

    def dictionary(it, spec, v, extra):
        if not isinstance(v, SDict):
            if isinstance(v, Mock):
                raise Unsupported("schema over %r" % v)
            bad(it, "expected a dictionary")
        out = SDict({})
        keys = {}
        for key, s in spec.d.values():
            name = key.attrs["schema"] if marker(key) else key
            if not isinstance(name, (str, int)):
                raise Unsupported("schema with a key that is no literal")
            keys[name] = (key, s)
        given = {}
        for key, val in v.d.values():
            n = key
            given[n] = val
            if n not in keys:
                if extra == 0:
                    bad(it, "extra keys not allowed")
                if extra == 1:
                    it.setitem(out, key, val)
        for name, (key, s) in keys.items():
            if name in given:
                it.setitem(out, name, check(it, s, given[name]))
            elif marker(key):
                d = key.attrs["default"]
                if d is not MISSING:
                    if isinstance(d, (SFunc, Bound, Builtin, SClass)):
                        d = it.call(d, [], {})
                    it.setitem(out, name, check(it, s, d))
                elif key.attrs["kind"] == "Required":
                    bad(it, "required key not provided")
        return out

    for n in KINDS:
        ext["voluptuous." + n] = make(n)
    for n, v in EXTRA.items():
        ext["voluptuous." + n] = v
    return make
