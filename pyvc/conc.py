"""Concrete values of symbolic inputs under a z3 model (JSON-able)."""
import z3
from . import core


def ev(model, e):
    r = model.eval(e, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return str(r)


def concretise(v, model):
    if isinstance(v, (int, str)) or v is None:
        return v
    if isinstance(v, bytes):
        return {"bytes": v.hex()}
    if isinstance(v, (core.SInt, core.SBool, core.SStr, core.SVal)):
        return ev(model, v.e)
    if z3.is_expr(v):
        return ev(model, v)
    if isinstance(v, core.EnumMember):
        return v.value
    if isinstance(v, (core.SBytes, core.SList, core.SFixed)):
        out = []
        for s in v.segs:
            if isinstance(s, core.Lit):
                out += [concretise(x, model) for x in s.vals]
            else:
                n = min(ev(model, s.n), 2000)
                out += [concretise(s.at(core.I(k)), model) for k in range(n)]
        if isinstance(v, core.SBytes):
            return {"bytes": bytes([x & 255 for x in out]).hex()}
        return out
    if isinstance(v, (tuple, list)):
        return [concretise(x, model) for x in v]
    if isinstance(v, core.SDict):
        return {str(k): concretise(x[1], model) for k, x in v.d.items()}
    if isinstance(v, dict):
        return {str(k): concretise(x, model) for k, x in v.items()}
    return repr(v)
