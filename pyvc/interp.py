"""Symbolic interpreter for the AST of /repo's modules."""
import ast, os
import z3
from .core import *
from . import core


EXC_TREE = {
    "BaseException": [], "Exception": ["BaseException"], "ArithmeticError": ["Exception"],
    "OverflowError": ["ArithmeticError"], "ZeroDivisionError": ["ArithmeticError"],
    "AssertionError": ["Exception"], "AttributeError": ["Exception"], "LookupError": ["Exception"],
    "KeyError": ["LookupError"], "IndexError": ["LookupError"], "NameError": ["Exception"],
    "UnboundLocalError": ["NameError"], "OSError": ["Exception"], "PermissionError": ["OSError"], "FileNotFoundError": ["OSError"], "ConnectionError": ["OSError"], "RuntimeError": ["Exception"],
    "NotImplementedError": ["RuntimeError"], "StopIteration": ["Exception"],
    "StopAsyncIteration": ["Exception"], "TypeError": ["Exception"], "ValueError": ["Exception"],
    "KeyboardInterrupt": ["BaseException"], "SystemExit": ["BaseException"], "GeneratorExit": ["BaseException"],
    "UnicodeError": ["ValueError"], "ImportError": ["Exception"],
}
EXC = {}
for _n, _b in EXC_TREE.items():
    EXC[_n] = ExcClass(_n, [EXC[x] for x in _b])
EXC["IOError"] = EXC["OSError"]
EXC["EnvironmentError"] = EXC["OSError"]


def mkexc(name, bases):
    if name not in EXC:
        EXC[name] = ExcClass(name, [EXC[b] for b in bases])
    return EXC[name]


class Module:
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.tree = None
        self.path = None


class Frame:
    def __init__(self, func, mod, cell, cls=None):
        self.func, self.mod, self.cell, self.cls = func, mod, cell, cls
        self.globals_decl = set()
        self.nonlocals = set()
        self.locals_decl = None


class World:
    """The modules of /repo, parsed afresh, plus registered externals."""
    def __init__(self, root="/repo", package="zigpy_cc"):
        self.root, self.package = root, package
        self.mods = {}
        self.ext = {}            # dotted path -> value or Builtin
        self.hashes = {}
        self.ctx = None
        from . import builtins_ as B
        from . import ext as E
        self.builtins = B.make(self)
        E.register(self)

    def with_ctx(self, ctx):
        self.ctx = ctx
        return Interp(self, ctx)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel + ".py")
        if not os.path.exists(p):
            p = os.path.join(self.root, rel, "__init__.py")
        if not os.path.exists(p):
            raise Unsupported("module %s not found" % name)
        with open(p, "rb") as f:
            src = f.read()
        import hashlib
        self.hashes[os.path.relpath(p, self.root)] = hashlib.sha256(src).hexdigest()
        m = Module(name)
        m.path = p
        m.tree = ast.parse(src, p)
        m.ns["__name__"] = name
        m.ns["__file__"] = p
        self.mods[name] = m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            parent.ns.setdefault(name.rsplit(".", 1)[1], m)
        ctx = Ctx("load")
        ctx.dec = Decisions()
        it = Interp(self, ctx)
        saved = self.ctx
        self.ctx = ctx
        try:
            cell = Cell()
            cell.vars = m.ns
            fr = Frame(None, m, cell)
            for st in m.tree.body:
                it.stmt(st, fr)
        except PyRaise as e:
            raise Unsupported("module %s raises %r at import" % (name, e.exc))
        finally:
            self.ctx = saved
        return m

    def global_ids(self):
        """ids of the containers module state lives in."""
        if getattr(self, "_gids", (0,))[0] != len(self.mods):
            ids = containers(*[x for m in self.mods.values() for x in m.ns.values()])
            for m in self.mods.values():
                ids[id(m.ns)] = m.ns
            self._gids = (len(self.mods), ids)
        return self._gids[1]

    def get(self, dotted):
        """zigpy_cc.uart:Parser.write style lookup -> value."""
        mod, _, path = dotted.partition(":")
        m = self.load(mod)
        v = m
        for part in path.split("."):
            if isinstance(v, Module):
                if part not in v.ns:
                    raise Unsupported("%s is gone" % dotted)
                v = v.ns[part]
            elif isinstance(v, SClass):
                x, _ = v.lookup(part)
                if x is None:
                    raise Unsupported("%s is gone" % dotted)
                v = x
        return v


def local_names(node):
    """Names a function binds itself (its parameters and `global`/`nonlocal` ones aside)."""
    r = getattr(node, "_vc_locals", None)
    if r is not None:
        return r
    r, out = set(), set()

    def go(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
            r.add(n.id)
        if isinstance(n, ast.NamedExpr):
            r.add(n.target.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            r.update((a.asname or a.name).split(".")[0] for a in n.names)
        c = comp or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
        for x in ast.iter_child_nodes(n):
            go(x, c)
    if not isinstance(node, ast.Lambda):
        for s in node.body:
            go(s, False)
    node._vc_locals = frozenset(r - out)
    return node._vc_locals


class Interp:
    def __init__(self, world, ctx):
        self.w, self.ctx = world, ctx
        ctx.interp = self
        self.depth = 0
        self.call_depth = 0

    # ------------------------------------------------------------ raising
    def raise_(self, cls, *args):
        if isinstance(cls, str):
            cls = EXC[cls]
        raise PyRaise(self.instantiate(cls, list(args), {}))

    def exc_obj(self, name, *args):
        return self.instantiate(EXC[name], list(args), {})

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.w.package:
                m = self.w.load(a.name)
                if a.asname:
                    self.assign_name(a.asname, m, fr)
                else:
                    self.assign_name(top, self.w.load(top), fr)
            else:
                self.assign_name(a.asname or top, Ext(a.name if a.asname else top), fr)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            pk = fr.mod.name.split(".")
            is_pkg = fr.mod.path.endswith("__init__.py")
            pk = pk[:len(pk) - s.level + (1 if is_pkg else 0)]
            base = ".".join(pk + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import *")
            if base.split(".")[0] == self.w.package:
                m = self.w.load(base)
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.w.load(base + "." + a.name)
            else:
                v = self.ext_value(base + "." + a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def ext_value(self, path):
        if path in self.w.ext:
            v = self.w.ext[path]
            return v
        return Ext(path)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr)
            v = self.decorate(dv, v, f)
        self.assign_name(s.name, v, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dv, v, f):
        if isinstance(dv, Builtin) and dv.name in ("classmethod",):
            return ClassMethod(v)
        if isinstance(dv, Builtin) and dv.name == "staticmethod":
            return StaticMethod(v)
        if isinstance(dv, Builtin) and dv.name == "property":
            return Property(v)
        return self.call(dv, [v], {})

    def make_func(self, s, fr):
        a = s.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [(d is not None, self.eval(d, fr) if d is not None else None) for d in a.kw_defaults]
        scope = fr.cell if fr.func is not None else None
        pre = ""
        if isinstance(fr.cls, str):
            pre = fr.cls + "."
        elif fr.func is not None:
            pre = fr.func.qual.split(":", 1)[1] + ".<locals>."
        name = getattr(s, "name", "<lambda>")
        return SFunc(s, fr.mod, scope, defaults, kwd, "%s:%s%s" % (fr.mod.name, pre, name))

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        pre = (fr.cls + ".") if isinstance(fr.cls, str) else ""
        cell = Cell(fr.cell if fr.func is not None else None)
        sub = Frame(fr.func, fr.mod, cell, cls=pre + s.name)
        sub.is_class = True
        self.block(s.body, sub)
        ns = cell.vars
        is_enum = any(isinstance(b, EnumClass) or (isinstance(b, Ext) and b.path in self.w.enum_bases)
                      for b in bases)
        qual = "%s:%s%s" % (fr.mod.name, pre, s.name)
        if is_enum:
            c = EnumClass(s.name, bases, {}, qual)
            c.open = any(isinstance(b, Ext) and self.w.enum_bases.get(b.path) == "open" for b in bases)
            for k, v in ns.items():
                if k.startswith("_") or isinstance(v, (SFunc, ClassMethod, StaticMethod, Property)):
                    c.ns[k] = v
                else:
                    old = c.by_value(v) if isinstance(v, int) else None
                    m = old or EnumMember(c, k, v)
                    if not old:
                        c.members[k] = m
                    c.ns[k] = m
        else:
            c = SClass(s.name, bases, dict(ns), qual)
        for v in c.ns.values():
            f = v.f if isinstance(v, (ClassMethod, StaticMethod, Property)) else v
            if isinstance(f, SFunc) and f.cls is None:
                f.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    def s_Return(self, s, fr):
        raise ReturnExc(self.eval(s.value, fr) if s.value else None)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            setter = lambda v: self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            setter = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")
        rhs = self.eval(s.value, fr)
        op = type(s.op).__name__
        if isinstance(cur, SList) and op == "Add":
            if isinstance(cur, SByteArray):
                if not isinstance(rhs, (bytes, SBytes, SByteArray)):
                    self.raise_("TypeError", "can't concat to bytearray")
            self.ctx.set(cur, "segs", norm_segs(cur.segs + segs_of(self.as_iterable(rhs))))
            setter(cur)
            return
        setter(self.binop(op, cur, rhs))

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            args = [self.eval(s.msg, fr)] if s.msg else []
            self.raise_("AssertionError", *args)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            if not cur:
                raise Unsupported("bare raise outside handler")
            raise PyRaise(cur[-1])
        v = self.eval(s.exc, fr)
        if isinstance(v, SClass):
            v = self.call(v, [], {})
        if v is None or isinstance(v, (str, int, bytes, tuple)) or isinstance(v, SObj) and not self.w.is_exc(v.cls):
            self.raise_("TypeError", "exceptions must derive from BaseException")
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            if isinstance(c, SClass):
                c = self.call(c, [], {})
            if isinstance(v, SObj):
                self.ctx.setitem(v.attrs, "__cause__", c)
        raise PyRaise(v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if isinstance(t.slice, ast.Slice):
                    self.setslice(o, t.slice, (), fr)
                    continue
                self.delitem(o, self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                self.ctx.delitem(fr.cell.vars, t.id)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                self.ctx.delitem(o.attrs, t.attr)
            else:
                raise Unsupported("del target")

    def s_Global(self, s, fr):
        fr.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                h = self.find_handler(s.handlers, e.exc, fr)
                if h is None:
                    raise
                if not hasattr(fr, "handling"):
                    fr.handling = []
                fr.handling.append(e.exc)
                if h.name:
                    self.assign_name(h.name, e.exc, fr)
                try:
                    self.block(h.body, fr)
                finally:
                    fr.handling.pop()
                    if h.name and h.name in fr.cell.vars:
                        self.ctx.delitem(fr.cell.vars, h.name)
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnExc, BreakExc, ContinueExc):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def find_handler(self, handlers, exc, fr):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, fr)
            if self.exc_matches(exc, t):
                return h
        return None

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, Ext):
            raise Unsupported("unknown exception class %s" % t.path)
        if isinstance(exc, Mock):
            # arbitrary exception described by the contract
            return exc.attrs["matches"](t)
        return any(c is t for c in exc.cls.mro())

    def s_With(self, s, fr):
        self.with_items(s.items, 0, s, fr, False)

    def s_AsyncWith(self, s, fr):
        self.with_items(s.items, 0, s, fr, True)

    def with_items(self, items, i, s, fr, is_async):
        if i == len(items):
            self.block(s.body, fr)
            return
        it = items[i]
        cm = self.eval(it.context_expr, fr)
        pre = "__a" if is_async else "__"
        enter = self.getattr(cm, pre + "enter__")
        exit_ = self.getattr(cm, pre + "exit__")
        v = self.call(enter, [], {})
        if is_async:
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)

        def leave(args):
            r = self.call(exit_, args, {})
            return self.await_(r) if is_async else r
        try:
            self.with_items(items, i + 1, s, fr, is_async)
        except PyRaise as e:
            r = leave([e.exc.cls if isinstance(e.exc, SObj) else None, e.exc, None])
            if r is not None and self.truth(r):
                return
            raise
        except (ReturnExc, BreakExc, ContinueExc):
            leave([None, None, None])
            raise
        else:
            leave([None, None, None])

    def s_Break(self, s, fr):
        raise BreakExc()

    def s_Continue(self, s, fr):
        raise ContinueExc()

    def s_For(self, s, fr):
        from . import loops
        loops.run_for(self, s, fr)

    def s_AsyncFor(self, s, fr):
        raise Unsupported("async for")

    def s_While(self, s, fr):
        from . import loops
        loops.run_while(self, s, fr)

    # ------------------------------------------------------------ names
    def assign_name(self, name, v, fr):
        if fr.func is not None and name in fr.globals_decl:
            self.ctx.setitem(fr.mod.ns, name, v)
            return
        if name in fr.nonlocals:
            c = fr.cell.parent
            while c is not None:
                if name in c.vars:
                    self.ctx.setitem(c.vars, name, v)
                    return
                c = c.parent
        c = fr.cell
        self.ctx.setitem(c.vars, name, v)

    def lookup(self, name, fr):
        c = fr.cell
        while c is not None:
            if name in c.vars:
                v = c.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported("use of %s: %s" % (name, v.why))
                if isinstance(v, (LastIter, LazyChoice)):
                    v = self.resolve_last(v)
                    self.ctx.setitem(c.vars, name, v)
                    if v is MISSING:
                        self.ctx.delitem(c.vars, name)
                        self.raise_("UnboundLocalError", name)
                return v
            if name in c.local:
                self.raise_("UnboundLocalError", name)
            c = c.parent
        if name in fr.mod.ns:
            return fr.mod.ns[name]
        if name in self.w.builtins:
            return self.w.builtins[name]
        if name in EXC and EXC[name].name == name or name in ("IOError", "EnvironmentError"):
            return EXC[name]
        self.raise_("NameError", name)

    def resolve_last(self, v):
        if isinstance(v, LazyChoice):
            return v.c if self.ctx.branch(v.p) else v.v0
        if self.ctx.branch(v.i <= 0):
            return v.before
        return v.at(z3.simplify(v.i - 1))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                self.setslice(o, t.slice, v, fr)
                return
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, LazyGen):
                v = SList(norm_segs([Lit(list(v.it))]))
            v = self.as_iterable(v)
            segs = norm_segs(segs_of(v))
            k = len(t.elts)
            if all(isinstance(s, Lit) for s in segs):
                vals = [x for s in segs for x in s.vals]
                if (len(vals) < k - 1) if stars else len(vals) != k:
                    self.raise_("ValueError", "unpack")
                if stars:
                    a, b = stars[0], len(vals) - (k - 1 - stars[0])
                    vals[a:b] = [SList(norm_segs([Lit(vals[a:b])])) if vals[a:b] else SList(())]
            else:
                n = segs_len(segs)
                if not self.ctx.branch(n >= k - 1 if stars else n == k):
                    self.raise_("ValueError", "unpack")
                if stars:
                    a, b = stars[0], k - 1 - stars[0]
                    e = z3.simplify(n - b)
                    vals = [index_segs(self.ctx, segs, I(i)) for i in range(a)]
                    vals.append(SList(slice_segs(self.ctx, segs, I(a), e)) if self.ctx.branch(e > a) else SList(()))
                    vals += [index_segs(self.ctx, segs, z3.simplify(e + i)) for i in range(b)]
                else:
                    vals = [index_segs(self.ctx, segs, I(i)) for i in range(k)]
            for e, x in zip([x.value if isinstance(x, ast.Starred) else x for x in t.elts], vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return Ext("Ellipsis")
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            if s.step is not None:
                st = self.eval(s.step, fr)
            else:
                st = None
            lo = self.eval(s.lower, fr) if s.lower else None
            hi = self.eval(s.upper, fr) if s.upper else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return Builtin("slice", None)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_iter(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(segs_of(self.as_iterable(self.eval(x.value, fr))))
            else:
                segs.append(Lit([self.eval(x, fr)]))
        return SList(norm_segs(segs))

    def e_Set(self, e, fr):
        return SSet([self.eval(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        d = SDict({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                if not isinstance(src, SDict):
                    raise Unsupported("** of a non-dict")
                d.d.update(src.d)
            else:
                kv = self.eval(k, fr)
                vv = self.eval(v, fr)
                dk = dkey(kv)
                if dk is None and kv is not None:
                    raise Unsupported("symbolic dict key in display")
                d.d[dk] = (kv, vv)
        return d

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And):
                if not t:
                    return v
            elif t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mk_bool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else mk_int(-zi(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return ~v if isinstance(v, int) else mk_int(-zi(v) - 1)
        raise Unsupported("unary op")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.mod.ns:
            return self.make_super(e, fr)
        f = self.eval(e.func, fr)
        if isinstance(f, Ext) and f.path.startswith("logging."):
            pass
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_iter(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, SDict):
                    raise Unsupported("** argument")
                for kk, (kv, vv) in d.d.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if isinstance(f, Builtin) and f.name in ("locals", "vars") and not args:
            raise Unsupported("locals()")
        return self.call(f, args, kw)

    def make_super(self, e, fr):
        c = fr.cell
        f = fr.func
        cls = None
        while f is not None and cls is None:
            cls = f.cls
            break
        if cls is None:
            raise Unsupported("super() outside a class")
        a = f.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperObj(cls, self.lookup(first, fr))

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Await(self, e, fr):
        return self.await_(self.eval(e.value, fr))

    def e_JoinedStr(self, e, fr):
        out, conc = [], True
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if isinstance(x, (str, int, SStr)) and not isinstance(x, (bool, EnumMember)) and v.format_spec is None and v.conversion == -1:
                    out.append(x if isinstance(x, SStr) else str(x))
                else:
                    conc = False
        return concat_str(self.ctx, out) if conc else self.ctx.str("fstr")

    def e_ListComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        from . import loops
        return loops.genexp(self, e, fr)

    def e_SetComp(self, e, fr):
        from . import loops
        v = loops.comprehension(self, e, fr, "list")
        return SSet(self.concrete_iter(v))

    def e_DictComp(self, e, fr):
        from . import loops
        return loops.dictcomp(self, e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    # ------------------------------------------------------------ truth
    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return ctx.branch(v.e)
        if isinstance(v, SInt):
            return ctx.branch(v.e != 0)
        if isinstance(v, SFloat):
            return ctx.branch(v.e != 0)
        if isinstance(v, EnumMember):
            return bool(v.value) if isinstance(v.value, int) else True
        if isinstance(v, (SBytes, SList, SFixed)):
            return ctx.branch(segs_len(v.segs) > 0)
        if isinstance(v, SDict):
            return bool(v.d)
        if isinstance(v, SSet):
            return bool(v.items)
        if isinstance(v, SMap):
            return ctx.branch(v.n > 0)
        if isinstance(v, SObj):
            f, _ = v.cls.lookup("__bool__")
            if f is None:
                g, _ = v.cls.lookup("__len__")
                if g is not None:
                    return self.truth(self.compare("NotEq", self.call(self.getattr(v, "__len__"), [], {}), 0))
                return True
            return self.truth(self.call(self.getattr(v, "__bool__"), [], {}))
        if isinstance(v, SVal):
            f = z3.Function("truthy", ValSort, z3.BoolSort())
            return ctx.branch(f(v.e))
        if isinstance(v, SStr):
            return ctx.branch(v.e != str_term(ctx, ""))
        if isinstance(v, Mock) and "__bool__" in v.attrs:
            return self.truth(v.attrs["__bool__"])
        if isinstance(v, (Mock, SClass, SFunc, Bound, Builtin, FamObj, Ext, Module, Coro, LazyGen)):
            return True
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                     "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                     "Pow": lambda: a ** b, "LShift": lambda: a << b, "RShift": lambda: a >> b,
                     "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError", "division by zero")
            except ValueError:
                self.raise_("ValueError", "shift")
            return r
        if op == "Mod" and isinstance(a, str):
            return fmt_percent(ctx, a, b)
        if is_int(a) and is_int(b):
            return self.int_op(op, a, b)
        if is_int(a) and isinstance(b, float) or isinstance(a, float) and is_int(b) or isinstance(a, SFloat) or isinstance(b, SFloat):
            return self.float_op(op, a, b)
        if op == "Add":
            if isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
                return mk_bytes(segs_of(a) + segs_of(b))
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return concat_str(ctx, [a, b])
            if isinstance(a, SByteArray) or isinstance(b, SByteArray):
                if isinstance(a, (bytes, SBytes, SByteArray)) and isinstance(b, (bytes, SBytes, SByteArray)):
                    return like(a, segs_of(a) + segs_of(b))
                self.raise_("TypeError", "unsupported operand types for +")
            if isinstance(a, (SList, SFixed)) and isinstance(b, (SList, SFixed)):
                return SList(norm_segs(a.segs + b.segs))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (bytes, SBytes, str, SStr, SList, SFixed, tuple)) or a is None \
                    or isinstance(b, (bytes, SBytes, str, SStr, SList, SFixed, tuple)) or b is None:
                self.raise_("TypeError", "unsupported operand types for +")
        if op == "Mult" and isinstance(a, (bytes, SBytes, SList, tuple)) and isinstance(b, int):
            out = ()
            for _ in range(max(b, 0)):
                out = out + segs_of(a)
            return like(a, out)
        if op in ("BitOr", "BitAnd", "Sub") and isinstance(a, SSet) and isinstance(b, SSet):
            raise Unsupported("set operators")
        if op == "BitOr" and isinstance(a, SDict) and isinstance(b, SDict):
            d = SDict(dict(a.d))
            d.d.update(b.d)
            return d
        if a is None or b is None:
            self.raise_("TypeError", "unsupported operand")
        raise Unsupported("%s of %r and %r" % (op, a, b))

    def float_op(self, op, a, b):
        """Floats as exact reals (machine rounding is not modelled)."""
        x, y = zreal(a), zreal(b)
        if op == "Div":
            if self.ctx.branch(y == 0):
                self.raise_("ZeroDivisionError", "division by zero")
            return SFloat(z3.simplify(x / y))
        if op in ("Add", "Sub", "Mult"):
            return SFloat(z3.simplify({"Add": x + y, "Sub": x - y, "Mult": x * y}[op]))
        raise Unsupported("float operator %s" % op)

    def int_op(self, op, a, b):
        ctx = self.ctx
        x, y = zi(a), zi(b)
        cy, cx = cint(y), cint(x)
        if cx is not None and cy is not None:
            return self.binop(op, cx, cy)
        if op == "Add":
            return mk_int(x + y)
        if op == "Sub":
            return mk_int(x - y)
        if op == "Mult":
            if cx is None and cy is None:
                raise Unsupported("nonlinear multiplication")
            return mk_int(x * y)
        if op in ("FloorDiv", "Mod"):
            if cy is None:
                if self.ctx.branch(y == 0):
                    self.raise_("ZeroDivisionError", "division by zero")
                raise Unsupported("division by a symbolic number")
            if cy == 0:
                self.raise_("ZeroDivisionError", "division by zero")
            if cy < 0:
                raise Unsupported("division by a negative number")
            return mk_int(x / y if op == "FloorDiv" else x % y)
        if op == "LShift":
            if cy is None:
                if cx is not None:
                    for k in range(0, 64):
                        if ctx.branch(y == k):
                            return cx << k
                raise Unsupported("shift by a symbolic amount")
            return mk_int(x * (1 << cy))
        if op == "RShift":
            if cy is None:
                raise Unsupported("shift by a symbolic amount")
            return mk_int(x / I(1 << cy))
        if op == "BitAnd":
            if cy is None and cx is None:
                raise Unsupported("& of two symbolic integers")
            if cy is None:
                x, cy = y, cx
            return mk_int(self.mask(x, cy))
        if op == "BitOr":
            if cy is None and cx is None:
                for s in (2, 4, 8, 16, 24, 32, 1, 3, 5, 6, 7):
                    for p, q in ((x, y), (y, x)):
                        if ctx.must(z3.And(p >= 0, p < (1 << s), q % (1 << s) == 0)):
                            return mk_int(p + q)
                raise Unsupported("| of two symbolic integers")
            if cy is None:
                x, cy = y, cx
            return mk_int(x + cy - self.mask(x, cy))
        if op == "BitXor":
            return mk_int(bxor(ctx, x, y))
        if op == "Pow" and cx == 2:
            raise Unsupported("power")
        if op == "Div":
            return self.float_op(op, a, b)
        raise Unsupported("integer %s" % op)

    def mask(self, x, m):
        if m < 0:
            # x & m with negative mask: clear the low bits of ~m
            return x - self.mask(x, ~m)
        e = I(0)
        b = 0
        while m >> b:
            if (m >> b) & 1:
                w = 0
                while (m >> (b + w)) & 1:
                    w += 1
                t = x / I(1 << b) if b else x
                e = e + (t % I(1 << w)) * (1 << b)
                b += w
            else:
                b += 1
        return e

    def compare(self, op, a, b):
        ctx = self.ctx
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else (mk_bool(z3.Not(r.e)) if isinstance(r, SBool) else not r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else (mk_bool(z3.Not(r.e)) if isinstance(r, SBool) else not r)
        if op in ("Eq", "NotEq"):
            if isinstance(a, Mock) and "__eq__" in a.attrs:
                r = a.attrs["__eq__"](b)
            elif isinstance(b, Mock) and "__eq__" in b.attrs:
                r = b.attrs["__eq__"](a)
            else:
                r = veq(ctx, a, b)
            return mk_bool(r if op == "Eq" else z3.Not(r))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
            return mk_bool({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        if isinstance(a, SFloat) or isinstance(b, SFloat) or (isinstance(a, float) and is_int(b)) or (is_int(a) and isinstance(b, float)):
            x, y = zreal(a), zreal(b)
            return mk_bool({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])
        if a is None or b is None or isinstance(a, (str, bytes, SBytes, SStr)) != isinstance(b, (str, bytes, SBytes, SStr)):
            self.raise_("TypeError", "not orderable")
        raise Unsupported("ordering of %r and %r" % (a, b))

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, (Poison, LastIter)) or isinstance(b, (Poison, LastIter)):
                raise Unsupported("identity of a loop temporary")
            return a is b
        if a is b and isinstance(a, (SStr, SBytes, SInt, SBool, tuple)):
            return True
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mk_bool(veq(self.ctx, a, b))
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            if isinstance(a, EnumMember) and isinstance(b, EnumMember):
                return a is b or (a.cls is b.cls and a.name == b.name)
            o, m = (a, b) if isinstance(b, EnumMember) else (b, a)
            if isinstance(o, SInt) and o.cls is m.cls:
                return mk_bool(o.e == m.value)
            return False
        if isinstance(a, FamObj) and isinstance(b, FamObj):
            return mk_bool(veq(self.ctx, a, b))
        if isinstance(a, SVal) and isinstance(b, SVal):
            return mk_bool(a.e == b.e)
        if isinstance(a, (SObj, Mock, SClass, SFunc, SList, SDict, Coro, SMap)) or isinstance(b, (SObj, Mock, SClass, SFunc, SList, SDict, Coro, SMap)):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            return False
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            if getattr(a, "cls", None) is None and getattr(b, "cls", None) is None:
                for x in (a, b):        # one of them a small int: interned
                    if self.ctx.must(z3.And(zi(x) >= -5, zi(x) <= 256)):
                        return mk_bool(veq(self.ctx, a, b))
        elif isinstance(a, (int, SInt, str, SStr, bytes)) and isinstance(b, (int, SInt, str, SStr, bytes)) and type(a) is not type(b) and \
                not (isinstance(a, (str, SStr)) and isinstance(b, (str, SStr))):
            return False
        if type(a) is not type(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    def contains(self, c, x):
        ctx = self.ctx
        if isinstance(c, SDict):
            k = dkey(x)
            if k is not None or x is None:
                return k in c.d
            if isinstance(x, (SInt, SStr, SBytes)):
                return mk_bool(z3.Or([z3.BoolVal(False)] + [veq(ctx, x, kv) for kv, _ in c.d.values()]))
            raise Unsupported("membership of %r" % (x,))
        if isinstance(c, SMap):
            if x is None:
                return False
            return mk_bool(c.has(zi(x)))
        if isinstance(c, SSet):
            return mk_bool(z3.Or([z3.BoolVal(False)] + [veq(ctx, x, y) for y in c.items]))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (str, SStr)) and isinstance(x, (str, SStr)):
            return mk_bool(z3.Function("strin", StrSort, StrSort, z3.BoolSort())(str_term(ctx, x), str_term(ctx, c)))
        if isinstance(c, (tuple, SList, SFixed, bytes, SBytes, range)):
            if isinstance(c, (bytes, SBytes, SByteArray)) and not is_int(x):
                raise Unsupported("subsequence test")
            if isinstance(c, (bytes, SBytes, SByteArray)):
                if isinstance(x, EnumMember):
                    x = x.value
                if not (0 <= x <= 255 if isinstance(x, int) else ctx.branch(z3.And(zi(x) >= 0, zi(x) <= 255))):
                    self.raise_("ValueError", "byte must be in range(0, 256)")
            fs = []
            for s in segs_of(c):
                if isinstance(s, Lit):
                    fs += [veq(ctx, x, y) for y in s.vals]
                else:
                    # membership in a symbolic sequence: a proposition with a
                    # witness when true and a universal fact when false
                    # (one proposition per element and segment: segments are values)
                    memo = ctx.shared.setdefault("member_memo", {})
                    mk = (id(s), x) if type(x) is int and not ctx.idx_stack else None
                    if mk in memo:
                        p, w, _ = memo[mk]
                    else:
                        p = ctx._fresh("member", z3.BoolSort())
                        w = ctx._fresh("wit", z3.IntSort())
                        if mk is not None:
                            memo[mk] = (p, w, s)
                    el = s.at(w)
                    ctx.axiom(z3.Implies(p, z3.And(w >= 0, w < s.n, veq(ctx, x, el))))
                    at = s.at
                    ctx.add_fact(I(0), s.n, lambda q, at=at, p=p, x=x: z3.Implies(veq(ctx, x, at(q)), p))
                    fs.append(p)
            return mk_bool(z3.Or([z3.BoolVal(False)] + fs))
        if isinstance(c, EnumClass):
            return isinstance(x, EnumMember) and x.cls is c
        if isinstance(c, Mock) and "__contains__" in c.attrs:
            return self.call(c.attrs["__contains__"], [x], {})
        if isinstance(c, SObj):
            return self.call(self.getattr(c, "__contains__"), [x], {})
        raise Unsupported("membership in %r" % (c,))

    # ------------------------------------------------------------ items
    def norm_index(self, i, n):
        """Python index -> z3 term in 0..n-1, raising IndexError otherwise."""
        i = zi(i)
        if self.ctx.branch(z3.And(i >= 0, i < n)):
            return i
        if self.ctx.branch(z3.And(i < 0, i >= -n)):
            return z3.simplify(i + n)
        self.raise_("IndexError", "index out of range")

    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, SDict):
            dk = dkey(k)
            if dk is not None or k is None:
                if dk in o.d:
                    return o.d[dk][1]
                self.raise_("KeyError", k)
            if isinstance(k, (SInt, SStr, SBytes)):
                for kv, vv in list(o.d.values()):
                    if ctx.branch(veq(ctx, k, kv)):
                        return vv
                self.raise_("KeyError", k)
            raise Unsupported("dict key %r" % (k,))
        if isinstance(o, SMap):
            if k is None:
                self.raise_("KeyError", k)
            if ctx.branch(o.has(zi(k))):
                from . import builtins_ as B
                return B.smap_value(self, o, zi(k))
            self.raise_("KeyError", k)
        if isinstance(o, (bytes, SBytes, SList, SFixed, tuple, range)) or isinstance(o, str):
            if not is_int(k):
                self.raise_("TypeError", "indices must be integers")
            if isinstance(o, (bytes, tuple, str)) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.raise_("IndexError", "index out of range")
            segs = segs_of(o)
            i = self.norm_index(k, segs_len(segs))
            return index_segs(ctx, segs, i)
        if isinstance(o, EnumClass):
            if isinstance(k, str):
                if k in o.members:
                    return o.members[k]
                self.raise_("KeyError", k)
        if isinstance(o, Mock) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [k], {})
        if isinstance(o, SObj):
            return self.call(self.getattr(o, "__getitem__"), [k], {})
        if isinstance(o, (Ext, SClass)):
            return Ext("typing")
        if o is None:
            self.raise_("TypeError", "None is not subscriptable")
        raise Unsupported("subscript of %r" % (o,))

    def getslice(self, o, lo, hi, step):
        ctx = self.ctx
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None:
                segs = segs_of(o)
                out = []
                for s in reversed(segs):
                    if isinstance(s, Lit):
                        out.append(Lit(tuple(reversed(s.vals))))
                    else:
                        out.append(Gen(s.n, lambda k, s=s: s.at(z3.simplify(s.n - 1 - k))))
                return like(o, out)
            raise Unsupported("slice step")
        if isinstance(o, (bytes, tuple, str)) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return o[lo:hi]
        segs = segs_of(o)
        n = segs_len(segs)

        def clamp(v, default):
            if v is None:
                return default
            v = zi(v)
            if ctx.branch(v < 0):
                v = z3.simplify(v + n)
                if ctx.branch(v < 0):
                    return I(0)
                return v
            if ctx.branch(v > n):
                return n
            return v
        a = clamp(lo, I(0))
        b = clamp(hi, n)
        if ctx.branch(a >= b):
            return like(o, ())
        return like(o, slice_segs(ctx, segs, a, b))

    def setslice(self, o, s, v, fr):
        """o[lo:hi] = v (v == (): del o[lo:hi])"""
        if not isinstance(o, SList) or s.step is not None:
            raise Unsupported("slice assignment")
        lo = self.eval(s.lower, fr) if s.lower else None
        hi = self.eval(s.upper, fr) if s.upper else None
        from . import builtins_ as B
        new = B.as_bytes(self, v) if isinstance(o, SByteArray) else segs_of(self.as_iterable(v))
        # what stays in front of lo and behind max(lo, hi)
        head = () if lo is None else segs_of(self.getslice(o, None, lo, None))
        if hi is None:
            tail = ()
        else:
            n = segs_len(o.segs)
            h = zi(hi)
            h = z3.If(h < 0, z3.If(h + n < 0, I(0), h + n), z3.If(h > n, n, h))
            l = segs_len(head)
            tail = segs_of(self.getslice(o, mk_int(z3.simplify(z3.If(h < l, l, h))), None, None))
        self.ctx.set(o, "segs", norm_segs(head + tuple(new) + tail))

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, SDict):
            dk = dkey(k)
            if dk is None and k is not None:
                raise Unsupported("store under a symbolic dict key")
            ctx.setitem(o.d, dk, (k, v))
            return
        if isinstance(o, SMap):
            if not isinstance(v, (FamObj, SObj)):
                raise Unsupported("store into a symbolic map")
            key = zi(k)
            store = ctx.shared.setdefault("map_stores", [])
            n = len(store)
            ctx.undo.append((lambda: store.__delitem__(slice(n, None)), None, None))
            store.append((o, key, v))
            old = o.has
            ctx.set(o, "has", lambda q, old=old, key=key: z3.Or(q == key, old(q)))
            return
        if isinstance(o, SList):
            segs = o.segs
            i = self.norm_index(k, segs_len(segs))
            c = cint(i)
            if c is None or not all(isinstance(s, Lit) for s in segs):
                raise Unsupported("item store at a symbolic position")
            vals = [x for s in segs for x in s.vals]
            if isinstance(o, SByteArray):
                from . import builtins_ as B
                v = segs_of(B.to_byte_vals(self, (Lit([v]),)))[0].vals[0]
            vals[c] = v
            ctx.set(o, "segs", norm_segs([Lit(vals)]))
            return
        if isinstance(o, Mock) and "__setitem__" in o.attrs:
            self.call(o.attrs["__setitem__"], [k, v], {})
            return
        if isinstance(o, (bytes, SBytes, tuple, str)):
            self.raise_("TypeError", "no item assignment")
        raise Unsupported("item store into %r" % (o,))

    def delitem(self, o, k):
        if isinstance(o, SDict):
            dk = dkey(k)
            if dk is None and k is not None:
                for kk, (kv, _) in list(o.d.items()):
                    if self.ctx.branch(veq(self.ctx, k, kv)):
                        self.ctx.delitem(o.d, kk)
                        return
                self.raise_("KeyError", k)
            if dk not in o.d:
                self.raise_("KeyError", k)
            self.ctx.delitem(o.d, dk)
            return
        if isinstance(o, SMap):
            from . import builtins_ as B
            B.smap_pop(self, o, [k])
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        from . import builtins_ as B
        r = B.get_attr(self, o, name)
        if r is MISSING:
            if default is not MISSING:
                return default
            self.raise_("AttributeError", name)
        return r

    def setattr(self, o, name, v):
        ctx = self.ctx
        if isinstance(o, SObj):
            p, _ = o.cls.lookup(name) if isinstance(o.cls, SClass) else (None, None)
            if isinstance(p, Property):
                raise Unsupported("property setter")
            ctx.setitem(o.attrs, name, v)
            return
        if isinstance(o, FamObj):
            fam = o.fam
            if name not in fam.fields:
                raise Unsupported("new attribute %s on a family object" % name)
            old = fam.fields[name]
            key = o.key
            ctx.setitem(fam.fields, name, FamUpd(old, key, v))
            return
        if isinstance(o, Mock):
            if "__setattr__" in o.attrs:
                o.attrs["__setattr__"](name, v)
                return
            ctx.setitem(o.attrs, name, v)
            return
        if isinstance(o, Module):
            ctx.setitem(o.ns, name, v)
            return
        if isinstance(o, SClass):
            ctx.setitem(o.ns, name, v)
            return
        if o is None:
            self.raise_("AttributeError", name)
        raise Unsupported("attribute store on %r" % (o,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        ctx = self.ctx
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, SFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, SClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, (StaticMethod, ClassMethod)):
            return self.call(f.f, args, kw)
        if isinstance(f, Ext):
            v = self.w.ext.get(f.path)
            if isinstance(v, (Builtin, SClass)):
                return self.call(v, args, kw)
            raise Unsupported("call of library function %s" % f.path)
        if isinstance(f, Mock):
            if "__call__" in f.attrs:
                return self.call(f.attrs["__call__"], args, kw)
            raise Unsupported("call of %r" % f)
        if isinstance(f, SObj):
            return self.call(self.getattr(f, "__call__"), args, kw)
        if f is None or isinstance(f, (int, str, bytes, SInt, SBool)):
            self.raise_("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", "too many arguments for %s" % f.qual)
            vars_[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vars_[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars_[n] = v
        rest = pos[len(args):]
        nd = len(pos) - len(f.defaults)
        for n in rest:
            if n in kw:
                vars_[n] = kw.pop(n)
            else:
                i = pos.index(n)
                if i >= nd:
                    vars_[n] = f.defaults[i - nd]
                else:
                    self.raise_("TypeError", "missing argument %s of %s" % (n, f.qual))
        for x, (has, d) in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif has:
                vars_[x.arg] = d
            else:
                self.raise_("TypeError", "missing keyword argument")
        if a.kwarg is not None:
            d = SDict({})
            for k, v in kw.items():
                d.d[k] = (k, v)
            vars_[a.kwarg.arg] = d
        elif kw:
            self.raise_("TypeError", "unexpected keyword argument %s of %s" % (sorted(kw), f.qual))
        return vars_

    def call_func(self, f, args, kw):
        ctx = self.ctx
        c = ctx.contracts.get(f.qual)
        if c is not None and c is not getattr(ctx, "verifying", None):
            r = c(self, args, kw)
            if r is not NotImplemented:
                return r
        vars_ = self.bind(f, args, kw)
        if isinstance(f.node, ast.AsyncFunctionDef):
            return Coro(f.qual, lambda: self.run_body(f, vars_))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
            raise Unsupported("generator function %s" % f.qual)
        return self.run_body(f, vars_)

    def run_body(self, f, vars_):
        self.ctx.functions.add(f.qual)
        if self.call_depth > 60:
            raise Unsupported("call depth (recursion?) in %s" % f.qual)
        cell = Cell(f.scope, vars_, local_names(f.node))
        fr = Frame(f, f.mod, cell)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        self.call_depth += 1
        d = self.call_depth
        try:
            self.block(f.node.body, fr)
        except ReturnExc as r:
            return r.value
        finally:
            self.call_depth = d - 1
        return None

    def await_(self, v):
        if isinstance(v, Coro):
            if v.used:
                self.raise_("RuntimeError", "coroutine awaited twice")
            self.ctx.set(v, "used", True)
            if v.event is not None:
                self.ctx.emit(v.event)
            return v.run()
        if isinstance(v, Mock) and "__await__" in v.attrs:
            return v.attrs["__await__"](self)
        if isinstance(v, FamObj) and "__await__" in v.fam.fields:
            return v.fam.fields["__await__"](self, v.key)
        if v is None or isinstance(v, (int, str, bytes, SInt, SBool, SDict, SList, tuple)):
            self.raise_("TypeError", "object can't be used in await")
        raise Unsupported("await of %r" % (v,))

    def instantiate(self, cls, args, kw):
        ctx = self.ctx
        if isinstance(cls, EnumClass):
            return self.enum_call(cls, args, kw)
        new, owner = cls.lookup("__new__")
        if new is not None:
            raise Unsupported("__new__")
        o = SObj(cls)
        init, owner = cls.lookup("__init__")
        is_exc = EXC["BaseException"] in cls.mro()
        if is_exc:
            o.attrs["args"] = tuple(args)
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif is_exc:
            pass
        else:
            for c in cls.mro():
                if isinstance(c, Ext):
                    h = self.w.ext.get(c.path + ".__init__")
                    if isinstance(h, Builtin):
                        h.fn(self, [o] + list(args), dict(kw))
                        return o
                    if c.path in self.w.plain_bases:
                        continue
                    raise Unsupported("construction of a subclass of %s" % c.path)
            if args or kw:
                self.raise_("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def enum_call(self, cls, args, kw):
        ctx = self.ctx
        if len(args) != 1:
            raise Unsupported("enum call")
        v = args[0]
        if isinstance(v, EnumMember):
            if v.cls is cls:
                return v
            v = v.value
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            m = cls.by_value(v)
            if m is None:
                if cls.open and 0 <= v < 65536:
                    return EnumMember(cls, "undefined_0x%04x" % v, v)
                self.raise_("ValueError", "%r is not a valid %s" % (v, cls.name))
            return m
        if isinstance(v, SInt):
            if v.cls is cls:
                return v
            if cls.open:
                return SInt(v.e, cls)
            ok = z3.Or([v.e == m.value for m in cls.members.values()])
            if ctx.branch(ok):
                return SInt(v.e, cls)
            self.raise_("ValueError", "not a valid %s" % cls.name)
        if isinstance(v, (str, bytes, SBytes, SStr, SVal, SList, SFixed, SDict, tuple)) or v is None:
            self.raise_("ValueError", "not a valid %s" % cls.name)
        raise Unsupported("enum %s of %r" % (cls.name, v))

    # ------------------------------------------------------------ iteration
    def as_iterable(self, v):
        """A value whose segs_of() gives its iteration elements."""
        if isinstance(v, (SBytes, SList, SFixed, bytes, tuple, str, range)):
            return v
        if isinstance(v, SDict):
            return tuple(kv for kv, _ in v.d.values())
        if isinstance(v, SSet):
            return tuple(v.items)
        if isinstance(v, LazyGen):
            return tuple(v.it)
        if isinstance(v, EnumClass):
            return tuple(v.members.values())
        if isinstance(v, SMap):
            n, key = v.n, v.keyf
            m = v
            if m.has is not m.has_init:
                raise Unsupported("iteration over a modified map")

            def at(k):
                e = key(k)
                self.ctx.axiom(z3.Implies(z3.And(k >= 0, k < n), m.idxf(e) == k))
                self.ctx.axiom(z3.Implies(z3.And(k >= 0, k < n), m.has_init(e)))
                self.ctx.axiom(e >= 0)
                return SInt(e)
            g = SList((Gen(n, at),))
            g.of_map = m
            return g
        if isinstance(v, Mock) and "__iter__" in v.attrs:
            return self.as_iterable(v.attrs["__iter__"](self))
        if is_int(v) or v is None or isinstance(v, (float,)):
            self.raise_("TypeError", "not iterable")
        if isinstance(v, SObj) and isinstance(v.cls, SClass) and v.cls.lookup("__iter__")[0] is not None:
            return self.as_iterable(self.call(self.getattr(v, "__iter__"), [], {}))
        raise Unsupported("iteration over %r" % (v,))

    def concrete_iter(self, v):
        """List of the elements of a value of known length."""
        if isinstance(v, LazyGen):
            return list(v.it)
        v = self.as_iterable(v)
        segs = norm_segs(segs_of(v))
        out = []
        for s in segs:
            if not isinstance(s, Lit):
                raise Unsupported("iteration over a sequence of unknown length here")
            out += s.vals
        return out


class SuperObj:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def fmt_percent(ctx, f, b):
    """"..." % b where only %s / %d of strings and integers occur; otherwise some string."""
    import re
    args = list(b) if isinstance(b, tuple) else [b]
    parts = re.split(r"(%[sd])", f)
    if any("%" in x for x in parts[::2]) or len(parts) // 2 != len(args):
        return ctx.str("fmt")
    out = []
    for i, x in enumerate(parts):
        if i % 2 == 0:
            out.append(x)
            continue
        v = args[i // 2]
        if isinstance(v, str) and x == "%s" or isinstance(v, SStr):
            out.append(v)
        elif type(v) is int:
            out.append(str(v))
        else:
            return ctx.str("fmt")
    return concat_str(ctx, out)


class FamUpd:
    """Pointwise update of a family field."""
    def __init__(self, old, key, val):
        self.old, self.key, self.val = old, key, val


def own_nodes(fn):
    """AST nodes of a function excluding nested functions."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                stack.append(c)
