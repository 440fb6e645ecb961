"""Symbolic executor / VC generator over the extracted AST.

Functions without a contract are inlined; functions with a contract are replaced by it at call sites.  Loops are
handled by inductive invariants inferred Houdini-style from candidate sets (loops.py).  Every proof obligation is
recorded as an Obl and discharged by vc.Solver.
"""
import z3
from val import *
import vc as _vc
import arith

UMAX = 2 ** 64 - 1
DYN = z3.Function("dynamic_type", I, I)   # class of a heap object (a pointer value is never reused)


class State:
    __slots__ = ("vars", "heap", "pc", "ghost")

    def __init__(self):
        self.vars, self.heap, self.pc, self.ghost = {}, {}, (), {}

    def copy(self):
        s = State()
        s.vars, s.heap, s.pc, s.ghost = dict(self.vars), dict(self.heap), self.pc, dict(self.ghost)
        return s

    def assume(self, *cs):
        s = self.copy()
        s.pc = s.pc + tuple(c for c in cs if not z3.is_true(c))
        return s


class Obl:
    __slots__ = ("name", "loc", "hyps", "goal", "kind", "status", "backend", "model", "time", "fn")

    def __init__(self, name, loc, hyps, goal, kind, fn=None):
        self.name, self.loc, self.hyps, self.goal, self.kind, self.fn = name, loc, hyps, goal, kind, fn
        self.status = self.backend = self.model = None
        self.time = 0


class Frame:
    __slots__ = ("id", "fn", "this", "depth", "caps", "loops")

    def __init__(self, fn, this, depth, caps=None):
        self.id, self.fn, self.this, self.depth, self.caps = fresh_id(), fn, this, depth, caps
        self.loops = []


class Thrown:
    __slots__ = ("what", "loc", "ty", "assertion")

    def __init__(self, what, loc, ty=None, assertion=False):
        self.what, self.loc, self.ty, self.assertion = what, loc, ty, assertion

    def __repr__(self):
        return "Thrown(%s@%s)" % (self.what, self.loc)


def consts_of(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def nt(c):
    return z3.Not(c)


class Exec:
    def __init__(self, prog, sorts, solver, contracts=None, opts=None):
        self.prog, self.sorts, self.solver = prog, sorts, solver
        self.contracts = contracts or {}  # qn -> Contract (or callable(fn)->Contract)
        self.opts = dict(bounds=True, nowrap=False, maxdepth=40, merge=True, loop_infer=None, cands=None, divzero=True, asserts=True, prune=True, defined=None)
        self.opts.update(opts or {})
        self.obls = []
        self.sink = [[]]
        self.models = {}
        self.ptrs = {}
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.mode = "check"  # check | dry | infer
        self.current_target = None
        self.loop_stack = []
        self.trace_cache = {}
        self.notes = set()
        self.entry = None
        self.card_axioms_done = set()
        self.paths_limit = 4000
        self.loop_log = []
        self.defs = {}
        self.branch_ids = {}
        self.head_exits = None
        import stl
        stl.install(self)
        import loops
        self.loops = loops

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, loc, kind="safety"):
        if self.mode == "dry":
            return st.assume(goal)
        if z3.is_true(z3.simplify(goal)):
            return st
        self.obls.append(Obl(name, loc, st.pc, goal, kind, self.current_target))
        return st.assume(goal)

    def throw(self, st, what, loc, ty=None, assertion=False):
        self.sink[-1].append((st, Thrown(what, loc, ty, assertion)))

    def feas(self, st):
        if not self.opts["prune"]:
            return True
        return self.solver.feasible(list(st.pc))

    def branch(self, st, c):
        """split on a z3 Bool; returns (then-state or None, else-state or None)"""
        c = z3.simplify(c) if not _vc.has_quant(c) else c
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        nc = z3.Not(c)
        self.branch_ids[c.get_id()] = c
        self.branch_ids[nc.get_id()] = nc
        a, b = st.assume(c), st.assume(nc)
        if not self.feas(a):
            return None, b
        if not self.feas(b):
            return a, None
        return a, b

    # ---------------------------------------------------------------- memory
    def heap_get(self, st, cls, name, ty):
        k = (cls, name)
        if k not in st.heap:
            # the initial heap for a field must be one and the same in every state
            if k not in self.trace_cache:
                v = self.trace_cache[k] = self.sorts.fresh(ty, "H.%s.%s" % (cls.split("::")[-1], name), (I,))
                # every C++ value of the type satisfies its representation facts (unsigned, lengths)
                import contract
                import vc as _vc
                for f in contract.wf(self.sorts, ty, v, dims=(I,)):
                    for _, a in tleaves(v):
                        if isz(a) and _vc.occurs(a, f):
                            h = _vc.HANDLERS.get(a.decl().name())
                            fs = [f] + (h[2] if h is not None else [])
                            _vc.HANDLERS[a.decl().name()] = ("const", (lambda fs: lambda _: fs)(fs), fs)
            st.heap[k] = self.trace_cache[k]
        return st.heap[k]

    def field_ty(self, cls, name):
        for (n, t, d, i) in cls.fields():
            if n == name:
                return t, d.name
        raise Unsupported("field %s of %s" % (name, cls.name))

    def find_rec(self, name):
        for r in self.prog.recs:
            if r.name == name and "fields" in r.j:
                return r
        raise Unsupported("record " + name)

    def set_key_ty(self, st, ref):
        v = self.read(st, ref)
        return v.ty.rec().targ(0)

    def alias(self, st, ref):
        """follow reference variables"""
        while ref.root[0] in ("v",) :
            v = st.vars.get(ref.root)
            if isinstance(v, RefAlias):
                ref = Ref(v.ref.root, v.ref.acc + ref.acc)
            else:
                break
        return ref

    def read(self, st, ref):
        ref = self.alias(st, ref)
        root = ref.root
        acc = ref.acc
        if root[0] == "h":
            p = root[1]
            if not acc:
                return self.read_heap_obj(st, root)
            a = acc[0]
            if a[0] != "f":
                if a[0] == "i":
                    return self.read(st, Ref(("h", self.ptr_add(p, a[1], root[2]), root[2]), acc[1:]))
                raise Unsupported("heap access %r" % (a,))
            fcls = a[2]
            ty, decl = self.field_ty(fcls, a[1])
            v = tselect_(self.heap_get(st, decl, a[1], ty), p)
            acc = acc[1:]
        else:
            if root not in st.vars:
                raise Unsupported("read of uninitialised root %r" % (root,))
            v = st.vars[root]
        for n, a in enumerate(acc):
            if isinstance(v, Ref) and a[0] != "o":
                raise Unsupported("path through ref")
            v = self.acc_get(st, v, a)
        if isinstance(v, Opaque):
            raise Unsupported("opaque field " + v.n)
        return v

    def read_heap_obj(self, st, root):
        cls = root[2]
        if cls is None:
            raise Unsupported("read of whole heap object of unknown class")
        s = self.sorts_scalar_ptr(root)
        d = {}
        for (n, t, decl, i) in cls.fields():
            try:
                d[n] = tselect_(self.heap_get(st, decl.name, n, t), root[1])
            except Unsupported:
                d[n] = Opaque(n)
        return Tree("rec", None, d)

    def sorts_scalar_ptr(self, root):
        return None

    def ptr_add(self, p, off, cls=None):
        if z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0:
            return p
        f = z3.Function("elemaddr", I, I, I)
        return f(p, off)

    def acc_get(self, st, v, a):
        k = a[0]
        if k == "f":
            if isinstance(v, Tree) and a[1] in v.f:
                return v.f[a[1]]
            raise Unsupported("field %s of %r" % (a[1], v))
        if k == "i":
            return tselect_(v["el"], a[1])
        if k == "k":
            return tselect_(v["val"], a[1])
        if k == "kv":
            return Tree("rec", None, {"first": a[2], "second": tselect_(v["val"], a[1])})
        if k == "o":
            return v["val"]
        raise Unsupported("accessor %r" % (a,))

    def write(self, st, ref, val):
        """returns a new state"""
        ref = self.alias(st, ref)
        st = st.copy()
        self.write_(st, ref, val)
        return st

    def write_(self, st, ref, val):
        root, acc = ref.root, ref.acc
        if isinstance(val, StrV) and not (root[0] == "v" or root[0] == "t"):
            val = self.strterm(val)
        if root[0] == "h":
            p = root[1]
            if not acc:
                cls = root[2]
                if not isinstance(val, Tree):
                    raise Unsupported("heap object write")
                for (n, t, decl, i) in cls.fields():
                    if isinstance(val.f.get(n), Opaque):
                        continue
                    h = self.heap_get(st, decl.name, n, t)
                    st.heap[(decl.name, n)] = tstore_(h, p, self.conv(val.f[n]))
                return
            a = acc[0]
            if a[0] == "i":
                return self.write_(st, Ref(("h", self.ptr_add(p, a[1], root[2]), root[2]), acc[1:]), val)
            ty, decl = self.field_ty(a[2], a[1])
            h = self.heap_get(st, decl, a[1], ty)
            if len(acc) > 1:
                val = self.acc_set(st, tselect_(h, p), acc[1:], val)
            st.heap[(decl, a[1])] = tstore_(h, p, self.conv(val))
            return
        if not acc:
            st.vars[root] = val
            return
        if root not in st.vars:
            raise Unsupported("write to part of uninitialised root")
        st.vars[root] = self.acc_set(st, st.vars[root], acc, val)

    def conv(self, v):
        if isinstance(v, StrV):
            return self.strterm(v)
        if isinstance(v, Tree):
            return Tree(v.kind, v.ty, {k: self.conv(x) for k, x in v.f.items()})
        if isinstance(v, Ref):
            return self.ref2int(v)
        return v

    def ref2int(self, r):
        if r.root[0] == "h" and not r.acc:
            return r.root[1]
        if r.root[0] == "h" and all(a[0] in ("f", "i") for a in r.acc):
            # address of an object embedded in a heap object
            ks = [r.root[1]] + [a[1] for a in r.acc if a[0] == "i"]
            nm = "addr_" + "_".join(str(a[1]) if a[0] == "f" else "i" for a in r.acc)
            return z3.Function(nm, *([I] * (len(ks) + 1)))(*ks)
        if r.root[0] in ("v", "t") and not any(a[0] not in ("f", "i") for a in r.acc):
            # pointer into an object with automatic storage or an argument: a named address plus an element index
            base, off = (r.acc[:-1], r.acc[-1][1]) if r.acc and r.acc[-1][0] == "i" else (r.acc, z3.IntVal(0))
            key = (r.root, tuple((a[0], a[1] if a[0] == "f" else str(a[1])) for a in base))
            if key not in self.ptrs:
                self.ptrs[key] = (fconst("ptr", I), Ref(r.root, base))
            return self.ptrs[key][0] + off
        raise Unsupported("pointer to local stored in container/heap")

    def int2ref(self, t):
        """the element a stored pointer value refers to, when it is syntactically one of the named addresses"""
        t = z3.simplify(t)
        for (k, base) in self.ptrs.values():
            d = z3.simplify(t - k)
            if not any(c.eq(k) for c in consts_of(d)) and not any(c.eq(k2) for c in consts_of(d) for (k2, _) in self.ptrs.values()):
                return base.i(d)
        return None

    _strc = {}

    def strterm(self, v):
        if isz(v):
            return v
        l = v.lit()
        if l is not None:
            if l not in Exec._strc:
                Exec._strc[l] = z3.Const("str:" + l, Str)
            return Exec._strc[l]
        return fconst("strcat", Str)

    def acc_set(self, st, v, acc, val):
        if not acc:
            return val
        a, rest = acc[0], acc[1:]
        k = a[0]
        if k == "f":
            if not isinstance(v, Tree) or a[1] not in v.f:
                raise Unsupported("write field %s of %r" % (a[1], v))
            return v.withk(a[1], self.acc_set(st, v.f[a[1]], rest, val))
        if k == "i":
            new = val if not rest else self.acc_set(st, tselect_(v["el"], a[1]), rest, val)
            return v.withk("el", tstore_(v["el"], a[1], self.conv(new)))
        if k == "k":
            new = val if not rest else self.acc_set(st, tselect_(v["val"], a[1]), rest, val)
            return v.withk("val", tstore_(v["val"], a[1], self.conv(new)))
        if k == "kv":
            if rest and rest[0][1] == "second":
                return self.acc_set(st, v, (("k", a[1]),) + rest[1:], val)
            raise Unsupported("write to map key")
        if k == "o":
            return v.withk("val", self.acc_set(st, v["val"], rest, val))
        raise Unsupported("accessor")

    def temp(self, st, val):
        r = ("t", fresh_id())
        st = st.copy()
        st.vars[r] = val
        return st, Ref(r)

    def deref(self, v, ty=None):
        if isinstance(v, Ref):
            return v
        if isz(v):
            return Ref(("h", v, ty.rec() if ty is not None and ty.k == "rec" else None))
        raise Unsupported("deref of %r" % (v,))

    def addr(self, ref):
        if ref.root[0] == "h" and not ref.acc:
            return ref.root[1]
        return ref

    # ---------------------------------------------------------------- expressions
    def bind(self, lst, fn):
        out = []
        for st, v in lst:
            out += fn(st, v)
        return out

    def ev(self, st, fr, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression kind %s (%s)" % (e["k"], e.get("cls")))
        return m(st, fr, e)

    def evs(self, st, fr, es):
        """evaluate a list of expressions left to right -> [(st, [vals])]"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, fr, e):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ty(self, e):
        return self.prog.ty(e["t"])

    def e_int(self, st, fr, e):
        if isinstance(e["v"], str):
            return [(st, z3.IntVal(int(e["v"])))]
        return [(st, z3.IntVal(e["v"]))]

    def e_bool(self, st, fr, e):
        return [(st, z3.BoolVal(e["v"]))]

    def e_float(self, st, fr, e):
        return [(st, z3.RealVal(e["v"]))]

    def e_str(self, st, fr, e):
        return [(st, StrV((e["v"],)))]

    def e_nullptr(self, st, fr, e):
        return [(st, z3.IntVal(0))]

    def e_zero(self, st, fr, e):
        return [(st, self.sorts.default(self.ty(e)))]

    def e_this(self, st, fr, e):
        return [(st, self.addr(fr.this))]

    def e_fnref(self, st, fr, e):
        return [(st, FnV(self.prog.fns[e["fn"]]))]

    def vroot(self, fr, id):
        if fr.caps and id in fr.caps:
            return fr.caps[id]
        return ("v", fr.id, id)

    def e_var(self, st, fr, e):
        r = self.vroot(fr, e["id"])
        if isinstance(r, Ref):
            return [(st, r)]
        return [(st, self.alias(st, Ref(r)))]

    def e_glob(self, st, fr, e):
        g = self.prog.globs[e["g"]]
        root = ("g", e["g"])
        if root not in st.vars:
            st = st.copy()
            if root not in self.trace_cache:
                ty = self.prog.ty(g["t"])
                v = None
                if "init" in g and g["const"]:
                    try:
                        r = self.ev(State(), Frame(None, None, 0), g["init"])
                        if len(r) == 1:
                            v = r[0][1]
                    except Unsupported:
                        v = None
                if v is None and g["name"].endswith("::npos"):
                    v = z3.IntVal(2 ** 64 - 1)
                if v is None:
                    try:
                        v = self.sorts.fresh(ty, "G." + g["name"])
                    except Unsupported:
                        v = Opaque(g["name"])
                self.trace_cache[root] = v
            st.vars[root] = self.trace_cache[root]
        return [(st, Ref(root))]

    def e_rv(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            if isinstance(v, Ref):
                out.append((s, self.read(s, v)))
            else:
                out.append((s, v))
        return out

    def e_temp(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            if isinstance(v, Ref) and not self.ty(e).is_ptr:
                out.append((s, v))
            else:
                s, r = self.temp(s, v)
                out.append((s, r))
        return out

    def as_lv(self, st, v, ty):
        """value or Ref -> Ref (class rvalues get a temporary)"""
        if isinstance(v, Ref):
            return st, v
        return self.temp(st, v)

    def e_mem(self, st, fr, e):
        out = []
        cls = self.prog.recs[e["cls"]]
        for s, v in self.ev(st, fr, e["o"]):
            if e["ar"]:
                ot = self.ty(e["o"])
                if isz(v):
                    b = Ref(("h", v, cls))
                    self.null_check(s, v, e)
                else:
                    if isinstance(v, Ref) and v.acc and v.acc[-1] == ("o",) and self.opts["bounds"]:
                        s = self.oblige(s, self.notnull(s, v), "dereference of non-null unique_ptr", self.locs(e.get("l")), "bounds")
                    b = v
            else:
                s, b = self.as_lv(s, v, None)
            if isinstance(b, Iter):
                b = self.iter_ref(b)
            b = self.alias(s, b)
            r = b.f(e["n"], cls) if not (b.acc and b.acc[-1][0] == "kv" and e["n"] == "second") else Ref(b.root, b.acc[:-1] + (("k", b.acc[-1][1]),))
            # reference members are aliases
            mt = self.field_decl_ty(cls, e["n"])
            if mt is not None and mt.k == "ref":
                x = self.read(s, r)
                if isz(x):
                    x = Ref(("h", x, mt.to().rec() if mt.to().k == "rec" else None))
                r = x
            out.append((s, r))
        return out

    def null_check(self, st, p, e):
        pass

    def field_decl_ty(self, cls, n):
        for f in cls.j.get("fields", []):
            if f["n"] == n:
                return self.prog.ty(f["t"])
        return None

    def e_cast(self, st, fr, e):
        ck, t = e["ck"], self.ty(e)
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            out += self.cast(s, fr, v, ck, t, e)
        return out

    def cast(self, s, fr, v, ck, t, e):
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "FunctionToPointerDecay", "LValueBitCast", "ToVoid", "BuiltinFnToFnPtr"):
            if isz(v) and t.k == "float" and v.sort() == I:
                v = z3.ToReal(v)
            return [(s, v)]
        if ck == "LValueToRValue":
            return [(s, self.read(s, v) if isinstance(v, Ref) else v)]
        if ck == "Dynamic":
            if isz(v):
                f = z3.Function("isa_" + t.to().s.replace(" ", ""), I, B)
                return [(s, z3.If(f(v), v, z3.IntVal(0)))]
            return [(s, v)]
        if ck == "IntegralCast":
            if isinstance(v, (Ref, FnV)):
                return [(s, v)]
            v = coerce(v, I)
            if t.k == "int" and t.j["u"]:
                sv = z3.simplify(v)
                if z3.is_int_value(sv) and sv.as_long() < 0:
                    return [(s, z3.IntVal(sv.as_long() + 2 ** t.j["w"]))]
            return [(s, v)]
        if ck in ("IntegralToBoolean",):
            return [(s, coerce(v, B))]
        if ck == "PointerToBoolean":
            return [(s, self.ptr_nonnull(v))]
        if ck == "FloatingToBoolean":
            return [(s, v != 0)]
        if ck == "IntegralToFloating":
            return [(s, z3.ToReal(coerce(v, I)))]
        if ck == "FloatingToIntegral":
            f = z3.ToInt(v)
            return [(s, z3.If(v >= 0, f, -z3.ToInt(-v)))]
        if ck == "FloatingCast":
            return [(s, v)]
        if ck in ("NullToPointer", "IntegralToPointer"):
            return [(s, v if isz(v) else z3.IntVal(0))]
        if ck == "ArrayToPointerDecay":
            if isinstance(v, StrV):
                return [(s, v)]
            return [(s, v.i(z3.IntVal(0)))]
        if ck == "ConstructorConversion":
            return [(s, v)]
        raise Unsupported("cast " + ck)

    def ptr_nonnull(self, v):
        if isinstance(v, (Ref, FnV, StrV)):
            return z3.BoolVal(True)
        return v != 0

    def notnull(self, st, v):
        """whether a pointer value represented by a reference is non-null (unique_ptr::get() may be null)"""
        if v.acc and v.acc[-1] == ("o",):
            return self.read(st, Ref(v.root, v.acc[:-1]))["has"]
        return z3.BoolVal(True)

    def tobool(self, v, st=None):
        if isinstance(v, Ref) and st is not None:
            return self.notnull(st, v)
        if isz(v):
            if v.sort() == B:
                return v
            return v != 0
        if isinstance(v, (Ref, FnV)):
            return z3.BoolVal(True)
        raise Unsupported("bool of %r" % (v,))

    def e_cond(self, st, fr, e):
        out = []
        for s, c in self.ev(st, fr, e["c"]):
            c = self.tobool(c, s)
            a, b = self.branch(s, c)
            ra = self.ev(a, fr, e["a"]) if a is not None else []
            rb = self.ev(b, fr, e["b"]) if b is not None else []
            if len(ra) == 1 and len(rb) == 1 and self.opts["merge"]:
                m = self.merge_vals(a, b, ra[0], rb[0], s, c)
                if m:
                    out.append(m)
                    continue
            out += ra + rb
        return out

    def merge_vals(self, a, b, ra, rb, base, c):
        """merge two (state, value) pairs forked from base on c when both are simple"""
        try:
            va = ra[1]
            vb = rb[1]
            v = vmerge(c, va, vb)
            s = self.merge2(ra[0], rb[0])
            if s is None:
                return None
            return (s, v)
        except Unsupported:
            return None

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        if not ra:
            ca = z3.BoolVal(True)
        else:
            ca = ra[0]
        simple = bool(ra) and bool(rb) and (z3.eq(z3.Not(ra[0]), rb[0]) or z3.eq(ra[0], z3.Not(rb[0])))
        if not simple:
            ca = z3.And(list(ra)) if len(ra) != 1 else ra[0]
        s = State()
        s.pc = a.pc[:n]
        if simple:
            x = z3.And(list(ra[1:])) if ra[1:] else None
            y = z3.And(list(rb[1:])) if rb[1:] else None
            if x is not None or y is not None:
                s.pc += (z3.If(ca, x if x is not None else z3.BoolVal(True), y if y is not None else z3.BoolVal(True)),)
        else:
            if not ra or not rb:
                return None
            s.pc += (z3.Or(ca, z3.And(list(rb))),)
        try:
            for k in a.vars:
                if k in b.vars:
                    va, vb = a.vars[k], b.vars[k]
                    s.vars[k] = va if va is vb else vmerge(ca, va, vb)
                elif k[0] == "g":
                    s.vars[k] = a.vars[k]
            for k in b.vars:
                if k not in a.vars and k[0] == "g":
                    s.vars[k] = b.vars[k]
            for k in set(a.heap) | set(b.heap):
                va = a.heap.get(k, self.trace_cache.get(k))
                vb = b.heap.get(k, self.trace_cache.get(k))
                s.heap[k] = va if va is vb else vmerge(ca, va, vb)
            for k in a.ghost:
                if k in b.ghost:
                    va, vb = a.ghost[k], b.ghost[k]
                    s.ghost[k] = va if va is vb else vmerge(ca, va, vb)
        except Unsupported:
            return None
        return s

    def merge_list(self, sts):
        if not self.opts["merge"]:
            return sts
        out = []
        for s in sts:
            done = False
            for n in range(len(out)):
                m = self.merge2(out[n], s)
                if m is not None:
                    out[n] = m
                    done = True
                    break
            if not done:
                out.append(s)
        return out

    # arithmetic ------------------------------------------------------------
    def e_bin(self, st, fr, e):
        op = e["op"]
        if op in ("&&", "||"):
            return self.shortcircuit(st, fr, e, op)
        if op == ",":
            return self.bind(self.ev(st, fr, e["a"]), lambda s, v: self.ev(s, fr, e["b"]))
        out = []
        for s, (a, b) in self.evs(st, fr, [e["a"], e["b"]]):
            s, v = self.binop(s, op, a, b, self.ty(e), self.ty(e["a"]), self.ty(e["b"]), e.get("l"))
            out.append((s, v))
        return out

    def shortcircuit(self, st, fr, e, op):
        out = []
        for s, a in self.ev(st, fr, e["a"]):
            a = self.tobool(a, s)
            t, f = self.branch(s, a)
            if op == "&&":
                go, stop, sv = t, f, z3.BoolVal(False)
            else:
                go, stop, sv = f, t, z3.BoolVal(True)
            if go is None:
                out.append((stop, sv))
                continue
            n_obl = len(self.obls)
            rb = self.ev(go, fr, e["b"])
            if stop is None:
                out += [(x, self.tobool(v, x)) for x, v in rb]
                continue
            if len(rb) == 1:
                s2, b = rb[0]
                b = self.tobool(b, s2)
                # no state change -> no fork needed.  facts assumed while evaluating b hold under the guard
                if self.same_store(s2, go):
                    extra = s2.pc[len(go.pc):]
                    s3 = s
                    g = a if op == "&&" else z3.Not(a)
                    if extra:
                        s3 = s.assume(z3.Implies(g, z3.And(list(extra))))
                    s3 = self.keep_globals(s3, s2)
                    out.append((s3, z3.And(a, b) if op == "&&" else z3.Or(a, b)))
                    continue
                m = self.merge_vals(go, stop, (s2, b), (stop, sv), s, a if op == "&&" else z3.Not(a))
                if m:
                    out.append(m)
                    continue
            out += [(x, self.tobool(v, x)) for x, v in rb]
            out.append((stop, sv))
        return out

    def keep_globals(self, s, s2):
        add = {k: v for k, v in s2.vars.items() if k not in s.vars}
        if add:
            s = s.copy()
            s.vars.update(add)
        return s

    def same_store(self, a, b):
        for k, v in a.vars.items():
            if k in b.vars:
                if b.vars[k] is not v:
                    return False
            elif k[0] not in ("g", "t", "v"):
                return False
        for k, v in a.heap.items():
            if b.heap.get(k, self.trace_cache.get(k)) is not v:
                return False
        return a.ghost == b.ghost if not a.ghost else all(b.ghost.get(k) is v for k, v in a.ghost.items())

    def nowrap(self, st, v, ty, loc, what):
        if self.opts["nowrap"] and ty.k == "int" and ty.j["u"] and isz(v) and v.sort() == I and not z3.is_int_value(v):
            if self.is_sub(v):
                st = self.oblige(st, v >= 0, "no unsigned wrap-around (%s)" % what, loc, "nowrap")
        return st

    def is_sub(self, v):
        d = v.decl().kind() if z3.is_app(v) else None
        return d in (z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_ITE)

    def binop(self, s, op, a, b, t, ta, tb, loc):
        if isinstance(a, Iter) or isinstance(b, Iter):
            raise Unsupported("iterator arithmetic")
        if isinstance(a, FnV) or isinstance(b, FnV):
            if op in ("==", "!="):
                r = (isinstance(a, FnV) and isinstance(b, FnV) and a.fn is b.fn)
                return s, z3.BoolVal(r if op == "==" else not r)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if op == "-":
                    return s, a.acc[-1][1] - b.acc[-1][1]
                if op in ("==", "!="):
                    r = teq(a, b)
                    return s, (r if op == "==" else z3.Not(r))
                if op in ("<", ">", "<=", ">=") and a.acc and b.acc and a.acc[-1][0] == "i":
                    return self.binop(s, op, a.acc[-1][1], b.acc[-1][1], t, ta, tb, loc)
            if op in ("==", "!="):
                n = self.notnull(s, a if isinstance(a, Ref) else b)
                o = b if isinstance(a, Ref) else a
                if not (isz(o) and z3.is_int_value(z3.simplify(o)) and z3.simplify(o).as_long() == 0) and not z3.is_true(n):
                    raise Unsupported("comparison of pointers of different origin")
                return s, (n if op == "!=" else z3.Not(n))
            if op in ("+", "-") and isinstance(a, Ref) and isz(b):
                if a.acc and a.acc[-1][0] == "i":
                    k = a.acc[-1][1]
                    return s, Ref(a.root, a.acc[:-1] + (("i", z3.simplify(k + b if op == "+" else k - b)),))
                if z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() == 0:
                    return s, a
            if op == "+" and isinstance(b, Ref) and isz(a):
                return self.binop(s, op, b, a, t, tb, ta, loc)
            raise Unsupported("pointer op " + op)
        if isinstance(a, StrV) or isinstance(b, StrV):
            raise Unsupported("string pointer op")
        if ta.is_ptr and tb.k == "int" and op in ("+", "-"):
            return s, self.ptr_add(a, b if op == "+" else -b)
        if isz(a) and isz(b) and a.sort() != b.sort():
            if R in (a.sort(), b.sort()):
                a, b = coerce(a, R), coerce(b, R)
            elif op in ("==", "!=") and B in (a.sort(), b.sort()):
                a, b = coerce(a, B), coerce(b, B)
            else:
                a, b = coerce(a, I), coerce(b, I)
        if not (isz(a) and isz(b)):
            raise Unsupported("binop %s on %r, %r" % (op, a, b))
        if op == "==":
            return s, a == b
        if op == "!=":
            return s, a != b
        if a.sort() == B and op in ("<", ">", "<=", ">="):
            a, b = coerce(a, I), coerce(b, I)
        if op in ("<", ">", "<=", ">="):
            s = self.nowrap(s, a, ta, loc, "comparison")
            s = self.nowrap(s, b, tb, loc, "comparison")
            return s, {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if a.sort() == B:
            if op == "&":
                return s, z3.And(a, b)
            if op == "|":
                return s, z3.Or(a, b)
            if op == "^":
                return s, z3.Xor(a, b)
            a, b = coerce(a, I), coerce(b, I)
        if op == "+":
            return s, a + b
        if op == "-":
            return s, a - b
        if op == "*":
            if a.sort() == I and self.opts.get("mul"):
                return s, self.opts["mul"](a, b)
            return s, self.mul(a, b)
        if op == "/":
            if a.sort() == R:
                return s, a / b
            s = self.nowrap(s, a, ta, loc, "division")
            if self.opts["divzero"]:
                s = self.oblige(s, b != 0, "division by zero", loc)
            return s, self.idiv(a, b, t)
        if op == "%":
            s = self.nowrap(s, a, ta, loc, "modulo")
            if self.opts["divzero"]:
                s = self.oblige(s, b != 0, "modulo by zero", loc)
            return s, self.imod(a, b, t)
        if op in ("<<", ">>") and z3.is_int_value(z3.simplify(b)):
            k = 2 ** z3.simplify(b).as_long()
            return s, (a * k if op == "<<" else a / k)
        if op == "&" and z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() == 1:
            return s, a % 2
        if op in ("&", "|", "^"):
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor"}[op], I, I, I)
            return s, f(a, b)
        raise Unsupported("operator " + op)

    def mul(self, a, b):
        return arith.mul(a, b) if self.opts.get("uf") and a.sort() == I else a * b

    def idiv(self, a, b, t):
        d = arith.udiv if self.opts.get("uf") else (lambda x, y: x / y)
        if t.k == "int" and t.j["u"]:
            return d(a, b)
        sb = z3.simplify(b)
        if z3.is_int_value(sb) and sb.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(b > 0, z3.If(a >= 0, d(a, b), -d(-a, b)), z3.If(a >= 0, -d(a, -b), d(-a, -b)))

    def imod(self, a, b, t):
        if t.k == "int" and t.j["u"]:
            return a - arith.mul(b, arith.udiv(a, b)) if self.opts.get("uf") else a % b
        return a - self.mul(b, self.idiv(a, b, t))

    def e_un(self, st, fr, e):
        op = e["op"]
        out = []
        for s, v in self.ev(st, fr, e["a"]):
            if op == "!":
                out.append((s, z3.Not(self.tobool(v, s))))
            elif op == "-":
                out.append((s, -coerce(v, I) if v.sort() != R else -v))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                out.append((s, -v - 1))
            elif op == "*":
                pt = self.ty(e["a"])
                if isinstance(v, Ref) and v.acc and v.acc[-1] == ("o",) and self.opts["bounds"]:
                    s = self.oblige(s, self.notnull(s, v), "dereference of non-null unique_ptr", self.locs(e.get("l")), "bounds")
                out.append((s, self.deref(v, pt.to() if pt.k == "ptr" else None)))
            elif op == "&":
                out.append((s, self.addr(self.alias(s, v)) if isinstance(v, Ref) else v))
            elif op in ("++", "--", "post++", "post--"):
                old = self.read(s, v)
                one = z3.IntVal(1)
                if isinstance(old, Ref):
                    s2, new = self.binop(s, "+" if "+" in op else "-", old, one, self.ty(e), self.ty(e["a"]), self.ty(e["a"]), e.get("l"))
                else:
                    new = old + 1 if "+" in op else old - 1
                    s2 = s
                s2 = self.write(s2, v, new)
                out.append((s2, old if op.startswith("post") else v))
            elif op == "__extension__":
                out.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return out

    def e_asg(self, st, fr, e):
        out = []
        for s, (b, a) in self.evs(st, fr, [e["b"], e["a"]]):
            if isinstance(b, Ref) and self.ty(e["b"]).k == "rec":
                b = self.read(s, b)
            if isinstance(b, FnV):
                b = b
            out.append((self.write(s, a, b), a))
        return out

    def e_casg(self, st, fr, e):
        out = []
        for s, (b, a) in self.evs(st, fr, [e["b"], e["a"]]):
            old = self.read(s, a)
            ct = self.prog.ty(e["ct"])
            s, v = self.binop(s, e["op"], old, b, ct, ct, self.ty(e["b"]), e.get("l"))
            if isz(v) and isz(old) and v.sort() != old.sort():
                if old.sort() == I and v.sort() == R:
                    v = z3.ToInt(v)
                else:
                    v = coerce(v, old.sort())
            out.append((self.write(s, a, v), a))
        return out

    def e_idx(self, st, fr, e):
        out = []
        for s, (a, b) in self.evs(st, fr, [e["a"], e["b"]]):
            if isinstance(b, Ref):
                a, b = b, a
            s = self.nowrap(s, b, self.ty(e["b"]), e.get("l"), "index")
            if isinstance(a, Ref):
                if a.acc and a.acc[-1][0] == "i":
                    r = Ref(a.root, a.acc[:-1] + (("i", z3.simplify(a.acc[-1][1] + b)),))
                    s = self.bound_check(s, r, e.get("l"))
                    out.append((s, r))
                    continue
                raise Unsupported("subscript of pointer %r" % (a,))
            pt = self.ty(e["a"])
            out.append((s, Ref(("h", self.ptr_add(a, b), pt.to().rec() if pt.to().k == "rec" else None))))
        return out

    def bound_check(self, st, ref, loc):
        """obligation: last index accessor within its vector"""
        if not self.opts["bounds"]:
            return st
        a = ref.acc[-1]
        base = self.read(st, Ref(ref.root, ref.acc[:-1])) if ref.root[0] != "h" or len(ref.acc) > 1 else None
        if isinstance(base, Tree) and "len" in base.f:
            st = self.oblige(st, z3.And(a[1] >= 0, a[1] < base["len"]), "index within bounds", self.locs(loc), "bounds")
        return st

    def locs(self, loc):
        return "%s:%s" % (self.cur_fn.loc.rsplit(":", 1)[0].split("/repo/")[-1], loc) if getattr(self, "cur_fn", None) is not None else str(loc)

    def e_init(self, st, fr, e):
        t = self.ty(e)
        out = []
        for s, vs in self.evs(st, fr, e["a"]):
            if t.k == "rec":
                fs = t.rec().fields()
                if self.sorts.kind(t) == "vec" and t.rec().name == "std::array" and not fs:
                    pass
                d = {}
                for n, (name, ft, decl, init) in enumerate(fs):
                    if n < len(vs):
                        x = vs[n]
                        if isinstance(x, Ref) and ft.k == "rec":
                            x = self.read(s, x)
                        d[name] = x
                    else:
                        d[name] = self.sorts.default(ft)
                if self.sorts.kind(t) == "vec":
                    v = vs[0] if vs else self.sorts.default(t)
                    out.append((s, v))
                    continue
                out.append((s, Tree("rec", t, d)))
            elif t.k == "arr":
                v = self.sorts.default(t)
                el = v["el"]
                for n, x in enumerate(vs):
                    if isinstance(x, Ref) and t.el().k == "rec":
                        x = self.read(s, x)
                    el = tstore_(el, z3.IntVal(n), self.conv(x))
                ln = t.j.get("n", len(vs))
                out.append((s, v.with_(len=z3.IntVal(ln), el=el)))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.sorts.default(t)))
            else:
                raise Unsupported("init list of " + t.s)
        return out

    def e_stdinit(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            if isinstance(v, Ref):
                v = self.read(s, v)
            out.append((s, v))
        return out

    def e_throw(self, st, fr, e):
        ty = None
        if e["e"] is not None:
            ty = self.prog.ty(e["e"]["t"]).s
        self.throw(st, "throw", self.locs(e.get("l")), ty)
        return []

    def e_new(self, st, fr, e):
        at = self.prog.ty(e["at"])
        if "n" in e:
            out = []
            for s, n in self.ev(st, fr, e["n"]):
                el = self.sorts.fresh(at, "newarr", (I,))
                s, r = self.temp(s, Tree("vec", None, {"len": n, "el": el}))
                out.append((s, r.i(z3.IntVal(0))))
            return out
        if at.k == "rec" and self.sorts.is_heap(at):
            s, p = self.fresh_ptr(st, at)
            s = s.assume(DYN(p) == at.rec().id)
            ref = Ref(("h", p, at.rec()))
            if "init" in e:
                res = self.construct_into(s, fr, ref, e["init"], at)
                return [(x, p) for x in res]
            return [(s, p)]
        # scalar / value object: box of one element
        out = []
        if "init" in e:
            for s, v in self.ev(st, fr, e["init"]):
                if isinstance(v, Ref) and at.k == "rec":
                    v = self.read(s, v)
                s, r = self.temp(s, v)
                out.append((s, r))
        else:
            s, r = self.temp(st, self.sorts.fresh(at, "new"))
            out.append((s, r))
        return out

    def fresh_ptr(self, st, ty):
        p = fconst("new_" + ty.s.split("<")[0].split("::")[-1], I)
        st = st.copy()
        al = st.ghost.get("alloc")
        if al is None:
            al = self.trace_cache.setdefault("alloc", z3.Array("alloc0", I, B))
        st.pc = st.pc + (p > 0, z3.Not(z3.Select(al, p)))
        st.ghost["alloc"] = z3.Store(al, p, z3.BoolVal(True))
        return st, p

    def allocated(self, st, p):
        al = st.ghost.get("alloc")
        if al is None:
            al = self.trace_cache.setdefault("alloc", z3.Array("alloc0", I, B))
        return z3.Select(al, p)

    def construct_into(self, st, fr, ref, init, ty):
        """run a constructor expression on a heap object; returns states"""
        if init["k"] in ("ctor",):
            fn = self.prog.fns[init["fn"]]
            out = []
            for s, args in self.evargs(st, fr, fn, init["a"]):
                if fn.body is not None or fn.j.get("inits"):
                    out += [x for x, _ in self.inline(s, fr, fn, ref, args, init)]
                elif fn.spec in ("copy", "move"):
                    out.append(self.write(s, ref, self.read(s, args[0])))
                elif fn.spec == "default" or fn.j.get("defaulted"):
                    out.append(self.default_fields(s, fr, ref, ty))
                else:
                    raise Unsupported("ctor without body " + fn.sig)
            return out
        out = []
        for s, v in self.ev(st, fr, init):
            out.append(self.write(s, ref, v))
        return out

    def default_fields(self, s, fr, ref, ty):
        for (n, t, decl, i) in ty.rec().fields():
            try:
                if i is not None:
                    (s, v), = self.ev(s, fr, i)
                    if isinstance(v, Ref):
                        v = self.read(s, v)
                elif t.k in ("int", "bool", "float", "ptr", "enum"):
                    v = self.sorts.fresh(t, n)
                else:
                    v = self.sorts.default(t)
                s = self.write(s, ref.f(n, ty.rec()), v)
            except Unsupported:
                pass
        return s

    def e_delete(self, st, fr, e):
        out = []
        for s, v in self.ev(st, fr, e["e"]):
            if "on_delete" in self.models:
                s = self.models["on_delete"](self, s, v, e)
            out.append((s, None))
        return out

    def e_lambda(self, st, fr, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c is None:
                continue
            if c.get("this"):
                this = fr.this
            else:
                r = self.alias(st, Ref(self.vroot(fr, c["id"])) if not isinstance(self.vroot(fr, c["id"]), Ref) else self.vroot(fr, c["id"]))
                if c["ref"]:
                    caps[c["id"]] = r
                else:
                    st, t = self.temp(st, self.read(st, r))
                    caps[c["id"]] = t
        return [(st, Lam(self.prog.fns[e["fn"]], caps, this, fr))]

    # ---------------------------------------------------------------- construction & calls
    def e_ctor(self, st, fr, e):
        t = self.ty(e)
        fn = self.prog.fns[e["fn"]]
        out = []
        if e.get("spec") in ("copy", "move") and e["a"]:
            k = self.sorts.kind(t)
            if fn.body is None or k is not None or fn.j.get("defaulted"):
                for s, v in self.ev(st, fr, e["a"][0]):
                    if isinstance(v, Ref):
                        src = v
                        v = self.read(s, v)
                        if e.get("spec") == "move" and isinstance(v, Tree) and v.kind == "opt":
                            s = self.write(s, src, v.with_(has=z3.BoolVal(False)))
                        elif e.get("spec") == "move" and isinstance(v, Tree) and v.kind in ("vec",) and not e.get("elide"):
                            s = self.write(s, src, v.with_(len=z3.IntVal(0)))
                    out.append((s, v))
                return out
        for s, args in self.evargs(st, fr, fn, e["a"]):
            out += self.construct(s, fr, fn, t, args, e)
        return out

    def construct(self, st, fr, fn, t, args, e):
        k = self.sorts.kind(t)
        m = self.lookup_model(fn, t)
        if m:
            return m(self, st, fr, fn, t, args, e)
        c = self.contract_of(fn)
        if fn.body is not None or fn.j.get("inits"):
            # own class
            base = self.blank(t)
            st, tmp = self.temp(st, base)
            res = []
            for s, _ in (self.inline(st, fr, fn, tmp, args, e) if c is None else self.apply_contract(c, st, fr, fn, tmp, args, e)):
                res.append((s, self.read(s, tmp)))
            return res
        if fn.spec in ("copy", "move"):
            return [(st, self.read(st, args[0]))]
        if fn.spec == "default" or fn.j.get("defaulted"):
            if t.k == "rec" and "fields" in t.rec().j and t.rec().own:
                st, tmp = self.temp(st, self.blank(t))
                st = self.default_fields(st, fr, tmp, t)
                return [(st, self.read(st, tmp))]
            return [(st, self.sorts.default(t))]
        raise Unsupported("constructor " + fn.sig[:160])

    def blank(self, t):
        d = {}
        for (n, ft, decl, i) in t.rec().fields():
            try:
                d[n] = self.sorts.default(ft) if ft.k == "rec" else self.sorts.fresh(ft, "uninit." + n)
            except Unsupported:
                d[n] = Opaque(n)
        return Tree("rec", t, d)

    def evargs(self, st, fr, fn, aes):
        """evaluate arguments and bind by parameter mode: refs stay Ref, values are read"""
        out = []
        ptys = fn.ptys()
        for s, vs in self.evs(st, fr, aes):
            r = []
            for n, v in enumerate(vs):
                pt = ptys[n] if n < len(ptys) else None
                if pt is not None and pt.k == "ref":
                    if not isinstance(v, Ref) and not isinstance(v, (StrV, Iter, Lam, FnV)):
                        s, v = self.temp(s, v)
                    elif isinstance(v, (StrV, Iter, Lam, FnV)):
                        s, v = self.temp(s, v)
                elif pt is not None and pt.k == "rec" and isinstance(v, Ref):
                    v = self.read(s, v)
                r.append(v)
            out.append((s, r))
        return out

    def e_call(self, st, fr, e):
        fn = self.prog.fns[e["fn"]]
        out = []
        if "o" in e:
            for s, o in self.ev(st, fr, e["o"]):
                ot = self.ty(e["o"])
                if e.get("ar"):
                    ot = ot.to() if ot.k == "ptr" else ot
                    this = self.deref(o, ot) if not isinstance(o, Iter) else o
                else:
                    ot = ot.deref()
                    if isinstance(o, Ref):
                        this = self.alias(s, o)
                    else:
                        s, this = self.temp(s, o)
                for s2, args in self.evargs(s, fr, fn, e["a"]):
                    out += self.call(s2, fr, fn, this, args, e, ot)
        else:
            for s2, args in self.evargs(st, fr, fn, e["a"]):
                out += self.call(s2, fr, fn, None, args, e, None)
        return out

    def e_icall(self, st, fr, e):
        out = []
        for s, vs in self.evs(st, fr, [e["f"]] + e["a"]):
            if isinstance(vs[0], FnV):
                f = vs[0].fn
                args = [self.as_lv(s, a, None)[1] if False else a for a in vs[1:]]
                fixed = []
                for a, t in zip(args, f.ptys()):
                    if t.k == "ref" and not isinstance(a, Ref):
                        s, a = self.temp(s, a)
                    fixed.append(a)
                out += self.call(s, fr, f, None, fixed, e, None)
                continue
            h = self.models.get("icall")
            if h is None:
                raise Unsupported("indirect call")
            out += h(self, s, fr, vs[0], vs[1:], e)
        return out

    def lookup_model(self, fn, ot=None):
        m = self.models.get(fn.qn)
        if m is None and fn.cls is not None:
            m = self.models.get(fn.cls.name + "::" + fn.name)
            if m is None:
                k = STL.get(fn.cls.name)
                if k:
                    key = (k, "ctor" if fn.ctor else fn.name)
                    m = self.models.get(key)
        if m is not None:
            self.used_models.add(fn.qn)
        return m

    def contract_of(self, fn):
        for c in self.contracts.get(fn.qn, ()):
            if c.select(fn):
                return None if c.inline_in and c.inline_in(self, fn) else c
        return None

    def call(self, st, fr, fn, this, args, e, ot):
        if fn.name == "__invoke" and fn.cls is not None:   # static thunk of a captureless lambda
            ops = [f for f in self.prog.fns if f.cls is fn.cls and f.name == "operator()"]
            if len(ops) == 1:
                fn = ops[0]
        c = self.contract_of(fn)
        if c is not None:
            return self.apply_contract(c, st, fr, fn, this, args, e)
        m = self.lookup_model(fn, ot)
        if m:
            return m(self, st, fr, fn, this, args, e)
        if e.get("virt") or (fn.body is None and fn.j.get("virt")):
            d = self.models.get("virtual")
            if d:
                r = d(self, st, fr, fn, this, args, e)
                if r is not None:
                    return r
            # single implementation reachable -> use it
            if fn.body is None:
                ov = [f for f in self.prog.overriders.get(fn.id, []) if f.body is not None]
                if len(ov) == 1:
                    fn = ov[0]
        if fn.body is None:
            if fn.j.get("noreturn"):
                self.throw(st, fn.qn, self.locs(e.get("l")), None, True)
                return []
            if fn.spec in ("copyassign", "moveassign"):
                v = self.read(st, args[0])
                return [(self.write(st, this, v), this)]
            if fn.j.get("dtor"):
                return [(st, None)]
            if self.opts.get("havoc_unknown") and fn.ret.k == "void":
                self.notes.add("assumed without effect: " + fn.qn)
                return [(st, None)]
            raise Unsupported("no model for " + fn.sig[:200])
        return self.inline(st, fr, fn, this, args, e)

    def inline(self, st, fr, fn, this, args, e):
        depth = fr.depth + 1
        if depth > self.opts["maxdepth"]:
            raise Unsupported("inlining depth (recursion without contract) at " + fn.sig[:120])
        self.inlined.add((fn.qn, fn.loc))
        nf = Frame(fn, this, depth)
        nf.loops = fr.loops
        s = st.copy()
        for p, v, t in zip(fn.params, args, fn.ptys()):
            if t.k == "ref":
                s.vars[("v", nf.id, p["id"])] = RefAlias(v)
            else:
                s.vars[("v", nf.id, p["id"])] = v
        return self.run_body(s, nf, fn, this)

    def run_body(self, s, nf, fn, this):
        saved = getattr(self, "cur_fn", None)
        self.cur_fn = fn
        sts = [s]
        try:
            if fn.ctor:
                sts = self.run_inits(s, nf, fn, this)
            outs = []
            for x in sts:
                outs += self.exec(x, nf, fn.body) if fn.body is not None else [("n", x, None)]
        finally:
            self.cur_fn = saved
        res = []
        for kind, x, v in outs:
            if kind == "n":
                res.append((x, None))
            elif kind == "ret":
                res.append((x, v))
            elif kind == "throw":
                self.sink[-1].append((x, v))
            else:
                raise Unsupported("break/continue out of function")
        return self.merge_results(res)

    def merge_results(self, res):
        if len(res) <= 1 or not self.opts["merge"]:
            return res
        out = []
        for s, v in res:
            done = False
            for n in range(len(out)):
                s0, v0 = out[n]
                # carry the value through the state merge as a ghost var
                a, b = s0.copy(), s.copy()
                a.vars[("t", "ret")] = v0 if v0 is not None else z3.BoolVal(True)
                b.vars[("t", "ret")] = v if v is not None else z3.BoolVal(True)
                m = self.merge2(a, b)
                if m is not None:
                    rv = m.vars.pop(("t", "ret"))
                    out[n] = (m, rv if v is not None else None)
                    done = True
                    break
            if not done:
                out.append((s, v))
        return out

    def run_inits(self, s, nf, fn, this):
        sts = [s]
        for it in fn.j.get("inits", []):
            nxt = []
            for x in sts:
                if "m" in it:
                    cls = fn.cls
                    ft = self.field_decl_ty(cls, it["m"])
                    if "e" not in it or it["e"] is None:
                        nxt.append(x)
                        continue
                    try:
                        for y, v in self.ev(x, nf, it["e"]):
                            if ft is not None and ft.k == "ref":
                                if isinstance(v, Ref):
                                    v = self.addr(self.alias(y, v))
                            elif isinstance(v, Ref) and ft is not None and ft.k == "rec":
                                v = self.read(y, v)
                            nxt.append(self.write(y, this.f(it["m"], cls), v))
                    except Unsupported as u:
                        if this.root[0] != "h" and isinstance(self.read_raw(x, this, it["m"]), Opaque):
                            nxt.append(x)
                        else:
                            raise
                elif "b" in it:
                    bt = self.prog.ty(it["b"])
                    bfn = self.prog.fns[it["e"]["fn"]] if it["e"] and it["e"]["k"] == "ctor" else None
                    if bfn is None or (bfn.body is None and not bfn.j.get("inits")):
                        if bfn is not None and bfn.own and bt.rec().j.get("fields"):
                            nxt.append(self.default_fields(x, nf, this, bt))
                        else:
                            nxt.append(x)
                        continue
                    for y, args in self.evargs(x, nf, bfn, it["e"]["a"]):
                        for z, _ in self.inline(y, nf, bfn, this, args, it["e"]):
                            nxt.append(z)
                elif it.get("deleg"):
                    dfn = self.prog.fns[it["e"]["fn"]]
                    for y, args in self.evargs(x, nf, dfn, it["e"]["a"]):
                        for z, _ in self.inline(y, nf, dfn, this, args, it["e"]):
                            nxt.append(z)
            sts = nxt
        return sts

    def read_raw(self, st, this, name):
        r = self.alias(st, this)
        v = st.vars.get(r.root)
        for a in r.acc:
            v = self.acc_get(st, v, a)
        return v.f.get(name) if isinstance(v, Tree) else None

    # ---------------------------------------------------------------- contracts
    def apply_contract(self, c, st, fr, fn, this, args, e):
        self.used_contracts.add(fn.qn)
        return c.apply(self, st, fr, fn, this, args, e)

    # ---------------------------------------------------------------- statements
    def exec(self, st, fr, s):
        """-> [(kind, state, value)]"""
        if s is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement kind %s %s" % (s["k"], s.get("cls")))
        self.sink.append([])
        try:
            outs = m(st, fr, s)
        finally:
            th = self.sink.pop()
        return outs + [("throw", x, t) for x, t in th]

    def s_null(self, st, fr, s):
        return [("n", st, None)]

    def s_block(self, st, fr, s):
        cur = [st]
        outs = []
        for x in s["b"]:
            nxt = []
            for c in cur:
                for o in self.exec(c, fr, x):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge_list(nxt)
            if len(nxt) > self.paths_limit:
                raise Unsupported("too many paths")
            cur = nxt
            if not cur:
                break
        return outs + [("n", c, None) for c in cur]

    def s_expr(self, st, fr, s):
        return [("n", x, None) for x, _ in self.ev(st, fr, s["e"])]

    def s_decl(self, st, fr, s):
        sts = [st]
        for v in s["v"]:
            nxt = []
            for x in sts:
                nxt += self.declare(x, fr, v)
            sts = nxt
        return [("n", x, None) for x in sts]

    def declare(self, st, fr, v):
        ty = self.prog.ty(v["t"])
        root = ("v", fr.id, v["id"])
        if v.get("static"):
            g = ("g", v["g"])
            rs = self.e_glob(st, fr, {"g": v["g"]})
            s = rs[0][0].copy()
            s.vars[root] = RefAlias(Ref(g))
            return [s]
        out = []
        if "init" in v and v["init"] is not None:
            for s, x in self.ev(st, fr, v["init"]):
                s = s.copy()
                if ty.k == "ref":
                    if not isinstance(x, Ref):
                        s, x = self.temp(s, x)
                        s = s.copy()
                    s.vars[root] = RefAlias(self.alias(s, x))
                else:
                    if isinstance(x, Ref) and ty.k in ("rec", "arr"):
                        x = self.read(s, x)
                    if ty.k == "arr" and isinstance(x, StrV):
                        pass
                    s.vars[root] = x
                out.append(s)
            return out
        s = st.copy()
        if "vla" in v:
            for s2, n in self.ev(s, fr, v["vla"]):
                s2 = s2.copy()
                el = self.sorts.fresh(ty.el(), v["n"], (I,))
                s2.vars[root] = Tree("vec", None, {"len": n, "el": el})
                out.append(s2)
            return out
        if ty.k in ("rec", "arr"):
            try:
                s.vars[root] = self.blank(ty) if ty.k == "rec" and self.sorts.kind(ty) is None and "fields" in ty.rec().j else self.sorts.default(ty)
            except Unsupported:
                s.vars[root] = Opaque(ty.s)
            if ty.k == "arr" and ty.el().k != "rec":
                s.vars[root] = self.sorts.fresh(ty, v["n"]).withk("len", z3.IntVal(ty.j.get("n", 0)))
        else:
            s.vars[root] = self.uninit(ty, v["n"])
        return [s]

    def uninit(self, ty, n):
        if ty.k == "ptr" and not (ty.to().k == "rec" and self.sorts.is_heap(ty.to())) and ty.to().k != "fn":
            return None   # pointer to elements, unreadable until assigned
        try:
            return self.sorts.fresh(ty, "uninit." + n)
        except Unsupported:
            return Opaque(n)

    def s_if(self, st, fr, s):
        sts = [st]
        if "init" in s:
            outs0 = self.exec(st, fr, s["init"])
            sts = [o[1] for o in outs0 if o[0] == "n"]
        if "cv" in s:
            nx = []
            for x in sts:
                nx += [o[1] for o in self.exec(x, fr, s["cv"]) if o[0] == "n"]
            sts = nx
        outs = []
        norm = []
        for x in sts:
            for s2, c in self.ev(x, fr, s["c"]):
                a, b = self.branch(s2, self.tobool(c, s2))
                if a is not None:
                    for o in self.exec(a, fr, s["t"]):
                        (norm.append(o[1]) if o[0] == "n" else outs.append(o))
                if b is not None:
                    for o in self.exec(b, fr, s["e"]):
                        (norm.append(o[1]) if o[0] == "n" else outs.append(o))
        if len(norm) > 1:
            norm = self.merge_list(norm)
        return outs + [("n", x, None) for x in norm]

    def s_return(self, st, fr, s):
        if s["e"] is None:
            return [("ret", st, None)]
        out = []
        rt = fr.fn.ret if fr.fn is not None else None
        for x, v in self.ev(st, fr, s["e"]):
            if isinstance(v, Ref) and rt is not None and rt.k == "rec":
                v = self.read(x, v)
            elif isinstance(v, Ref) and rt is not None and rt.k == "ref":
                v = self.alias(x, v)
            out.append(("ret", x, v))
        return out

    def s_break(self, st, fr, s):
        return [("brk", st, None)]

    def s_continue(self, st, fr, s):
        return [("cont", st, None)]

    def s_label(self, st, fr, s):
        return self.exec(st, fr, s["s"])

    def s_switch(self, st, fr, s):
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten: list of (labels, stmt)
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x["v"] if x["k"] == "case" else "default")
                x = x["s"]
            items.append((labels, x))
        outs = []
        for s2, c in self.ev(st, fr, s["c"]):
            allc = []
            for labels, _ in items:
                for l in labels:
                    if l != "default":
                        (q, lv), = self.ev(s2, fr, l)
                        allc.append(lv)
            for n, (labels, _) in enumerate(items):
                if not labels:
                    continue
                conds = []
                for l in labels:
                    if l == "default":
                        conds.append(z3.And([c != v for v in allc]) if allc else z3.BoolVal(True))
                    else:
                        (q, lv), = self.ev(s2, fr, l)
                        conds.append(c == lv)
                cond = z3.Or(conds) if len(conds) > 1 else conds[0]
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                entry = s2.assume(cond)
                if not z3.is_true(cond) and not self.feas(entry):
                    continue
                cur = [entry]
                for _, x in items[n:]:
                    nxt = []
                    for y in cur:
                        for o in self.exec(y, fr, x):
                            if o[0] == "n":
                                nxt.append(o[1])
                            elif o[0] == "brk":
                                outs.append(("n", o[1], None))
                            else:
                                outs.append(o)
                    cur = nxt
                    if not cur:
                        break
                outs += [("n", y, None) for y in cur]
            if not any("default" in l for l, _ in items):
                cond = z3.simplify(z3.And([c != v for v in allc])) if allc else z3.BoolVal(True)
                if not z3.is_false(cond):
                    x = s2.assume(cond)
                    if self.feas(x):
                        outs.append(("n", x, None))
        norm = [o[1] for o in outs if o[0] == "n"]
        rest = [o for o in outs if o[0] != "n"]
        if len(norm) > 1:
            norm = self.merge_list(norm)
        return rest + [("n", x, None) for x in norm]

    def s_try(self, st, fr, s):
        outs = []
        for o in self.exec(st, fr, s["b"]):
            if o[0] == "throw" and not o[2].assertion and s["h"]:
                h = s["h"][0]
                x = o[1]
                if "v" in h:
                    x = x.copy()
                    x.vars[("v", fr.id, h["v"]["id"])] = Opaque("exception")
                for o2 in self.exec(x, fr, h["b"]):
                    # rethrow keeps the exception
                    outs.append(o2)
            else:
                outs.append(o)
        return outs

    # loops -------------------------------------------------------------
    def s_for(self, st, fr, s):
        outs = []
        if s["init"] is not None:
            pre = self.exec(st, fr, s["init"])
        else:
            pre = [("n", st, None)]
        for o in pre:
            if o[0] != "n":
                outs.append(o)
            else:
                outs += self.loops.run_loop(self, o[1], fr, s, cond=s["c"], body=s["b"], inc=s["inc"])
        return outs

    def s_while(self, st, fr, s):
        return self.loops.run_loop(self, st, fr, s, cond=s["c"], body=s["b"], inc=None, cv=s.get("cv"))

    def s_do(self, st, fr, s):
        return self.loops.run_loop(self, st, fr, s, cond=s["c"], body=s["b"], inc=None, dowhile=True)

    def s_rfor(self, st, fr, s):
        outs = []
        for x, r in self.ev(st, fr, s["r"]):
            if not isinstance(r, Ref):
                x, r = self.temp(x, r)
            r = self.alias(x, r)
            outs += self.loops.run_range_loop(self, x, fr, s, r)
        return outs

    def iter_ref(self, it):
        """lvalue designated by an iterator"""
        if it.kind == "vec":
            return it.cont.i(it.pos)
        if it.kind == "map":
            return Ref(it.cont.root, it.cont.acc + (("kv", it.pos, it.pos),))
        raise Unsupported("iter_ref of set needs a temp")


class RefAlias:
    """value of a reference variable / parameter"""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def __repr__(self):
        return "&" + repr(self.ref)


def tselect_(t, i):
    if isinstance(t, Opaque):
        return t
    if isz(t):
        return z3.Select(t, i)
    return Tree(t.kind, t.ty, {k: tselect_(v, i) for k, v in t.f.items()})


def tstore_(t, i, v):
    if isinstance(t, Opaque):
        return t
    if isz(t):
        return store1(t, i, coerce(v, t.sort().range()))
    if not isinstance(v, Tree):
        raise Unsupported("store of %r into %r" % (v, t))
    return Tree(t.kind, t.ty, {k: tstore_(x, i, v.f[k]) for k, x in t.f.items()})


def vmerge(c, a, b):
    if a is b:
        return a
    if isz(a) and isz(b):
        if z3.eq(a, b):
            return a
        if a.sort() != b.sort():
            if R in (a.sort(), b.sort()):
                a, b = coerce(a, R), coerce(b, R)
            else:
                raise Unsupported("merge sorts")
        return z3.If(c, a, b)
    if isinstance(a, Tree) and isinstance(b, Tree) and set(a.f) == set(b.f):
        return Tree(a.kind, a.ty, {k: vmerge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and refeq(a.cont, b.cont):
        return Iter(a.kind, a.cont, vmerge(c, a.pos, b.pos), None if a.end is None else vmerge(c, a.end, b.end), a.rev)
    if isinstance(a, RefAlias) and isinstance(b, RefAlias):
        return RefAlias(vmerge(c, a.ref, b.ref))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root[0] == "h" and b.root[0] == "h" and not a.acc and not b.acc and a.root[2] is b.root[2]:
            return Ref(("h", z3.If(c, a.root[1], b.root[1]) if not z3.eq(a.root[1], b.root[1]) else a.root[1], a.root[2]))
        if rooteq(a.root, b.root) and len(a.acc) == len(b.acc):
            acc = []
            for x, y in zip(a.acc, b.acc):
                if x[0] != y[0]:
                    raise Unsupported("merge refs")
                if x[0] in ("i", "k") and isz(x[1]):
                    acc.append((x[0], vmerge(c, x[1], y[1])))
                elif x == y or (x[0] == "f" and x[1] == y[1]):
                    acc.append(x)
                else:
                    raise Unsupported("merge refs")
            return Ref(a.root, acc)
        raise Unsupported("merge refs")
    if isinstance(a, StrV) and isinstance(b, StrV) and streq(a, b):
        return a
    if isinstance(a, FnV) and isinstance(b, FnV) and a.fn is b.fn:
        return a
    if a is None and b is None:
        return None
    raise Unsupported("merge of %r / %r" % (a, b))


def streq(a, b):
    if len(a.parts) != len(b.parts):
        return False
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        else:
            if len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isz(p) and isz(q):
                    if not z3.eq(p, q):
                        return False
                elif isz(p) or isz(q) or p != q:
                    return False
    return True


def rooteq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "h":
        return z3.eq(a[1], b[1])
    return a == b


def refeq(a, b):
    if not rooteq(a.root, b.root) or len(a.acc) != len(b.acc):
        return False
    for x, y in zip(a.acc, b.acc):
        if x[0] != y[0]:
            return False
        if x[0] in ("i", "k"):
            if not z3.eq(x[1], y[1]):
                return False
        elif x[1:2] != y[1:2]:
            return False
    return True
