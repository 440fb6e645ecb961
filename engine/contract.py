"""Function contracts and the function-by-function verification driver."""
import time
import z3
from val import *
import exec as X
import vc


def forall(sorts, f, pats=None):
    """forall over fresh bound constants; f gets the constants.  pats(consts) -> list of patterns"""
    if not isinstance(sorts, (list, tuple)):
        sorts = [sorts]
    ks = [z3.Const("q!%d" % fresh_id(), s) for s in sorts]
    body = f(*ks)
    if isinstance(body, (list, tuple)):
        body = z3.And(list(body))
    if z3.is_true(body):
        return body
    kw = {}
    if pats is not None:
        p = pats(*ks)
        if p:
            kw["patterns"] = p
    try:
        return z3.ForAll(ks, body, **kw)
    except z3.Z3Exception:   # (a pattern over a conditional value: leave the choice to the solver)
        return z3.ForAll(ks, body)


def exists(sorts, f):
    if not isinstance(sorts, (list, tuple)):
        sorts = [sorts]
    ks = [z3.Const("e!%d" % fresh_id(), s) for s in sorts]
    return z3.Exists(ks, f(*ks))


def imp(a, b):
    return z3.Implies(a, b)


def inr(i, n, lo=0):
    return z3.And(lo <= i, i < n)


def sel(t, *ix):
    for i in ix:
        t = X.tselect_(t, i)
    return t


def wf(sorts, ty, v, umax=False, dims=()):
    """representation facts every C++ value of the type satisfies"""
    out = []

    def walk(ty, v, dims, guard):
        if v is None or isinstance(v, (Opaque, StrV, Iter, Ref)):
            return
        if isz(v):
            if ty.k == "int" and ty.j["u"] or ty.k == "ptr" or ty.k == "enum":
                def mk(f):
                    ks = [z3.Const("w!%d" % fresh_id(), d) for d in dims]
                    t = v
                    for k in ks:
                        t = z3.Select(t, k)
                    b = f(t)
                    g = [x(ks) for x in guard]
                    if ks:
                        return z3.ForAll(ks, b, patterns=[t])
                    return b
                out.append(mk(lambda t: t >= 0))
                if umax and ty.k == "int":
                    out.append(mk(lambda t: t <= 2 ** ty.j["w"] - 1))
            return
        if not isinstance(v, Tree):
            return
        if v.kind == "vec":
            walk_len(v["len"], dims)
            if ty.k not in ("arr", "rec"):
                raise Unsupported("vector-shaped value of type %s" % ty.s)
            el = ty.el() if ty.k == "arr" else ty.rec().targ(0)
            if ty.k == "arr" and "n" in ty.j and not dims:
                out.append(v["len"] == ty.j["n"])
            if ty.k == "rec" and ty.rec().name == "std::array" and not dims:
                out.append(v["len"] == ty.rec().targ(1)["int"])
            walk(el, v["el"], dims + [I], guard)
        elif v.kind == "set":
            kt = ty.rec().targ(0)
            if kt.k == "int" and kt.j["u"]:
                ks = [z3.Const("w!%d" % fresh_id(), d) for d in dims]
                t = v["dom"]
                for k in ks:
                    t = z3.Select(t, k)
                q = z3.Const("w!%d" % fresh_id(), I)
                s = z3.Select(t, q)
                out.append(z3.ForAll(ks + [q], z3.Implies(s, q >= 0), patterns=[s]))
        elif v.kind == "map":
            kt = ty.rec().targ(0)
            if kt.k == "int" and kt.j["u"]:
                ks = [z3.Const("w!%d" % fresh_id(), d) for d in dims]
                t = v["dom"]
                for k in ks:
                    t = z3.Select(t, k)
                q = z3.Const("w!%d" % fresh_id(), I)
                s = z3.Select(t, q)
                out.append(z3.ForAll(ks + [q], z3.Implies(s, q >= 0), patterns=[s]))
            walk(ty.rec().targ(1), v["val"], dims + [sorts.key_sort(kt)], guard)
        elif v.kind == "opt":
            walk(ty.rec().targ(0), v["val"], dims, guard)
        elif v.kind == "rec":
            if sorts.kind(ty) == "pair":
                walk(ty.rec().targ(0), v["first"], dims, guard)
                walk(ty.rec().targ(1), v["second"], dims, guard)
            elif ty.k == "rec":
                for (n, t, d, i) in ty.rec().fields():
                    if n in v.f:
                        walk(t, v.f[n], dims, guard)

    def walk_len(v, dims):
        ks = [z3.Const("w!%d" % fresh_id(), d) for d in dims]
        t = v
        for k in ks:
            t = z3.Select(t, k)
        out.append(z3.ForAll(ks, t >= 0, patterns=[t]) if ks else t >= 0)
    walk(ty, v, list(dims), [])
    return out


class Ctx:
    """what a contract sees: old/new argument values, return value"""

    def __init__(self, ex, fn, args, this, st0):
        self.ex, self.fn, self.args, self.this, self.st0 = ex, fn, args, this, st0
        self.st1 = None
        self.ret = None
        self._old = {}

    def val(self, st, n):
        a = self.args[n]
        if isinstance(a, Ref) and self.fn.ptys()[n].k == "ref":
            return self.ex.read(st, a)
        if isinstance(a, Ref) and self.fn.ptys()[n].k == "ptr":
            return self.ex.read(st, a)
        return a

    def o(self, n):
        """argument n on entry"""
        return self.val(self.st0, n)

    def n(self, n):
        """argument n on exit"""
        return self.val(self.st1, n)

    def to(self, *path):
        return self._this(self.st0, path)

    def tn(self, *path):
        return self._this(self.st1, path)

    def _this(self, st, path):
        r = self.this
        cls = self.fn.cls
        for p in path:
            r = r.f(p, cls)
        return self.ex.read(st, r)

    def rv(self):
        r = self.ret
        if isinstance(r, Ref):
            return self.ex.read(self.st1, r)
        return r


class Contract:
    """qn: qualified name (or several).  Subclasses give pre/post; `modifies` lists parameter indexes ('this' too)."""
    qn = None
    modifies = ()
    inline_in = None
    opts = {}
    assert_throws = False # True: failing library assertions (CPPADCG_ASSERT_*) count as exceptions of the function
    throws_ok = False     # True: exceptions (not assertions) are allowed outcomes
    cands = None          # loop-invariant candidates: f(Loop) -> [(name, fn(state)->Bool)]

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def select(self, fn):
        return True

    def setup(self, c):
        """extra entry facts that define the shape of the inputs (part of the precondition)"""
        return []

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def throw_when(self, c):
        """exact condition (over entry values) under which an exception may be thrown, or None = never"""
        return None

    # -- use at call sites
    def apply(self, ex, st, fr, fn, this, args, e):
        c = Ctx(ex, fn, args, this, st)
        for nm, p in named(self.pre(c), "precondition"):
            st = ex.oblige(st, p, "precondition of %s: %s" % (fn.name, nm), ex.locs(e.get("l")), "pre")
        c.st0 = st
        tw = self.throw_when(c)
        if tw is not None:
            b, a = ex.branch(st, tw)
            if b is not None:
                ex.throw(self.havoc(c, ex, b), "exception from " + fn.name, ex.locs(e.get("l")))
            if a is None:
                return []
            st = a
        elif self.throws_ok:
            b = self.havoc(c, ex, st)
            if hasattr(self, "post_throw"):
                c.st1, c.ret, c.thrown = b, None, None
                b = b.assume(*[p for _, p in named(self.post_throw(c), "post")])
            ex.throw(b, "exception from " + fn.name, ex.locs(e.get("l")))
        s = self.havoc(c, ex, st)
        facts = []
        if fn.ret.k == "void":
            c.ret = None
        else:
            s, c.ret, f2 = self.fresh_ret(c, ex, s, fn)
            facts += f2
        s = s.assume(*facts)
        c.st1 = s
        s = s.assume(*[p for _, p in named(self.post(c), "post")])
        return [(s, c.ret)]

    def havoc(self, c, ex, s):
        """arbitrary values for everything the function may modify"""
        for mref, mty in self.frame(c):
            v = ex.sorts.fresh(mty, "post." + c.fn.name)
            s = ex.write(s, mref, v).assume(*wf(ex.sorts, mty, v))
        return s

    def fresh_ret(self, c, ex, s, fn):
        rt = fn.ret
        if rt.k == "ref":
            v = ex.sorts.fresh(rt.to(), "ret." + fn.name)
            s, r = ex.temp(s, v)
            return s, r, wf(ex.sorts, rt.to(), v)
        v = ex.sorts.fresh(rt, "ret." + fn.name)
        return s, v, wf(ex.sorts, rt, v)

    def frame(self, c):
        out = []
        for m in self.modifies:
            if m == "this":
                t = [t for t in c.ex.prog.types if t.k == "rec" and t.j["r"] == c.fn.cls.id]
                out.append((c.this, t[0]))
            elif isinstance(m, int):
                out.append((c.args[m], c.fn.ptys()[m].deref()))
        return out


def named(lst, dflt):
    out = []
    for n, x in enumerate(lst):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append(("%s %d" % (dflt, n), x))
    return out


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []     # dicts
        self.status = "proved"
        self.error = None
        self.seconds = 0
        self.backends = {}
        self.solver_s = 0
        self.inlined = []
        self.models = []
        self.contracts = []
        self.loops = []
        self.notes = []
        self.vacuity = None
        self.loc = ""
        self.outcomes = 0


def entry(ex, fn, contract):
    """fresh entry state"""
    st = X.State()
    args = []
    facts = []
    sorts = ex.sorts
    fr = X.Frame(None, None, 0)
    names = [p.get("n") or "p%d" % i for i, p in enumerate(fn.params)]
    this = None
    custom = getattr(contract, "make_arg", None)
    if fn.cls is not None and not fn.static and not fn.j.get("lambda"):
        tt = [t for t in ex.prog.types if t.k == "rec" and t.j["r"] == fn.cls.id]
        if tt and sorts.is_heap(tt[0]):
            p = z3.Int("this")
            facts += [p > 0]
            this = Ref(("h", p, fn.cls))
        else:
            root = ("t", fresh_id())
            mk = getattr(contract, "make_this", None)
            mk2 = getattr(contract, "make_this_st", None)
            v = mk2(ex, st, fn) if mk2 and not fn.ctor else mk(ex, fn) if mk else sorts.fresh(tt[0], "this")
            st.vars[root] = v
            facts += wf(sorts, tt[0], v)
            this = Ref(root)
    ex.entry_this = this
    for n, (nm, t) in enumerate(zip(names, fn.ptys())):
        if custom is not None:
            r = custom(ex, st, fn, n, t)
            if r is not None:
                args.append(r)
                continue
        if t.k == "ref":
            inner = t.to()
            if sorts.is_heap(inner):
                p = z3.Int(nm)
                facts.append(p > 0)
                args.append(Ref(("h", p, inner.rec())))
                continue
            v = sorts.fresh(inner, nm)
            facts += wf(sorts, inner, v)
            root = ("t", fresh_id())
            st.vars[root] = v
            args.append(Ref(root))
        elif t.k == "ptr" and not (t.to().k == "rec" and sorts.is_heap(t.to())) and t.to().k != "fn":
            # pointer to an array of unknown length
            el = sorts.fresh(t.to(), nm, (I,))
            ln = fconst(nm + ".len", I)
            root = ("t", fresh_id())
            v = Tree("vec", None, {"len": ln, "el": el})
            st.vars[root] = v
            facts.append(ln >= 0)
            args.append(Ref(root).i(z3.IntVal(0)))
        else:
            v = sorts.fresh(t, nm)
            facts += wf(sorts, t, v)
            args.append(v)
    st = st.assume(*facts)
    return st, args, this


def verify(prog, fn, contract, contracts, sorts, timeout=10000, axioms=(), debug=False, portfolio=True):
    """generate and discharge every obligation of one function against its contract"""
    t0 = time.time()
    contract.select(fn)   # (contracts may specialise themselves for the function)
    res = Result(fn.qn)
    res.loc = fn.loc
    res.sig = fn.sig
    o = dict(contract.opts)
    if o.get("uf"):
        import arith
        axioms = tuple(axioms) + tuple(arith.axioms())
    solver = vc.Solver(axioms, timeout)
    solver.race = o.get("race", False)
    if contract.cands:
        o["cands"] = contract.cands
    o.setdefault("debug", debug)
    cs = dict(contracts)
    ex = X.Exec(prog, sorts, solver, cs, o)
    ex.verifying = fn
    ex.current_target = fn.qn
    try:
        st, args, this = entry(ex, fn, contract)
        c = Ctx(ex, fn, args, this, st)
        ex.ctx = c
        st = st.assume(*contract.setup(c))
        c.st0 = st
        st = st.assume(*[p for _, p in named(contract.pre(c), "pre")])
        c.st0 = st
        if hasattr(contract, "init_state"):
            st = contract.init_state(c, st)
            c.st0 = st
        c.entry_pc = st.pc
        ex.ctx = c
        ex.sink.append([])
        fr = X.Frame(None, None, 0)
        outs = run_top(ex, st, fr, fn, this, args)
        th = ex.sink.pop()
        res.outcomes = len(outs) + len(th)
        posts = []
        for s, r in outs:
            c.st1, c.ret = s, r
            c.thrown = None
            for nm, g in named(contract.post(c), "postcondition"):
                posts.append(X.Obl("postcondition: " + nm, fn.loc, s.pc, g, "post", fn.qn))
        for s, x in th:
            if x.assertion and not contract.assert_throws:
                posts.append(X.Obl("assertion holds (%s)" % x.what.split("::")[-1], x.loc, s.pc, z3.BoolVal(False), "assert", fn.qn))
                continue
            if contract.throws_ok:
                if hasattr(contract, "post_throw"):
                    c.st1, c.ret, c.thrown = s, None, x
                    for nm, g in named(contract.post_throw(c), "exceptional postcondition"):
                        posts.append(X.Obl("exceptional postcondition: " + nm, x.loc, s.pc, g, "post", fn.qn))
                continue
            tw = contract.throw_when(c)
            posts.append(X.Obl("exception only when specified", x.loc, s.pc, tw if tw is not None else z3.BoolVal(False), "throw", fn.qn))
            if hasattr(contract, "post_throw"):
                c.st1, c.ret, c.thrown = s, None, x
                for nm, g in named(contract.post_throw(c), "exceptional postcondition"):
                    posts.append(X.Obl("exceptional postcondition: " + nm, x.loc, s.pc, g, "post", fn.qn))
        tw = contract.throw_when(c)
        if tw is not None and not contract.throws_ok:
            for s, r in outs:
                posts.append(X.Obl("exception thrown when specified", fn.loc, s.pc, z3.Not(tw), "throw", fn.qn))
        ex.obls += posts
        # vacuity: the precondition and at least one outcome must not be contradictory
        vac = False
        if solver.check_sat(list(c.entry_pc), 1500) == "unsat":
            vac = True
        live = 0
        for s, r in outs + [(a, b) for a, b in th if not b.assertion or contract.assert_throws]:
            if solver.check_sat(list(s.pc), 1500) != "unsat":
                live += 1
        res.vacuity = "vacuous" if vac or not live else "reachable (%d outcomes)" % live
        if vac or (not live):
            res.status = "vacuous"
        if o.get("uf"):
            for nm, f in arith.native():
                t1 = time.time()
                stt, model, be = vc.Solver((), timeout).prove([], f, 20000)
                res.obls.append({"name": "arithmetic lemma: " + nm, "loc": "-", "kind": "lemma", "status": "unknown" if stt == "cex" else stt, "backend": be, "ms": int(1000 * (time.time() - t1)), "detail": ""})
        for ob in ex.obls:
            t1 = time.time()
            stt, model, be = solver.prove(list(ob.hyps), ob.goal, timeout, portfolio=portfolio)
            if stt == "cex" and o.get("uf"):
                stt, model = "unknown", "a model of the abstracted arithmetic, not of the code"
            ob.status, ob.backend, ob.model = stt, be, model
            d = {"name": ob.name, "loc": ob.loc, "kind": ob.kind, "status": stt, "backend": be if stt == "proved" else None, "ms": int(1000 * (time.time() - t1))}
            if stt != "proved":
                d["detail"] = ("countermodel: " + model_str(model)) if stt == "cex" else "solver answer unknown (%s)" % model
                if debug:
                    print("   FAILED", d["name"], d["loc"], d["detail"][:150])
            res.obls.append(d)
        if res.status == "proved" and any(d["status"] != "proved" for d in res.obls):
            res.status = "failed"
        if not any(d["kind"] in ("post", "assert", "throw") for d in res.obls):
            if res.status == "proved":
                res.status = "vacuous"
    except Unsupported as u:
        res.status = "unsupported"
        res.error = str(u)[:600]
        if debug:
            import traceback
            traceback.print_exc()
    except RecursionError:
        res.status = "unsupported"
        res.error = "recursion limit"
    except Exception as u:  # an engine limitation, never a verdict about the code
        if debug:
            import traceback
            traceback.print_exc()
        res.status = "unsupported"
        res.error = "engine: %s: %s" % (type(u).__name__, str(u)[:400])
    res.seconds = time.time() - t0
    res.solver_s = solver.stats.time
    res.backends = dict(solver.stats.backend)
    res.inlined = sorted("%s (%s)" % (q, l.split("/repo/")[-1]) for q, l in ex.inlined if q != fn.qn)
    res.models = sorted(ex.used_models)
    res.contracts = sorted(ex.used_contracts)
    res.loops = [{"loc": str(l), "invariants": n, "candidates": k} for l, n, k in ex.loop_log]
    res.notes = sorted(ex.notes)
    return res


def run_top(ex, st, fr, fn, this, args):
    depth = 0
    nf = X.Frame(fn, this, depth)
    s = st.copy()
    for p, v, t in zip(fn.params, args, fn.ptys()):
        if t.k == "ref":
            s.vars[("v", nf.id, p["id"])] = X.RefAlias(v)
        else:
            s.vars[("v", nf.id, p["id"])] = v
    return ex.run_body(s, nf, fn, this)


def model_str(m):
    if m is None:
        return ""
    out = []
    for d in m.decls():
        n = d.name()
        if "!" in n and n.split("!")[0] in ("k", "q", "w", "e", "i"):
            continue
        try:
            out.append("%s = %s" % (n, str(m[d]).replace("\n", " ")[:160]))
        except Exception:
            pass
    return "; ".join(sorted(out))[:3000]
