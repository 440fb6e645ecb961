"""K01: the runtime interface of a loaded model.

Every generated function reached through a function pointer has an (assumed) contract: it may be called only when it
exists, with the caller's argument arrays in the documented order, each with as many elements as the generated code reads
or writes; its result is an uninterpreted function of the values it is given.  Those preconditions are obligations at each
call, so "wrong sizes are rejected before generated code runs" is proved for all dimensions, sizes and sparsity lists."""
from contract import *
from v01 import mkview, View, NS

CLS = NS + "FunctorGenericModel<double>::"
AR = z3.ArraySort(I, R)
AI = z3.ArraySort(I, I)
ASSUME = ["generated functions (reached through function pointers) read and write exactly the arrays of their documented sizes",
          "generated sparsity lists hold distinct (row, column) pairs within the dimensions of the matrix",
          "the model holds at least one dependent and one independent variable and m*n fits in size_t",
          "a failing library assertion (CPPADCG_ASSERT_KNOWN) rejects the call (ErrorHandler::Call does not return)"]

COUNT = {"zero": lambda m, n, z: m, "jacobian": lambda m, n, z: m * n, "hessian": lambda m, n, z: n * n, "sparseJacobian": lambda m, n, z: z, "sparseHessian": lambda m, n, z: z}
SPARSITY = ("jacobianSparsity", "hessianSparsity", "hessianSparsity2")


class K(Contract):
    assert_throws = True
    inline_in = staticmethod(lambda ex, fn: True)
    fun = None          # generated function called
    ins = ()            # argument numbers passed to it, in order
    out = None          # argument number of the result
    sizes = None        # {argument: expected size}
    single = True       # requires a single array of independents
    exact = True
    sp = None           # sparsity function used
    dims = "mn"

    def select(self, fn):
        return True

    def make_arg(self, ex, st, fn, k, t):
        if t.deref().k == "rec" and t.deref().rec().name == NS + "ArrayView":
            v, _, _, _ = mkview(ex, st, t.deref(), "a%d" % k)
            if t.k != "ref":
                return v
            r = ("t", fresh_id())
            st.vars[r] = v
            return Ref(r)
        if t.k == "ptr" and t.to().k == "ptr":      # a pointer to be set
            r = ("t", fresh_id())
            st.vars[r] = z3.Int("old%d" % k)
            return Ref(r)
        return None

    def view(self, c, k, st=None):
        st = st or c.st0
        v = c.args[k]
        if isinstance(v, Ref):
            v = c.ex.read(st, v)
        return View(c, st, v)

    def isview(self, c, k):
        t = c.fn.ptys()[k].deref()
        return t.k == "rec" and t.rec().name == NS + "ArrayView"

    def arr(self, c, k, st=None):
        """(elements, offset, size) of an array argument, its first-element address"""
        st = st or c.st0
        if self.isview(c, k):
            v = self.view(c, k, st)
            return v.st["el"], v.off, v.n, v.d
        t = c.fn.ptys()[k]
        if t.k == "ptr":
            v = c.ex.read(st, Ref(c.args[k].root))
            return v["el"], z3.IntVal(0), v["len"], c.args[k]
        v = c.ex.read(st, c.args[k])
        return v["el"], z3.IntVal(0), v["len"], c.args[k].i(z3.IntVal(0))

    def pre(self, c):
        m, n = c.to("_m"), c.to("_n")
        nin = c.to("_in")["len"]
        p = [m >= 1, n >= 1, m < 2 ** 30, n < 2 ** 30, m * n < 2 ** 61, n * n < 2 ** 61, m * n >= 1, nin >= 1, c.to("_inHess")["len"] == nin + 1, c.to("_out")["len"] >= 1]
        for a, b in (("_sparseJacobian", "_jacobianSparsity"), ("_sparseHessian", "_hessianSparsity")):
            p.append(z3.Or(c.to(a) == 0, c.to(b) > 0))
        for a, b in (("_sparseForwardOne", "_forwardOneSparsity"), ("_sparseReverseOne", "_reverseOneSparsity"), ("_sparseReverseTwo", "_reverseTwoSparsity")):
            p.append((c.to(a) == 0) == (c.to(b) == 0))
        for f in ("_zero", "_jacobian", "_hessian", "_forwardOne", "_reverseOne", "_reverseTwo", "_sparseForwardOne", "_sparseReverseOne", "_sparseReverseTwo", "_sparseJacobian", "_sparseHessian"):
            p.append(c.to(f) >= 0)
        for k in range(len(c.args)):
            if self.isview(c, k):
                p += self.view(c, k).ok()
        return p + self.lists(c)

    # -- the generated sparsity lists
    def lists(self, c):
        if not self.sp:
            return []
        m, n = (c.to("_m") if self.dims[0] == "m" else c.to("_n")), c.to("_n")
        z, r, q = self.nnz, self.rows, self.cols
        return [z >= 0, z < 2 ** 60, forall(I, lambda k: imp(inr(k, z), z3.And(inr(r[k], m), inr(q[k], n), self.sinv(r[k], q[k]) == k)), lambda k: [r[k], q[k]]),
                # consequences for the position in a dense matrix (distinct pairs within the dimensions have distinct positions within m*n)
                forall(I, lambda k: imp(inr(k, z), z3.And(inr(r[k] * n + q[k], m * n), self.pinv(r[k] * n + q[k]) == k)), lambda k: [r[k], q[k]])]

    def init_state(self, c, st):
        ex = c.ex
        ex.models = dict(ex.models)
        ex.models["icall"] = lambda ex, st, fr, f, args, e: self.icall(c, ex, st, f, args, e)
        st = st.copy()
        self.rroot, self.croot = ("t", fresh_id()), ("t", fresh_id())
        st.vars[self.rroot] = Tree("vec", None, {"len": self.nnz, "el": self.rows})
        st.vars[self.croot] = Tree("vec", None, {"len": self.nnz, "el": self.cols})
        return st

    nnz, rows, cols = z3.Int("nnz"), z3.Const("rows", AI), z3.Const("cols", AI)
    sinv, pinv = z3.Function("sinv", I, I, I), z3.Function("pinv", I, I)
    rcode = z3.Int("generated.ret")

    def at(self, c, q, n=None):
        """list position of dense position q, and whether there is one"""
        n = c.to("_n")
        k = self.pinv(q)
        return k, z3.And(inr(k, n), True) if False else z3.And(inr(k, self.nnz), self.rows[k] * n + self.cols[k] == q)

    # -- generated code
    def icall(self, c, ex, st, f, args, e):
        f = ex.ref2int(f) if isinstance(f, Ref) else f
        nm = [x for x in COUNT if f.eq(c.to("_" + x))] + [x for x in ("forwardOne", "reverseOne", "reverseTwo", "sparseForwardOne", "sparseReverseOne", "sparseReverseTwo", "forwardOneSparsity", "reverseOneSparsity", "reverseTwoSparsity") + SPARSITY if f.eq(c.to("_" + x))]
        if len(nm) != 1:
            raise Unsupported("call through an unknown function pointer")
        nm = nm[0]
        loc = ex.locs(e.get("l"))
        st = ex.oblige(st, f > 0, "generated function exists", loc, "pre")
        self.called = nm
        if nm in SPARSITY:
            if nm == "hessianSparsity2":
                st = ex.oblige(st, args[0] == c.o(0), "sparsity of the requested equation", loc, "pre")
                args = args[1:]
            st = ex.oblige(st, z3.BoolVal(nm == self.sp), "sparsity of the right matrix", loc, "pre")
            for a, v in zip(args, (Ref(self.rroot).i(z3.IntVal(0)), Ref(self.croot).i(z3.IntVal(0)), self.nnz)):
                st = ex.write(st, a, v)
            return [(st, None)]
        return self.generated(c, ex, st, nm, args, loc)

    def generated(self, c, ex, st, nm, args, loc):
        st = ex.oblige(st, z3.BoolVal(nm == self.fun), "the generated function of this method is called", loc, "pre")
        ip, op = args[0], args[1]
        ins = []
        for pos, k in enumerate(self.ins):
            if c.fn.ptys()[k].deref().k == "rec" and self.ptrs(c, k):
                v = ex.read(st, c.args[k])
                if isinstance(ip, Ref) and X.refeq(ip.acc and Ref(ip.root, ip.acc[:-1]), c.args[k]):
                    st = ex.oblige(st, z3.And(ip.acc[-1][1] == 0, v["len"] == c.to("_in")["len"]), "all arrays of independents are passed", loc, "pre")
                else:
                    j = z3.Int("j")
                    w = ex.read(st, Ref(ip.root, ip.acc[:-1]))
                    st = ex.oblige(st, z3.And(ip.acc[-1][1] == 0, forall(I, lambda j: imp(inr(j, v["len"]), w["el"][j] == v["el"][j]))), "all arrays of independents are passed in order", loc, "pre")
                    st = ex.oblige(st, v["len"] == c.to("_in")["len"], "number of arrays of independents", loc, "pre")
                    base = Ref(ip.root, ip.acc[:-1]).i(v["len"])
                ins += [v["el"]]
                last = v["len"]
                continue
            el, off, n, addr = self.arr(c, k, st)
            el0, off0, n0, _ = self.arr(c, k)
            p = ex.read(st, Ref(ip.root, ip.acc[:-1]).i(last if any(self.ptrs(c, x) for x in self.ins) else z3.IntVal(pos)))
            want = ex.ref2int(addr)
            st = ex.oblige(st, (ex.ref2int(p) if isinstance(p, Ref) else p) == want, "input array %d of the generated function is the caller's" % pos, loc, "pre")
            need = self.need(c, k)
            st = ex.oblige(st, n == need, "input array %d of the generated function has the size it reads" % pos, loc, "pre")
            ins += [el, off]
        o = ex.read(st, op)
        o = o if isinstance(o, Ref) else ex.int2ref(o)
        if o is None:
            raise Unsupported("unknown destination of generated code")
        sref, off = Ref(o.root, o.acc[:-1]), o.acc[-1][1]
        s = ex.read(st, sref)
        L = COUNT[nm](c.to("_m"), c.to("_n"), self.nnz)
        st = ex.oblige(st, z3.And(off >= 0, off + L <= s["len"]), "output array of the generated function has the size it writes", loc, "pre")
        el = fconst("generated", s["el"].sort())
        st = st.assume(forall(I, lambda k: imp(inr(k, s["len"]), el[k] == z3.If(inr(k, off + L, off), self.F(nm, ins)(k - off), s["el"][k])), lambda k: [el[k]]))
        return [(ex.write(st, sref, s.with_(el=el)), None)]

    def ptrs(self, c, k):
        """argument is a list of arrays"""
        t = c.fn.ptys()[k].deref()
        return t.k == "rec" and t.rec().name == "std::vector" and t.rec().targ(0).k == "ptr"

    def F(self, nm, ins):
        f = z3.Function("gen_%s_%d" % (nm, len(ins)), *([x.sort() for x in ins] + [I, R]))
        return lambda k: f(*(list(ins) + [k]))

    def value(self, c):
        """the values generated code computes from the caller's arguments"""
        ins = []
        for k in self.ins:
            if self.ptrs(c, k):
                ins += [c.o(k)["el"]]
            else:
                el, off, n, _ = self.arr(c, k)
                ins += [el, off]
        return self.F(self.fun, ins)

    def need(self, c, k):
        return self.want(c)[k]

    def want(self, c):
        """expected sizes of the array arguments"""
        return {}

    def common(self, c):
        return [c.to("_isLibraryReady"), c.to("_missingAtomicFunctions") == 0] + ([c.to("_in")["len"] == 1] if self.single else []) + [c.to("_" + f) > 0 for f in [self.fun] if f]

    def throw_when(self, c):
        ok = self.common(c) + [self.arr(c, k)[2] == v for k, v in self.want(c).items()] + self.more_ok(c)
        return z3.Not(z3.And(ok))

    def more_ok(self, c):
        return []

    def frame_model(self, c):
        return [("dimensions and state unchanged", z3.And(c.tn("_m") == c.to("_m"), c.tn("_n") == c.to("_n"), c.tn("_in")["len"] == c.to("_in")["len"], c.tn("_inHess")["len"] == c.to("_inHess")["len"], c.tn("_out")["len"] == c.to("_out")["len"], c.tn("_isLibraryReady") == c.to("_isLibraryReady")))]

    def keep(self, c, k):
        """view argument k: only its elements change"""
        a, b = self.view(c, k), self.view(c, k, c.st1)
        return ("nothing outside the result array changes", z3.And(b.st["len"] == a.st["len"], forall(I, lambda j: imp(z3.And(inr(j, a.st["len"]), z3.Not(inr(j, a.off + a.n, a.off))), b.st["el"][j] == a.st["el"][j]))))

    def filled(self, c, k, L, f, name):
        a, b = self.view(c, k), self.view(c, k, c.st1)
        return (name, forall(I, lambda j: imp(inr(j, L), b.st["el"][b.off + j] == f(j))))


class Dense(K):
    """methods which hand the caller's arrays to the generated function"""
    qn = [CLS + "ForwardZero", CLS + "Jacobian", CLS + "Hessian"]

    def select(self, fn):
        n = len(fn.params)
        self.cfg = {("ForwardZero", 2): ("zero", (0,), 1), ("Jacobian", 2): ("jacobian", (0,), 1), ("Hessian", 3): ("hessian", (0, 1), 2), ("ForwardZero", 4): ("zero", (2,), 3)}.get((fn.name, n))
        if self.cfg is None:
            return False
        self.fun, self.ins, self.out = self.cfg
        t = fn.ptys()[0].deref()
        self.single = not (t.rec().name == "std::vector")
        self.bools = n == 4
        self.sp = "jacobianSparsity" if self.bools else None
        return True

    def pre(self, c):
        p = K.pre(self, c)
        if self.bools:
            p += [c.to("_jacobianSparsity") > 0]
        return p

    def want(self, c):
        m, n = c.to("_m"), c.to("_n")
        d = {self.out: COUNT[self.fun](m, n, None)}
        for pos, k in enumerate(self.ins):
            if not self.ptrs(c, k):
                d[k] = n if pos == 0 else m
        return d

    def more_ok(self, c):
        out = []
        if not self.single:
            out.append(c.o(0)["len"] == c.to("_in")["len"])
        if self.bools:
            out += [z3.Or(c.o(0)["len"] == 0, z3.And(c.o(0)["len"] >= c.to("_n"), c.o(1)["len"] >= c.to("_m")))]
        return out

    def post(self, c):
        L = self.want(c)[self.out]
        out = [self.filled(c, self.out, L, self.value(c), "the generated values, each at its position"), self.keep(c, self.out)] + self.frame_model(c)
        if self.bools:
            vx, vy, wy = c.o(0), c.o(1), c.n(1)
            m = c.to("_m")
            out.append(("size of the variable flags unchanged", wy["len"] == vy["len"]))
            isv = lambda i: exists(I, lambda k: z3.And(inr(k, self.nnz), self.rows[k] == i, vx["el"][self.cols[k]]))
            out.append(("a dependent is a variable when one of the independents in its row is", imp(vx["len"] > 0, forall(I, lambda i: imp(inr(i, m), wy["el"][i] == z3.Or(vy["el"][i], isv(i)))))))
            out.append(("flags untouched when not requested", imp(vx["len"] == 0, forall(I, lambda i: imp(inr(i, vy["len"]), wy["el"][i] == vy["el"][i])))))
        return out

    def cands(self, L):
        return sets_cands(self, L) + (flag_cands(self, L) if self.bools else [])


def sets_cands(self, L):
    c = L.ex.ctx
    out = []
    n = c.to("_n")
    for r in L.ints():
        for t in L.trees("vec"):
            v = L.st0.vars[t] if t in L.st0.vars else None
            if not isinstance(v, Tree) or not isinstance(v["el"], (Tree, z3.ExprRef)):
                continue
            if isinstance(v["el"], Tree) and v["el"].kind == "set":
                out.append(("sets hold the first list elements", lambda st, r=r, t=t: forall([I, I], lambda i, j: z3.Select(z3.Select(st.vars[t]["el"]["dom"], i), j) == z3.And(inr(self.sinv(i, j), st.vars[r]), self.rows[self.sinv(i, j)] == i, self.cols[self.sinv(i, j)] == j))))
            elif isz(v["el"]) and v["el"].sort() == z3.ArraySort(I, B):
                out.append(("flags of the first list elements", lambda st, r=r, t=t: forall(I, lambda q: st.vars[t]["el"][q] == z3.And(inr(self.pinv(q), st.vars[r]), self.rows[self.pinv(q)] * n + self.cols[self.pinv(q)] == q))))
    return out


def flag_cands(self, L):
    return []


class Spars(K):
    """sparsity queries"""
    qn = [CLS + x + y for x in ("Jacobian", "Hessian") for y in ("SparsityBool", "SparsitySet", "Sparsity")]

    def select(self, fn):
        k = len([p for p in fn.params])
        eq = fn.ptys()[0].k == "int" if k else False
        self.sp = "jacobianSparsity" if fn.name.startswith("Jac") else "hessianSparsity2" if eq else "hessianSparsity"
        self.dims = "mn" if fn.name.startswith("Jac") else "nn"
        self.base = 1 if eq else 0
        return True

    def pre(self, c):
        return K.pre(self, c) + [c.to("_" + self.sp) >= 0]

    def throw_when(self, c):
        return z3.Not(z3.And(c.to("_isLibraryReady"), c.to("_" + self.sp) > 0))

    def post(self, c):
        n = c.to("_n")
        m = c.to("_m") if self.dims == "mn" else n
        if c.fn.name.endswith("Bool"):
            v = c.rv()
            return [("size", v["len"] == m * n), ("exactly the listed elements", forall(I, lambda q: imp(inr(q, m * n), v["el"][q] == self.at(c, q)[1])))]
        if c.fn.name.endswith("Set"):
            v = c.rv()
            return [("size", v["len"] == m), ("exactly the listed elements", forall([I, I], lambda i, j: imp(inr(i, m), z3.Select(z3.Select(v["el"]["dom"], i), j) == z3.And(inr(self.sinv(i, j), self.nnz), self.rows[self.sinv(i, j)] == i, self.cols[self.sinv(i, j)] == j))))]
        a, b = c.n(self.base), c.n(self.base + 1)
        return [("sizes", z3.And(a["len"] == self.nnz, b["len"] == self.nnz)), ("rows", forall(I, lambda k: imp(inr(k, self.nnz), a["el"][k] == self.rows[k]))), ("columns", forall(I, lambda k: imp(inr(k, self.nnz), b["el"][k] == self.cols[k])))]

    def cands(self, L):
        return sets_cands(self, L)


class Sparse(K):
    """sparse Jacobian and Hessian evaluation"""
    qn = [CLS + "SparseJacobian", CLS + "SparseHessian"]

    def select(self, fn):
        hes = fn.name == "SparseHessian"
        self.hes = hes
        self.fun = "sparseHessian" if hes else "sparseJacobian"
        self.sp = "hessianSparsity" if hes else "jacobianSparsity"
        self.dims = "nn" if hes else "mn"
        self.ins = (0, 1) if hes else (0,)
        self.out = len(self.ins)
        n = len(fn.params) - self.out
        t = fn.ptys()[0].deref()
        vec = t.rec().name == "std::vector"
        self.multi = vec and t.rec().targ(0).k == "ptr"
        self.single = not self.multi
        self.form = "dense" if n == 1 else "vectors" if vec and not self.multi else "lists"
        return True

    def want(self, c):
        m, n = c.to("_m"), c.to("_n")
        d = {}
        for pos, k in enumerate(self.ins):
            if not self.ptrs(c, k):
                d[k] = n if pos == 0 else m
        if self.form == "dense":
            d[self.out] = n * n if self.hes else m * n
        elif self.form == "lists":
            d[self.out] = self.nnz
        return d

    def more_ok(self, c):
        return [c.o(0)["len"] == c.to("_in")["len"]] if self.multi else []

    def post(self, c):
        m, n = c.to("_m"), c.to("_n")
        f = self.value(c)
        out = self.frame_model(c)
        if self.form == "dense":
            def val(q):
                k, has = self.at(c, q)
                return z3.If(has, f(k), 0)
            return out + [self.filled(c, self.out, (n * n if self.hes else m * n), val, "each value at the position given by its row and column, zero elsewhere"), self.keep(c, self.out)]
        if self.form == "vectors":
            a, r, q = c.n(self.out), c.n(self.out + 1), c.n(self.out + 2)
            return out + [("sizes", z3.And(a["len"] == self.nnz, r["len"] == self.nnz, q["len"] == self.nnz)),
                          ("values", forall(I, lambda k: imp(inr(k, self.nnz), a["el"][k] == f(k)))), ("rows", forall(I, lambda k: imp(inr(k, self.nnz), r["el"][k] == self.rows[k]))), ("columns", forall(I, lambda k: imp(inr(k, self.nnz), q["el"][k] == self.cols[k])))]
        out += [self.filled(c, self.out, self.nnz, f, "values in list order"), self.keep(c, self.out)]
        for k, r in ((self.out + 1, self.rroot), (self.out + 2, self.croot)):
            v = c.ex.read(c.st1, c.args[k])
            out.append(("index list returned", (c.ex.ref2int(v) if isinstance(v, Ref) else v) == c.ex.ref2int(Ref(r).i(z3.IntVal(0)))))
        return out

    def cands(self, L):
        c = L.ex.ctx
        out = sets_cands(self, L)
        if self.form == "dense":
            n = c.to("_n")
            f = self.value(c)
            a = self.view(c, self.out)
            for r in L.ints():
                def done(st, r=r):
                    w = self.view(c, self.out, st)
                    return forall(I, lambda j: imp(inr(j, a.st["len"]), w.st["el"][j] == z3.If(inr(j, a.off + a.n, a.off), z3.If(z3.And(inr(self.pinv(j - a.off), st.vars[r]), self.rows[self.pinv(j - a.off)] * n + self.cols[self.pinv(j - a.off)] == j - a.off), f(self.pinv(j - a.off)), 0), a.st["el"][j])))
                out.append(("values stored so far", done))
        return out


class Dir(K):
    """directional derivatives on dense arrays"""
    qn = [CLS + "ForwardOne", CLS + "ReverseOne", CLS + "ReverseTwo"]

    def select(self, fn):
        n = len(fn.params)
        self.cfg = {("ForwardOne", 2): ("forwardOne", (0, 1), (1,), 2), ("ReverseOne", 4): ("reverseOne", (0, 1, 2, 3), (2,), 1), ("ReverseTwo", 4): ("reverseTwo", (0, 1, 2, 3), (2,), 2)}.get((fn.name, n))
        if self.cfg is None:
            return False
        self.fun, self.all, self.outs, self.k1 = self.cfg
        self.single = fn.name == "ReverseTwo"
        return True

    def want(self, c):
        return {}

    def sizes_(self, c):
        m, n = c.to("_m"), c.to("_n")
        ms = {"forwardOne": (n, m), "reverseOne": (n, m, n, m), "reverseTwo": (n, m, n, m)}[self.fun]
        return [self.k1 * x for x in ms]

    def more_ok(self, c):
        return [self.view(c, k).n >= s for k, s in zip(self.all, self.sizes_(c))] + [self.rcode == 0]

    def value(self, c, st=None):
        ins = []
        for k in self.all:
            if k not in self.outs:
                v = self.view(c, k, st)
                ins += [v.st["el"], v.off]
        return self.F(self.fun, ins)

    def generated(self, c, ex, st, nm, args, loc):
        st = ex.oblige(st, z3.BoolVal(nm == self.fun), "the generated function of this method is called", loc, "pre")
        f = self.value(c, st)
        for k, (s, a) in enumerate(zip(self.sizes_(c), args)):
            v = self.view(c, k, st)
            a = a if isinstance(a, Ref) else ex.int2ref(a)
            ok = a is not None and X.refeq(Ref(a.root, a.acc[:-1]), v.sref)
            st = ex.oblige(st, z3.And(a.acc[-1][1] == v.off, v.n >= s) if ok else z3.BoolVal(False), "argument %d of the generated function is the caller's array and large enough" % k, loc, "pre")
        for k in self.outs:
            v = self.view(c, k, st)
            L = self.sizes_(c)[k]
            el = fconst("generated", v.st["el"].sort())
            st = st.assume(forall(I, lambda j: imp(inr(j, v.st["len"]), el[j] == z3.If(inr(j, v.off + L, v.off), f(j - v.off), v.st["el"][j])), lambda j: [el[j]]))
            st = ex.write(st, v.sref, v.st.with_(el=el))
        return [(st, self.rcode)]

    def post(self, c):
        k = self.outs[0]
        return [self.filled(c, k, self.sizes_(c)[k], self.value(c), "the generated values"), self.keep(c, k)] + self.frame_model(c)


class SpDir(K):
    """directional derivatives for sparse seeds: the sum of the generated contributions of every seed entry"""
    qn = [CLS + "ForwardOne", CLS + "ReverseOne", CLS + "ReverseTwo"]
    opts = {"houdini_ms": 1000}
    cost = 60
    A = z3.Function("acc", I, I, R)
    pos = z3.Function("pos", I, AI)
    cnt = z3.Function("cnt", I, I)
    inv = z3.Function("posinv", I, I, I)

    def select(self, fn):
        n = len(fn.params)
        # function, x, number, idx, seed values, result, extra input
        self.cfg = {("ForwardOne", 5): ("sparseForwardOne", "forwardOneSparsity", 0, 1, 2, 3, 4, None), ("ReverseOne", 5): ("sparseReverseOne", "reverseOneSparsity", 0, 2, 3, 4, 1, None), ("ReverseTwo", 6): ("sparseReverseTwo", "reverseTwoSparsity", 0, 1, 2, 3, 4, 5)}.get((fn.name, n))
        if self.cfg is None:
            return False
        self.fun, self.spf, self.ax, self.an, self.ai, self.as_, self.out, self.extra = self.cfg
        self.single = False
        return True

    def dim(self, c):
        """(number of possible seeds, size of the result)"""
        m, n = c.to("_m"), c.to("_n")
        return {"sparseForwardOne": (n, m), "sparseReverseOne": (m, n), "sparseReverseTwo": (n, n)}[self.fun]

    def idx(self, c, e):
        return c.ex.read(c.st0, Ref(c.args[self.ai].root))["el"][e]

    def seed(self, c, e):
        return c.ex.read(c.st0, Ref(c.args[self.as_].root))["el"][e]

    def G(self, c):
        x = self.view(c, self.ax)
        ins = [x.st["el"], x.off]
        if self.extra is not None:
            w = self.view(c, self.extra)
            ins += [w.st["el"], w.off]
        f = z3.Function("gen_" + self.fun, *([t.sort() for t in ins] + [I, R, I, R]))
        return lambda j, s, k: f(*(ins + [j, s, k]))

    def contrib(self, c, e, i):
        j = self.idx(c, e)
        k = self.inv(j, i)
        return z3.If(z3.And(inr(k, self.cnt(j)), self.pos(j)[k] == i), self.G(c)(j, self.seed(c, e), k), 0)

    def pre(self, c):
        D, N = self.dim(c)
        nn = c.o(self.an)
        a, b = (c.ex.read(c.st0, Ref(c.args[k].root))["len"] for k in (self.ai, self.as_))
        return K.pre(self, c) + [c.to("_in")["len"] == 1, nn <= a, nn <= b, nn < 2 ** 60, forall(I, lambda e: imp(inr(e, nn), inr(self.idx(c, e), D))),
                                 forall(I, lambda j: z3.And(self.cnt(j) >= 0, self.cnt(j) <= N), lambda j: [self.cnt(j)]),
                                 forall([I, I], lambda j, k: imp(inr(k, self.cnt(j)), z3.And(inr(self.pos(j)[k], N), self.inv(j, self.pos(j)[k]) == k)), lambda j, k: [self.pos(j)[k]]),
                                 forall(I, lambda i: self.A(0, i) == 0, lambda i: [self.A(0, i)])]

    def want(self, c):
        return {}

    def more_ok(self, c):
        m, n = c.to("_m"), c.to("_n")
        return [self.view(c, self.ax).n >= n, self.view(c, self.out).n >= self.dim(c)[1], c.to("_" + self.spf) > 0] + ([self.view(c, self.extra).n >= m] if self.extra is not None else [])

    def icall(self, c, ex, st, f, args, e):
        f = ex.ref2int(f) if isinstance(f, Ref) else f
        loc = ex.locs(e.get("l"))
        if f.eq(c.to("_" + self.spf)):
            j = args[0]
            r = ("t", fresh_id())
            st = st.copy()
            st.vars[r] = Tree("vec", None, {"len": self.cnt(j), "el": self.pos(j)})
            st = ex.oblige(st, inr(j, self.dim(c)[0]), "seed index within the dimension", loc, "pre")
            st = ex.write(st, args[1], Ref(r).i(z3.IntVal(0)))
            return [(ex.write(st, args[2], self.cnt(j)), None)]
        st = ex.oblige(st, z3.BoolVal(bool(f.eq(c.to("_" + self.fun)))), "the generated function of this method is called", loc, "pre")
        st = ex.oblige(st, f > 0, "generated function exists", loc, "pre")
        j, ip, op = args[0], args[1], args[2]
        inp = lambda k: ex.read(st, Ref(ip.root, ip.acc[:-1]).i(ip.acc[-1][1] + k))
        addr = lambda v: ex.ref2int(v) if isinstance(v, Ref) else v
        x = self.view(c, self.ax, st)
        st = ex.oblige(st, z3.And(addr(inp(0)) == ex.ref2int(x.d), x.n >= c.to("_n")), "independents passed first", loc, "pre")
        if self.extra is not None:
            w = self.view(c, self.extra, st)
            st = ex.oblige(st, z3.And(addr(inp(2)) == ex.ref2int(w.d), w.n >= c.to("_m")), "multipliers passed third", loc, "pre")
        ee = z3.simplify(addr(inp(1)) - ex.ref2int(Ref(c.args[self.as_].root).i(z3.IntVal(0))))
        st = ex.oblige(st, z3.And(inr(ee, c.o(self.an)), self.idx(c, ee) == j), "seed value of the seed index passed second", loc, "pre")
        o = ex.read(st, op)
        o = o if isinstance(o, Ref) else ex.int2ref(o)
        if o is None:
            raise Unsupported("unknown destination of generated code")
        sref, off = Ref(o.root, o.acc[:-1]), o.acc[-1][1]
        s = ex.read(st, sref)
        st = ex.oblige(st, z3.And(off >= 0, off + self.cnt(j) <= s["len"]), "output array has room for every value", loc, "pre")
        el = fconst("generated", s["el"].sort())
        st = st.assume(forall(I, lambda k: imp(inr(k, s["len"]), el[k] == z3.If(inr(k, off + self.cnt(j), off), self.G(c)(j, self.seed(c, ee), k - off), s["el"][k])), lambda k: [el[k]]),
                       forall(I, lambda i: self.A(ee + 1, i) == self.A(ee, i) + self.contrib(c, ee, i), lambda i: [self.A(ee + 1, i)]))
        return [(ex.write(st, sref, s.with_(el=el)), z3.IntVal(0))]

    def post(self, c):
        N = self.dim(c)[1]
        return [self.filled(c, self.out, N, lambda i: self.A(c.o(self.an), i), "the sum of the contributions of every seed entry"), self.keep(c, self.out)] + self.frame_model(c)

    def cands(self, L):
        c = L.ex.ctx
        N = self.dim(c)[1]
        out = []
        a = self.view(c, self.out)
        rest = lambda st: forall(I, lambda q: imp(z3.And(inr(q, a.st["len"]), z3.Not(inr(q, a.off + N, a.off))), self.view(c, self.out, st).st["el"][q] == a.st["el"][q]))
        out.append(("rest of the result unchanged", rest))
        mods = [r for r in L.ints() if L.is_mod(r)]
        for r in mods:
            out.append(("sum over the seeds so far", lambda st, r=r: forall(I, lambda i: imp(inr(i, N), self.view(c, self.out, st).st["el"][a.off + i] == self.A(st.vars[r], i)))))
        # inner loop: values added so far on top of the state on entry to the loop
        L0 = L.st0
        w0 = self.view(c, self.out, L0)
        js = []
        for root, v in L0.vars.items():
            if isinstance(v, Tree) and v.kind == "vec" and isz(v["el"]) and z3.is_app(v["el"]) and v["el"].decl().eq(self.pos(z3.IntVal(0)).decl()):
                js.append(v["el"].arg(0))
        o = L.ex.int2ref(L.ex.read(L0, c.this.f("_out", c.fn.cls).i(z3.IntVal(0))))
        if js and o is not None:
            j, comp = js[-1], L.ex.read(L0, Ref(o.root, o.acc[:-1]))
            for r in mods:
                def add(st, r=r):
                    k = lambda i: self.inv(j, i)
                    return forall(I, lambda i: imp(inr(i, N), self.view(c, self.out, st).st["el"][a.off + i] == w0.st["el"][a.off + i] + z3.If(z3.And(inr(k(i), st.vars[r]), self.pos(j)[k(i)] == i), comp["el"][k(i)], 0)))
                out.append(("values of this seed added so far", add))
        return out


class Query(K):
    """dimensions and availability"""
    qn = [CLS + x for x in ("Domain", "Range", "isForwardZeroAvailable", "isJacobianAvailable", "isHessianAvailable", "isForwardOneAvailable", "isReverseOneAvailable", "isReverseTwoAvailable", "isSparseJacobianAvailable", "isSparseHessianAvailable",
                            "isSparseForwardOneAvailable", "isSparseReverseOneAvailable", "isSparseReverseTwoAvailable", "isJacobianSparsityAvailable", "isHessianSparsityAvailable", "isEquationHessianSparsityAvailable")]
    NEED = {"SparseJacobian": ["_jacobianSparsity", "_sparseJacobian"], "SparseHessian": ["_hessianSparsity", "_sparseHessian"], "SparseForwardOne": ["_forwardOneSparsity", "_sparseForwardOne"], "SparseReverseOne": ["_reverseOneSparsity", "_sparseReverseOne"],
            "SparseReverseTwo": ["_sparseReverseTwo", "_reverseTwoSparsity"], "ForwardZero": ["_zero"], "EquationHessianSparsity": ["_hessianSparsity2"]}

    def throw_when(self, c):
        return None

    def post(self, c):
        nm = c.fn.name
        if nm in ("Domain", "Range"):
            return [("dimension", c.rv() == c.to("_n" if nm == "Domain" else "_m"))]
        nm = nm[2:-9]
        fs = self.NEED.get(nm) or ["_" + nm[0].lower() + nm[1:]]
        return [("available exactly when all generated functions it needs exist", c.rv() == z3.And([c.to(f) != 0 for f in fs]))]


SPECS = [Query(), Spars(), Dense(), Sparse(), Dir(), SpDir()]
