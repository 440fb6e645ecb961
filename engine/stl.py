"""Trusted contracts (models) of the standard library and CppAD containers used by the code under verification."""
import z3
from val import *
import exec as X
import vc as _vc

UMAX = 2 ** 64 - 1


def zb(x):
    return z3.BoolVal(x)


def cont(ex, st, this):
    v = ex.read(st, this)
    if not isinstance(v, Tree):
        raise Unsupported("container expected, got %r" % (v,))
    return v


def val(ex, st, fn, args, n):
    a = args[n]
    if isinstance(a, Ref) and n < len(fn.ptys()) and fn.ptys()[n].k == "ref":
        return ex.read(st, a)
    return a


def loc(ex, e):
    return ex.locs(e.get("l"))


# ------------------------------------------------------------------ finite sets: uninterpreted functions + axioms
def sname(s):
    return str(s).replace(" ", "")


def setfn(ex, name, ks, *more):
    """(D, ...) -> value.  The facts that define it are instantiated by the solver layer for every application"""
    D = z3.ArraySort(ks, B)
    rng = {"card": I, "empty": B, "first": ks, "last": ks, "next": ks, "nextend": B, "prev": ks, "prevend": B, "nth": ks, "rank": I}[name]
    f = z3.Function("%s_%s" % (name, sname(ks)), *([D] + list(more) + [rng]))
    nm = f.name()
    if nm not in _vc.HANDLERS:
        _vc.HANDLERS[nm] = (name, lambda a, name=name, ks=ks: set_facts(ex, name, ks, a))
        if not (ks == I or ks == R) and ks.kind() != z3.Z3_DATATYPE_SORT:
            _vc.SORT_AXIOMS.setdefault(sname(ks), lt_axioms(ks))
    return f


def set_facts(ex, name, ks, a):
    d = a[0]
    k = z3.Const("k!a", ks)
    A = z3.ForAll
    inn = lambda x: z3.Select(d, x)
    F = lambda n, *xs: setfn(ex, n, ks, *([ks] * len(xs)))(d, *xs)
    out = []
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE and name in ("card", "empty"):
        cc, da, db = d.children()
        return [F(name) == z3.If(cc, setfn(ex, name, ks)(da), setfn(ex, name, ks)(db))]
    if name == "card":
        c, em, fi = F("card"), F("empty"), F("first")
        out += [c >= 0, (c == 0) == em,
                z3.Implies(c == 1, A([k], z3.Implies(inn(k), k == fi))),
                z3.Implies(z3.And(z3.Not(em), A([k], z3.Implies(inn(k), k == fi))), c == 1)]
        # adding / removing an element
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE:
            b, key, v = d.children()
            cb = setfn(ex, "card", ks)(b)
            out += [z3.Implies(v, c == cb + z3.If(z3.Select(b, key), 0, 1)), z3.Implies(z3.Not(v), c == cb - z3.If(z3.Select(b, key), 1, 0))]
    elif name == "empty":
        out += [z3.If(F("empty"), A([k], z3.Not(inn(k))), inn(F("first")))]
    elif name == "first":
        out += [A([k], z3.Implies(inn(k), z3.And(inn(F("first")), z3.Not(lt(k, F("first"))))))]
    elif name == "last":
        out += [A([k], z3.Implies(inn(k), z3.And(inn(F("last")), z3.Not(lt(F("last"), k))))), z3.If(F("empty"), True, inn(F("last")))]
    elif name == "nextend":
        p = a[1]
        nx = F("next", p)
        out += [z3.If(F("nextend", p), A([k], z3.Implies(inn(k), z3.Not(lt(p, k)))), z3.And(inn(nx), lt(p, nx)))]
    elif name == "next":
        p = a[1]
        nx = F("next", p)
        out += [A([k], z3.Implies(z3.And(inn(k), lt(p, k)), z3.And(inn(nx), lt(p, nx), z3.Not(lt(k, nx)))))]
    elif name == "prevend":
        p = a[1]
        nx = F("prev", p)
        out += [z3.If(F("prevend", p), A([k], z3.Implies(inn(k), z3.Not(lt(k, p)))), z3.And(inn(nx), lt(nx, p)))]
    elif name == "prev":
        p = a[1]
        nx = F("prev", p)
        out += [A([k], z3.Implies(z3.And(inn(k), lt(k, p)), z3.And(inn(nx), lt(nx, p), z3.Not(lt(nx, k)))))]
    return out


def is_empty(ex, dom):
    if z3.is_const_array(dom) and z3.is_false(dom.arg(0)):
        return z3.BoolVal(True)
    return setfn(ex, "empty", dom.sort().domain())(dom)


def card(ex, st, dom):
    """|dom|"""
    if z3.is_const_array(dom) and z3.is_false(dom.arg(0)):
        return st, z3.IntVal(0)
    return st, setfn(ex, "card", dom.sort().domain())(dom)


def key_ty_of(ex, st, ref):
    v = ex.read(st, ref)
    if v.ty is None:
        raise Unsupported("set without type")
    return v.ty.rec().targ(0)


def lt(a, b):
    """strict key order"""
    if a.sort() == I or a.sort() == R:
        return a < b
    if a.sort().kind() == z3.Z3_DATATYPE_SORT:
        s = a.sort()
        return z3.Or(lt(s.accessor(0, 0)(a), s.accessor(0, 0)(b)), z3.And(s.accessor(0, 0)(a) == s.accessor(0, 0)(b), lt(s.accessor(0, 1)(a), s.accessor(0, 1)(b))))
    f = z3.Function("lt_" + str(a.sort()), a.sort(), a.sort(), B)
    return f(a, b)


def lt_axioms(sort):
    a, b, c = z3.Consts("a!l b!l c!l", sort)
    return [z3.ForAll([a], z3.Not(lt(a, a))), z3.ForAll([a, b], z3.Or(lt(a, b), lt(b, a), a == b)),
            z3.ForAll([a, b, c], z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c)))]


def begin(ex, st, ref, v):
    if v.kind == "vec":
        return st, Iter("vec", ref, z3.IntVal(0))
    dom = v["dom"]
    ks = dom.sort().domain()
    return st, Iter(v.kind, ref, setfn(ex, "first", ks)(dom), is_empty(ex, dom))


def end_iter(ex, st, ref, v):
    if v.kind == "vec":
        return st, Iter("vec", ref, v["len"])
    return st, Iter(v.kind, ref, z3.Const("endkey_" + sname(v["dom"].sort().domain()), v["dom"].sort().domain()), zb(True))


def next_iter(ex, st, it):
    if it.kind == "vec":
        return st, Iter("vec", it.cont, it.pos - 1 if it.rev else it.pos + 1, None, it.rev)
    v = ex.read(st, it.cont)
    dom = v["dom"]
    ks = dom.sort().domain()
    w = "prev" if it.rev else "next"
    return st, Iter(it.kind, it.cont, setfn(ex, w, ks, ks)(dom, it.pos), setfn(ex, w + "end", ks, ks)(dom, it.pos), it.rev)


def prev_iter(ex, st, it):
    if it.kind == "vec":
        return st, Iter("vec", it.cont, it.pos + 1 if it.rev else it.pos - 1, None, it.rev)
    if it.rev:
        raise Unsupported("decrement of a reverse iterator")
    v = ex.read(st, it.cont)
    dom = v["dom"]
    ks = dom.sort().domain()
    k = z3.Const("k!p", ks)
    m = fconst("prev", ks)
    c = lambda k: z3.And(z3.Select(dom, k), z3.Or(it.end, lt(k, it.pos)))
    st = ex.oblige(st, z3.Exists([k], c(k)), "decrement of begin iterator", "iter", "safety") if ex.opts["bounds"] else st
    return st.assume(c(m), z3.ForAll([k], z3.Implies(c(k), z3.Not(lt(m, k))))), Iter(it.kind, it.cont, m, zb(False))


def store_key(dom, k, b):
    return z3.Store(dom, k, z3.BoolVal(b) if isinstance(b, bool) else b)


def set_insert(ex, st, ref, key):
    v = ex.read(st, ref)
    st = ex.write(st, ref, v.with_(dom=store_key(v["dom"], key, True)))
    return st, z3.Not(z3.Select(v["dom"], key))


# ------------------------------------------------------------------ vectors
def v_default_el(ex, fn):
    return fn.cls.targ(0)


def elem_default(ex, ty):
    return ex.sorts.lift_default(ty)


def quant_i():
    return z3.Const("i!%d" % fresh_id(), I)


def arr_lambda(ex, st, tmpl, n_old, old, newv, extra=()):
    pass


def tree_facts(a, b, i):
    """leafwise equality of lifted trees at (possibly different) indexes is built by the caller"""


def define(ex, st, name, sort, f):
    """a fresh array constant r of the given sort with r[x] == f(x) for every x (recorded for summary derivation)"""
    r = fconst(name, sort)
    x = z3.Const("x!%d" % fresh_id(), sort.domain())
    v = f(x)
    ex.defs[r.decl().name()] = z3.Lambda([x], v)
    if isinstance(sort.range(), z3.ArraySortRef):
        fact = z3.ForAll([x], z3.Select(r, x) == v, patterns=[z3.Select(r, x)])
    else:
        fact = z3.ForAll([x], z3.Select(r, x) == v, patterns=[z3.Select(r, x)])
    return st.assume(fact), r


def piecewise(ex, st, name, like, pieces):
    """new lifted tree r (shape of `like`): r[i] == fn(i) on [lo,hi) of each piece; positions outside every piece are
    beyond the length of the vector (unreadable), they take the value of the last piece"""
    box = [st]

    def leaf(path, a):
        def f(i):
            srcs = [(lo, hi, coerce(tget(fn(i), path) if path else fn(i), a.sort().range())) for lo, hi, fn in pieces]
            v = srcs[-1][2]
            for lo, hi, x in reversed(srcs[:-1]):
                v = z3.If(z3.And(i >= lo, i < hi), x, v)
            return v
        box[0], r = define(ex, box[0], name, a.sort(), f)
        return r
    out = like
    for path, a in list(tleaves(like)):
        out = tset(out, path, leaf(path, a))
    return box[0], out


def install(ex):
    M = ex.models

    def m(*keys):
        def deco(f):
            for k in keys:
                M[k] = f
            return f
        return deco

    # -------------------------------------------------- vec
    @m(("vec", "ctor"))
    def vec_ctor(ex, st, fr, fn, t, args, e):
        pt = fn.ptys()
        elty = t.rec().targ(0) if t.k == "rec" else t.el()
        d = ex.sorts.default(t)
        if fn.spec == "default" or not args:
            return [(st, d)]
        if fn.spec in ("copy", "move"):
            src = args[0]
            v = ex.read(st, src) if isinstance(src, Ref) else src
            if fn.spec == "move" and isinstance(src, Ref) and src.root[0] != "t":
                st = ex.write(st, src, v.with_(len=z3.IntVal(0)))
            return [(st, v)]
        if pt[0].k == "int" or (pt[0].k == "ref" and pt[0].to().k == "int" and not (len(args) == 2 and False)):
            n = val(ex, st, fn, args, 0)
            st = ex.nowrap(st, n, pt[0].deref(), e.get("l"), "vector size")
            if len(args) >= 2 and not pt[1].deref().s.startswith("std::allocator"):
                x = val(ex, st, fn, args, 1)
                try:
                    el = tconst(ex.conv(X_coerce(ex, x, elty)), I)
                except Unsupported:
                    raise
            else:
                el = elem_default(ex, elty)
            return [(st, d.with_(len=n, el=el))]
        a0 = args[0] if not (isinstance(args[0], Ref) and pt[0].k == "ref") else ex.read(st, args[0])
        if isinstance(a0, Tree) and a0.kind == "vec":
            return [(st, Tree("vec", t, {"len": a0["len"], "el": a0["el"]}))]
        if isinstance(a0, Iter) or (isinstance(a0, Ref) and len(args) > 1):
            a1 = args[1] if not (isinstance(args[1], Ref) and pt[1].k == "ref") else ex.read(st, args[1])
            st, n, src = range_src(ex, st, a0, a1)
            st, r = piecewise(ex, st, "vecrange", ex.sorts.fresh(elty, "v", (I,)), [(z3.IntVal(0), n, src)])
            return [(st, d.with_(len=n, el=r))]
        raise Unsupported("vector constructor " + fn.sig[:200])

    @m(("vec", "size"))
    def vec_size(ex, st, fr, fn, this, args, e):
        return [(st, cont(ex, st, this)["len"])]

    @m(("vec", "empty"))
    def vec_empty(ex, st, fr, fn, this, args, e):
        return [(st, cont(ex, st, this)["len"] == 0)]

    @m(("vec", "operator[]"))
    def vec_idx(ex, st, fr, fn, this, args, e):
        i = val(ex, st, fn, args, 0)
        v = cont(ex, st, this)
        st = ex.nowrap(st, i, fn.ptys()[0].deref(), e.get("l"), "index")
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.And(i >= 0, i < v["len"]), "index within bounds", loc(ex, e), "bounds")
        r = this.i(i)
        if fn.ret.k == "rec" and fn.ret.rec().name == "std::_Bit_reference":
            return [(st, r)]
        if fn.ret.k != "ref":
            return [(st, ex.read(st, r))]
        return [(st, r)]

    @m("std::_Bit_reference::operator=")
    def bit_assign(ex, st, fr, fn, this, args, e):
        x = args[0]
        if isinstance(x, Ref):
            x = ex.read(st, x)
        return [(ex.write(st, this, ex.tobool(x)), this)]

    @m("std::_Bit_reference::operator bool")
    def bit_read(ex, st, fr, fn, this, args, e):
        return [(st, ex.read(st, this) if isinstance(this, Ref) else this)]

    @m(("vec", "at"))
    def vec_at(ex, st, fr, fn, this, args, e):
        i = val(ex, st, fn, args, 0)
        v = cont(ex, st, this)
        a, b = ex.branch(st, z3.And(i >= 0, i < v["len"]))
        if b is not None:
            ex.throw(b, "std::out_of_range", loc(ex, e))
        return [(a, this.i(i))] if a is not None else []

    def vec_end(which):
        def f(ex, st, fr, fn, this, args, e):
            v = cont(ex, st, this)
            if ex.opts["bounds"]:
                st = ex.oblige(st, v["len"] > 0, which + "() of non-empty vector", loc(ex, e), "bounds")
            return [(st, this.i(z3.IntVal(0) if which == "front" else v["len"] - 1))]
        return f
    M[("vec", "front")] = vec_end("front")
    M[("vec", "back")] = vec_end("back")

    @m(("vec", "push_back"), ("vec", "emplace_back"))
    def vec_push(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        elty = fn.cls.targ(0)
        if fn.name == "emplace_back" and not (len(args) == 1 and isinstance(val(ex, st, fn, args, 0), Tree) and ex.sorts.kind(elty) is None and val(ex, st, fn, args, 0).kind == "rec" and not ctor_like(ex, st, fn, args, elty)):
            res = emplace_value(ex, st, fr, fn, args, e, elty)
        else:
            x = val(ex, st, fn, args, 0)
            res = [(st, x)]
        out = []
        for s, x in res:
            x = X_coerce(ex, x, elty)
            nv = v.with_(len=v["len"] + 1, el=X.tstore_(v["el"], v["len"], ex.conv(x)))
            s = ex.write(s, this, nv)
            out.append((s, this.i(v["len"])))
        return out

    def ctor_like(ex, st, fn, args, elty):
        return False

    def emplace_value(ex, st, fr, fn, args, e, elty):
        vals = [val(ex, st, fn, args, n) for n in range(len(args))]
        if len(vals) == 1 and (ex.sorts.scalar(elty) is not None):
            return [(st, vals[0])]
        if ex.sorts.kind(elty) == "pair" and len(vals) == 2:
            return [(st, Tree("rec", elty, {"first": vals[0], "second": vals[1]}))]
        if len(vals) == 1 and isinstance(vals[0], Tree):
            return [(st, vals[0])]
        if elty.k == "rec":
            # find a constructor of the element class by arity and parameter kinds
            cands = [f for f in ex.prog.fns if f.ctor and f.cls is elty.rec() and len(f.params) == len(vals) and (f.body is not None)]
            cands = [f for f in cands if all(compat(ex, p, v) for p, v in zip(f.ptys(), vals))]
            if len(cands) >= 1:
                f = cands[0]
                s = st
                as_ = []
                for p, v, a in zip(f.ptys(), vals, args):
                    if p.k == "ref" and not isinstance(a, Ref):
                        s, a = ex.temp(s, v)
                        as_.append(a)
                    elif p.k == "ref":
                        as_.append(a)
                    else:
                        as_.append(v)
                return ex.construct(s, fr, f, elty, as_, e)
        raise Unsupported("emplace " + fn.sig[:150])

    def compat(ex, pt, v):
        pt = pt.deref()
        if isz(v):
            s = ex.sorts.scalar(pt)
            return s is not None and (s == v.sort())
        if isinstance(v, Tree):
            return pt.k == "rec"
        return True

    @m(("vec", "pop_back"))
    def vec_pop(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        if ex.opts["bounds"]:
            st = ex.oblige(st, v["len"] > 0, "pop_back of non-empty vector", loc(ex, e), "bounds")
        return [(ex.write(st, this, v.with_(len=v["len"] - 1)), None)]

    @m(("vec", "resize"))
    def vec_resize(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        n = val(ex, st, fn, args, 0)
        st = ex.nowrap(st, n, fn.ptys()[0].deref(), e.get("l"), "vector size")
        elty = fn.cls.targ(0)
        if fn.cls.name == "CppAD::vector":
            # contents are only kept when the capacity suffices: unspecified after a resize
            like = v["el"]
            fresh = tmap(lambda a: fconst("resized", a.sort()), like)
            el = fresh
            if ex.sorts.scalar(elty) is None:
                pass
            return [(ex.write(st, this, v.with_(len=n, el=el)), None)]
        if len(args) > 1:
            x = ex.conv(X_coerce(ex, val(ex, st, fn, args, 1), elty))
        else:
            x = None
        old = v["el"]
        if z3.is_int_value(z3.simplify(v["len"])) and z3.simplify(v["len"]).as_long() == 0:
            el = tconst(x, I) if x is not None else elem_default(ex, elty)
        else:
            dflt = x if x is not None else X.tselect_(elem_default(ex, elty), z3.IntVal(0))
            like = old
            pieces = [(z3.IntVal(0), z3.If(v["len"] < n, v["len"], n), lambda i: tselect(old, i))]
            try:
                pieces.append((v["len"], n, lambda i: dflt))
            except Unsupported:
                pass
            st, el = piecewise(ex, st, "resized", like, pieces)
        return [(ex.write(st, this, v.with_(len=n, el=el)), None)]

    @m(("vec", "capacity"), ("vec", "max_size"))
    def vcapacity(ex, st, fr, fn, this, args, e):
        n = fconst("capacity", I)
        return [(st.assume(n >= cont(ex, st, this)["len"]), n)]

    @m(("vec", "reserve"), ("vec", "shrink_to_fit"))
    def vec_nop(ex, st, fr, fn, this, args, e):
        return [(st, None)]

    @m(("vec", "clear"), ("vec", "free"))
    def vec_clear(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        return [(ex.write(st, this, v.with_(len=z3.IntVal(0))), None)]

    @m(("vec", "assign"), ("vec", "fill"))
    def vec_assign(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        elty = fn.cls.targ(0)
        if fn.name == "fill":
            return [(ex.write(st, this, v.with_(el=tconst(ex.conv(X_coerce(ex, val(ex, st, fn, args, 0), elty)), I))), None)]
        a0 = val(ex, st, fn, args, 0)
        if isinstance(a0, Iter):
            st, n, src = range_src(ex, st, a0, val(ex, st, fn, args, 1))
            st, r = piecewise(ex, st, "assigned", v["el"], [(z3.IntVal(0), n, src)])
            return [(ex.write(st, this, v.with_(len=n, el=r)), None)]
        x = ex.conv(X_coerce(ex, val(ex, st, fn, args, 1), elty))
        return [(ex.write(st, this, v.with_(len=a0, el=tconst(x, I))), None)]

    @m(("vec", "data"))
    def vec_data(ex, st, fr, fn, this, args, e):
        return [(st, this.i(z3.IntVal(0)))]

    @m(("vec", "begin"), ("vec", "cbegin"))
    def vec_begin(ex, st, fr, fn, this, args, e):
        return [(st, Iter("vec", this, z3.IntVal(0)))]

    @m(("vec", "end"), ("vec", "cend"))
    def vec_e(ex, st, fr, fn, this, args, e):
        return [(st, Iter("vec", this, cont(ex, st, this)["len"]))]

    @m(("vec", "rbegin"), ("vec", "crbegin"))
    def vec_rbegin(ex, st, fr, fn, this, args, e):
        return [(st, Iter("vec", this, cont(ex, st, this)["len"] - 1, None, True))]

    @m(("vec", "rend"), ("vec", "crend"))
    def vec_rend(ex, st, fr, fn, this, args, e):
        return [(st, Iter("vec", this, z3.IntVal(-1), None, True))]

    @m(("vec", "operator="))
    def vec_assign_op(ex, st, fr, fn, this, args, e):
        v = val(ex, st, fn, args, 0)
        old = cont(ex, st, this)
        if isinstance(v, Tree) and v.kind == "vec":
            st2 = st
            if fn.ptys()[0].k == "ref" and fn.ptys()[0].j.get("rv") and isinstance(args[0], Ref) and args[0].root[0] != "t":
                st2 = ex.write(st, args[0], v.with_(len=z3.IntVal(0)))
            return [(ex.write(st2, this, Tree("vec", old.ty, {"len": v["len"], "el": v["el"]})), this)]
        raise Unsupported("vector assignment")

    @m(("vec", "swap"))
    def vec_swap(ex, st, fr, fn, this, args, e):
        a, b = ex.read(st, this), ex.read(st, args[0])
        st = ex.write(st, this, b)
        return [(ex.write(st, args[0], a), None)]

    @m(("vec", "insert"), ("vec", "emplace"))
    def vec_insert(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        it = val(ex, st, fn, args, 0)
        p = it.pos
        old = v["el"]
        elty = fn.cls.targ(0)
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.And(p >= 0, p <= v["len"]), "insert position within vector", loc(ex, e), "bounds")
        if len(args) == 2:
            x = val(ex, st, fn, args, 1)
            if isinstance(x, Tree) and x.kind == "vec" and ex.sorts.kind(elty) != "vec":
                n, src = x["len"], (lambda i: tselect(x["el"], i - p))
            else:
                x = ex.conv(X_coerce(ex, x, elty))
                if z3.eq(z3.simplify(p - v["len"]), z3.IntVal(0)):
                    nv = v.with_(len=v["len"] + 1, el=X.tstore_(old, p, x))
                    return [(ex.write(st, this, nv), Iter("vec", this, p))]
                n, src = z3.IntVal(1), (lambda i: x)
        else:
            a1, a2 = val(ex, st, fn, args, 1), val(ex, st, fn, args, 2)
            if isinstance(a1, Iter) or isinstance(a1, Ref):
                st, n, f = range_src(ex, st, a1, a2)
                src = lambda i: f(i - p)
            else:
                n = a1
                x = ex.conv(X_coerce(ex, a2, elty))
                src = lambda i: x
        st, el = piecewise(ex, st, "inserted", old, [(z3.IntVal(0), p, lambda i: tselect(old, i)), (p, p + n, src), (p + n, v["len"] + n, lambda i: tselect(old, i - n))])
        return [(ex.write(st, this, v.with_(len=v["len"] + n, el=el)), Iter("vec", this, p))]

    @m(("vec", "erase"))
    def vec_erase(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        it = val(ex, st, fn, args, 0)
        p = it.pos
        q = p + 1 if len(args) == 1 else val(ex, st, fn, args, 1).pos
        old = v["el"]
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.And(p >= 0, p <= q, q <= v["len"]), "erase range within vector", loc(ex, e), "bounds")
        st, el = piecewise(ex, st, "erased", old, [(z3.IntVal(0), p, lambda i: tselect(old, i)), (p, v["len"] - (q - p), lambda i: tselect(old, i + (q - p)))])
        return [(ex.write(st, this, v.with_(len=v["len"] - (q - p), el=el)), Iter("vec", this, p))]

    # -------------------------------------------------- set / map
    @m(("set", "ctor"), ("map", "ctor"))
    def set_ctor(ex, st, fr, fn, t, args, e):
        d = ex.sorts.default(t)
        if fn.spec == "default" or not args:
            return [(st, d)]
        if fn.spec in ("copy", "move"):
            return [(st, ex.read(st, args[0]) if isinstance(args[0], Ref) else args[0])]
        a0 = val(ex, st, fn, args, 0)
        if isinstance(a0, Iter) and fn.cls.name.endswith("set"):
            st, dom = range_dom(ex, st, t.rec().targ(0), a0, val(ex, st, fn, args, 1))
            return [(st, d.with_(dom=dom))]
        if isinstance(a0, Tree) and a0.kind == "vec" and fn.cls.name.endswith("set"):
            k = z3.Const("k!il", d["dom"].sort().domain())
            i = quant_i()
            n = z3.simplify(a0["len"])
            if z3.is_int_value(n) and n.as_long() <= 8:
                dom = d["dom"]
                for q in range(n.as_long()):
                    dom = store_key(dom, ex.sorts.to_key(t.rec().targ(0), tselect(a0["el"], z3.IntVal(q))), True)
                return [(st, d.with_(dom=dom))]
        if isinstance(a0, Tree) and a0.kind == "vec" and fn.cls.name.endswith("map"):
            n = z3.simplify(a0["len"])
            if z3.is_int_value(n) and n.as_long() <= 8:
                v = d
                for q in range(n.as_long()):
                    pr = tselect(a0["el"], z3.IntVal(q))
                    key = ex.sorts.to_key(t.rec().targ(0), pr["first"])
                    v = v.with_(dom=store_key(v["dom"], key, True), val=X.tstore_(v["val"], key, pr["second"]))
                return [(st, v)]
        raise Unsupported("set constructor " + fn.sig[:150])

    @m(("set", "operator="), ("map", "operator="))
    def set_assign(ex, st, fr, fn, this, args, e):
        v = val(ex, st, fn, args, 0)
        return [(ex.write(st, this, v), this)]

    @m(("set", "size"), ("map", "size"))
    def set_size(ex, st, fr, fn, this, args, e):
        st, c = card(ex, st, cont(ex, st, this)["dom"])
        return [(st, c)]

    @m(("set", "empty"), ("map", "empty"))
    def set_empty(ex, st, fr, fn, this, args, e):
        return [(st, is_empty(ex, cont(ex, st, this)["dom"]))]

    @m(("set", "begin"), ("set", "cbegin"), ("map", "begin"), ("map", "cbegin"))
    def set_begin(ex, st, fr, fn, this, args, e):
        s, it = begin(ex, st, this, cont(ex, st, this))
        return [(s, it)]

    @m(("set", "end"), ("set", "cend"), ("map", "end"), ("map", "cend"))
    def set_end(ex, st, fr, fn, this, args, e):
        s, it = end_iter(ex, st, this, cont(ex, st, this))
        return [(s, it)]

    @m(("set", "rbegin"), ("map", "rbegin"))
    def set_rbegin(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        dom = v["dom"]
        ks = dom.sort().domain()
        return [(st, Iter(v.kind, this, setfn(ex, "last", ks)(dom), is_empty(ex, dom), True))]

    @m(("set", "rend"), ("map", "rend"), ("set", "crend"), ("map", "crend"))
    def set_rend(ex, st, fr, fn, this, args, e):
        s, it = end_iter(ex, st, this, cont(ex, st, this))
        return [(s, Iter(it.kind, it.cont, it.pos, it.end, True))]

    @m(("set", "clear"), ("map", "clear"))
    def set_clear(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        return [(ex.write(st, this, v.with_(dom=z3.K(v["dom"].sort().domain(), zb(False)))), None)]

    @m(("set", "insert"), ("set", "emplace"))
    def m_set_insert(ex, st, fr, fn, this, args, e):
        kt = fn.cls.targ(0)
        if len(args) == 2:
            a0 = val(ex, st, fn, args, 0)
            if isinstance(a0, (Iter, Ref)) and isinstance(val(ex, st, fn, args, 1), (Iter, Ref)):
                v = cont(ex, st, this)
                st, dom = range_dom(ex, st, kt, a0, val(ex, st, fn, args, 1))
                if z3.is_const_array(v["dom"]) and z3.is_false(v["dom"].arg(0)):
                    nd = dom
                else:
                    st, nd = define(ex, st, "union", dom.sort(), lambda k: z3.Or(z3.Select(v["dom"], k), z3.Select(dom, k)))
                return [(ex.write(st, this, v.with_(dom=nd)), None)]
            args = args[1:]  # hint
            key = ex.sorts.to_key(kt, ex.read(st, args[0]) if isinstance(args[0], Ref) else args[0])
            st, new = set_insert(ex, st, this, key)
            return [(st, Iter("set", this, key, zb(False)))]
        a0 = val(ex, st, fn, args, 0)
        key = ex.sorts.to_key(kt, a0)
        st, new = set_insert(ex, st, this, key)
        return [(st, Tree("rec", None, {"first": Iter("set", this, key, zb(False)), "second": new}))]

    @m(("map", "insert"), ("map", "emplace"))
    def m_map_insert(ex, st, fr, fn, this, args, e):
        kt, vt = fn.cls.targ(0), fn.cls.targ(1)
        if len(args) == 1:
            pr = val(ex, st, fn, args, 0)
            k, x = pr["first"], pr["second"]
        elif fn.name == "emplace":
            k, x = val(ex, st, fn, args, 0), val(ex, st, fn, args, 1)
        else:
            raise Unsupported("map insert range")
        key = ex.sorts.to_key(kt, k)
        v = cont(ex, st, this)
        isin = z3.Select(v["dom"], key)
        x = ex.conv(X_coerce(ex, x, vt))
        nv = X.tstore_(v["val"], key, X.vmerge(isin, X.tselect_(v["val"], key), x))
        st = ex.write(st, this, v.with_(dom=store_key(v["dom"], key, True), val=nv))
        return [(st, Tree("rec", None, {"first": Iter("map", this, key, zb(False)), "second": z3.Not(isin)}))]

    @m(("map", "operator[]"))
    def map_idx(ex, st, fr, fn, this, args, e):
        kt, vt = fn.cls.targ(0), fn.cls.targ(1)
        key = ex.sorts.to_key(kt, val(ex, st, fn, args, 0))
        v = cont(ex, st, this)
        isin = z3.Select(v["dom"], key)
        try:
            d = ex.conv(ex.sorts.default(vt))
            nv = X.tstore_(v["val"], key, X.vmerge(isin, X.tselect_(v["val"], key), d))
        except Unsupported:
            # unspecified default
            nv = v["val"]
            st = st
        st = ex.write(st, this, v.with_(dom=store_key(v["dom"], key, True), val=nv))
        return [(st, this.k(key))]

    @m(("map", "at"))
    def map_at(ex, st, fr, fn, this, args, e):
        key = ex.sorts.to_key(fn.cls.targ(0), val(ex, st, fn, args, 0))
        v = cont(ex, st, this)
        a, b = ex.branch(st, z3.Select(v["dom"], key))
        if b is not None:
            ex.throw(b, "std::out_of_range", loc(ex, e))
        return [(a, this.k(key))] if a is not None else []

    @m(("set", "find"), ("map", "find"))
    def set_find(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        key = ex.sorts.to_key(fn.cls.targ(0), val(ex, st, fn, args, 0))
        return [(st, Iter(v.kind, this, key, z3.Not(z3.Select(v["dom"], key))))]

    @m(("set", "count"), ("map", "count"))
    def set_count(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        key = ex.sorts.to_key(fn.cls.targ(0), val(ex, st, fn, args, 0))
        return [(st, z3.If(z3.Select(v["dom"], key), z3.IntVal(1), z3.IntVal(0)))]

    def bound(strict):
        def f(ex, st, fr, fn, this, args, e):
            v = cont(ex, st, this)
            dom = v["dom"]
            ks = dom.sort().domain()
            key = ex.sorts.to_key(fn.cls.targ(0), val(ex, st, fn, args, 0))
            k = z3.Const("k!b", ks)
            mk = fconst("bound", ks)
            end = fconst("bound.end", B)
            ok = (lambda x: lt(key, x)) if strict else (lambda x: z3.Not(lt(x, key)))
            st = st.assume(z3.Implies(end, z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.Not(ok(k))))),
                           z3.Implies(z3.Not(end), z3.And(z3.Select(dom, mk), ok(mk), z3.ForAll([k], z3.Implies(z3.And(z3.Select(dom, k), ok(k)), z3.Not(lt(k, mk)))))))
            return [(st, Iter(v.kind, this, mk, end))]
        return f
    M[("set", "lower_bound")] = M[("map", "lower_bound")] = bound(False)
    M[("set", "upper_bound")] = M[("map", "upper_bound")] = bound(True)

    @m(("set", "erase"), ("map", "erase"))
    def set_erase(ex, st, fr, fn, this, args, e):
        v = cont(ex, st, this)
        a0 = val(ex, st, fn, args, 0)
        if len(args) == 2:
            raise Unsupported("set range erase")
        if isinstance(a0, Iter):
            if ex.opts["bounds"]:
                st = ex.oblige(st, z3.And(z3.Not(a0.end), z3.Select(v["dom"], a0.pos)), "erase of a valid iterator", loc(ex, e), "bounds")
            st, nx = next_iter(ex, st, a0)
            st = ex.write(st, this, v.with_(dom=store_key(v["dom"], a0.pos, False)))
            return [(st, nx)]
        key = ex.sorts.to_key(fn.cls.targ(0), a0)
        st = ex.write(st, this, v.with_(dom=store_key(v["dom"], key, False)))
        return [(st, z3.If(z3.Select(v["dom"], key), z3.IntVal(1), z3.IntVal(0)))]

    @m(("set", "swap"), ("map", "swap"))
    def set_swap(ex, st, fr, fn, this, args, e):
        a, b = ex.read(st, this), ex.read(st, args[0])
        st = ex.write(st, this, b)
        return [(ex.write(st, args[0], a), None)]

    # -------------------------------------------------- iterators
    def getit(ex, st, this):
        it = ex.read(st, this) if isinstance(this, Ref) else this
        if not isinstance(it, Iter):
            raise Unsupported("iterator expected")
        return it

    @m(("iter", "ctor"))
    def it_ctor(ex, st, fr, fn, t, args, e):
        if not args:
            return [(st, None)]
        v = args[0]
        if isinstance(v, Ref) and fn.ptys()[0].k == "ref":
            v = ex.read(st, v)
        return [(st, v)]

    @m(("iter", "operator="))
    def it_assign(ex, st, fr, fn, this, args, e):
        return [(ex.write(st, this, val(ex, st, fn, args, 0)), this)]

    def it_valid(ex, st, it, e):
        if not ex.opts["bounds"]:
            return st
        if it.kind == "vec":
            if isinstance(it.cont, Ref) and it.cont.root is not None:
                v = ex.read(st, it.cont)
                if isinstance(v, Tree) and "len" in v.f:
                    return ex.oblige(st, z3.And(it.pos >= 0, it.pos < v["len"]), "dereference of a valid iterator", loc(ex, e), "bounds")
            return st
        v = ex.read(st, it.cont)
        return ex.oblige(st, z3.And(z3.Not(it.end), z3.Select(v["dom"], it.pos)), "dereference of a valid iterator", loc(ex, e), "bounds")

    @m(("iter", "operator*"), ("iter", "operator->"))
    def it_deref(ex, st, fr, fn, this, args, e):
        it = getit(ex, st, this)
        st = it_valid(ex, st, it, e)
        if it.kind == "set":
            v = ex.read(st, it.cont)
            kv = ex.sorts.from_key(v.ty.rec().targ(0), it.pos) if v.ty is not None else it.pos
            st, r = ex.temp(st, kv)
        else:
            r = ex.iter_ref(it)
        if fn.ret.k not in ("ref", "ptr"):
            return [(st, ex.read(st, r))]
        return [(st, r)]

    def it_step(fwd):
        def f(ex, st, fr, fn, this, args, e):
            it = getit(ex, st, this)
            st, n = (next_iter if fwd else prev_iter)(ex, st, it)
            st = ex.write(st, this, n)
            return [(st, it if args else this)]
        return f
    M[("iter", "operator++")] = it_step(True)
    M[("iter", "operator--")] = it_step(False)

    def it_eq(ex, a, b):
        if a.kind == "vec":
            return a.pos == b.pos
        return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.pos == b.pos))

    def cmp(op):
        def f(ex, st, fr, fn, this, args, e):
            xs = ([this] if this is not None else []) + list(args)
            xs = [ex.read(st, x) if isinstance(x, Ref) else x for x in xs]
            a, b = xs[0], xs[1]
            if isinstance(a, Iter) and isinstance(b, Iter):
                if op == "==":
                    return [(st, it_eq(ex, a, b))]
                if op == "!=":
                    return [(st, z3.Not(it_eq(ex, a, b)))]
                d = {"<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}
                return [(st, d[op])]
            if isinstance(a, StrV) or isinstance(b, StrV) or (isz(a) and a.sort() == Str):
                r = str_eq(ex, a, b)
                if op in ("==", "!="):
                    return [(st, r if op == "==" else z3.Not(r))]
            if isinstance(a, Tree) and isinstance(b, Tree):
                if op in ("==", "!="):
                    r = cont_eq(ex, a, b)
                    return [(st, r if op == "==" else z3.Not(r))]
                if a.kind == "rec" and "first" in a.f and op == "<":
                    return [(st, z3.Or(a["first"] < b["first"], z3.And(a["first"] == b["first"], a["second"] < b["second"])))]
            if isinstance(a, Tree) and a.kind == "opt" and op in ("==", "!="):
                return [(st, z3.Not(a["has"]) if op == "==" else a["has"])]
            if isinstance(b, Tree) and b.kind == "opt" and op in ("==", "!="):
                return [(st, z3.Not(b["has"]) if op == "==" else b["has"])]
            raise Unsupported("std comparison %s of %r %r" % (op, a, b))
        return f
    for op in ("==", "!=", "<", ">", "<=", ">="):
        M["std::operator" + op] = cmp(op)
        M["__gnu_cxx::operator" + op] = cmp(op)
        M[("iter", "operator" + op)] = cmp(op)

    def it_arith(ex, st, fr, fn, this, args, e):
        op = fn.name[len("operator"):]
        xs = ([this] if this is not None else []) + list(args)
        xs = [ex.read(st, x) if isinstance(x, Ref) and not (x.acc and x.acc[-1][0] == "i" and False) else x for x in xs]
        a, b = xs[0], xs[1]
        if isinstance(a, StrV) or isinstance(b, StrV):
            return [(st, tostr(a) + tostr(b))]
        if isinstance(b, Iter) and not isinstance(a, Iter):
            a, b = b, a
        if isinstance(a, Iter) and isinstance(b, Iter):
            return [(st, a.pos - b.pos)]
        if not isinstance(a, Iter) or a.kind != "vec":
            raise Unsupported("iterator arithmetic")
        sgn = 1 if "+" in op else -1
        if a.rev:
            sgn = -sgn
        n = Iter("vec", a.cont, a.pos + b if sgn > 0 else a.pos - b, None, a.rev)
        if op in ("+=", "-="):
            return [(ex.write(st, this, n), this)]
        return [(st, n)]
    for op in ("+", "-", "+=", "-="):
        M[("iter", "operator" + op)] = it_arith
        M["__gnu_cxx::operator" + op] = it_arith
        M["std::operator" + op] = it_arith

    @m(("iter", "operator[]"))
    def it_sub(ex, st, fr, fn, this, args, e):
        it = getit(ex, st, this)
        return [(st, it.cont.i(it.pos + val(ex, st, fn, args, 0)))]

    @m(("iter", "base"))
    def it_base(ex, st, fr, fn, this, args, e):
        it = getit(ex, st, this)
        if it.rev and it.kind == "vec":
            return [(st, Iter("vec", it.cont, it.pos + 1))]
        return [(st, it)]

    @m("std::next", "std::prev")
    def std_next(ex, st, fr, fn, this, args, e):
        it = val(ex, st, fn, args, 0)
        n = args[1]
        if it.kind == "vec":
            return [(st, Iter("vec", it.cont, it.pos + n if fn.name == "next" else it.pos - n, None, it.rev))]
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1:
            s, r = (next_iter if fn.name == "next" else prev_iter)(ex, st, it)
            return [(s, r)]
        raise Unsupported("std::next")

    @m("std::distance")
    def std_dist(ex, st, fr, fn, this, args, e):
        a, b = args
        if isinstance(a, Iter) and a.kind == "vec":
            return [(st, b.pos - a.pos)]
        raise Unsupported("std::distance")

    @m("std::advance")
    def std_adv(ex, st, fr, fn, this, args, e):
        it = ex.read(st, args[0])
        if it.kind != "vec":
            raise Unsupported("advance")
        return [(ex.write(st, args[0], Iter("vec", it.cont, it.pos + args[1], None, it.rev)), None)]

    # -------------------------------------------------- unique_ptr
    @m(("opt", "ctor"))
    def opt_ctor(ex, st, fr, fn, t, args, e):
        d = ex.sorts.default(t)
        if fn.spec == "default" or not args:
            return [(st, d)]
        a = args[0]
        if fn.ptys()[0].k == "ref":
            src = a
            v = ex.read(st, a)
            if isinstance(v, Tree) and v.kind == "opt":
                if isinstance(src, Ref):
                    st = ex.write(st, src, v.with_(has=zb(False)))
                return [(st, v)]
            a = v
        if fn.ptys()[0].k == "nullptr" or (isz(a) and z3.is_int_value(a) and a.as_long() == 0):
            return [(st, d)]
        if isinstance(a, Ref):
            return [(st, Tree("opt", t, {"has": zb(True), "val": ex.read(st, a)}))]
        raise Unsupported("unique_ptr from %r" % (a,))

    @m(("opt", "operator="))
    def opt_assign(ex, st, fr, fn, this, args, e):
        a = val(ex, st, fn, args, 0)
        old = ex.read(st, this)
        if isinstance(a, Tree) and a.kind == "opt":
            if isinstance(args[0], Ref):
                st = ex.write(st, args[0], a.with_(has=zb(False)))
            return [(ex.write(st, this, a), this)]
        return [(ex.write(st, this, old.with_(has=zb(False))), this)]

    @m(("opt", "reset"))
    def opt_reset(ex, st, fr, fn, this, args, e):
        old = ex.read(st, this)
        if not args or (isz(args[0]) and z3.is_int_value(args[0])):
            return [(ex.write(st, this, old.with_(has=zb(False))), None)]
        return [(ex.write(st, this, Tree("opt", old.ty, {"has": zb(True), "val": ex.read(st, args[0])})), None)]

    @m(("opt", "get"), ("opt", "operator->"))
    def opt_get(ex, st, fr, fn, this, args, e):
        return [(st, OptPtr(this))] if False else [(st, this.o())]

    @m(("opt", "operator bool"))
    def opt_bool(ex, st, fr, fn, this, args, e):
        return [(st, ex.read(st, this)["has"])]

    @m(("opt", "operator*"))
    def opt_deref(ex, st, fr, fn, this, args, e):
        if ex.opts["bounds"]:
            st = ex.oblige(st, ex.read(st, this)["has"], "dereference of non-null unique_ptr", loc(ex, e), "bounds")
        return [(st, this.o())]

    # -------------------------------------------------- pairs & utility
    @m("std::make_pair")
    def make_pair(ex, st, fr, fn, this, args, e):
        return [(st, Tree("rec", fn.ret, {"first": val(ex, st, fn, args, 0), "second": val(ex, st, fn, args, 1)}))]

    @m(("pair", "ctor"))
    def pair_ctor(ex, st, fr, fn, t, args, e):
        if not args:
            return [(st, ex.sorts.default(t))]
        if len(args) == 1:
            return [(st, val(ex, st, fn, args, 0))]
        return [(st, Tree("rec", t, {"first": val(ex, st, fn, args, 0), "second": val(ex, st, fn, args, 1)}))]

    @m(("pair", "operator="))
    def pair_assign(ex, st, fr, fn, this, args, e):
        return [(ex.write(st, this, val(ex, st, fn, args, 0)), this)]

    @m("std::move", "std::forward", "std::addressof", "std::ref", "std::cref")
    def ident(ex, st, fr, fn, this, args, e):
        if len(args) > 1:
            return std_copy(ex, st, fr, fn, this, args, e)
        return [(st, args[0])]

    @m("std::swap")
    def std_swap(ex, st, fr, fn, this, args, e):
        a, b = ex.read(st, args[0]), ex.read(st, args[1])
        st = ex.write(st, args[0], b)
        return [(ex.write(st, args[1], a), None)]

    def minmax(mn):
        def f(ex, st, fr, fn, this, args, e):
            if len(args) != 2:
                raise Unsupported("min/max")
            a, b = val(ex, st, fn, args, 0), val(ex, st, fn, args, 1)
            v = z3.If(b < a, b, a) if mn else z3.If(a < b, b, a)
            if fn.ret.k == "ref":
                st, v = ex.temp(st, v)
            return [(st, v)]
        return f
    M["std::min"], M["std::max"] = minmax(True), minmax(False)

    @m("std::numeric_limits::max")
    def nl_max(ex, st, fr, fn, this, args, e):
        t = fn.ret
        if t.k == "int":
            return [(st, z3.IntVal(2 ** (t.j["w"] - (0 if t.j["u"] else 1)) - 1))]
        raise Unsupported("numeric_limits")

    @m("std::numeric_limits::min", "std::numeric_limits::lowest")
    def nl_min(ex, st, fr, fn, this, args, e):
        t = fn.ret
        if t.k == "int":
            return [(st, z3.IntVal(0 if t.j["u"] else -2 ** (t.j["w"] - 1)))]
        raise Unsupported("numeric_limits")

    @m("std::abs", "abs", "labs")
    def std_abs(ex, st, fr, fn, this, args, e):
        v = args[0]
        return [(st, z3.If(v >= 0, v, -v))]

    # -------------------------------------------------- algorithms
    @m("std::fill")
    def std_fill(ex, st, fr, fn, this, args, e):
        a, b = args[0], args[1]
        x = val(ex, st, fn, args, 2)
        ref, lo, hi = span(ex, st, a, b)
        v = ex.read(st, ref)
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.Implies(lo < hi, z3.And(lo >= 0, hi <= v["len"])), "fill range within bounds", loc(ex, e), "bounds")
        old = v["el"]
        xs = ex.conv(x)
        st, el = piecewise2(ex, st, "filled", old, lo, hi, lambda i: xs)
        return [(ex.write(st, ref, v.with_(el=el)), None)]

    @m("std::fill_n")
    def std_fill_n(ex, st, fr, fn, this, args, e):
        n = val(ex, st, fn, args, 1)
        x = val(ex, st, fn, args, 2)
        ref, lo, _ = span(ex, st, args[0], args[0])
        v = ex.read(st, ref)
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.Implies(n > 0, z3.And(lo >= 0, lo + n <= v["len"])), "fill range within bounds", loc(ex, e), "bounds")
        xs = ex.conv(x)
        st, el = piecewise2(ex, st, "filled", v["el"], lo, lo + n, lambda i: xs)
        st = ex.write(st, ref, v.with_(el=el))
        d = args[0]
        return [(st, Iter("vec", d.cont, d.pos + n) if isinstance(d, Iter) else Ref(d.root, d.acc[:-1] + (("i", d.acc[-1][1] + n),)))]

    @m("std::copy")
    def std_copy(ex, st, fr, fn, this, args, e):
        a, b, d = args
        st, n, src = range_src(ex, st, a, b)
        if isinstance(d, Tree) and d.kind == "inserter":
            raise Unsupported("inserter")
        ref, lo, _ = span(ex, st, d, d)
        v = ex.read(st, ref)
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.Implies(n > 0, z3.And(lo >= 0, lo + n <= v["len"])), "copy destination within bounds", loc(ex, e), "bounds")
        st, el = piecewise2(ex, st, "copied", v["el"], lo, lo + n, lambda i: src(i - lo))
        st = ex.write(st, ref, v.with_(el=el))
        if isinstance(d, Iter):
            return [(st, Iter("vec", d.cont, d.pos + n))]
        return [(st, Ref(d.root, d.acc[:-1] + (("i", d.acc[-1][1] + n),)))]

    @m("std::lower_bound", "std::upper_bound")
    def std_lb(ex, st, fr, fn, this, args, e):
        if len(args) != 3:
            raise Unsupported("lower_bound with comparator")
        ref, lo, hi = span(ex, st, args[0], args[1])
        v = ex.read(st, ref)
        x = val(ex, st, fn, args, 2)
        up = fn.name == "upper_bound"

        def less(p, q):
            if isz(p):
                return p < q
            return z3.Or(p["first"] < q["first"], z3.And(p["first"] == q["first"], p["second"] < q["second"]))
        i, j = quant_i(), quant_i()
        at = lambda k: tselect(v["el"], k)
        if ex.opts["bounds"]:
            st = ex.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(less(at(j), at(i))))), "binary search over a sorted range", loc(ex, e), "safety")
        r = fconst("lb", I)
        before = (lambda k: z3.Not(less(x, at(k)))) if up else (lambda k: less(at(k), x))
        st = st.assume(r >= lo, r <= hi, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), before(i))),
                       z3.ForAll([i], z3.Implies(z3.And(r <= i, i < hi), z3.Not(before(i)))))
        if isinstance(args[0], Iter):
            return [(st, Iter("vec", ref, r))]
        return [(st, ref.i(r))]

    @m("std::find")
    def std_find(ex, st, fr, fn, this, args, e):
        ref, lo, hi = span(ex, st, args[0], args[1])
        v = ex.read(st, ref)
        x = val(ex, st, fn, args, 2)
        i = quant_i()
        r = fconst("find", I)
        at = lambda k: tselect(v["el"], k)
        st = st.assume(r >= lo, r <= hi, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), z3.Not(teq(at(i), x)))), z3.Implies(r < hi, teq(at(r), x)))
        return [(st, Iter("vec", ref, r) if isinstance(args[0], Iter) else ref.i(r))]

    # -------------------------------------------------- strings
    def str_ctor(ex, st, fr, fn, t, args, e):
        if not args:
            return [(st, StrV(()))]
        a = val(ex, st, fn, args, 0)
        if isinstance(a, StrV) or isz(a):
            return [(st, a)]
        raise Unsupported("string ctor")
    for nm in ("std::basic_string", "std::__cxx11::basic_string"):
        M[nm + "::basic_string"] = str_ctor

        def str_empty(ex, st, fr, fn, this, args, e):
            v = ex.read(st, this)
            if isinstance(v, StrV):
                return [(st, zb(v.lit() == "") if v.lit() is not None or all(isinstance(p, str) for p in v.parts) else zb(False))]
            return [(st, v == ex.strterm(StrV(())))]
        M[nm + "::empty"] = str_empty

        def str_asg(ex, st, fr, fn, this, args, e):
            v = val(ex, st, fn, args, 0)
            return [(ex.write(st, this, v), this)]
        M[nm + "::operator="] = str_asg

        def str_app(ex, st, fr, fn, this, args, e):
            v = val(ex, st, fn, args, 0)
            o = ex.read(st, this)
            return [(ex.write(st, this, tostr(o) + tostr(v)), this)]
        M[nm + "::operator+="] = str_app
        M[nm + "::append"] = str_app

        def str_sw(ex, st, fr, fn, this, args, e):
            a, b = ex.read(st, this), ex.read(st, args[0])
            st = ex.write(st, this, b)
            return [(ex.write(st, args[0], a), None)]
        M[nm + "::swap"] = str_sw

        def str_cstr(ex, st, fr, fn, this, args, e):
            return [(st, ex.read(st, this))]
        M[nm + "::c_str"] = str_cstr
        M[nm + "::data"] = str_cstr
        M[nm + "::reserve"] = vec_nop

        def str_size(ex, st, fr, fn, this, args, e):
            v = tostr(ex.read(st, this))
            if v.lit() is not None:
                return [(st, z3.IntVal(len(v.lit())))]
            r = fconst("strsize", I)
            return [(st.assume(r >= sum(len(p) for p in v.parts if isinstance(p, str))), r)]
        M[nm + "::size"] = M[nm + "::length"] = str_size

        def str_find(ex, st, fr, fn, this, args, e):
            v = tostr(ex.read(st, this))
            c = args[0]
            if isinstance(c, Ref):
                c = ex.read(st, c)
            if not (isz(c) and z3.is_int_value(z3.simplify(c))) or (len(args) > 1 and not (z3.is_int_value(args[1]) and args[1].as_long() == 0)):
                raise Unsupported("string find")
            ch = chr(z3.simplify(c).as_long())
            hit = text_has(v, ch)
            r = fconst("find", I)
            npos = z3.IntVal(2 ** 64 - 1)
            return [(st.assume(r >= 0, r < npos), z3.If(hit, r, npos))]
        M[nm + "::find"] = str_find

    # text streams: the value is the text written so far; the precision set last is kept as a piece
    for nm in ("std::basic_ostringstream", "std::basic_stringstream"):
        M[nm + "::" + nm[5:]] = str_ctor

        def ss_str(ex, st, fr, fn, this, args, e):
            if args:
                return [(ex.write(st, this, tostr(val(ex, st, fn, args, 0))), None)]
            return [(st, StrV([p for p in tostr(ex.read(st, this)).parts if isinstance(p, str) or p[0] != "prec"]))]
        M[nm + "::str"] = ss_str

    def os_put(ex, st, os, v):
        o = tostr(ex.read(st, os))
        return [(ex.write(st, os, o + v), os)]

    @m("std::basic_ostream::operator<<")
    def os_num(ex, st, fr, fn, this, args, e):
        t = fn.ptys()[0]
        a = args[0]
        if isinstance(a, Ref):
            a = ex.read(st, a)
        if t.k == "float":
            pr = [p for p in tostr(ex.read(st, this)).parts if not isinstance(p, str) and p[0] == "prec"]
            return os_put(ex, st, this, StrV((("dbl", coerce(a, R), pr[-1][1] if pr else z3.IntVal(6)),)))
        if t.k == "int":
            return os_put(ex, st, this, StrV((("num", a),)))
        raise Unsupported("stream output of " + t.s)

    @m("std::operator<<")
    def os_text(ex, st, fr, fn, this, args, e):
        a = args[1]
        if isinstance(a, Ref):
            a = ex.read(st, a)
        if isinstance(a, Tree) and a.kind == "prec":
            return os_put(ex, st, args[0], StrV((("prec", a["n"]),)))
        if isz(a) and a.sort() == I:
            if not z3.is_int_value(z3.simplify(a)):
                raise Unsupported("output of a character")
            return os_put(ex, st, args[0], StrV((chr(z3.simplify(a).as_long()),)))
        return os_put(ex, st, args[0], tostr(a))

    @m("std::setprecision")
    def setprec(ex, st, fr, fn, this, args, e):
        return [(st, Tree("prec", None, {"n": args[0]}))]

    @m("std::to_string")
    def std_tostring(ex, st, fr, fn, this, args, e):
        v = args[0]
        return [(st, StrV((("num", v),)))]

    # -------------------------------------------------- assertions
    @m("CppAD::ErrorHandler::Call", "__assert_fail", "abort", "exit")
    def assertfail(ex, st, fr, fn, this, args, e):
        ex.throw(st, fn.qn, loc(ex, e), None, True)
        return []

    # -------------------------------------------------- real math functions: uninterpreted
    for name in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "log10", "sqrt", "erf", "erfc", "expm1", "log1p", "fabs"):
        def mk(name):
            def f(ex, st, fr, fn, this, args, e):
                v = val(ex, st, fn, args, 0)
                if not isz(v):
                    return X_fallback(ex, st, fr, fn, this, args, e)
                return [(st, math_fn(name, coerce(v, R)))]
            return f
        for pre in ("std::", "", "CppAD::"):
            M[pre + name] = mk(name)

    def mpow(ex, st, fr, fn, this, args, e):
        a, b = val(ex, st, fn, args, 0), val(ex, st, fn, args, 1)
        if not (isz(a) and isz(b)):
            return X_fallback(ex, st, fr, fn, this, args, e)
        return [(st, math_fn("pow", coerce(a, R), coerce(b, R)))]
    M["std::pow"] = M["pow"] = M["CppAD::pow"] = mpow


def X_fallback(ex, st, fr, fn, this, args, e):
    if fn.body is not None:
        return ex.inline(st, fr, fn, this, args, e)
    raise Unsupported("math on non-scalar " + fn.sig[:120])


def math_fn(name, *args):
    f = z3.Function("m_" + name, *([R] * (len(args) + 1)))
    if name == "fabs":
        return z3.If(args[0] >= 0, args[0], -args[0])
    return f(*args)


def tostr(v):
    if isinstance(v, StrV):
        return v
    if isz(v) and v.sort() == Str:
        return StrV((("str", v),))
    if isz(v) and v.sort() == I:
        return StrV((("char", v),))
    raise Unsupported("string of %r" % (v,))


def text_has(v, ch):
    """whether a text contains a character"""
    out = []
    for p in v.parts:
        if isinstance(p, str):
            out.append(zb(ch in p))
        elif p[0] == "dbl":
            out.append(z3.Function("number_has_" + str(ord(ch)), R, I, B)(p[1], p[2]))
        elif p[0] == "num":
            out.append(zb(False) if not (ch.isdigit() or ch == "-") else fconst("has", B))
        else:
            out.append(fconst("has", B))
    return z3.simplify(z3.Or(out + [zb(False)]))


def str_eq(ex, a, b):
    la = a.lit() if isinstance(a, StrV) else None
    lb = b.lit() if isinstance(b, StrV) else None
    if la is not None and lb is not None:
        return zb(la == lb)
    if isinstance(a, StrV) and isinstance(b, StrV):
        if X.streq(a, b):
            return zb(True)
        raise Unsupported("string comparison")
    return ex.strterm(a) == ex.strterm(b)


def cont_eq(ex, a, b):
    if a.kind == "vec" and b.kind == "vec":
        i = quant_i()
        return z3.And(a["len"] == b["len"], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a["len"]), cont_eq(ex, X.tselect_(a["el"], i), X.tselect_(b["el"], i)) if isinstance(a["el"], Tree) else z3.Select(a["el"], i) == z3.Select(b["el"], i))))
    if a.kind == "set" and b.kind == "set":
        return a["dom"] == b["dom"]
    if a.kind == "rec":
        return teq(a, b)
    raise Unsupported("container equality")


def X_coerce(ex, x, ty):
    s = ex.sorts.scalar(ty)
    if s is not None and isz(x) and x.sort() != s:
        return coerce(x, s)
    return x


def span(ex, st, a, b):
    """(container ref, lo, hi) of an iterator / pointer pair"""
    if isinstance(a, Iter) and a.kind == "vec":
        return a.cont, a.pos, b.pos
    if isinstance(a, Ref) and a.acc and a.acc[-1][0] == "i":
        return Ref(a.root, a.acc[:-1]), a.acc[-1][1], b.acc[-1][1]
    raise Unsupported("range of %r" % (a,))


def range_src(ex, st, a, b):
    """-> (state, count, fn(i) -> i-th element value)"""
    if isinstance(a, Iter) and a.kind in ("set",):
        v = ex.read(st, a.cont)
        dom = v["dom"]
        # whole set only
        st, n = card(ex, st, dom)
        ks = dom.sort().domain()
        nth = z3.Function("nth_%s" % str(ks), dom.sort(), I, ks)
        rank = z3.Function("rank_%s" % str(ks), dom.sort(), ks, I)
        i, j = quant_i(), quant_i()
        k = z3.Const("k!%d" % fresh_id(), ks)
        st = st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(dom, nth(dom, i))), patterns=[nth(dom, i)]),
                       z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), lt(nth(dom, i), nth(dom, j))), patterns=[z3.MultiPattern(nth(dom, i), nth(dom, j))]),
                       z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(rank(dom, k) >= 0, rank(dom, k) < n, nth(dom, rank(dom, k)) == k)), patterns=[rank(dom, k)]),
                       )
        # only a full begin..end range is supported: obligation
        s2, bg = begin(ex, st, a.cont, v)
        st = s2
        st = ex.oblige(st, z3.And(b.end, z3.Or(a.end == bg.end, z3.BoolVal(False)), z3.Or(a.end, a.pos == bg.pos)), "copy of a whole set", "range", "safety")
        return st, n, (lambda i: ex.sorts.from_key(v.ty.rec().targ(0), nth(dom, i)) if v.ty is not None else nth(dom, i))
    ref, lo, hi = span(ex, st, a, b)
    v = ex.read(st, ref)
    n = hi - lo
    if ex.opts["bounds"] and isinstance(v, Tree) and "len" in v.f:
        st = ex.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= v["len"]), "source range within bounds", "range", "bounds")
    el = v["el"]
    if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
        return st, z3.simplify(n), (lambda i: X.tselect_(el, i))
    return st, n, (lambda i: X.tselect_(el, lo + i))


def range_dom(ex, st, kt, a, b):
    """set of the elements of a range, as a dom array"""
    if isinstance(a, Iter) and a.kind == "set":
        v = ex.read(st, a.cont)
        s2, bg = begin(ex, st, a.cont, v)
        st = ex.oblige(s2, z3.And(b.end, a.end == bg.end, z3.Or(a.end, a.pos == bg.pos)), "insertion of a whole set", "range", "safety")
        return st, v["dom"]
    st, n, src = range_src(ex, st, a, b)
    ks = ex.sorts.key_sort(kt)
    dom = fconst("rangeset", z3.ArraySort(ks, B))
    k = z3.Const("k!%d" % fresh_id(), ks)
    i = quant_i()
    w = z3.Function("rangewit!%d" % fresh_id(), ks, I)
    st = st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(dom, ex.sorts.to_key(kt, src(i))))),
                   z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(w(k) >= 0, w(k) < n, ex.sorts.to_key(kt, src(w(k))) == k)), patterns=[z3.Select(dom, k)]))
    return st, dom


def piecewise2(ex, st, name, old, lo, hi, f):
    """old overwritten on [lo,hi) by f"""
    out = old
    for path, a in list(tleaves(old)):
        def g(i, path=path, a=a):
            src = f(i)
            return z3.If(z3.And(i >= lo, i < hi), coerce(tget(src, path) if path else src, a.sort().range()), z3.Select(a, i))
        st, r = define(ex, st, name, a.sort(), g)
        out = tset(out, path, r)
    return st, out
