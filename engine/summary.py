"""Derives loop-invariant candidates from the effect of one symbolic iteration (loop summaries).

Nothing produced here is trusted: every formula is only a candidate that loops.py checks for initiation and
preservation.  The derivation works on the *effect* of the body (final value of each modified leaf as a function of
the head value), so that it does not depend on how the body is written.
"""
import z3
from val import *
import exec as X


def simp(t):
    return z3.simplify(t)


def const_ids(t, memo):
    """ids of the uninterpreted constants (and functions of arity 0) occurring in t"""
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    out = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = x
            else:
                stack.extend(x.children())
    memo[k] = (out, t)
    return out


def num_of(c):
    n = c.decl().name()
    if "!" in n:
        s = n.rsplit("!", 1)[1]
        if s.isdigit():
            return int(s)
    return -1


class Deriver:
    def __init__(self, ex, L, h, hconsts, base, nexts):
        self.ex, self.L, self.h, self.hconsts, self.base, self.nexts = ex, L, h, hconsts, base, nexts
        self.memo = {}
        self.modconst = {c.get_id(): k for k, c in hconsts.items()}
        self.controls = []
        self.linear = {}   # leaf key -> delta
        self.cont = None

    # -- leaf access
    def leaf(self, st, key):
        return leaf_of(self.ex, st, key)

    def expand_defs(self, t):
        """replace array constants that have a known definition by it"""
        defs = self.ex.defs
        for _ in range(6):
            cs = const_ids(t, self.memo)
            sub = []
            for i, c in cs.items():
                d = defs.get(c.decl().name())
                if d is not None and c.get_id() not in self.modconst:
                    sub.append((c, d))
            if not sub:
                return t
            t = z3.simplify(z3.substitute(t, *sub))
        return t

    def elem(self, t, idx, eqs=()):
        """value of array term t at bound indexes idx"""
        if not idx:
            return t
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_STORE and t.num_args() == 3:
                a, i, v = t.children()
                c = simp(idx[0] == i)
                if z3.is_true(c):
                    return self.elem(v, idx[1:], eqs)
                if z3.is_false(c):
                    return self.elem(a, idx, eqs)
                w = self.elem(v, idx[1:], eqs + ((i, idx[0]),))
                if not z3.is_int_value(i):
                    w = z3.substitute(w, (i, idx[0]))
                return self.mkif(c, w, self.elem(a, idx, eqs))
            if k == z3.Z3_OP_ITE:
                c, a, b = t.children()
                return self.mkif(c, self.elem(a, idx, eqs), self.elem(b, idx, eqs))
            if k == z3.Z3_OP_CONST_ARRAY:
                return self.elem(t.arg(0), idx[1:], eqs)
            if k == z3.Z3_OP_SELECT and t.num_args() == 2:
                j = t.arg(1)
                for i, b in eqs:
                    if z3.eq(i, j):
                        j = b
                        break
                return self.elem(t.arg(0), [j] + list(idx), eqs)
            if t.num_args() == 0:
                d = self.ex.defs.get(t.decl().name())
                if d is not None and t.get_id() not in self.modconst:
                    r = d
                    for j in idx:
                        r = z3.Select(r, j)
                    return self.expand_defs(simp(r))
        if z3.is_quantifier(t) and t.is_lambda():
            r = t
            for j in idx:
                r = z3.Select(r, j)
            return self.expand_defs(simp(r))
        r = t
        for j in idx:
            r = z3.Select(r, j)
        return r

    def mkif(self, c, a, b):
        if z3.eq(a, b):
            return a
        return z3.If(c, a, b)

    def pure(self, t, allow=()):
        """only refers to values that exist unchanged at the loop head"""
        for i, c in const_ids(t, self.memo).items():
            if i in allow:
                continue
            if i in self.modconst:
                return False
            if num_of(c) > self.base:
                return False
        return True

    # -- controls
    def find_controls(self):
        L, h, ex = self.L, self.h, self.ex
        from stl import lt
        # integer leaves with a constant step
        for key, c in self.hconsts.items():
            if c.sort() != I:
                continue
            ds = set()
            for x in self.nexts:
                d = simp(self.expand_defs(self.leaf(x, key)) - c)
                ds.add(d.as_long() if z3.is_int_value(d) else None)
            if len(ds) == 1 and None not in ds and 0 not in ds:
                self.linear[key] = ds.pop()
        prim = []
        for key, d in self.linear.items():
            root, path = key
            if d not in (1, -1):
                continue
            v0 = self.leaf(L.st0, key)
            rank = 1
            if root == L.it_root:
                rank = 0
            elif isinstance(self.h.vars.get(root), Iter):
                rank = 1
            elif path == () and root in L.cond_roots:
                rank = 0
            elif path == ():
                rank = 2
            else:
                rank = 3
            prim.append((rank, "int", key, v0, d))
        for root in L.iters():
            it0, it = L.st0.vars[root], h.vars[root]
            if it.kind in ("set", "map") and (root, ("pos",)) in self.hconsts:
                cm = self.cont_modified(it)
                prim.append((0 if root == L.it_root else 1 if not cm else 4, it.kind, (root, ("pos",)), it0, 0))
        prim.sort(key=lambda x: x[0])
        self.controls = prim

    def cont_modified(self, it):
        k = it.cont.root
        for (root, path) in self.hconsts:
            if root == k and path and path[-1] == "dom":
                return True
        return False

    def control(self, c):
        """-> (sort, t const, substitution head->t, processed(state, t))"""
        rank, kind, key, v0, d = c
        hc = self.hconsts[key]
        L, ex = self.L, self.ex
        from stl import lt
        if kind == "int":
            t = z3.Const("t!%d" % fresh_id(), I)
            sub = [(hc, t)]
            for k2, d2 in self.linear.items():
                if k2 != key:
                    a = self.leaf(L.st0, k2)
                    off = (t - v0) if d == 1 else (v0 - t)
                    sub.append((self.hconsts[k2], simp(a + off * d2)))
            if d == 1:
                proc = lambda st, t: z3.And(v0 <= t, t < self.leaf(st, key))
            else:
                proc = lambda st, t: z3.And(self.leaf(st, key) < t, t <= v0)
            return I, t, sub, proc
        root = key[0]
        it0 = L.st0.vars[root]
        ks = hc.sort()
        t = z3.Const("t!%d" % fresh_id(), ks)
        sub = [(hc, t)]
        endk = self.hconsts.get((root, ("end",)))
        if endk is not None:
            sub.append((endk, z3.BoolVal(False)))
        k = z3.Const("q!%d" % fresh_id(), ks)
        dom0 = ex.read(L.st0, it0.cont)["dom"]
        full = ex.solver.prove(list(L.st0.pc), z3.ForAll([k], z3.Implies(z3.Select(dom0, k), z3.And(z3.Not(it0.end), z3.Not(lt(k, it0.pos))))), timeout=1500)[0] == "proved"
        modified = self.cont_modified(it0)

        def proc(st, t):
            it = st.vars[root]
            dom = dom0 if modified else ex.read(st, it0.cont)["dom"]
            cs = [z3.Select(dom, t)]
            if not full:
                cs += [z3.Not(it0.end), z3.Not(lt(t, it0.pos))]
            cs.append(z3.Or(it.end, lt(t, it.pos)))
            return z3.And(cs)
        return ks, t, sub, proc

    # -- candidates
    def derive(self):
        ex, L, h = self.ex, self.L, self.h
        self.find_controls()
        out = []
        self.defs_out = []
        # lockstep relations between linear leaves
        lk = list(self.linear.items())
        if lk:
            (k0, d0) = lk[0] if not self.controls or self.controls[0][1] != "int" else (self.controls[0][2], self.controls[0][4])
            for k1, d1 in lk:
                if k1 != k0:
                    a0, a1 = self.leaf(L.st0, k0), self.leaf(L.st0, k1)
                    out.append(("lockstep %s %s" % (kn(k0), kn(k1)), lambda st, k0=k0, k1=k1, a0=a0, a1=a1, d0=d0, d1=d1:
                                (self.leaf(st, k1) - a1) * d0 == (self.leaf(st, k0) - a0) * d1))
        if not self.controls:
            return out
        used = 0
        for ctl in self.controls[:2]:
            if ctl[0] > 2 and used:
                break
            used += 1
            out += self.derive_for(ctl, first=(used == 1))
            if ctl[0] == 0:
                break
        return out

    def path_conds(self, x):
        return [c for c in x.pc[len(self.h.pc):] if c.get_id() in self.ex.branch_ids]

    def derive_for(self, ctl, first):
        ex, L, h = self.ex, self.L, self.h
        ks, t, sub, proc = self.control(ctl)
        out = []
        tag = kn(ctl[2])
        ctlroot = ctl[2][0]
        # 1. conditions under which the loop goes on hold for everything processed
        pcs = []
        for x in self.nexts:
            cs = []
            for c in self.path_conds(x):
                c = self.expand_defs(c)
                c = z3.substitute(c, *sub)
                if self.pure(c, (t.get_id(),)):
                    cs.append(c)
            pcs.append(z3.And(cs) if cs else z3.BoolVal(True))
        if pcs and not any(z3.is_true(p) for p in pcs):
            w = simp(z3.Or(pcs))
            if not z3.is_true(w):
                out.append(("processed elements satisfy the continuation condition [%s]" % tag,
                            lambda st, w=w: qall([t], z3.Implies(proc(st, t), w))))
                if first:
                    self.cont = (out[-1][0], t, w, proc, ctl)
        # 2. effects
        for key, H in self.hconsts.items():
            root, path = key
            if key in self.linear or (root == ctlroot and path in (("pos",), ("end",))):
                continue
            try:
                out += self.effect(key, H, ks, t, sub, proc, tag, first)
            except Unsupported:
                pass
        return out

    def effect(self, key, H, ks, t, sub, proc, tag, first):
        ex, L, h = self.ex, self.L, self.h
        out = []
        idx = []
        s = H.sort()
        while isinstance(s, z3.ArraySortRef):
            idx.append(z3.Const("x!%d" % fresh_id(), s.domain()))
            s = s.range()
        old = z3.Const("old!%d" % fresh_id(), s)
        es = []
        for x in self.nexts:
            e = self.elem(self.leaf(x, key), idx)
            e = self.expand_defs(e)
            es.append(e)
        # combine the alternatives
        e = es[-1]
        for n in range(len(es) - 2, -1, -1):
            cs = [self.expand_defs(c) for c in self.path_conds(self.nexts[n])]
            e = self.mkif(z3.And(cs) if cs else z3.BoolVal(True), es[n], e)
        hel = H
        for j in idx:
            hel = z3.Select(hel, j)
        e = z3.substitute(e, (hel, old))
        e = z3.substitute(e, *sub)
        nm = kn(key) + " [" + tag + "]"
        H0 = self.leaf(L.st0, key)
        h0el = H0
        for j in idx:
            h0el = z3.Select(h0el, j)

        def cur(st):
            v = self.leaf(st, key)
            for j in idx:
                v = z3.Select(v, j)
            return v
        e = self.match_old(e, H, idx, old, sub)
        selfdep = H.get_id() in const_ids(e, self.memo)
        allow = {t.get_id(), old.get_id()} | {i.get_id() for i in idx}
        if not self.pure(e, allow | {H.get_id()}):
            return out
        if s == B and selfdep:
            # guards that look at the whole old value: offer the effect under each outcome of the guards
            n0 = len(out)
            for e2 in unguard(e, H, self.memo):
                if H.get_id() in const_ids(e2, self.memo):
                    continue
                phi = simp(z3.substitute(e2, (old, z3.BoolVal(False))))
                psi = simp(z3.substitute(e2, (old, z3.BoolVal(True))))
                if not self.valid(psi):
                    continue
                out += self.union(key, H, idx, t, phi, cur, h0el, proc, nm, first)
            if len(out) > n0:
                return out
        if s == B and not selfdep:
            phi = simp(z3.substitute(e, (old, z3.BoolVal(False))))
            psi = simp(z3.substitute(e, (old, z3.BoolVal(True))))
            if z3.is_true(psi) or self.valid(psi):
                return out + self.union(key, H, idx, t, phi, cur, h0el, proc, nm, first)
            if z3.is_false(phi):
                tsol, rest = solve(simp(z3.Not(psi)), t, idx)
                if tsol is not None:
                    d = lambda st: z3.And(h0el, z3.Not(z3.And(proc(st, tsol), rest)))
                else:
                    d = lambda st: z3.And(h0el, qall([t], z3.Implies(proc(st, t), psi)))
                out.append(("intersection of effects on " + nm, lambda st: qall(idx, cur(st) == d(st))))
                self.adddef(key, H, idx, d, out[-1][0], first)
                return out
        w, g = split(e, old)
        if w is None:
            # accumulation: offer stability
            return out
        if z3.is_false(w):
            return out
        w = simp(w)
        if not selfdep and g is not None and old.get_id() not in const_ids(g, self.memo) and old.get_id() not in const_ids(w, self.memo):
            tsol, rest = solve(w, t, idx)
            if tsol is not None:
                g2 = z3.substitute(g, (t, tsol))
                f = lambda st: qall(idx, cur(st) == z3.If(z3.And(proc(st, tsol), rest), g2, h0el))
                out.append(("writes of " + nm, f))
                self.adddef(key, H, idx, lambda st: z3.If(z3.And(proc(st, tsol), rest), g2, h0el), out[-1][0], first)
                # separately usable pieces
                return out
            out.append(("value written to " + nm, lambda st: qall(idx + [t], z3.Implies(z3.And(proc(st, t), w), cur(st) == g))))
            out.append(("frame of " + nm, lambda st: qall(idx, z3.Implies(z3.Not(qex([t], z3.And(proc(st, t), w))), cur(st) == h0el))))
            if not idx:
                out.append(("origin of " + nm, lambda st: z3.Or(cur(st) == h0el, qex([t], z3.And(proc(st, t), w, cur(st) == g)))))
            return out
        # guard depends on the old value (e.g. running maximum): stability and provenance
        if not selfdep and g is not None and old.get_id() not in const_ids(g, self.memo):
            def stab(st):
                c = cur(st)
                return qall(idx + [t], z3.Implies(proc(st, t), z3.substitute(e, (old, c)) == c))
            out.append(("stability of " + nm, stab))
            out.append(("origin of " + nm, lambda st: qall(idx, z3.Or(cur(st) == h0el, qex([t], z3.And(proc(st, t), cur(st) == g))))))
        return out

    def match_old(self, e, H, idx, old, sub):
        """H[j0][j1].. -> old where every j is the bound index or is equated with it somewhere in e (heuristic)"""
        if not idx or H.get_id() not in const_ids(e, self.memo):
            return e
        sels, eqs, stack, seen = [], set(), [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_eq(x):
                a, b = x.children()
                eqs.add((a.get_id(), b.get_id()))
                eqs.add((b.get_id(), a.get_id()))
            js, y = [], x
            while z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT and y.num_args() == 2:
                js.insert(0, y.arg(1))
                y = y.arg(0)
            if z3.eq(y, H) and len(js) == len(idx):
                sels.append((x, js))
                continue
            stack.extend(x.children())
        rep = []
        for x, js in sels:
            if all(z3.eq(j, k) or (j.get_id(), k.get_id()) in eqs for j, k in zip(js, idx)):
                rep.append((x, old))
        return z3.simplify(z3.substitute(e, *rep)) if rep else e

    def union(self, key, H, idx, t, phi, cur, h0el, proc, nm, first):
        tsol, rest = solve(phi, t, idx)
        if tsol is not None:
            d = lambda st: z3.Or(h0el, z3.And(proc(st, tsol), rest))
        else:
            d = lambda st: z3.Or(h0el, qex([t], z3.And(proc(st, t), phi)))
        f = lambda st: qall(idx, cur(st) == d(st))
        self.adddef(key, H, idx, d, "union of effects on " + nm, first)
        return [("union of effects on " + nm, f)]

    def valid(self, f):
        return z3.is_true(simp(f))

    def adddef(self, key, H, idx, body, cand, first):
        if first:
            self.defs_out.append((key, H, idx, body, cand))


def unguard(e, H, memo, limit=8):
    """variants of e in which every condition that mentions H is fixed to true or false"""
    todo, out = [e], []
    while todo and len(out) < limit:
        x = todo.pop()
        g = guard_on(x, H, memo)
        if g is None:
            out.append(x)
            continue
        for v in (True, False):
            todo.append(z3.simplify(z3.substitute(x, (g, z3.BoolVal(v)))))
    return out


def guard_on(e, H, memo):
    """an innermost boolean condition of e that mentions H"""
    stack, seen, best = [e], set(), None
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or H.get_id() not in const_ids(x, memo):
            continue
        seen.add(x.get_id())
        if x.sort() == B and not z3.eq(x, e) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x)) and x.decl().kind() != z3.Z3_OP_ITE:
            best = x
        stack.extend(x.children())
    return best


def leaf_of(ex, st, key):
    root, path = key
    if root[0] == "heap":
        v = st.heap.get(root[1], ex.trace_cache.get(root[1]))
    elif root[0] == "ghost":
        v = st.ghost.get(root[1], ex.trace_cache.get(root[1]))
    else:
        v = st.vars[root]
    import loops
    for p, l in loops.vleaves(v):
        if p == path:
            return l
    raise Unsupported("leaf")


def kn(key):
    root, path = key
    return "_".join(str(x) for x in (root[-1:] + tuple(path)))


def qall(vs, b):
    if z3.is_true(b):
        return b
    return z3.ForAll(vs, b) if vs else b


def qex(vs, b):
    return z3.Exists(vs, b)


def conj(t):
    if z3.is_and(t):
        out = []
        for c in t.children():
            out += conj(c)
        return out
    return [t]


def split(e, old):
    """e as: if w then g else old"""
    if z3.eq(e, old):
        return z3.BoolVal(False), None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        wa, ga = split(a, old)
        wb, gb = split(b, old)
        if wa is None or wb is None:
            return None, None
        w = z3.Or(z3.And(c, wa), z3.And(z3.Not(c), wb))
        g = ga if gb is None else gb if ga is None else z3.If(c, ga, gb)
        return w, g
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, old):
            return None, None
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return z3.BoolVal(True), e


def solve(w, t, idx):
    """find a conjunct k == t + c (k a bound index): -> (t as a function of k, remaining condition with t eliminated)"""
    cs = conj(w)
    for n, c in enumerate(cs):
        if z3.is_eq(c):
            a, b = c.children()
            for k in idx:
                if k.sort() != t.sort():
                    continue
                for x, y in ((a, b), (b, a)):
                    sol = None
                    if z3.eq(x, k) and z3.eq(y, t):
                        sol = k
                    elif t.sort() == I:
                        # linear in both with unit coefficients?
                        d = z3.simplify(x - y)
                        r = iso(d, t, idx)
                        if r is not None:
                            sol = r
                    if sol is not None:
                        rest = [z3.substitute(q, (t, sol)) for m, q in enumerate(cs) if m != n]
                        return sol, (z3.simplify(z3.And(rest)) if rest else z3.BoolVal(True))
    return None, None


def iso(d, t, idx):
    """solve d == 0 for t when d is a sum with t of coefficient +-1; must mention one of idx"""
    terms = d.children() if z3.is_add(d) else [d]
    coef = None
    rest = []
    for x in terms:
        if z3.eq(x, t):
            coef = 1 if coef is None else None
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and z3.eq(x.arg(1), t):
            if abs(x.arg(0).as_long()) != 1:
                return None
            coef = x.arg(0).as_long()
        else:
            if occurs(t, x):
                return None
            rest.append(x)
    if coef is None or not any(occurs(k, x) for k in idx for x in rest):
        return None
    r = z3.Sum(rest) if len(rest) > 1 else rest[0]
    return z3.simplify(-r if coef == 1 else r)


def occurs(c, t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, c):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False
