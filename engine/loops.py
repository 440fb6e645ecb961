"""Loops: inductive invariants by Houdini over candidate formulas.

Candidates come from a generic generator (bounds of the loop's own control variables) and from the property's
specification (opts['cands']).  None of them is trusted: a candidate survives only if it holds on entry and is
preserved by the body assuming the survivors; the surviving set is the loop invariant.  Variables are referred to by
role and type, never by name.
"""
import os
import z3
from val import *
import exec as X


class Loop:
    def __init__(self, ex, st0, fr, stmt):
        self.ex, self.st0, self.fr, self.stmt = ex, st0, fr, stmt
        self.mods = {}       # root/heap key -> set of leaf paths
        self.kind = None     # 'cond' | 'range'
        self.it_root = None  # root of the hidden iterator (range loops)
        self.cont = None     # container Ref (range loops)
        self.cond = None
        self.decl = set()
        self.outer = None
        self.spec_phase = False
        self.fn = fr.fn
        self.loc = stmt.get("l")

    # -- helpers for specifications
    def ints(self):
        """scalar Int variables modified by the loop -> roots"""
        out = []
        for root, paths in self.mods.items():
            if root[0] in ("v", "t") and root in self.st0.vars:
                v = self.st0.vars[root]
                if isz(v) and v.sort() == I and () in paths:
                    out.append(root)
        return out

    def scalars(self, sort):
        out = []
        for root, paths in self.mods.items():
            if root[0] in ("v", "t") and root in self.st0.vars:
                v = self.st0.vars[root]
                if isz(v) and v.sort() == sort and () in paths:
                    out.append(root)
        return out

    def iters(self):
        out = []
        for root in self.mods:
            if root[0] in ("v", "t", "it") and isinstance(self.st0.vars.get(root), Iter):
                out.append(root)
        return out

    def trees(self, kind=None):
        """roots of modified containers"""
        out = []
        for root in self.mods:
            if root[0] in ("v", "t") and isinstance(self.st0.vars.get(root), Tree):
                if kind is None or self.st0.vars[root].kind == kind:
                    out.append(root)
        return out

    def typed(self, pred, mod=None):
        """roots of the variables the loop refers to whose type satisfies pred (mod: only those the loop modifies / does not modify)"""
        ids = {}

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "var" and "t" in x:
                    ids[x["id"]] = x["t"]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(self.stmt)
        out = []
        for i, t in ids.items():
            root = ("v", self.fr.id, i)
            if root in self.st0.vars and pred(self.ex.prog.ty(t).deref()) and (mod is None or mod == (root in self.mods)):
                out.append(root)
        return out

    def entry(self, root):
        return self.st0.vars.get(root)

    def outer_generic(self):
        """an enclosing loop is still looking for its generic invariants (its specified candidates are not assumed yet)"""
        st = self.ex.loop_stack
        i = st.index(self) if self in st else len(st)
        return any(not l.spec_phase for l in st[:i])

    def is_mod(self, root):
        return root in self.mods


def vleaves(v):
    if isz(v):
        yield (), v
    elif isinstance(v, Tree):
        for k, x in v.f.items():
            for p, l in vleaves(x):
                yield (k,) + p, l
    elif isinstance(v, Iter):
        if isz(v.pos):
            yield ("pos",), v.pos
        if v.end is not None:
            yield ("end",), v.end
    elif isinstance(v, Ref):
        if v.root[0] == "h":
            yield ("hp",), v.root[1]
        for n, a in enumerate(v.acc):
            if a[0] in ("i", "k") and isz(a[1]):
                yield ("acc", n), a[1]
    elif isinstance(v, X.RefAlias):
        for p, l in vleaves(v.ref):
            yield ("r",) + p, l


def vset(v, path, x):
    if isz(v):
        return x
    if isinstance(v, Tree):
        return v.withk(path[0], vset(v.f[path[0]], path[1:], x))
    if isinstance(v, Iter):
        return Iter(v.kind, v.cont, x if path[0] == "pos" else v.pos, x if path[0] == "end" else v.end, v.rev)
    if isinstance(v, Ref):
        if path[0] == "hp":
            return Ref(("h", x) + tuple(v.root[2:]), v.acc)
        acc = list(v.acc)
        acc[path[1]] = (acc[path[1]][0], x)
        return Ref(v.root, acc)
    if isinstance(v, X.RefAlias):
        return X.RefAlias(vset(v.ref, path[1:], x))
    raise Unsupported("havoc of %r" % (v,))


def same_shape(a, b):
    if isz(a) and isz(b):
        return a.sort() == b.sort()
    if type(a) is not type(b):
        return False
    if isinstance(a, Tree):
        return set(a.f) == set(b.f) and all(same_shape(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Iter):
        return a.kind == b.kind and X.refeq(a.cont, b.cont)
    if isinstance(a, Ref):
        if (a.root[0] == "h") != (b.root[0] == "h"):
            return False
        if a.root[0] != "h" and a.root != b.root:
            return False
        return len(a.acc) == len(b.acc) and all(x[0] == y[0] and (x[0] not in ("f",) or x[1] == y[1]) for x, y in zip(a.acc, b.acc))
    if isinstance(a, X.RefAlias):
        return same_shape(a.ref, b.ref)
    if isinstance(a, StrV):
        return X.streq(a, b)
    return True


def diff(a, b):
    """set of leaf paths in which two values of the same shape differ"""
    if a is b or a is None:
        return set()   # (uninitialised at the head: stays unreadable there)
    if not same_shape(a, b):
        raise Unsupported("loop changes the shape of a value: %r -> %r" % (a, b))
    la, lb = dict(vleaves(a)), dict(vleaves(b))
    return {p for p in la if not z3.eq(la[p], lb[p])}


def decl_ids(s, out):
    if isinstance(s, dict):
        if s.get("k") == "decl":
            for v in s["v"]:
                out.add(v["id"])
        if s.get("k") == "rfor":
            out.add(s["v"]["id"])
        for v in s.values():
            decl_ids(v, out)
    elif isinstance(s, list):
        for v in s:
            decl_ids(v, out)


def havoc(ex, st0, mods, tag, consts=None):
    s = st0.copy()
    facts = []
    for root, paths in mods.items():
        if root[0] == "heap":
            v = s.heap.get(root[1], ex.trace_cache.get(root[1]))
        elif root[0] == "ghost":
            v = s.ghost.get(root[1], ex.trace_cache.get(root[1]))
        else:
            v = s.vars[root]
        for p in sorted(paths, key=str):
            old = dict(vleaves(v))[p]
            x = fconst("%s.%s" % (tag, "_".join(str(q) for q in (root[-1] if isinstance(root[-1], tuple) else (root[-1],)) + p)), old.sort())
            if consts is not None:
                consts[(root, p)] = x
            v = vset(v, p, x)
            if p and p[-1] == "len":
                if old.sort() == I:
                    facts.append(x >= 0)
                else:
                    facts.append(len_nonneg(x))
        if root[0] == "heap":
            s.heap[root[1]] = v
        elif root[0] == "ghost":
            s.ghost[root[1]] = v
        else:
            s.vars[root] = v
    return s.assume(*facts) if facts else s


def len_nonneg(a):
    vs = []
    t = a
    while isinstance(t.sort(), z3.ArraySortRef):
        k = z3.Const("q!%d" % len(vs), t.sort().domain())
        vs.append(k)
        t = z3.Select(t, k)
    return z3.ForAll(vs, t >= 0)


def run_range_loop(ex, st, fr, s, cont):
    v = ex.read(st, cont)
    if isinstance(v, Tree) and v.kind in ("vec", "set", "map"):
        it0 = None
    else:
        raise Unsupported("range-for over %r" % (v,))
    root = ("it", fr.id, s["v"]["id"])
    import stl
    st, it = stl.begin(ex, st, cont, v)
    st = st.copy()
    st.vars[root] = it
    ty = ex.prog.ty(s["v"]["t"])

    def head(x):
        it = x.vars[root]
        cv = ex.read(x, cont)
        c = (it.pos < cv["len"]) if it.kind == "vec" else z3.Not(it.end)
        a, b = ex.branch(x, c)
        return ([a] if a is not None else []), ([b] if b is not None else [])

    def body(x):
        it = x.vars[root]
        x = x.copy()
        vr = ("v", fr.id, s["v"]["id"])
        if it.kind == "set":
            x, r = ex.temp(x, ex.sorts.from_key(ex.set_key_ty(x, it.cont), it.pos))
        elif it.kind == "map":
            x, r = ex.temp(x, None)
            x = x.copy()
            r = ex.iter_ref(it)
        else:
            r = ex.iter_ref(it)
        x = x.copy()
        if ty.k == "ref":
            x.vars[vr] = X.RefAlias(r)
        else:
            x.vars[vr] = ex.read(x, r)
        return ex.exec(x, fr, s["b"])

    def inc(x):
        import stl
        it = x.vars[root]
        x, it2 = stl.next_iter(ex, x, it)
        x = x.copy()
        x.vars[root] = it2
        return [("n", x, None)]

    L = Loop(ex, st, fr, s)
    L.kind, L.it_root, L.cont = "range", root, cont
    return run(ex, st, fr, s, L, head, body, inc)


def run_loop(ex, st, fr, s, cond, body, inc, cv=None, dowhile=False):
    L = Loop(ex, st, fr, s)
    L.kind, L.cond = "cond", cond
    L.inc = inc

    def head(x):
        if cond is None:
            return [x], []
        xs = [x]
        if cv is not None:
            xs = [o[1] for o in ex.exec(x, fr, cv) if o[0] == "n"]
        ins, outs = [], []
        for y in xs:
            for z, c in ex.ev(y, fr, cond):
                a, b = ex.branch(z, ex.tobool(c, z))
                if a is not None:
                    ins.append(a)
                if b is not None:
                    outs.append(b)
        return ins, outs

    def dobody(x):
        return ex.exec(x, fr, body)

    def doinc(x):
        if inc is None:
            return [("n", x, None)]
        return [("n", y, None) for y, _ in ex.ev(x, fr, inc)]
    L.dowhile = dowhile
    return run(ex, st, fr, s, L, head, dobody, doinc, dowhile)


def step(ex, st, head, body, inc, dowhile):
    """one iteration from the loop head -> (exit states, next-head states, other outcomes)"""
    ex.sink.append([])
    exits, nexts, others = [], [], []
    ex.head_exits = None
    try:
        if dowhile:
            ins = [st]
        else:
            ins, exits = head(st)
            exits = list(exits)
        nhead = len(exits)
        after = []
        for x in ins:
            for o in body(x):
                if o[0] in ("n", "cont"):
                    after.append(o[1])
                elif o[0] == "brk":
                    exits.append(o[1])
                else:
                    others.append(o)
        if len(after) > 1:
            after = ex.merge_list(after)
        for x in after:
            if dowhile:
                a, b = head(x)
                nexts += a
                exits += b
            else:
                for o in inc(x):
                    nexts.append(o[1])
    finally:
        th = ex.sink.pop()
    others += [("throw", x, t) for x, t in th]
    ex.head_exits = exits if (not dowhile and len(exits) == nhead) else None
    ex.n_head_exits = 0 if dowhile else nhead
    return exits, nexts, others


def try_unroll(ex, st, head, body, inc, dowhile, limit):
    """concrete unrolling while the condition is decided by simplification alone"""
    cur = [st]
    exits, others = [], []
    for n in range(limit + 1):
        nxt = []
        for x in cur:
            if not dowhile or n > 0:
                pc = len(x.pc)
                ins, outs = head(x)
                if ins and outs:
                    return None
                exits += outs
                if not ins:
                    continue
                x = ins[0]
            for o in body(x):
                if o[0] in ("n", "cont"):
                    for p in inc(o[1]):
                        nxt.append(p[1])
                elif o[0] == "brk":
                    exits.append(o[1])
                else:
                    others.append(o)
        if len(nxt) > 1:
            nxt = ex.merge_list(nxt)
        cur = nxt
        if not cur:
            return exits, others
    return None


def bmc(ex, st, head, body, inc, dowhile, k):
    """the loop unrolled at most k times; longer executions are dropped (used only to confirm a failed obligation)"""
    cur, exits, others = [st], [], []
    for n in range(k + 1):
        nxt = []
        for x in cur:
            e, nx, o = step(ex, x, head, body, inc, dowhile)
            e = [y for y in e if ex.feas(y)]
            exits += e
            others += o
            nxt += [y for y in nx if ex.feas(y)]
        cur = ex.merge_list(nxt) if len(nxt) > 1 else nxt
        if not cur:
            break
    return exits, others


def run(ex, st, fr, s, L, head, body, inc, dowhile=False):
    if ex.opts.get("bmc"):
        ex.loop_stack.append(L)
        L.st0, L.outer, L.mods = st, None, {}
        try:
            exits, others = bmc(ex, st, head, body, inc, dowhile, ex.opts["bmc"])
        finally:
            ex.loop_stack.pop()
        if len(exits) > 1:
            exits = ex.merge_list(exits)
        return [("n", x, None) for x in exits] + others
    lim = ex.opts.get("unroll", 0)
    if lim:
        n0 = len(ex.obls)
        ex.sink.append([])
        try:
            r = try_unroll(ex, st, head, body, inc, dowhile, lim)
        except Unsupported:
            r = None
        th = ex.sink.pop()
        if r is not None:
            exits, others = r
            others = others + [("throw", x, t) for x, t in th]
            if len(exits) > 1:
                exits = ex.merge_list(exits)
            return [("n", x, None) for x in exits] + others
        del ex.obls[n0:]
    # drop variables that live inside the loop
    ids = set()
    decl_ids(s["b"], ids)
    if s["k"] == "rfor":
        ids.add(s["v"]["id"])
    L.decl = ids
    st = st.copy()
    for r in list(st.vars):
        if r[0] in ("v", "it") and r[1] == fr.id and r[2] in ids and not (r == L.it_root):
            del st.vars[r]
    # globals / heap fields touched inside must exist before: force by the dry run below
    L.st0 = st
    L.outer = ex.loop_stack[-1] if ex.loop_stack else None
    L.cond_roots = cond_roots(L.cond, fr)
    ex.loop_stack.append(L)
    saved_mode = ex.mode
    base = val_cnt()
    top = [base]
    try:
        # 1. what does the loop modify?
        ex.mode = "dry"
        n_obl = len(ex.obls)
        mods = {}
        for rnd in range(12):
            set_cnt(base)
            h = havoc(ex, st, mods, "m")
            exits, nexts, others = step(ex, h, head, body, inc, dowhile)
            top.append(val_cnt())
            new = False
            for x in nexts:
                for root, v in h.vars.items():
                    if root in x.vars and x.vars[root] is not v:
                        d = diff(v, x.vars[root])
                        if not d <= mods.get(root, set()):
                            mods.setdefault(root, set()).update(d)
                            new = True
                for k, v in x.heap.items():
                    v0 = h.heap.get(k, ex.trace_cache.get(k))
                    if v is not v0:
                        d = diff(v0, v)
                        if not d <= mods.get(("heap", k), set()):
                            mods.setdefault(("heap", k), set()).update(d)
                            new = True
                for k, v in x.ghost.items():
                    v0 = h.ghost.get(k, ex.trace_cache.get(k))
                    if v is not v0 and isz(v):
                        d = diff(v0, v)
                        if not d <= mods.get(("ghost", k), set()):
                            mods.setdefault(("ghost", k), set()).update(d)
                            new = True
            if not new:
                break
        else:
            raise Unsupported("loop modification set did not stabilise")
        del ex.obls[n_obl:]
        L.mods = mods
        if saved_mode == "dry":
            set_cnt(max(top))
            h = havoc(ex, st, mods, "d")
            exits, nexts, others = step(ex, h, head, body, inc, dowhile)
            if len(exits) > 1:
                exits = ex.merge_list(exits)
            return [("n", x, None) for x in exits] + others
        # 2. candidates
        ex.mode = saved_mode
        tag = "L" + str(L.loc).rsplit(":", 1)[-1]
        base = max(top)
        invs = Houdini(ex, L, st, mods, tag, base, head, body, inc, dowhile, saved_mode)
        invs.add(generic_cands(ex, L, fr))
        invs.run()
        import summary
        dv = None
        for phase in range(2):
            extra = []
            set_cnt(invs.top)
            dv = summary.Deriver(ex, L, invs.h, invs.hconsts, invs.base, invs.nexts)
            if ex.opts.get("derive", True):
                extra += dv.derive()
            L.deriver = dv
            if ex.opts.get("cands") and phase == 0:
                extra += list(ex.opts["cands"](L) or [])
            L.spec_phase = True
            invs.bump(val_cnt())
            n0 = len(invs.live)
            invs.add(extra)
            if len(invs.live) == n0 and phase == 0 and not extra:
                break
            if len(invs.live) == n0 and not dv.defs_out:
                break
            invs.run()
            if not ex.opts.get("derive2"):
                break
        live = invs.live
        # definitions usable by the derivation of an enclosing loop
        defs = {}
        if dv is not None and invs.head_exits:
            names = set(n for n, _ in live)
            for key, H, idx, bodyf, cand in dv.defs_out:
                Hn = invs.hconsts.get(key)
                ex.defs.pop(Hn.decl().name() if Hn is not None else "", None)
                if cand not in names or Hn is None:
                    continue
                try:
                    xs = invs.head_exits[0]
                    b = full_range(ex, L, invs, bodyf(xs), xs)
                    if b is None:
                        continue
                    for v in reversed(idx):
                        b = z3.Lambda([v], b)
                    ex.defs[Hn.decl().name()] = b
                except (Unsupported, z3.Z3Exception):
                    pass
        L.invs = [n for n, _ in live]
        ex.loop_log.append((L.loc, [n for n, _ in live], invs.ncand))
        for name, f in live:
            ex.obls.append(X.Obl("loop invariant on entry: " + name, str(L.loc), st.pc, f(st), "invariant", ex.current_target))
        # the preservation proof is itself an obligation set (already discharged)
        for x in invs.nexts:
            for name, f in live:
                ex.obls.append(X.Obl("loop invariant preserved: " + name, str(L.loc), x.pc, f(x), "invariant", ex.current_target))
        set_cnt(max(val_cnt(), invs.top))
        exits = invs.exits
        others = invs.others
        nh = invs.n_head_exits
        if nh and (len(exits) > nh or any(o[0] == "ret" for o in others)):
            # which way was the loop left?  (definitional: a fresh Boolean naming the exit)
            brk = fconst("brk", z3.BoolSort())
            nb = z3.Not(brk)
            ex.branch_ids[brk.get_id()] = brk
            ex.branch_ids[nb.get_id()] = nb
            n = len(invs.h.pc)
            heads = [named_exit(x, n, nb) for x in exits[:nh]]
            brks = [named_exit(x, n, brk) for x in exits[nh:]]
            others = [(o[0], named_exit(o[1], n, brk), o[2]) if o[0] == "ret" else o for o in others]
            if dv is not None and getattr(dv, "cont", None) is not None and dv.cont[0] in set(n for n, _ in live):
                try:
                    _, t, w, proc, ctl = dv.cont
                    xs = heads[0]
                    b = full_range(ex, L, invs, z3.Exists([t], z3.And(proc(xs, t), z3.Not(w))), xs)
                    if b is not None:
                        ex.defs[brk.decl().name()] = b
                except (Unsupported, z3.Z3Exception, KeyError):
                    pass
            exits = ex.merge_list(heads) + ex.merge_list(brks)
            if len(exits) > 1:
                exits = ex.merge_list(exits)
        elif len(exits) > 1:
            exits = ex.merge_list(exits)
        return [("n", x, None) for x in exits] + others
    finally:
        ex.mode = saved_mode
        ex.loop_stack.pop()


def named_exit(x, n, c):
    x = x.copy()
    x.pc = x.pc[:n] + (c,) + x.pc[n:]
    return x


def val_cnt():
    import val
    return val._cnt[0]


def set_cnt(n):
    import val
    val._cnt[0] = n


BAD = (Unsupported, KeyError, AttributeError, z3.Z3Exception)


class Houdini:
    """largest inductive subset of the candidates"""

    def __init__(self, ex, L, st, mods, tag, base, head, body, inc, dowhile, mode):
        self.ex, self.L, self.st, self.mods, self.tag, self.base = ex, L, st, mods, tag, base
        self.head, self.body, self.inc, self.dowhile, self.mode = head, body, inc, dowhile, mode
        self.live = []
        self.names = set()
        self.ncand = 0
        self.top = base
        self.proved = set()
        self.n_obl = len(ex.obls)

    def bump(self, n):
        self.top = max(self.top, n)

    def add(self, cands):
        ex = self.ex
        set_cnt(self.top)
        for name, f in cands:
            n = 2
            nm = name
            while nm in self.names:
                nm = "%s #%d" % (name, n)
                n += 1
            self.names.add(nm)
            self.ncand += 1
            try:
                g = f(self.st)
            except BAD:
                continue
            if g is None:
                continue
            r = ex.solver.prove(list(self.st.pc), g, timeout=ex.opts.get("houdini_ms", 3000))[0]
            if r == "proved":
                self.live.append((nm, f))
            elif ex.opts.get("debug"):
                print("  loop %s: candidate %s fails on entry (%s)" % (self.L.loc, nm, r))
                if ex.opts.get("debug") == 2:
                    print("     ", g)
        self.bump(val_cnt())

    def run(self):
        ex = self.ex
        ms = ex.opts.get("houdini_ms", 3000)
        cbase = self.top
        for rnd in range(60):
            set_cnt(cbase)
            self.base = cbase
            self.hconsts = {}
            h = havoc(ex, self.st, self.mods, self.tag, self.hconsts)
            self.base = val_cnt()
            invs, ok = [], []
            for name, f in self.live:
                try:
                    invs.append(f(h))
                    ok.append((name, f))
                except BAD:
                    pass
            self.live = ok
            h = h.assume(*invs)
            self.h = self.L.head = h
            del ex.obls[self.n_obl:]
            ex.mode = "infer"
            exits, nexts, others = step(ex, h, self.head, self.body, self.inc, self.dowhile)
            self.head_exits = ex.head_exits
            self.n_head_exits = ex.n_head_exits
            ex.mode = self.mode
            bad = set()
            for x in nexts:
                gs = []
                for name, f in self.live:
                    if name in bad:
                        continue
                    try:
                        gs.append((name, f(x)))
                    except BAD:
                        bad.add(name)
                if not gs:
                    continue
                r = ex.solver.prove(list(x.pc), z3.And([g for _, g in gs]), timeout=ms)
                if r[0] == "proved":
                    for _, g in gs:
                        ex.solver.mark(list(x.pc), g, r)
                    continue
                for name, g in gs:
                    r = ex.solver.prove(list(x.pc), g, timeout=ms)
                    if r[0] != "proved":
                        bad.add(name)
                        if ex.opts.get("debug") == 2:
                            print("     not preserved:", name, r[0], flush=True)
                            if os.environ.get("HD_DUMP") and name.startswith(os.environ["HD_DUMP"]):
                                q = z3.Solver()
                                q.add(*ex.solver.axioms, *list(x.pc), z3.Not(g))
                                open("/tmp/t/q.smt2", "w").write(q.to_smt2())
                                os._exit(3)
            if ex.opts.get("debug"):
                print("  loop %s round %d live %d drop %s" % (self.L.loc, rnd, len(self.live), sorted(bad)))
            self.bump(val_cnt())
            if not bad:
                break
            self.live = [(n, f) for n, f in self.live if n not in bad]
        else:
            raise Unsupported("invariant inference did not converge")
        self.exits, self.nexts, self.others = exits, nexts, others


def full_range(ex, L, hd, b, xs):
    """b over the exit state of a loop left through its condition -> with the control variables eliminated"""
    sub = []
    for key, c in hd.hconsts.items():
        root, path = key
        if c.sort() == I and key in L.deriver.linear:
            e = exit_value(ex, L, xs, c)
            if e is None:
                return None
            sub.append((c, e))
        elif path == ("end",):
            sub.append((c, z3.BoolVal(True)))
    b = z3.simplify(z3.substitute(b, *sub)) if sub else b
    import summary
    for i, c in summary.const_ids(b, {}).items():
        for k2, c2 in hd.hconsts.items():
            if z3.eq(c, c2):
                return None
    return b


def exit_value(ex, L, xs, c):
    """a term equal to the control constant c on exit"""
    cands = []
    for p in xs.pc:
        stack = [p]
        while stack:
            q = stack.pop()
            if z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and q.num_args() == 2 and q.arg(0).sort() == I:
                a, b2 = q.children()
                if z3.eq(a, c):
                    cands.append(b2)
                if z3.eq(b2, c):
                    cands.append(a)
            elif z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND):
                stack.extend(q.children())
    seen = set()
    for t in cands:
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if ex.solver.prove(list(xs.pc), c == t, timeout=500)[0] == "proved":
            return t
    return None


def cond_roots(e, fr):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "var":
                out.add(("v", fr.id, x["id"]))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(e)
    return out


def _rd(root):
    def f(st):
        return st.vars[root]
    return f


def generic_cands(ex, L, fr):
    out = []
    st0 = L.st0
    for root in L.ints():
        v0 = st0.vars[root]
        nm = "v%s" % (root[-1],)
        out.append((nm + ">=entry", lambda st, r=root, v0=v0: st.vars[r] >= v0))
        out.append((nm + "<=entry", lambda st, r=root, v0=v0: st.vars[r] <= v0))
        out.append((nm + ">=0", lambda st, r=root: st.vars[r] >= 0))
    for root in L.iters():
        it = st0.vars[root]
        if it.kind == "vec":
            out.append(("pos>=entry%s" % (root[-1],), lambda st, r=root, p=it.pos: st.vars[r].pos >= p))
            out.append(("pos<=len%s" % (root[-1],), lambda st, r=root: st.vars[r].pos <= ex.read(st, st.vars[r].cont)["len"]))
        elif it.kind in ("set", "map"):
            out.append(("key in dom%s" % (root[-1],), lambda st, r=root: z3.Implies(z3.Not(st.vars[r].end), z3.Select(ex.read(st, st.vars[r].cont)["dom"], st.vars[r].pos))))
    for root in L.trees("vec"):
        if ("len",) in L.mods[root]:
            l0 = st0.vars[root]["len"]
            out.append(("len>=entry%s" % (root[-1],), lambda st, r=root, l0=l0: st.vars[r]["len"] >= l0))
            for r2 in L.ints():
                v0 = st0.vars[r2]
                out.append(("len-entry==i-entry %s,%s" % (root[-1], r2[-1]), lambda st, r=root, l0=l0, r2=r2, v0=v0: st.vars[r]["len"] - l0 == st.vars[r2] - v0))
    # bounds from the loop condition
    if L.cond is not None:
        for a, op, b in comparisons(L.cond):
            def val(st, e):
                m = ex.mode
                ex.mode = "dry"
                ex.sink.append([])
                try:
                    r = ex.ev(st, fr, e)
                finally:
                    ex.sink.pop()
                    ex.mode = m
                if len(r) != 1:
                    raise Unsupported("cond")
                v = r[0][1]
                if isinstance(v, Ref):
                    v = ex.read(r[0][0], v)
                return coerce(v, I)
            if op in ("<", "!="):
                out.append(("cond bound <=", lambda st, a=a, b=b: val(st, a) <= val(st, b)))
            if op in (">", "!="):
                out.append(("cond bound >=", lambda st, a=a, b=b: val(st, a) >= val(st, b)))
            if op == "<=":
                out.append(("cond bound <=+1", lambda st, a=a, b=b: val(st, a) <= val(st, b) + 1))
            if op == ">=":
                out.append(("cond bound >=-1", lambda st, a=a, b=b: val(st, a) >= val(st, b) - 1))
    return out


def comparisons(e):
    if e is None:
        return []
    if e["k"] == "bin" and e["op"] in ("<", ">", "<=", ">=", "!="):
        return [(e["a"], e["op"], e["b"])]
    if e["k"] == "bin" and e["op"] == "&&":
        return comparisons(e["a"]) + comparisons(e["b"])
    return []
