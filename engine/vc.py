"""Solver layer: proves hyps => goal with z3 (in process), falling back on other back ends on SMT-LIB text."""
import os
import select
import signal
import subprocess
import tempfile
import time
import z3

CVC5 = "/usr/local/bin/cvc5" if os.path.exists("/usr/local/bin/cvc5") else "cvc5"


HANDLERS = {}      # function name -> (kind, args -> facts): definitions instantiated per application
SORT_AXIOMS = {}
_apps = {}
_inst = {}


def apps_of(e):
    """applications of handled functions in e: {id: (term, bound constants)}"""
    k = e.get_id()
    if k in _apps:
        return _apps[k][0]
    out = {}
    seen = set()

    def walk(x, bound):
        stack = [x]
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_quantifier(y):
                cs = [z3.Const("bv!%d_%d" % (y.get_id(), n), y.var_sort(n)) for n in range(y.num_vars())]
                walk(z3.substitute_vars(y.body(), *reversed(cs)), bound + cs)
                continue
            if z3.is_app(y):
                if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().name() in HANDLERS:
                    used = bvs(y)
                    out[y.get_id()] = (y, used)
                stack.extend(y.children())
    walk(e, [])
    _apps[k] = (out, e)
    return out


def bvs(t):
    out, stack, seen = {}, [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("bv!"):
                    out[x.decl().name()] = x
            else:
                stack.extend(x.children())
    return [out[k] for k in sorted(out)]


def occurs(c, t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, c):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def instantiate(forms):
    """defining facts of every handled application, to a fixpoint"""
    facts, done = [], set()
    todo = list(forms)
    while todo:
        e = todo.pop()
        for i, (t, bound) in apps_of(e).items():
            key = (i, tuple(b.get_id() for b in bound))
            if key in done:
                continue
            done.add(key)
            if key not in _inst:
                raw = fs = HANDLERS[t.decl().name()][1](t.children())
                if bound:
                    body = z3.And(fs) if len(fs) != 1 else fs[0]
                    fs = [z3.ForAll(bound, body, patterns=[t])]
                _inst[key] = (fs, t, raw)
            facts += _inst[key][0]
            todo += _inst[key][2]
    return facts


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backend = {}

    def add(self, be, t):
        self.queries += 1
        self.time += t
        self.backend[be] = self.backend.get(be, 0) + 1


class Solver:
    def __init__(self, axioms=(), timeout=10000):
        self.axioms = list(axioms)
        self.timeout = timeout
        self.race = False
        self.stats = Stats()
        self.cache = {}
        self.keep = []

    def _key(self, hyps, goal):
        return (tuple(sorted(set(h.get_id() for h in hyps))), goal.get_id())

    def check_sat(self, hyps, timeout=2000):
        """'sat' / 'unsat' / 'unknown' """
        s = z3.Solver()
        s.set("timeout", timeout)
        for a in self.axioms:
            s.add(a)
        for a in (instantiate(list(hyps)) if HANDLERS else []):
            s.add(a)
        for h in hyps:
            s.add(h)
        t = time.time()
        r = s.check()
        self.stats.add("z3", time.time() - t)
        return str(r)

    def feasible(self, hyps, timeout=200):
        """False only if the hypotheses are certainly contradictory"""
        for h in hyps:
            if z3.is_false(h):
                return False
        key = ("f", tuple(sorted(set(h.get_id() for h in hyps))))
        if key in self.cache:
            return self.cache[key]
        s = z3.SolverFor("QF_UFLIA") if False else z3.Solver()
        s.set("timeout", timeout)
        for h in hyps:
            if not has_quant(h):
                s.add(h)
        t = time.time()
        r = s.check() != z3.unsat
        self.stats.time += time.time() - t
        self.cache[key] = r
        self.keep.append(list(hyps))
        return r

    def prove(self, hyps, goal, timeout=None, portfolio=False):
        """split the goal into its conjuncts / directions and prove each"""
        if z3.is_true(goal):
            return "proved", None, "trivial"
        parts = split_goal(goal)
        if len(parts) == 1 and not parts[0][0]:
            return self.prove1(hyps, goal, timeout, portfolio)
        be = "trivial"
        worst = None
        for extra, g in parts:
            r = self.prove1(list(hyps) + extra, g, timeout, portfolio)
            if r[0] == "cex":
                return r
            if r[0] != "proved":
                worst = r
                break
            be = r[2]
        if worst:
            return worst
        return "proved", None, be

    def prove1(self, hyps, goal, timeout=None, portfolio=False):
        """returns (status, model, backend); status 'proved' | 'cex' | 'unknown'"""
        timeout = timeout or self.timeout
        goal = z3.simplify(goal) if False else goal
        if z3.is_true(goal):
            return "proved", None, "trivial"
        key = self._key(hyps, goal)
        if key in self.cache and (self.cache[key][0] != "unknown" or self.cache[key][3] >= timeout):
            return self.cache[key][:3]
        t = time.time()
        be = "z3-%s" % z3.get_version_string()
        quant = bool(self.axioms) or has_quant(goal) or any(has_quant(h) for h in hyps)
        res = None
        inst = instantiate(list(hyps) + [goal]) if HANDLERS else []
        for ax in SORT_AXIOMS.values():
            inst = inst + ax
        for mode in ((1, 0, 2) if quant and timeout > 1500 else (1,)):
            if mode == 0 and self.race:
                r = self.race_modes(hyps, goal, inst, timeout)
                if r == "u":
                    res = ("proved", None, be)
                    break
                if r != "s":
                    res = ("unknown", "timeout", be)
                    break
                continue     # a model was found: again in this process
            s = z3.Solver()
            if mode == 0:
                s.set("timeout", timeout // 2)
                s.set("smt.mbqi", False)
                s.set("smt.pull_nested_quantifiers", True)
            else:
                s.set("timeout", min(timeout, 1500) if mode == 1 and quant else timeout)
            for a in self.axioms:
                s.add(a)
            for a in inst:
                s.add(a)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            if os.environ.get("VC_DUMP"):
                open(os.environ["VC_DUMP"], "w").write(("(set-option :smt.mbqi false)(set-option :auto_config false)\n" if mode == 0 else "") + s.to_smt2())
            if quant and self.guard(s, (timeout // 2 if mode == 0 else min(timeout, 1500) if mode == 1 else timeout) / 1000.0):
                r = z3.unsat
            elif quant and not self.sat_answer:
                res = ("unknown", "timeout", be)
                continue
            else:
                r = s.check()
            if r == z3.unsat:
                res = ("proved", None, be)
            elif r == z3.sat and mode != 0:
                res = ("cex", s.model(), be)
            else:
                res = ("unknown", s.reason_unknown() if r == z3.unknown else "incomplete", be)
            if res[0] in ("proved", "cex"):
                break
        dt = time.time() - t
        self.stats.add(be, dt)
        if os.environ.get("VC_SLOW") and dt > 1:
            print("     slow %.1f s mode %s timeout %s: %s" % (dt, mode, timeout, res[0]), flush=True)
        if res[0] == "unknown" and portfolio:
            txt = s.to_smt2()
            r2 = self.portfolio(txt, timeout)
            if r2:
                res = ("proved", None, r2)
        self.cache[key] = res + (timeout,)
        self.keep.append((list(hyps), goal))
        return res

    def race_modes(self, hyps, goal, inst, timeout):
        """several strategies and random seeds at once, each in a process of its own"""
        kids = {}
        for mode, seed in ((0, 0), (0, 5), (0, 9), (0, 14), (2, 0)):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    s = z3.Solver()
                    s.set("timeout", timeout)
                    s.set("smt.random_seed", seed)
                    if mode == 0:
                        s.set("smt.mbqi", False)
                        if seed % 2 == 0:
                            s.set("smt.pull_nested_quantifiers", True)
                    for a in list(self.axioms) + list(inst) + list(hyps):
                        s.add(a)
                    s.add(z3.Not(goal))
                    x = s.check()
                    os.write(w, b"u" if x == z3.unsat else b"s" if x == z3.sat and mode == 2 else b"?")
                finally:
                    os._exit(0)
            os.close(w)
            kids[r] = pid
        end = time.time() + timeout / 1000.0 + 0.5
        out = "?"
        pend = list(kids)
        while pend and out == "?" and time.time() < end:
            for r in select.select(pend, [], [], max(0.0, end - time.time()))[0]:
                pend.remove(r)
                x = os.read(r, 1)
                if x in (b"u", b"s"):
                    out = x.decode()
        for r, pid in kids.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(r)
            os.waitpid(pid, 0)
        return out

    def guard(self, s, sec):
        """the query in a child process (the solver sometimes ignores its own time limit); self.sat_answer: it found a model"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                x = s.check()
                os.write(w, b"u" if x == z3.unsat else b"s" if x == z3.sat else b"?")
            finally:
                os._exit(0)
        os.close(w)
        out = b""
        if select.select([r], [], [], sec + 0.5)[0]:
            out = os.read(r, 1)
        else:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        os.waitpid(pid, 0)
        self.sat_answer = out == b"s"
        return out == b"u"

    def mark(self, hyps, goal, res):
        """goal is a conjunct of something already proved from hyps"""
        k = self._key(hyps, goal)
        if k not in self.cache or self.cache[k][0] != "proved":
            self.cache[k] = tuple(res[:3]) + (10 ** 9,)
            self.keep.append((list(hyps), goal))

    def portfolio(self, txt, timeout):
        t0 = time.time()
        fd, p = tempfile.mkstemp(suffix=".smt2")
        os.write(fd, txt.encode())
        os.close(fd)
        procs = []
        sec = max(2, timeout // 1000)
        for name, cmd in (("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (sec * 1000), p]), ("z3-4.8.12", ["/usr/bin/z3", "-T:%d" % sec, p])):
            try:
                procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        win = None
        pend = list(procs)
        while pend and win is None and time.time() - t0 < sec + 3:
            for x in list(pend):
                if x[1].poll() is not None:
                    out = x[1].stdout.read()
                    pend.remove(x)
                    if out.strip().startswith("unsat"):
                        win = x[0]
            time.sleep(0.02)
        for n, pr in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
        os.unlink(p)
        if win:
            self.stats.add(win, time.time() - t0)
        return win


_sk = {}


def skolem(q):
    k = q.get_id()
    if k not in _sk:
        cs = [z3.Const("sk!%d_%d_%s" % (k, n, q.var_name(n).replace("!", "_")), q.var_sort(n)) for n in range(q.num_vars())]
        _sk[k] = (z3.substitute_vars(q.body(), *reversed(cs)), q)
    return _sk[k][0]


def split_goal(g, depth=0):
    """[(extra hypotheses, goal)] equivalent to proving g"""
    if depth > 12:
        return [([], g)]
    if z3.is_quantifier(g) and g.is_forall():
        return split_goal(skolem(g), depth + 1)
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c, depth + 1)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        return [([a] + h, x) for h, x in split_goal(b, depth + 1)]
    if z3.is_eq(g) and g.arg(0).sort() == z3.BoolSort():
        a, b = g.children()
        if z3.is_true(a):
            return split_goal(b, depth + 1)
        if z3.is_true(b):
            return split_goal(a, depth + 1)
        return [([a] + h, x) for h, x in split_goal(b, depth + 1)] + [([b] + h, x) for h, x in split_goal(a, depth + 1)]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
        c, a, b = g.children()
        return [([c] + h, x) for h, x in split_goal(a, depth + 1)] + [([z3.Not(c)] + h, x) for h, x in split_goal(b, depth + 1)]
    if z3.is_or(g):
        # prove the quantifier-free alternative away first
        ch = g.children()
        hy = [c for c in ch if not has_quant(c)]
        rest = [c for c in ch if has_quant(c)]
        if rest and hy:
            return [([z3.Not(c) for c in hy], z3.Or(rest) if len(rest) > 1 else rest[0])]
    return [([], g)]


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k in _hq:
        return _hq[k][0]
    r = False
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _hq[k] = (r, e)
    return r
