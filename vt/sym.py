"""Symbolic execution context, symbolic scalars and arrays, obligations and their discharge."""
import time, itertools
from fractions import Fraction
import z3
from . import terms as tm
from .terms import (T, num, var, app, add, sub, mul, div, neg, powr, ite, lt, le, eq, and_, or_,
                    not_, implies, subst, norm, IX, TRUE, FALSE, ZERO, ONE)


class Unsupported(BaseException):
    """construct outside the verifier's reach"""


class PathEnd(BaseException):
    """this path is infeasible / finished"""


class Obl:
    __slots__ = ("name", "status", "backend", "secs", "goal", "pc", "model", "detail", "path")

    def __init__(self, name):
        self.name = name
        self.status = self.backend = None
        self.secs = 0.0
        self.goal = self.model = self.detail = None
        self.pc = ()
        self.path = ()


class Frame:
    def __init__(self, dec):
        self.dec = list(dec)
        self.pos = 0
        self.alts = []
        self.conds = []


class Ctx:
    def __init__(self, dec=()):
        self.frames = [Frame(dec)]
        self.pc = []          # T facts, in order
        self.obls = []
        self.uid = itertools.count(1)
        self.loops = []
        self.forall = []      # (varname, lo, hi, T) facts valid for all index values in range
        self.reached = set()
        self.outputs = []
        self.assumed = {}
        self.pcset = set()
        self.marks = []
        self.same_no = {}
        self.masks = []       # representatives of the masks met so far

    # ---- facts
    def assume(self, t):
        if t is TRUE:
            return
        for x in (t.args if t.op == "and" else (t,)):
            if x.id not in self.pcset:
                self.pcset.add(x.id)
                self.pc.append(x)
        if t is FALSE:
            raise PathEnd()

    def mark(self):
        self.marks.append(len(self.pc))
        return len(self.pc)

    def temporary(self):
        """facts assumed under an open mark"""
        return any(m < len(self.pc) for m in self.marks)

    def reset(self, m):
        while self.marks and self.marks[-1] >= m:
            self.marks.pop()
        for x in self.pc[m:]:
            self.pcset.discard(x.id)
        del self.pc[m:]

    def fresh(self, base="k"):
        return "_%s%d" % (base, next(self.uid))

    # ---- branching
    def branch(self, c):
        c = quick(c, self.pcset)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.dec):
            d = fr.dec[fr.pos]
            fr.pos += 1
            self._take(fr, c, d)
            return d
        ff = self.feasible(not_(c), True)
        ft = self.feasible(c, True) if ff else True
        if ff and ft:
            ff = self.feasible(not_(c))
            ft = self.feasible(c) if ff else True
        if ft and ff:
            fr.alts.append(fr.dec[:fr.pos] + [False])
            d = True
        else:
            d = ft
        fr.dec = fr.dec[:fr.pos] + [d]
        fr.pos += 1
        if len(fr.dec) > 400:
            raise Unsupported("path too long (unbounded symbolic loop?)")
        self._take(fr, c, d)
        return d

    def _take(self, fr, c, d):
        x = c if d else not_(c)
        fr.conds.append(x)
        self.assume(x)

    def feasible(self, c, lin_only=False):
        r, _ = solve(self.pc + [c], timeout=200, want_model=False, lin_only=lin_only)
        return r != "unsat"

    def touch(self, obj):
        for lp in self.loops:
            lp.touched(obj)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def quick(c, known=()):
    """cheap simplification of a boolean term"""
    if c is TRUE or c is FALSE:
        return c
    if c.id in known:
        return TRUE
    n = not_(c)
    if n.id in known:
        return FALSE
    try:
        p = norm(c).const()
    except tm.Blowup:
        p = None
    if p is not None:
        return TRUE if p == 1 else FALSE
    return c


# ------------------------------------------------------------------ axioms
AXIOMS = {}        # function symbol -> f(args)->[T]
PAIR_AXIOMS = {}   # function symbol -> f(args1,args2)->[T]


def reset_axioms():
    AXIOMS.clear()
    PAIR_AXIOMS.clear()
    _psum.clear()
    tm.POS.clear()


PI = var("pi")
DEG = None


def base_axioms(t):
    o = t.op
    out = []
    if o == "^":
        x, q = t.args[0], t.args[1].args[0]
        if q == Fraction(1, 2):
            out.append(le(ZERO, t))
            out.append(implies(le(ZERO, x), eq(mul(t, t), x)))
            out.append(implies(lt(ZERO, x), lt(ZERO, t)))
        elif q.denominator != 1 or q < 0:
            out.append(implies(lt(ZERO, x), lt(ZERO, t)))
    elif o == "var" and t.args[0] == "pi":
        out.append(lt(num(Fraction("3.14159265")), t))
        out.append(lt(t, num(Fraction("3.14159266"))))
    elif o == "app":
        f = t.args[0]
        if f in tm.POS:
            out.append(lt(ZERO, t))
        if f in ("sin", "cos"):
            out.append(le(t, ONE))
            out.append(le(num(Fraction(-1)), t))
            a = t.args[1]
            out.append(eq(add(powr(app("sin", [a]), 2), powr(app("cos", [a]), 2)), ONE))
        elif f == "arctan2":
            out += [le(t, PI), le(neg(PI), t)]
        elif f == "arccos":
            out += [le(t, PI), le(ZERO, t)]
        elif f == "exp":
            out.append(lt(ZERO, t))
        elif f.startswith("CNT"):
            n, body, k = tm.SUMS[f]
            m = {"_a%d" % i: a for i, a in enumerate(t.args[1:])}
            nn, bb = subst(n, m), subst(body, m)
            out.append(implies(le(nn, num(0)), eq(t, num(0))))
            out.append(le(num(0), t))
            out.append(implies(le(num(0), nn), le(t, nn)))
            w = app("w" + f, t.args[1:], "I")
            bw = subst(bb, {"_b": w})
            out.append(implies(lt(num(0), t), and_(le(num(0), w), lt(w, nn), lt(ZERO, bw))))
        elif f.startswith("SUM"):
            out += perm_sum(t)
            out.append(implies(le(t.args[-1], num(0)), eq(t, ZERO)))
            s = sum_sign(t)
            if s:
                out.append(le(ZERO, t))
            if s == "pos":
                n, body, k = tm.SUMS[f]
                m = {"_a%d" % i: a for i, a in enumerate(t.args[1:])}
                out.append(implies(lt(num(0), subst(n, m)), lt(ZERO, t)))
        if f in AXIOMS:
            out += AXIOMS[f](t.args[1:])
    elif o == "var" and t.args[0] in tm.POS:
        out.append(lt(ZERO, t))
    elif o == "floor":
        x = t.args[0]
        out += [le(t, x), lt(x, add(t, num(1)))]
    return out


_psum = {}


def perm_sum(t):
    """sum over a full permutation equals the sum over the permuted space"""
    if t.id in _psum:
        return _psum[t.id]
    out = []
    _psum[t.id] = out
    n, body, k = tm.SUMS[t.args[0]]
    m = {"_a%d" % i: a for i, a in enumerate(t.args[1:])}
    n, body = subst(n, m), subst(body, m)
    tags = {(x.args[0],) + tuple(x.args[2:]) for x in tm.subterms(body).values() if x.op == "app" and x.args[0] in PERMS and x.args[1] is tm.BV}
    if len(tags) == 1:
        tag = tags.pop()
        pr = perm_of(tag)
        if tm.prove_eq(n, pr["m"]):
            v = var("_u", "I")

            def rw(x):
                return v if x.op == "app" and x.args[0] == tag[0] and x.args[1] is tm.BV and tuple(x.args[2:]) == tag[1:] else None
            b2 = tm.map_terms(body, rw)
            if "_b" not in b2.fv:
                mk_ = subst(pr["mask"], {"_i0": v}) if pr["mask"] is not None else None
                out.append(eq(t, tm.mk_sum(pr["n"], v, b2, mk_)))
    _psum[t.id] = out
    return out


def sum_sign(t):
    """'pos'/'nonneg'/None for a SUM application, by syntactic sign analysis of the body"""
    n, body, k = tm.SUMS[t.args[0]]
    return tsign(body)


def tsign(b):
    o = b.op
    if o == "num":
        v = b.args[0]
        return "pos" if v > 0 else "nonneg" if v == 0 else None
    if o in ("var", "app"):
        if b.args[0] in tm.POS:
            return "pos"
        if o == "app" and b.args[0].startswith("CNT"):
            return "nonneg"
        if o == "app" and b.args[0].startswith("SUM"):
            return sum_sign(b) and "nonneg"
        if o == "app" and b.args[0] == "exp":
            return "pos"
        return None
    if o == "^":
        s = tsign(b.args[0])
        q = b.args[1].args[0]
        if s == "pos":
            return "pos"
        if q.denominator == 1 and int(q) % 2 == 0:
            return "nonneg"
        if q.denominator == 2:
            return "nonneg"
        return s
    if o in ("*", "+"):
        ss = [tsign(a) for a in b.args]
        if None in ss:
            return None
        if o == "*":
            return "pos" if all(s == "pos" for s in ss) else "nonneg"
        return "pos" if any(s == "pos" for s in ss) else "nonneg"
    if o == "/":
        a, c = tsign(b.args[0]), tsign(b.args[1])
        if a and c == "pos":
            return a
        return None
    if o == "ite":
        a, c = tsign(b.args[1]), tsign(b.args[2])
        if a and c:
            return "pos" if a == c == "pos" else "nonneg"
        return None
    return None


tm.SIGNOF = tsign


def index_like(t):
    return t.sort == "I" and t.op in ("var", "app", "+", "num")


def instantiate(terms, rounds=3, cap=600):
    seen = {}
    facts = []
    fset = set()
    work = list(terms)
    for _ in range(rounds):
        new = {}
        for t in work:
            for i, x in tm.subterms(t).items():
                if i not in seen:
                    seen[i] = x
                    new[i] = x
        if not new:
            break
        work = []
        for x in list(new.values()):
            for f in base_axioms(x):
                if f is not TRUE and f.id not in fset:
                    fset.add(f.id)
                    facts.append(f)
                    work.append(f)
        # pair axioms
        if PAIR_AXIOMS:
            by = {}
            for x in seen.values():
                if x.op == "app" and x.args[0] in PAIR_AXIOMS:
                    by.setdefault(x.args[0], []).append(x)
            for f, xs in by.items():
                for a in xs:
                    for b in xs:
                        if a is b or (a.id not in new and b.id not in new):
                            continue
                        for ft in PAIR_AXIOMS[f](a.args[1:], b.args[1:]):
                            if ft is not TRUE and ft.id not in fset:
                                fset.add(ft.id)
                                facts.append(ft)
                                work.append(ft)
        # forall facts of the context
        if CTX is not None and CTX.forall:
            idx = [x for x in new.values() if x.sort == "I" and x.op in ("var", "app") and not (x.op == "app" and x.args[0][:3] == "CNT")]
            allidx = [x for x in seen.values() if x.sort == "I" and x.op in ("var", "app", "num")]
            for (v, lo, hi, body) in CTX.forall:
                for x in (idx if _ else allidx):
                    g = subst(body, {v: x})
                    f = implies(and_(le(lo, x), lt(x, hi)), g)
                    if f is not TRUE and f.id not in fset:
                        fset.add(f.id)
                        facts.append(f)
                        work.append(f)
        # counting: a witness makes a count positive
        cnts = [x for x in seen.values() if x.op == "app" and x.args[0].startswith("CNT")]
        if cnts:
            idx = [x for x in seen.values() if x.sort == "I" and x.op in ("var", "app")
                   and not (x.op == "app" and x.args[0].startswith("CNT"))][:12]
            for c in cnts[:8]:
                n, body, k = tm.SUMS[c.args[0]]
                m = {"_a%d" % i: a for i, a in enumerate(c.args[1:])}
                nn, bb = subst(n, m), subst(body, m)
                last = tm.p2int(norm(sub(nn, num(1))))
                for x in idx + [last]:
                    rng, val = and_(le(num(0), x), lt(x, nn)), subst(bb, {"_b": x})
                    for f in (implies(and_(rng, lt(ZERO, val)), le(num(1), c)), implies(and_(rng, le(val, ZERO)), le(add(c, num(1)), nn))):
                        if f.id not in fset:
                            fset.add(f.id)
                            facts.append(f)
                            if x is last:
                                work.append(f)
        # the first selected element is the smallest selected index
        firsts = [x for x in seen.values() if x.op == "app" and x.args[0] in PERMS and PERMS[x.args[0]]["kind"] == "inc"
                  and x.args[1].op == "num" and x.args[1].args[0] == 0]
        for x in firsts[:6]:
            pr = perm_of((x.args[0],) + tuple(x.args[2:]))
            idx = [y for y in seen.values() if y.sort == "I" and y.op in ("var", "app") and y is not x
                   and not (y.op == "app" and y.args[0].startswith("CNT"))][:10]
            for y in idx + [sub(x, num(1))]:
                g = and_(in_rng(y, pr["n"]), subst(pr["mask"], {"_i0": y}) if pr["mask"] is not None else TRUE)
                f = implies(g, le(x, y))
                if f is not TRUE and f.id not in fset:
                    fset.add(f.id)
                    facts.append(f)
                    work.append(f)
        # prefix sums: S(j+1) = S(j) + f(j)
        sums = [x for x in seen.values() if x.op == "app" and x.args[0] in tm.SUMS]
        if len(sums) > 1:
            bys = {}
            for x in sums:
                bys.setdefault((x.args[0], tuple(a.id for a in x.args[1:-1])), []).append(x)
            for xs in bys.values():
                for a in xs[:10]:
                    for b in xs[:10]:
                        if a is b or (a.id not in new and b.id not in new):
                            continue
                        if tm.padd(norm(b.args[-1]), norm(a.args[-1]), -1).const() == 1:
                            n_, bb, k_ = tm.SUMS[a.args[0]]
                            m = {"_a%d" % i: y for i, y in enumerate(a.args[1:])}
                            f = implies(le(num(0), a.args[-1]), eq(b, add(a, subst(subst(bb, m), {"_b": a.args[-1]}))))
                            if f.id not in fset:
                                fset.add(f.id)
                                facts.append(f)
                                work.append(f)
        exts = [x for x in seen.values() if x.op == "app" and x.args[0] in EXT]
        if exts:
            idx = [x for x in seen.values() if x.sort == "I" and x.op in ("var", "app", "num")
                   and not (x.op == "app" and x.args[0].startswith("CNT"))][:14]
            for c in exts[:10]:
                for f in ext_facts(c, idx):
                    if f is not TRUE and f.id not in fset:
                        fset.add(f.id)
                        facts.append(f)
                        work.append(f)
        if len(facts) > cap:
            break
    return facts


EXT = {}      # arg-extremum symbols: name -> (n, mask, e over _b, arity, 'min'/'max')
_extkeys = {}


def arg_ext(a, kind):
    """base index of the (first) extremal element of array a"""
    m = {"_i0": tm.BV}
    n, mask, e = a.n, a.mask, a.e
    e = subst(e, m)
    mask = subst(mask, m) if mask is not None else TRUE
    order = tm._canon_free(tm.mk("pair", (n, mask, e), "R"), "_b")
    ren = {o: var("_a%d" % k, "I") for k, o in enumerate(order)}
    n2, m2, e2 = subst(n, ren), subst(mask, ren), subst(e, ren)
    key = (norm(n2).key(), norm(m2).key(), norm(e2).key(), kind)
    nm = _extkeys.get(key)
    if nm is None:
        nm = "ARG%s%d" % (kind.upper(), len(_extkeys) + 1)
        _extkeys[key] = nm
        EXT[nm] = (n2, m2, e2, len(order), kind)
    return app(nm, [var(o, "I") for o in order], "I")


def ext_facts(c, idx):
    n, mask, e, k, kind = EXT[c.args[0]]
    m = {"_a%d" % i: a for i, a in enumerate(c.args[1:])}
    n, mask, e = subst(n, m), subst(mask, m), subst(e, m)

    def at(t, x):
        return subst(t, {"_b": x})
    out = []
    ew = at(e, c)
    for x in idx:
        g = and_(in_rng(x, n), at(mask, x))
        ex = at(e, x)
        out.append(implies(g, and_(in_rng(c, n), at(mask, c), le(ew, ex) if kind == "min" else le(ex, ew),
                                   or_(not_(eq(ew, ex)), le(c, x)))))
    return out


STATS = {"z3_calls": 0, "z3_secs": 0.0, "cvc5_calls": 0}


def relevant(facts, goal_terms, depth=4):
    """cone of influence on free symbols (vars and app names) of the goal"""
    def syms(t):
        s = _SYMC.get(t.id)
        if s is None:
            s = set()
            for x in tm.subterms(t).values():
                if x.op == "var":
                    s.add(x.args[0])
                elif x.op == "app":
                    s.add(x.args[0])
            _SYMC[t.id] = s
        return s
    cur = set()
    for g in goal_terms:
        cur |= syms(g)
    rest = list(facts)
    keep = []
    for _ in range(depth):
        nxt = []
        ch = False
        for f in rest:
            s = syms(f)
            if s & cur:
                keep.append(f)
                ch = True
                nxt_s = s
                cur = cur | nxt_s
            else:
                nxt.append(f)
        rest = nxt
        if not ch:
            break
    return keep


_SYMC = {}


_LIN = [None]
_EXACT = {}
RL = 4000          # z3 resource units per millisecond of budget (deterministic limits; wall clock is only a backstop)


DEADLINE = [None]  # wall-clock end of the current case: every later query is answered "unknown"


def _limits(s, ms):
    left = int(1000 * (DEADLINE[0] - time.time())) if DEADLINE[0] else 10 ** 9
    s.set("timeout", max(1, min(int(ms * 12), left)))
    s.set("rlimit", int(ms * RL))
    s.set("random_seed", 1)


def lin_unsat(terms, ms):
    """unsatisfiability of the linear abstraction (sound for 'unsat')"""
    L = _LIN[0]
    if L is None:
        L = _LIN[0] = tm.Lin()
        L.signof = tsign
    s = z3.SimpleSolver()
    _limits(s, ms)
    bs = []
    for t in list(terms) + psum_rewritten(terms):
        try:
            bs.append(L.boolean(t))
        except tm.Blowup:
            pass
    for b in bs:
        s.add(b)
    L.signs(s, bs)
    return s.check() == z3.unsat


def psum_rewritten(terms):
    """the terms that mention a sum over a full permutation, restated with the sum over the permuted space"""
    mp = {}
    for t in terms:
        for x in tm.subterms(t).values():
            if x.op == "app" and x.args[0] in tm.SUMS and x.id not in mp:
                e = perm_sum(x)
                if e and e[0].op == "eq":
                    mp[x.id] = e[0].args[1] if e[0].args[0] is x else e[0].args[0]
    if not mp:
        return []
    out = []
    for t in terms:
        if t.op == "eq":
            continue
        r = tm.map_terms(t, lambda x: mp.get(x.id))
        if r is not t and r is not TRUE:
            out.append(r)
    return out


_GEN = ("SUM", "CNT", "wCNT", "ARG")


def generated(n):
    return n in PERMS or n.startswith(_GEN) or n.startswith("h_") or (n.endswith("inv") and n[:-3] in PERMS) or n.startswith("_")


def gsyms(t):
    """generated symbols a term depends on, through definitions"""
    s = _GSYM.get(t.id)
    if s is not None:
        return s
    out, todo, seen = set(), [t], set()
    while todo:
        u = todo.pop()
        for x in tm.subterms(u).values():
            if x.op not in ("var", "app"):
                continue
            nm = x.args[0]
            if nm in seen or not generated(nm):
                continue
            seen.add(nm)
            if nm.startswith("_") and nm[1:2] in "abi":
                continue
            out.add(nm)
            if nm in PERMS or nm[:-3] in PERMS:
                pr = PERMS[nm if nm in PERMS else nm[:-3]]
                todo += [v for v in (pr["m"], pr["n"], pr["mask"], pr["key"]) if v is not None]
            elif nm in tm.SUMS:
                todo += list(tm.SUMS[nm][:2])
            elif nm in EXT:
                todo += list(EXT[nm][:3])
    _GSYM[t.id] = out
    return out


_GSYM = {}


def core(facts, goals):
    """facts over inputs only, or sharing generated symbols with the goal"""
    cur = set()
    for g in goals:
        cur |= gsyms(g)
    return [f for f in facts if not gsyms(f) or gsyms(f) <= cur]


def solve(terms, timeout=4000, want_model=True, lin_only=False, ngoal=1):
    """satisfiability of the conjunction of terms; the last `ngoal` terms are the goal"""
    for t in terms:
        if t is FALSE:
            return "unsat", None
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        return "unknown", None
    goals = terms[-ngoal:]
    terms = [t for t in terms if t is not TRUE]
    t0 = time.time()
    STATS["z3_calls"] += 1
    try:
        c = core(terms, goals)
        if len(c) < len(terms):
            fc = instantiate(c)
            if lin_unsat(list(c) + fc, min(timeout, 2500)):
                STATS["lin"] = STATS.get("lin", 0) + 1
                return "unsat", None
        facts = instantiate(terms)
        if lin_unsat(list(terms) + facts, min(timeout, 2500)):
            STATS["lin"] = STATS.get("lin", 0) + 1
            return "unsat", None
        if lin_only:
            return "unknown", None
        if len(c) < len(terms):
            s = z3.Solver()
            _limits(s, timeout)
            for t in list(c) + fc:
                s.add(tm.to_z3(t, _EXACT))
            if s.check() == z3.unsat:
                return "unsat", None
        s = z3.Solver()
        _limits(s, timeout)
        for t in list(terms) + facts:
            s.add(tm.to_z3(t, _EXACT))
        r = s.check()
    finally:
        STATS["z3_secs"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    return "unknown", None


# ------------------------------------------------------------------ proving
def prove(goal, timeout=3000):
    """-> (status, backend, model)"""
    if goal is TRUE:
        return "proved", "trivial", None
    if goal.op == "and":
        be = "trivial"
        for g in goal.args:
            st, b, m = prove(g, timeout)
            if st != "proved":
                return st, b, m
            if b != "trivial":
                be = b
        return "proved", be, None
    if goal.op == "eq" and goal.args[0].sort != "B":
        if tm.prove_eq(goal.args[0], goal.args[1]):
            return "proved", "normal-form", None
    else:
        try:
            c = norm(goal).const()
            if c == 1:
                return "proved", "normal-form", None
        except tm.Blowup:
            pass
    if goal.id in CTX.pcset:
        return "proved", "trivial", None
    # rewrite the goal under equalities of the path condition
    pc = relevant(CTX.pc, [goal])
    g2 = goal
    extra = []
    sums = _has_sums(goal)
    conds = ite_conds(goal)
    r, m = solve(pc + [not_(g2)], timeout=timeout, lin_only=sums or bool(conds))
    if r != "unsat" and conds and len(conds) <= 8:
        g3 = goal
        left = []
        for cd in conds:
            v = decide(cd, pc)
            if v is None:
                left.append(cd)
            else:
                g3 = replace_cond(g3, cd, v)
        if nf_true(g3) or (0 < len(left) <= 3 and split_nf(g3, left, pc)):
            return "proved", "normal-form", None
        if g3 is not goal:
            g2 = g3
        if sums and 0 < len(left) <= 2 and _split_depth[0] < 2:
            _split_depth[0] += 1
            try:
                for v in (TRUE, FALSE):
                    m_ = CTX.mark()
                    CTX.assume(left[0] if v is TRUE else not_(left[0]))
                    st = prove(replace_cond(g2, left[0], v), timeout)
                    CTX.reset(m_)
                    if st[0] != "proved":
                        break
                else:
                    return "proved", st[1], None
            finally:
                _split_depth[0] -= 1
    if r != "unsat" and conds and not sums:
        r, m = solve(pc + [not_(g2)], timeout=timeout)
    if r != "unsat":
        extra = sum_congruence(goal, pc)
        if extra or _has_sums(goal):
            r, m = solve(pc + extra + [not_(g2)], timeout=timeout)
    if r == "unsat":
        return "proved", "z3", None
    if r == "sat":
        if len(pc) != len(CTX.pc):
            r2, m2 = solve(CTX.pc + extra + [not_(g2)], timeout=timeout)
            if r2 == "unsat":
                return "proved", "z3", None
            if r2 == "sat":
                m = m2
        return "failed", "z3", m
    # second opinion
    r = cvc5_check(pc + extra + [not_(g2)], timeout)
    if r == "unsat":
        return "proved", "cvc5", None
    return "unknown", "z3+cvc5", None


def ensure_disjoint(e1, nm, k, where):
    """parallel loop: an iteration changes (and reads) only cells no other iteration touches: cell k of the shared array"""
    rd = app(nm, [IX], e1.sort)
    bad = any(x.op == "app" and x.args[0] == nm and x is not rd for x in tm.subterms(e1).values())
    m = CTX.mark()
    CTX.assume(not_(eq(IX, k)))
    obligation("iterations of the parallel loop are independent", FALSE if bad else eq(e1, rd))
    CTX.reset(m)


_split_depth = [0]


def ite_conds(t):
    return [c for i, c in sorted({x.args[0].id: x.args[0] for x in tm.subterms(t).values() if x.op == "ite"}.items())]


def replace_cond(t, c, v):
    return tm.map_terms(t, lambda x: v if x is c else None)


def decide(c, pc):
    """TRUE/FALSE when the path condition settles the condition"""
    base = relevant(pc, [c])
    if solve(base + [c], timeout=800, want_model=False)[0] == "unsat":
        return FALSE
    if solve(base + [not_(c)], timeout=800, want_model=False)[0] == "unsat":
        return TRUE
    return None


def nf_true(g):
    if g is TRUE:
        return True
    try:
        if g.op == "eq" and g.args[0].sort != "B":
            return tm.prove_eq(g.args[0], g.args[1])
        return norm(g).const() == 1
    except tm.Blowup:
        return False


def split_nf(g, conds, pc=(), acc=()):
    """case split over the conditions; every case closes by normal form, or contradicts the path condition"""
    if not conds:
        return nf_true(g) or (bool(pc) and solve(list(pc) + list(acc) + [not_(g)], timeout=600, want_model=False, lin_only=True)[0] == "unsat")
    conds = sorted(conds, key=lambda c: not (c.op == "eq" and c.args[0].sort == "I"))
    c, rest = conds[0], conds[1:]
    try:
        k = norm(c).const()
    except tm.Blowup:
        k = None
    for v in ((TRUE, FALSE) if k is None else (TRUE,) if k == 1 else (FALSE,)):
        s = {}
        if v is TRUE and c.op == "eq":
            for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if a.op == "var" and a.sort == "I" and a.args[0] not in b.fv:
                    s = {a.args[0]: b}
                    break
        f = (lambda t: subst(replace_cond(t, c, v), s)) if s else (lambda t: replace_cond(t, c, v))
        if not split_nf(f(g), [f(x) for x in rest], [subst(x, s) for x in pc] if s else pc, [f(x) for x in acc] + [c if v is TRUE else not_(c)]):
            return False
    return True


def cvc5_check(terms, timeout):
    import subprocess, tempfile, os
    facts = instantiate(terms)
    env = {}
    s = z3.Solver()
    for t in list(terms) + facts:
        s.add(tm.to_z3(t, env))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    STATS["cvc5_calls"] += 1
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        o = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "-q", p], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        out = o.stdout.strip().split("\n")[0] if o.stdout.strip() else "unknown"
        return out
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


def _has_sums(goal):
    return sum(1 for x in tm.subterms(goal).values() if x.op == "app" and x.args[0][:3] in ("SUM", "CNT")) > 0


_cong_depth = [0]


def sum_congruence(goal, pc):
    """equalities between sum applications of the goal whose summands are provably equal"""
    if _cong_depth[0] >= 2:
        return []
    apps = [x for x in tm.subterms(goal).values() if x.op == "app" and x.args[0][:3] in ("SUM", "CNT")]
    apps += [x for f in pc for x in tm.subterms(f).values() if x.op == "app" and x.args[0][:3] in ("SUM", "CNT")
             and x not in apps][:6]
    out = []
    if len(apps) < 2 or len(apps) > 14:
        return out
    _cong_depth[0] += 1
    try:
        for i in range(len(apps)):
            for j in range(i):
                a, b = apps[i], apps[j]
                if a.args[0][:3] != b.args[0][:3]:
                    continue
                na, ba = sum_parts(a)
                nb, bb = sum_parts(b)
                if not tm.prove_eq(na, nb):
                    continue
                k = var(CTX.fresh("c"), "I")
                ea, eb = subst(ba, {"_b": k}), subst(bb, {"_b": k})
                if tm.prove_eq(ea, eb):
                    out.append(eq(a, b))
                    continue
                mk_ = CTX.mark()
                CTX.assume(and_(le(num(0), k), lt(k, na)))
                r, _ = solve(relevant(CTX.pc, [ea, eb]) + [not_(eq(ea, eb))], timeout=1500, want_model=False)
                CTX.reset(mk_)
                if r == "unsat":
                    out.append(eq(a, b))
    finally:
        _cong_depth[0] -= 1
    return out


def sum_parts(a):
    n, body, k = tm.SUMS[a.args[0]]
    m = {"_a%d" % i: x for i, x in enumerate(a.args[1:])}
    return subst(n, m), subst(body, m)


def obligation(name, goal, kind="ensures"):
    o = Obl(name)
    o.goal = goal
    o.path = tuple(CTX.frames[0].dec[:CTX.frames[0].pos])
    t0 = time.time()
    try:
        st, be, m = prove(goal)
    except tm.Blowup:
        st, be, m = "unknown", "blowup", None
    o.secs = time.time() - t0
    o.status, o.backend = st, be
    if st != "proved":
        o.pc = tuple(CTX.pc)
        o.model = m
        o.detail = tm.show(goal)[:2000]
    CTX.obls.append(o)
    return o


# ------------------------------------------------------------------ scalars
def wrapn(t):
    if t.op == "num":
        v = t.args[0]
        if t.sort == "I" and v.denominator == 1:
            return int(v)
        return v
    return SNum(t)


def wrapb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SBool(t)


def tof(x):
    """value -> T (numeric or bool)"""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return x.t
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, int):
        return num(x, "I")
    if isinstance(x, (Fraction, float)):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            raise Unsupported("non-finite float constant")
        return num(x, "R")
    if isinstance(x, T):
        return x
    if isinstance(x, SArr) and x.scalarlike():
        return x.scalar_t()
    raise Unsupported("not a scalar: %r" % (type(x),))


def tnum(x):
    t = tof(x)
    if t.sort == "B":
        return ite(t, num(1), num(0))
    return t


def isscalar(x):
    return isinstance(x, (SNum, SBool, bool, int, float, Fraction))


def _bin(op):
    def f(a, b):
        if isinstance(b, SArr) or not isscalar(b):
            return NotImplemented
        return wrapn(op(tnum(a), tnum(b)))

    def r(a, b):
        if isinstance(b, SArr) or not isscalar(b):
            return NotImplemented
        return wrapn(op(tnum(b), tnum(a)))
    return f, r


def pyfloordiv(a, b):
    if a.sort == "I" and b.sort == "I" and b.op == "num" and b.args[0] > 0:
        return tm.floor(div(a, b))
    if a.sort == "I" and b.sort == "I":
        return tm.floor(div(a, b))
    return tm.floor(div(a, b))


def pymod(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] % b.args[0], tm._rs(a, b))
    if a.sort == "I" and b.sort == "I":
        return sub(a, mul(b, tm.floor(div(a, b))))
    return sub(a, mul(b, tm.floor(div(a, b))))


def tpow(a, b):
    if b.op == "num":
        return powr(a, b.args[0])
    if a.op == "num" and a.args[0] == 10:
        return app("pow10", [b])
    p = norm(b)
    c = p.const()
    if c is not None:
        return powr(a, c)
    return app("rpow", [a, b])


def _infcmp(f, o):
    big = num(Fraction(1 if o > 0 else -1))
    r = f(ZERO, big)
    return r is TRUE


class SNum:
    __slots__ = ("t",)
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SNum<%s>" % tm.show(self.t)[:200]

    __add__, __radd__ = _bin(add)
    __sub__, __rsub__ = _bin(sub)
    __mul__, __rmul__ = _bin(mul)
    __truediv__, __rtruediv__ = _bin(div)
    __pow__, __rpow__ = _bin(tpow)
    __floordiv__, __rfloordiv__ = _bin(pyfloordiv)
    __mod__, __rmod__ = _bin(pymod)

    def __neg__(self):
        return wrapn(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapn(tabs(self.t))

    def _cmp(self, o, f):
        if not isscalar(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return _infcmp(f, o)
        return wrapb(f(self.t, tnum(o)))

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: not_(eq(a, b)))

    __hash__ = None

    def __bool__(self):
        return CTX.branch(not_(eq(self.t, num(0))))

    def __float__(self):
        raise Unsupported("float() of a symbolic value escaped")

    def __int__(self):
        raise Unsupported("int() of a symbolic value escaped")

    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def copy(self):
        return self

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def sum(self):
        return self

    def astype(self, k):
        return self

    @property
    def value(self):
        raise AttributeError("value")


def tabs(t):
    if t.op == "num":
        return num(abs(t.args[0]), t.sort)
    return ite(le(num(0), t), t, neg(t))


class SBool:
    __slots__ = ("t",)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool<%s>" % tm.show(self.t)[:200]

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        if not isscalar(o):
            return NotImplemented
        return wrapb(and_(self.t, tof(o)))
    __rand__ = __and__

    def __or__(self, o):
        if not isscalar(o):
            return NotImplemented
        return wrapb(or_(self.t, tof(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return wrapb(not_(eq(self.t, tof(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return wrapb(not_(self.t))

    def __mul__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrapb(and_(self.t, tof(o)))
        if not isscalar(o):
            return NotImplemented
        return wrapn(mul(tnum(self), tnum(o)))
    __rmul__ = __mul__

    def __add__(self, o):
        if not isscalar(o):
            return NotImplemented
        return wrapn(add(tnum(self), tnum(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return wrapn(sub(tnum(self), tnum(o)))

    def __rsub__(self, o):
        return wrapn(sub(tnum(o), tnum(self)))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (SBool, bool)):
            return wrapb(eq(self.t, tof(o)))
        return wrapb(eq(tnum(self), tnum(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ arrays
_birth = itertools.count(1)

PERMS = {}   # pi symbol -> dict(m, n, mask, inv)


def in_rng(k, n):
    return and_(le(num(0), k), lt(k, n))


class SArr:
    """1-D array. Elements: e over _i0, for base index 0<=_i0<n with mask.  Positions of a
    masked array are the increasing base indices for which the mask holds."""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, n, e, dt="f", mask=None, tag=None, parts=None):
        self.n = n if isinstance(n, T) else tof(n)
        if mask is TRUE:
            mask = None
        self.mask = mask
        self.e = e
        self.dt = dt
        self.tag = tag       # permutation symbol if this is a permuted/compressed view of a base space
        self.tspace = None   # for index arrays: (n, mask) of the space indexed by base indices
        self.parts = parts
        self.birth = next(_birth)

    # -- mutation support
    def save(self):
        return (self.n, self.mask, self.e, self.dt, self.tag, self.tspace, self.parts)

    def load(self, s):
        self.n, self.mask, self.e, self.dt, self.tag, self.tspace, self.parts = s

    def _mut(self):
        CTX.touch(self)
        self.parts = None

    def __repr__(self):
        return "SArr<n=%s mask=%s e=%s>" % (tm.show(self.n)[:80], self.mask and tm.show(self.mask)[:200], tm.show(self.e)[:300])

    def __copy__(self):
        return self.copy()

    def copy(self):
        r = SArr(self.n, self.e, self.dt, self.mask, self.tag, self.parts)
        r.tspace = self.tspace
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    # -- shape
    def count_t(self):
        if self.mask is None:
            return self.n
        r = tm.mk_sum(self.n, IX, ite(self.mask, num(1), num(0)))
        return toint(r)

    @property
    def size(self):
        return wrapn(self.count_t())

    @property
    def shape(self):
        return (self.size,)

    def scalarlike(self):
        return False

    def __len__(self):
        t = self.count_t()
        if t.op == "num":
            return int(t.args[0])
        raise Unsupported("len() of symbolic array outside transformed code")

    @property
    def dtype(self):
        return {"f": "float64", "i": "int64", "b": "bool"}[self.dt]

    def like(self, e, dt=None):
        return SArr(self.n, e, dt or self.dt, self.mask, self.tag)

    # -- elementwise
    def _coerce(self, o):
        """other operand -> T over _i0 in the same space"""
        if isinstance(o, SArr):
            return same_space(self, o)
        if isscalar(o):
            return tof(o)
        if isinstance(o, (list, tuple)) and len(o) == 1 and isscalar(o[0]):
            return tof(o[0])
        return None

    def _num(self, t):
        return ite(t, num(1), num(0)) if t.sort == "B" else t

    def _op(self, o, f, swap=False):
        if isinstance(o, SArr):
            bc = broadcast(self, o)
            if bc is not None:
                a, b = bc
                return a._op(b, f, swap) if not isinstance(a, (SNum,)) else NotImplemented
        t = self._coerce(o)
        if t is None:
            return NotImplemented
        a, b = self._num(self.e), self._num(t)
        if swap:
            a, b = b, a
        e = f(a, b)
        return self.like(e, "i" if e.sort == "I" else "f")

    def __add__(self, o):
        if self.dt == "b" and ((isinstance(o, SArr) and o.dt == "b") or isinstance(o, (bool, SBool))):
            return self | o
        return self._op(o, add)

    def __radd__(self, o):
        return self._op(o, add, True)

    def __sub__(self, o):
        return self._op(o, sub)

    def __rsub__(self, o):
        return self._op(o, sub, True)

    def __mul__(self, o):
        if self.dt == "b" and ((isinstance(o, SArr) and o.dt == "b") or isinstance(o, (bool, SBool))):
            return self & o
        return self._op(o, mul)

    def __rmul__(self, o):
        if self.dt == "b" and isinstance(o, (bool, SBool)):
            return self & o
        return self._op(o, mul, True)

    def __truediv__(self, o):
        return self._op(o, div)

    def __rtruediv__(self, o):
        return self._op(o, div, True)

    def __pow__(self, o):
        return self._op(o, tpow)

    def __rpow__(self, o):
        return self._op(o, tpow, True)

    def __floordiv__(self, o):
        return self._op(o, pyfloordiv)

    def __mod__(self, o):
        return self._op(o, pymod)

    def __neg__(self):
        return self.like(neg(self.e))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.like(tabs(self.e))

    def _cmp(self, o, f):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return self.like(TRUE if _infcmp(f, o) else FALSE, "b")
        t = self._coerce(o)
        if t is None:
            return NotImplemented
        if self.e.sort == "B" and t.sort == "B" and f is eq:
            return self.like(eq(self.e, t), "b")
        return self.like(f(self._num(self.e), self._num(t)), "b")

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return self.like(FALSE, "b")
        return self._cmp(o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return self.like(TRUE, "b")
        return self._cmp(o, lambda a, b: not_(eq(a, b)))

    __hash__ = None

    def _bop(self, o, f):
        t = self._coerce(o)
        if t is None:
            return NotImplemented
        if self.dt != "b" or t.sort != "B":
            raise Unsupported("bitwise op on non-bool arrays")
        return self.like(f(self.e, t), "b")

    def __and__(self, o):
        return self._bop(o, and_)
    __rand__ = __and__

    def __or__(self, o):
        return self._bop(o, or_)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bop(o, lambda a, b: not_(eq(a, b)))

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ on non-bool array")
        return self.like(not_(self.e), "b")

    def __bool__(self):
        t = self.count_t()
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __contains__(self, o):
        if o is None:
            return False
        t = self._coerce(o)
        c = tm.mk_sum(self.n, IX, ite(and_(self.mask or TRUE, eq(self._num(self.e), t)), num(1), num(0)))
        return bool(wrapb(lt(num(0), toint(c))))

    # -- in place
    def _iop(self, r):
        if r is NotImplemented:
            return r
        self._mut()
        if self.dt == "i" and r.dt == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        if self.dt == "b" and r.dt != "b":
            raise TypeError("Cannot cast ufunc output to bool")
        if not (r.n is self.n and r.mask is self.mask):
            raise Unsupported("in-place op changes shape")
        self.e = r.e if not (self.dt == "f" and r.dt == "i") else r.e
        return self

    def __iadd__(self, o):
        return self._iop(self + o)

    def __isub__(self, o):
        return self._iop(self - o)

    def __imul__(self, o):
        return self._iop(self * o)

    def __itruediv__(self, o):
        r = self / o
        if r is not NotImplemented:
            r.dt = "f"
        return self._iop(r)

    def __ipow__(self, o):
        return self._iop(self ** o)

    def __iand__(self, o):
        return self._iop(self & o)

    def __ior__(self, o):
        return self._iop(self | o)

    # -- indexing
    def dense(self):
        """same contents, positions 0..count-1"""
        if self.mask is None:
            return self
        tag = compress_perm(self.n, self.mask)
        r = SArr(perm_of(tag)["m"], subst(self.e, {"_i0": papp(tag, IX)}), self.dt, None, tag)
        return r

    def at(self, k):
        """element at dense position k (T)"""
        a = self.dense()
        return subst(a.e, {"_i0": k})

    def wrap(self, t):
        return wrapb(t) if t.sort == "B" else wrapn(t)

    def norm_index(self, k, what="index in bounds", check=True):
        t = tof(k)
        c = self.count_t()
        if t.op == "num" and t.args[0] < 0:
            t = add(c, t)
        elif t.op != "num":
            g = quick(le(num(0), t), CTX.pcset)
            if g is not TRUE and check:
                if CTX.branch(lt(t, num(0))):
                    t = add(c, t)
        if check:
            need = in_rng(t, c)
            if not CTX.branch(need):
                raise IndexError("index out of bounds")
        return t

    def __getitem__(self, k):
        if isinstance(k, SArr):
            return self._gather(k)
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, tuple):
            if len(k) == 1:
                return self[k[0]]
            if len(k) == 2 and k[0] == slice(None) and k[1] is None:
                return SArr2(self, None)
            if len(k) == 2 and k[1] == slice(None) and k[0] is None:
                return SArr2(None, self)
            raise Unsupported("tuple index")
        if k is None:
            return SArr2(None, self)
        if type(k).__name__ == "Cols":
            return type(k)([self[c] for c in k.cols])
        if isinstance(k, list):
            from .npmodel import asarr
            return self._gather(asarr(k))
        if isinstance(k, (bool, SBool)):
            if k is True:
                return self.copy()
            raise Unsupported("scalar bool index")
        return self.wrap(self.at(self.norm_index(k)))

    def _gather(self, k):
        if k.dt == "b":
            if isinstance(k, CArr):
                k = k.tosarr()
            m = same_space(self, k)
            e, n, mask = self.e, self.n, self.mask
            nm = canon_mask(n, and_(mask or TRUE, m))
            r = SArr(n, e, self.dt, nm, self.tag)
            r.tspace = self.tspace
            return r
        if k.dt != "i":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(k, CArr):
            return CArr([self[x] for x in k.items], self.dt)
        if k.tspace is not None:
            n, mask = k.tspace
            if not (same_t(n, self.n) and same_mask(mask, self.mask, self.n)):
                raise Unsupported("index array of another space")
            r = SArr(k.n, subst(self.e, {"_i0": k.e}), self.dt, k.mask, k.tag)
            return r
        a = self.dense()
        kk = var(CTX.fresh("g"), "I")
        ke = subst(k.e, {"_i0": kk})
        rng = and_(in_rng(kk, k.n), subst(k.mask, {"_i0": kk}) if k.mask is not None else TRUE)
        mk_ = CTX.mark()
        CTX.assume(rng)
        st, be, m = prove(in_rng(ke, a.n), 2000)
        CTX.reset(mk_)
        if st != "proved":
            obligation_raw("index array in bounds", st, be, m, in_rng(ke, a.n), [rng])
        return SArr(k.n, subst(a.e, {"_i0": k.e}), self.dt, k.mask, k.tag)

    def _slice(self, s):
        a = self.dense()
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return SArr(a.n, subst(a.e, {"_i0": sub(sub(a.n, num(1)), IX)}), a.dt)
            raise Unsupported("slice step")
        if s.start is None and s.stop is None:
            return self
        n = a.n

        def clampi(x, default):
            if x is None:
                return default
            t = tof(x)
            if t.op == "num" and t.args[0] < 0:
                t = add(n, t)
                if CTX.branch(lt(t, num(0))):
                    t = num(0)
                return t
            if t.op != "num" and CTX.branch(lt(t, num(0))):
                t = add(n, t)
                if CTX.branch(lt(t, num(0))):
                    t = num(0)
            if t is n:
                return n
            if CTX.branch(lt(n, t)):
                return n
            return t
        lo = clampi(s.start, num(0))
        hi = clampi(s.stop, n)
        if CTX.branch(lt(hi, lo)):
            hi = lo
        r = SArr(sub2(hi, lo), subst(a.e, {"_i0": add(IX, lo)}), a.dt)
        if lo.op == "num" and lo.args[0] == 0 and tm.prove_eq(hi, n):
            r.tag = a.tag
        r.viewof = (self, lo, hi)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                k = SArr(self.n, TRUE, "b", self.mask, self.tag)
            else:
                if self.mask is not None:
                    raise Unsupported("slice assignment on masked array")
                view = self._slice(k)
                _, lo, hi = view.viewof
                self._mut()
                if isinstance(v, SArr):
                    ve = subst(v.dense().e, {"_i0": sub(IX, lo)})
                    if not same_t(v.count_t(), view.n):
                        raise ValueError("could not broadcast input array")
                else:
                    ve = tof(v)
                self.e = ite(and_(le(lo, IX), lt(IX, hi)), ve, self.e)
                return
        if isinstance(k, SArr) and k.dt == "b":
            if isinstance(k, CArr):
                k = k.tosarr()
            m = same_space(self, k)
            if isinstance(v, SArr):
                nm = and_(self.mask or TRUE, m)
                if not (same_t(v.n, self.n) and same_mask(v.mask, nm, self.n)):
                    raise Unsupported("masked assignment from another space")
                ve = v.e
            else:
                ve = tof(v)
            self._mut()
            self.e = self._store(ite_dt(m, ve, self.e))
            return
        if isinstance(k, SArr):
            if isinstance(k, CArr):
                for a, b in zip(k.items, list(v.items) if isinstance(v, CArr) else [v] * len(k.items)):
                    self[a] = b
                return
            raise Unsupported("scatter assignment")
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if self.mask is not None:
            raise Unsupported("item assignment on masked array")
        t = self.norm_index(k)
        ve = tof(v)
        if CTX.loops:
            # contents before the iteration, read at the cell being written
            for x in tm.subterms(ve).values():
                if x.op == "app" and x.args[0].startswith("@RD") and len(x.args) == 2 and x.args[1] is t:
                    ve = replace_cond(ve, x, app(x.args[0], [IX], x.sort))
        self._mut()
        self.e = self._store(ite_dt(eq(IX, t), ve, self.e))

    def _store(self, e):
        return e

    def __iter__(self):
        raise Unsupported("iteration over symbolic array outside transformed code")

    # -- methods used by code
    def astype(self, k):
        from . import npmodel
        return npmodel.astype(self, k)

    def sum(self, axis=None):
        from . import npmodel
        return npmodel.sum(self)

    def mean(self):
        from . import npmodel
        return npmodel.mean(self)

    def min(self):
        from . import npmodel
        return npmodel.min(self)

    def max(self):
        from . import npmodel
        return npmodel.max(self)

    def argmin(self):
        from . import npmodel
        return npmodel.argmin(self)

    def argmax(self):
        from . import npmodel
        return npmodel.argmax(self)

    def argsort(self):
        from . import npmodel
        return npmodel.argsort(self)

    def cumsum(self):
        from . import npmodel
        return npmodel.cumsum(self)

    def any(self):
        from . import npmodel
        return npmodel.any(self)

    def all(self):
        from . import npmodel
        return npmodel.all(self)

    def flatten(self):
        return self.copy()

    ravel = flatten

    def tolist(self):
        return self

    def reshape(self, *a):
        raise Unsupported("reshape")

    @property
    def T(self):
        return self


def ite_dt(c, a, b):
    if a.sort == "B" and b.sort != "B":
        a = ite(a, num(1), num(0))
    if b.sort == "B" and a.sort != "B":
        raise Unsupported("storing number into bool array")
    return ite(c, a, b)


def sub2(a, b):
    """integer subtraction with normalisation"""
    if b.op == "num" and b.args[0] == 0:
        return a
    d = sub(a, b)
    try:
        c = norm(d).const()
    except tm.Blowup:
        c = None
    return num(int(c)) if c is not None else d


def toint(t):
    """normal-form T known to be integer valued -> sort I"""
    if t.sort == "I":
        return t
    return tm.p2int(norm(t))


def same_t(a, b):
    if a is b:
        return True
    if tm.prove_eq(a, b):
        return True
    if a.op == "num" and b.op == "num":
        return False
    g = eq(a, b)
    key = (g.id, len(CTX.pc), CTX.pc[-1].id if CTX.pc else 0)
    if CTX.same_no.get(g.id) == key:
        return False
    if g.id in CTX.pcset:
        return True
    pc = relevant(CTX.pc, [g])
    r, _ = solve(pc + [not_(g)], timeout=400, want_model=False)
    if r == "unsat":
        return True
    st, _, _ = prove(g, 400) if r == "unknown" or _has_sums(g) else ("failed", None, None)
    if st != "proved":
        CTX.same_no[g.id] = key
    return st == "proved"


def same_mask(a, b, n):
    if a is b:
        return True
    a = a if a is not None else TRUE
    b = b if b is not None else TRUE
    try:
        if tm.padd(norm(a), norm(b), -1).iszero():
            return True
    except tm.Blowup:
        pass
    k = var(CTX.fresh("m"), "I")
    mk_ = CTX.mark()
    CTX.assume(in_rng(k, n))
    st, _, _ = prove(eq(subst(a, {"_i0": k}), subst(b, {"_i0": k})), 1500)
    CTX.reset(mk_)
    return st == "proved"


def app_names(t):
    return {x.args[0] for x in tm.subterms(t).values() if x.op == "app"}


def canon_mask(n, mask):
    """a mask met earlier that is provably the same selection, else the mask itself"""
    if mask is None or mask is TRUE or mask is FALSE or n.op == "num":
        return mask
    c = CTX
    for (rn, rm) in c.masks:
        if rm is mask:
            return mask
    syms = app_names(mask)
    if not c.temporary():
        for (rn, rm) in reversed(c.masks[-10:]):
            if not same_n(rn, n):
                continue
            try:
                if tm.padd(norm(rm), norm(mask), -1).iszero():
                    return rm
            except tm.Blowup:
                continue
            if _has_sums(rm) or _has_sums(mask) or not (app_names(rm) & syms):
                continue
            k = var(c.fresh("m"), "I")
            mk_ = c.mark()
            c.assume(in_rng(k, n))
            try:
                g = eq(subst(rm, {"_i0": k}), subst(mask, {"_i0": k}))
                r, _ = solve(relevant(c.pc, [g]) + [not_(g)], timeout=500, want_model=False, lin_only=True)
            except tm.Blowup:
                r = None
            finally:
                c.reset(mk_)
            if r == "unsat":
                return rm
        c.masks.append((n, mask))
    return mask


def same_n(a, b):
    return a is b or tm.prove_eq(a, b)


def same_space(a, b):
    """T of b's elements over a's space"""
    if isinstance(a, CArr) and not isinstance(b, CArr):
        a = a.tosarr()
    if isinstance(b, CArr):
        b = b.tosarr()
    if a.mask is b.mask and same_t(a.n, b.n):
        return b.e
    if same_t(a.n, b.n) and same_mask(a.mask, b.mask, a.n):
        return b.e
    # positional: compress both
    ca, cb = a.count_t(), b.count_t()
    if same_t(ca, cb):
        raise Unsupported("positional combination of differently masked arrays")
    raise ValueError("operands could not be broadcast together (symbolic shapes %s vs %s)" % (tm.show(ca)[:80], tm.show(cb)[:80]))


def broadcast(a, b):
    return None


def obligation_raw(name, st, be, m, goal, extra=()):
    o = Obl(name)
    o.goal = goal
    o.status, o.backend, o.model = st, be, m
    o.pc = tuple(CTX.pc) + tuple(extra)
    o.detail = tm.show(goal)[:2000]
    o.path = tuple(CTX.frames[0].dec[:CTX.frames[0].pos])
    CTX.obls.append(o)


def perm_symbol(m, n, mask, key, kind):
    """index map pi: [0,m) -> {i in [0,n): mask(i)}, bijective. kind: 'inc' | 'sort' | 'any'"""
    free = sorted(v for v in set().union(n.fv, mask.fv if mask is not None else (), key.fv if key is not None else ())
                  if tm.is_index_var(v) and v != "_i0")
    params = ()
    if free:
        # a family of permutations, one per value of the index variables: symbol(k, params...)
        params = tuple(var(v, "I") for v in free)
        ren = {v: var("_q%d" % i, "I") for i, v in enumerate(free)}
        m, n = subst(m, ren), subst(n, ren)
        mask = subst(mask, ren) if mask is not None else None
        key = subst(key, ren) if key is not None else None
    kk = (norm(n).key(), norm(mask).key() if mask is not None else None, norm(key).key() if key is not None else None, kind, len(params))
    nm = _permkeys.get(kk)
    if nm is not None:
        return (nm,) + params if params else nm
    nm = "pi%d" % (len(_permkeys) + 1)
    _permkeys[kk] = nm
    inv = nm + "inv"
    PERMS[nm] = dict(m=m, n=n, mask=mask, inv=inv, key=key, kind=kind)

    def ps(t, args):
        return t if t is None or not params else subst(t, {"_q%d" % i: a for i, a in enumerate(args[1:])})

    def at(t, k, args):
        return subst(ps(t, args), {"_i0": k}) if t is not None else TRUE

    def ax(args):
        k = args[0]
        p = app(nm, list(args), "I")
        return [implies(in_rng(k, ps(m, args)), and_(in_rng(p, ps(n, args)), at(mask, p, args), eq(app(inv, [p] + list(args[1:]), "I"), k)))]

    def axinv(args):
        i = args[0]
        p = app(inv, list(args), "I")
        return [implies(and_(in_rng(i, ps(n, args)), at(mask, i, args)), and_(in_rng(p, ps(m, args)), eq(app(nm, [p] + list(args[1:]), "I"), i)))]

    def pair(a1, a2):
        k1, k2 = a1[0], a2[0]
        if any(x is not y for x, y in zip(a1[1:], a2[1:])):
            return []
        p1, p2 = app(nm, list(a1), "I"), app(nm, list(a2), "I")
        g = and_(in_rng(k1, ps(m, a1)), in_rng(k2, ps(m, a1)), lt(k1, k2))
        if kind == "inc":
            return [implies(g, lt(p1, p2))]
        if kind == "sort":
            return [implies(g, le(at(key, p1, a1), at(key, p2, a1)))]
        return []
    AXIOMS[nm] = ax
    AXIOMS[inv] = axinv
    PAIR_AXIOMS[nm] = pair
    return (nm,) + params if params else nm


def perm_of(tag):
    """definition of the (instance of a family of) permutation named by a tag, or None"""
    if isinstance(tag, tuple):
        pr = PERMS[tag[0]]
        s = {"_q%d" % i: a for i, a in enumerate(tag[1:])}
        return {k: subst(v, s) if isinstance(v, T) else v for k, v in pr.items()}
    return PERMS.get(tag)


def papp(tag, k):
    return app(tag[0], [k] + list(tag[1:]), "I") if isinstance(tag, tuple) else app(tag, [k], "I")


_permkeys = {}


def compress_perm(n, mask):
    c = toint(tm.mk_sum(n, IX, ite(mask, num(1), num(0))))
    return perm_symbol(c, n, mask, None, "inc")


class CArr(SArr):
    """array of concrete length"""

    def __init__(self, items, dt=None):
        self.items = list(items)
        self.mask = None
        self.tag = None
        self.tspace = None
        self.parts = None
        self.birth = next(_birth)
        if dt is None:
            dt = dt_of(self.items)
        self.dt = dt

    def save(self):
        return (list(self.items), self.dt)

    def load(self, s):
        self.items, self.dt = list(s[0]), s[1]

    @property
    def n(self):
        return num(len(self.items), "I")

    @property
    def e(self):
        return self.tosarr().e

    def count_t(self):
        return num(len(self.items), "I")

    def scalarlike(self):
        return len(self.items) == 1

    def scalar_t(self):
        return tof(self.items[0])

    def tosarr(self):
        its = self.items
        if not its:
            return SArr(num(0), ZERO if self.dt != "b" else FALSE, self.dt)
        e = tof(its[-1])
        for k in range(len(its) - 2, -1, -1):
            e = ite(eq(IX, num(k)), tof(its[k]), e)
        return SArr(num(len(its)), e, self.dt)

    def __repr__(self):
        return "CArr%r" % (self.items,)

    def copy(self):
        return CArr(self.items, self.dt)

    def dense(self):
        return self

    def at(self, k):
        if k.op == "num":
            return tof(self.items[int(k.args[0])])
        return subst(self.tosarr().e, {"_i0": k})

    def like(self, e, dt=None):
        raise Unsupported("CArr.like")

    def _map2(self, o, f, dt=None):
        if isinstance(o, CArr):
            if len(o.items) == len(self.items):
                its = [f(a, b) for a, b in zip(self.items, o.items)]
            elif len(o.items) == 1:
                its = [f(a, o.items[0]) for a in self.items]
            elif len(self.items) == 1:
                its = [f(self.items[0], b) for b in o.items]
            else:
                raise ValueError("operands could not be broadcast together")
        elif isinstance(o, SArr):
            if len(self.items) == 1:
                return None
            return self.tosarr(), o
        elif isinstance(o, (list, tuple)):
            return self._map2(CArr(o), f, dt)
        elif isscalar(o):
            its = [f(a, o) for a in self.items]
        else:
            return NotImplemented
        return CArr(its, dt)

    def _op(self, o, f, swap=False):
        g = (lambda a, b: wrapn(f(tnum(b), tnum(a)))) if swap else (lambda a, b: wrapn(f(tnum(a), tnum(b))))
        if isinstance(o, SArr) and not isinstance(o, CArr):
            if len(self.items) == 1:
                return o._op(self.items[0], f, not swap)
            return self.tosarr()._op(o, f, swap)
        r = self._map2(o, g)
        if isinstance(r, CArr):
            r.dt = dt_of(r.items) if r.items else "f"
        return r

    def _cmp(self, o, f):
        if isinstance(o, SArr) and not isinstance(o, CArr):
            return self.tosarr()._cmp(o, f)
        return self._map2(o, lambda a, b: wrapb(f(tnum(a), tnum(b))), "b")

    def _bop(self, o, f):
        if isinstance(o, SArr) and not isinstance(o, CArr):
            return self.tosarr()._bop(o, f)
        return self._map2(o, lambda a, b: wrapb(f(tof(a), tof(b))), "b")

    def __invert__(self):
        return CArr([wrapb(not_(tof(x))) for x in self.items], "b")

    def __neg__(self):
        return CArr([-x for x in self.items], self.dt)

    def __abs__(self):
        return CArr([wrapn(tabs(tnum(x))) for x in self.items], self.dt)

    def _iop(self, r):
        if r is NotImplemented:
            return r
        if not isinstance(r, CArr) or len(r.items) != len(self.items):
            raise ValueError("non-broadcastable output operand")
        self._mut()
        if self.dt == "i" and r.dt == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        self.items = r.items
        return self

    def __bool__(self):
        if len(self.items) == 1:
            return bool(self.items[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __contains__(self, o):
        for x in self.items:
            if x is o or (x is not None and o is not None and bool(x == o)):
                return True
        return False

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return CArr([False] * len(self.items), "b")
        return self._cmp(o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return CArr([True] * len(self.items), "b")
        return self._cmp(o, lambda a, b: not_(eq(a, b)))

    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, CArr):
            if k.dt == "b":
                if len(k.items) != len(self.items):
                    raise IndexError("boolean index did not match")
                if all(x is True or x is False for x in k.items):
                    return CArr([a for a, b in zip(self.items, k.items) if b], self.dt)
                out = [a for a, b in zip(self.items, k.items) if bool(b)]
                return CArr(out, self.dt)
            return CArr([self[x] for x in k.items], self.dt)
        if isinstance(k, SArr):
            return self.tosarr()[k]
        if isinstance(k, slice):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return CArr(self.items[k], self.dt)
            return self.tosarr()[k]
        if isinstance(k, int) and not isinstance(k, bool):
            return self.items[k]
        if isinstance(k, list):
            return CArr([self.items[x] for x in k], self.dt)
        if isinstance(k, SNum):
            return self.tosarr()[k]
        return SArr.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, int) and not isinstance(k, bool):
            self._mut()
            self.items[k] = v
            return
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            self._mut()
            idx = list(range(len(self.items)))[k]
            for j, ii in enumerate(idx):
                self.items[ii] = v.items[j] if isinstance(v, CArr) else v
            return
        if isinstance(k, CArr) and k.dt == "b":
            self._mut()
            vv = list(v.items) if isinstance(v, CArr) else None
            for j, b in enumerate(k.items):
                if bool(b):
                    self.items[j] = vv.pop(0) if vv is not None else v
            return
        raise Unsupported("CArr setitem")

    def __iter__(self):
        return iter(list(self.items))

    def __len__(self):
        return len(self.items)


def dt_of(items):
    if items and all(isinstance(x, (bool, SBool)) for x in items):
        return "b"
    if items and all((isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, SNum) and x.t.sort == "I") for x in items):
        return "i"
    return "f"


class SArr2:
    """outer (2-D) array expressions: rows over _i0, columns over _i1 (broadcast helper)"""
    __array_ufunc__ = None
    ndim = 2

    def __init__(self, row=None, col=None, nr=None, nc=None, e=None, dt="f"):
        if e is None:
            if row is not None:
                row = row.dense()
                nr, e, dt = row.n, row.e, row.dt
            else:
                col = col.dense()
                nc, e, dt = col.n, subst(col.e, {"_i0": tm.IX1}), col.dt
        self.nr, self.nc, self.e, self.dt = nr, nc, e, dt
        self.birth = next(_birth)

    def _op(self, o, f, swap=False):
        if isinstance(o, SArr2):
            nr = self.nr if self.nr is not None else o.nr
            nc = self.nc if self.nc is not None else o.nc
            b = o.e
        elif isinstance(o, SArr):
            o = o.dense()
            nr, nc, b = self.nr, (self.nc or o.n), subst(o.e, {"_i0": tm.IX1})
        elif isscalar(o):
            nr, nc, b = self.nr, self.nc, tof(o)
        else:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        e = f(a, b)
        return SArr2(nr=nr, nc=nc, e=e, dt="b" if e.sort == "B" else "f")

    def __add__(self, o):
        return self._op(o, add)

    def __radd__(self, o):
        return self._op(o, add, True)

    def __sub__(self, o):
        return self._op(o, sub)

    def __rsub__(self, o):
        return self._op(o, sub, True)

    def __mul__(self, o):
        return self._op(o, mul)

    def __rmul__(self, o):
        return self._op(o, mul, True)

    def __truediv__(self, o):
        return self._op(o, div)

    def __rtruediv__(self, o):
        return self._op(o, div, True)

    def __pow__(self, o):
        return self._op(o, tpow)

    def __neg__(self):
        return SArr2(nr=self.nr, nc=self.nc, e=neg(self.e))

    def __lt__(self, o):
        return self._op(o, lt)

    def __gt__(self, o):
        return self._op(o, lambda a, b: lt(b, a))

    @property
    def T(self):
        return SArr2(nr=self.nc, nc=self.nr, e=subst(self.e, {"_i0": tm.IX1, "_i1": IX}), dt=self.dt)

    def __getitem__(self, k):
        raise Unsupported("2-D indexing")
