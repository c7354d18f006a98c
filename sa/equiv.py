"""Equality of two terms modulo linear arithmetic on the comparisons along each branch.

The canonical forms of terms.py only use implications between two comparisons of the same linear form.  Where two
canonical forms differ, this module walks both decision diagrams together, keeps the comparisons of the current branch
as a conjunction of linear inequalities (a polyhedral domain over monomials, emptiness by Fourier-Motzkin elimination),
skips branches that are empty, and compares the values at the leaves; numeric leaves also agree when their difference
is forced to be zero by the inequalities of the branch.
"""
from fractions import Fraction
from .terms import *
from . import terms as tm

F0, F1 = Fraction(0), Fraction(1)


class Budget(Exception):
    pass


def _lin(p):
    d = {}
    c = F0
    for m, k in pdict(p).items():
        if m == ():
            c += k
        else:
            d[m] = k
    return d, c


def literal(atom, val):
    """linear constraints [(coefficients, constant, strict)] (sum + constant > 0 or >= 0) of a comparison"""
    p = atom.args[0]
    if p.op not in ('poly', 'num') and not tm.is_polyish(p) and atom.op not in ('gt0', 'eq0'):
        return []
    d, c = _lin(p)
    nd = {m: -k for m, k in d.items()}
    if atom.op == 'gt0':
        if val:
            return [(d, c - 1, False)] if is_int(p) else [(d, c, True)]
        return [(nd, -c, False)]
    if val:
        return [(d, c, False), (nd, -c, False)]
    return []


def empty(cons, cap=400):
    """is the conjunction of the constraints unsatisfiable over the rationals (False: not shown to be)"""
    cons = list(cons)
    monos = {m for d, _, _ in cons for m in d}
    for m in monos:
        if nonneg(tm.from_dict({m: F1})):
            cons.append(({m: F1}, F0, False))
    while True:
        seen, new = {}, []
        for d, c, s in cons:
            d = {m: k for m, k in d.items() if k}
            if not d:
                if c < 0 or (c == 0 and s):
                    return True
                continue
            sc = abs(next(iter(sorted(d.items(), key=lambda mk_: tm._mono_key(mk_[0]))))[1])
            d = {m: k / sc for m, k in d.items()}
            c = c / sc
            key = frozenset(d.items())
            o = seen.get(key)
            if o is None or (c, not s) < (o[1], not o[2]):
                seen[key] = (d, c, s)
        cons = list(seen.values())
        if not cons:
            return False
        occ = {}
        for d, _, _ in cons:
            for m, k in d.items():
                a = occ.setdefault(m, [0, 0])
                a[0 if k > 0 else 1] += 1
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1], tm._mono_key(x)))
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        negs = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if m not in x[0]]
        if len(pos) * len(negs) + len(rest) > cap:
            return False
        for d1, c1, s1 in pos:
            for d2, c2, s2 in negs:
                k1, k2 = d1[m], -d2[m]
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, F0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, F0) + k * k1
                d.pop(m, None)
                rest.append((d, c1 * k2 + c2 * k1, s1 or s2))
        cons = rest


class Equiv:
    def __init__(self, budget=6000):
        self.n = budget
        self.memo = {}

    def tick(self):
        self.n -= 1
        if self.n < 0:
            raise Budget()

    def reduce(self, t, env, lits):
        while t.op == 'ite':
            v = env.get(t.args[0])
            if v is None:
                for a, w in lits:
                    v = tm.implied(a, w, t.args[0])
                    if v is not None:
                        break
            if v is None:
                return t
            t = t.args[1] if v else t.args[2]
        return t

    def same(self, a, b, lits=()):
        """do a and b agree on every value satisfying the literals"""
        if a is b:
            return True
        key = (a, b, lits)
        r = self.memo.get(key)
        if r is None:
            self.tick()
            r = self.memo[key] = self._same(a, b, lits)
        return r

    def _same(self, a, b, lits):
        env = dict(lits)
        a, b = self.reduce(a, env, lits), self.reduce(b, env, lits)
        if a is b:
            return True
        if tm.is_bool(a) and tm.is_bool(b):
            a, b = as_dd(a), as_dd(b)
        if a.op == 'ite' or b.op == 'ite':
            top = min((t.args[0] for t in (a, b) if t.op == 'ite'), key=lambda x: x.od)
            for val in (1, 0):
                l2 = lits + ((top, val),)
                if top.op in ('gt0', 'eq0') and self.empty(l2):
                    continue
                if not self.same(a, b, l2):
                    return False
            return True
        na, nb = tm._leafnum(a), tm._leafnum(b)
        if na and nb and (a.op in ('poly', 'num') or b.op in ('poly', 'num')):
            if self.zero(a, b, lits):
                return True
            return self.merge_sums(a, b, lits)
        a, b = self.hollow(a, lits), self.hollow(b, lits)
        if a is b:
            return True
        if a.op == b.op == 'tok':
            xs, ys = self.live(a, lits), self.live(b, lits)
            return len(xs) == len(ys) and all(self.same(x, y, lits) for x, y in zip(xs, ys))
        if a.op == b.op and len(a.args) == len(b.args):
            if self.children(a, b, lits):
                return True
        if na and nb:
            return self.zero(a, b, lits)
        return False

    def live(self, t, lits):
        """events of a history that can have happened on this branch"""
        env = dict(lits)
        return [x for x in t.args if x.op != 'ev' or self.reduce(as_dd(x.args[1]), env, lits) is not FALSE]

    def hollow(self, t, lits):
        """a comprehension over nothing is the empty sequence"""
        if t.op == 'seq':
            g = as_dd(gt0(t.args[0]))
            if g is FALSE or g.op == 'ite' and self.empty(lits, (gt0(t.args[0]), 1)):
                return tm.tup()
        return t

    def inhabited(self, n, lits):
        """inside a comprehension over n items there is at least one"""
        for atom, val in implied_literals(as_dd(gt0(n))):
            if (atom, val) not in lits:
                lits += ((atom, val),)
        return lits

    def children(self, a, b, lits):
        if a.op in ('seq', 'dictmap', 'sum', 'maxseq', 'minseq') and a.args[0] is b.args[0]:
            lits = self.inhabited(a.args[0], lits)
        if a.op == 'lam':
            if a.args[2] != b.args[2]:
                return False
            f = fresh(tm.FKIND[a.args[2]])
            xa, xb = open_(a, f), open_(b, f)
            return len(xa) == len(xb) and all(self.same(x, y, lits) for x, y in zip(xa, xb))
        if a.op in ('gt0', 'eq0'):
            return self.same(as_dd(a), as_dd(b), lits)
        if a.op in ('str', 'param', 'ref', 'bv', 'poly'):
            return False
        if a.op in ('sum', 'maxseq', 'minseq') and a.args[0] is b.args[0]:
            f = fresh()
            (da, ga), (db, gb) = open_(a.args[1], f), open_(b.args[1], f)
            d = UNDEF if a.op != 'sum' else ZERO
            return self.same(ite(ga, da, d), ite(gb, db, d), lits)
        if a.op == 'ev':
            g, h = a.args[1], b.args[1]
            if a.args[0] != b.args[0] or not self.same(as_dd(g), as_dd(h), lits):
                return False
            for atom, val in implied_literals(as_dd(g)):
                if (atom, val) not in lits:
                    lits += ((atom, val),)
            return all(self.same(x, y, lits) if x.op == 'lam' or y.op == 'lam' else
                       self.same(ite(g, x, UNDEF), ite(g, y, UNDEF), lits) for x, y in zip(a.args[2:], b.args[2:]))
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) != isinstance(y, T):
                return False
            if isinstance(x, T):
                if not self.same(x, y, lits):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T):
                        if not self.same(p, q, lits):
                            return False
                    elif p != q:
                        return False
            elif x != y:
                return False
        return True

    def zero(self, a, b, lits):
        d = sub(a, b)
        if d is ZERO:
            return True
        if d.op == 'ite':
            return False
        if d.op == 'num':
            return self.empty(lits)
        return self.empty(lits, (gt0(d), 1)) and self.empty(lits, (gt0(neg(d)), 1))

    def merge_sums(self, a, b, lits):
        """a and b are sums of sums over the same spaces: compare the bodies"""
        d = pdict(sub(a, b))
        groups = {}
        for m, c in d.items():
            ss = [x for x, e in m if x.op == 'sum' and e == 1]
            if len(ss) != 1:
                return self.rename(a, b, lits)
            fac = tm.from_dict({tuple(p for p in m if p[0] is not ss[0]): abs(c)})
            groups.setdefault(ss[0].args[0], []).append((ss[0], c, fac))
        for n, ss in groups.items():
            f = fresh()
            pos = neg_ = ZERO
            for s, c, fac in ss:
                dep, g = open_(s.args[1], f)
                t = ite(g, mul(fac, dep), ZERO)
                if c > 0:
                    pos = add(pos, t)
                else:
                    neg_ = add(neg_, t)
            if not self.same(pos, neg_, lits):
                return False
        return True

    def rename(self, a, b, lits):
        """polynomials over different atoms: identify atoms that agree under the literals"""
        da, db = pdict(a), pdict(b)
        aa = {x for m in da for x, _ in m}
        ab = {x for m in db for x, _ in m}
        ren = {}
        left = sorted(ab - aa, key=lambda t: t.od)
        for x in sorted(aa - ab, key=lambda t: t.od):
            for y in left:
                if x.op == y.op and self.same(x, y, lits):
                    ren[x] = y
                    left.remove(y)
                    break
        if not ren:
            return False
        a2 = subst(a, ren)
        return a2 is b or self.zero(a2, b, lits)

    def empty(self, lits, extra=None):
        cons = []
        for at_, v in lits:
            if at_.op in ('gt0', 'eq0'):
                cons += literal(at_, v)
        if extra:
            at_, v = extra
            at_ = as_dd(at_)
            if at_ is TRUE or at_ is FALSE:
                return (at_ is TRUE) != bool(v)
            if at_.op != 'ite':
                return False
            w = v if at_.args[1] is TRUE else 1 - v
            cons += literal(at_.args[0], w)
        key = ('empty', frozenset((frozenset(d.items()), c, s) for d, c, s in cons),
               frozenset(at_ for at_, v in lits if at_.op == 'eq0' and not v))
        r = self.memo.get(key)
        if r is None:
            self.tick()
            r = empty(cons)
            if not r:
                # a form that is known not to be zero but has no room on either side
                for at_, v in lits:
                    if at_.op == 'eq0' and not v:
                        d, c = _lin(at_.args[0])
                        if empty(cons + [(d, c, True)]) and empty(cons + [({m: -k for m, k in d.items()}, -c, True)]):
                            r = True
                            break
            self.memo[key] = r
        return r


def returned(r, evs):
    """the result where no exception leaves the function"""
    g = FALSE
    for x in evs:
        if x.kind == 'raise':
            g = or_(g, x.guard)
    return ite(g, UNDEF, r) if g is not FALSE else r


def equivalent(ri, rs, ie, se, it, st, independent, budget=6000):
    """do the results and the traces agree (False: not shown); independent(e, f) tells which events may be exchanged"""
    if len(it) != len(st):
        return False
    e = Equiv(budget)
    try:
        if not e.same(returned(ri, ie), returned(rs, se)):
            return False
        left = list(range(len(st)))
        img = []
        for i, t in enumerate(it):
            for j in left:
                if ie[i].kind == se[j].kind and e.same(t, st[j]):
                    break
            else:
                return False
            left.remove(j)
            img.append(j)
        return all(img[i] < img[k] or independent(ie[i], ie[k])
                   for k in range(len(img)) for i in range(k))
    except (Budget, TooBig, RecursionError):
        return False
