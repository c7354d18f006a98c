"""Equality of function summaries (value term + canonical effect trace) with a three-valued answer.

EQUAL      the canonical forms coincide
DIFFERENT  they do not, and everything in which they differ is built from constructs that have a canonical form
UNKNOWN    they do not, but a construct without canonical form is involved (general recurrences, unknown library calls)
"""
import signal
from .terms import *
from . import terms as tm
from .interp import Unsupported, merge_sets, order_events, independent, Ev
from .equiv import equivalent
from .exprs import Interp

EQUAL, DIFFERENT, UNKNOWN = 'equal', 'different', 'unknown'

# constructs that may be written in several ways without being brought to one canonical form
RISKY = {'mu', 'escobj', 'lostref', 'opaquefn', 'drained', 'cyc', 'dictof', 'stepslice', 'lremove', 'flat', 'many', 'phi',
         'maxfold', 'minfold', 'undef', 'raises', 'err'}
KNOWN_CALLS = {'floor', 'int', 'median', 'log', 'log2', 'exp', 'float', 'round', 'roundint', 'pstdev', 'stdev', 'vars',
               'type', 'time.time', 'quantile', 'percentile', 'startswith', 'isclose'}


class Timeout(Exception):
    pass


def limited(seconds, fn):
    def h(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------------------------------------------------------


class Diff:
    def __init__(self):
        self.prim = []       # primitive differences (impl term, spec term)
        self.unk = []        # reasons for UNKNOWN
        self.memo = set()
        self.n = 0

    def verdict(self):
        if self.unk:
            return UNKNOWN
        return DIFFERENT if self.prim else UNKNOWN


def call_names(t):
    return {x.args[0] for x in subterms(t) if x.op in ('call', 'vcall', 'res', 'mcall', 'mres') and x.args
            and isinstance(x.args[0], str)}


def names_in(t):
    """names of the functions whose calls or results occur in t"""
    out = call_names(t)
    for x in subterms(t):
        if x.op == 'ev' and x.args and x.args[0] in ('call', 'vcall'):
            out |= {y for a in x.args[1:] for y in ([a] if isinstance(a, str) else
                                                    [z.args[0] for z in leaves(a) if z.op == 'str'])}
    return out


def risky_in(t, known):
    for x in subterms(t):
        if x in known:
            continue
        if x.op in RISKY:
            return x.op
        if x.op == 'sum' and x.args[0].op == 'bv' and any(y is x.args[0] for y in subterms(x.args[1])) and \
                x.args[1].args[1].args[0] is ONE:
            return 'count of equal elements before an element'
        if x.op == 'str' and x.args[0] == '**':
            return 'arguments given as a mapping'
        if x.op in ('call', 'mcall', 'mres', 'ext') and x.args[0] not in KNOWN_CALLS and (x.op, x.args[0]) not in known:
            return '%s %s' % (x.op, x.args[0])
    return None


class Differ:
    def __init__(self, spec_terms):
        self.known = set()
        for t in spec_terms:
            for x in subterms(t):
                self.known.add(x)
                if x.op in ('call', 'mcall', 'mres', 'ext'):
                    self.known.add((x.op, x.args[0]))
        self.d = Diff()

    def prim(self, a, b):
        for t in (a, b):
            if t is None:
                continue
            r = risky_in(t, self.known if t is a else set(subterms(b)) - {b} if False else self.known)
            if r:
                self.d.unk.append('%s without canonical form' % r)
                return
        if b is not None and b.op in RISKY and a is not None and a.op != b.op:
            self.d.unk.append('%s vs %s' % (a.op, b.op))
            return
        self.d.prim.append((a, b))

    def go(self, a, b):
        if a is b:
            return
        key = (id(a), id(b))
        if key in self.d.memo:
            return
        self.d.memo.add(key)
        self.d.n += 1
        if self.d.n > 4000:
            self.d.unk.append('difference too large')
            return
        if a.op == 'ite' or b.op == 'ite':
            return self.dd(a, b)
        if (a.op == 'copy') != (b.op == 'copy'):
            self.d.unk.append('a container or a copy of it')
            return
        if a.op == 'str' and a.args[0] == '**' or b.op == 'str' and b.args[0] == '**':
            self.d.unk.append('arguments given as a mapping')
            return
        if a.op == 'mu' and b.op == 'mu' and (a.args[0] is NONE) != (b.args[0] is NONE):
            self.d.unk.append('loop over a sequence or loop with a condition')
            return
        if a.op == 'tok' or b.op == 'tok':
            if a.op == b.op and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    self.go(x, y)
                return
            return self.prim(a, b)
        if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
            if a.op in ('poly', 'num') or b.op in ('poly', 'num'):
                return self.poly(a, b)
        if a.op == b.op and a.op in ('gt0', 'eq0'):
            return self.go(a.args[0], b.args[0])
        if a.op == b.op and len(a.args) == len(b.args):
            if a.op == 'lam':
                if a.args[0] != b.args[0] or a.args[2] != b.args[2]:
                    f = fresh({'b': 'f', 'q': 'p', 'j': 'i'}.get(a.args[2], 'f'))
                else:
                    f = fresh({'b': 'f', 'q': 'p', 'j': 'i'}.get(a.args[2], 'f'))
                xa, xb = open_(a, f), open_(b, f)
                if len(xa) == len(xb):
                    for x, y in zip(xa, xb):
                        self.go(x, y)
                    return
                return self.prim(a, b)
            ok = all(isinstance(x, T) == isinstance(y, T) for x, y in zip(a.args, b.args))
            if ok and a.op not in ('str', 'param', 'ref', 'bv'):
                if all(isinstance(x, T) or x == y for x, y in zip(a.args, b.args)):
                    for x, y in zip(a.args, b.args):
                        if isinstance(x, T):
                            self.go(x, y)
                    return
        return self.prim(a, b)

    def poly(self, a, b):
        da, db = pdict(a), pdict(b)
        oa = {x for m in da for x, _ in m} - {x for m in db for x, _ in m}
        ob = {x for m in db for x, _ in m} - {x for m in da for x, _ in m}
        if not oa and not ob:
            self.d.prim.append((a, b))
            return
        n0 = len(self.d.prim)
        self.pair(list(oa), list(ob))
        if len(self.d.prim) == n0 and not self.d.unk:
            self.d.prim.append((a, b))

    def dd(self, a, b):
        ca, cb = set(conds(a)), set(conds(b))
        la, lb = set(leaves(a)), set(leaves(b))
        if ca == cb and la == lb:
            self.d.prim.append((a, b))
            return
        n0 = len(self.d.prim)
        self.pair(sorted(ca - cb, key=lambda t: t.od), sorted(cb - ca, key=lambda t: t.od))
        if ca == cb or not (la <= lb and lb <= la):
            self.pair(sorted(la - lb, key=lambda t: t.od), sorted(lb - la, key=lambda t: t.od))
        if len(self.d.prim) == n0 and not self.d.unk:
            self.d.prim.append((a, b))

    def pair(self, xs, ys):
        """pair up unmatched subterms by similarity"""
        ys = list(ys)
        subs = {y: set(subterms(y)) for y in ys}
        for x in sorted(xs, key=lambda t: -t.size):
            sx = set(subterms(x))
            best = None
            for y in ys:
                if x.op != y.op:
                    continue
                s = len(sx & subs[y]) / (1 + max(len(sx), len(subs[y])))
                if best is None or s > best[0]:
                    best = (s, y)
            if best is None:
                self.prim(x, None)
            else:
                ys.remove(best[1])
                self.go(x, best[1])
        for y in ys:
            self.prim(None, y)


# ---------------------------------------------------------------------------------------------------------------------


def canon_events(summ, keep=None):
    evs = list(summ.events)
    if keep is not None:
        evs = filter_events(evs, keep)
    evs = merge_sets(summ.interp, evs)
    evs = [of_existing(e) for e in evs]
    evs = [e for e in evs if e.guard is not FALSE]
    return order_events(summ.interp, evs)


def of_existing(e):
    """an effect on the last element of a sequence happens only where there is one"""
    if e.kind != 'set':
        return e
    o = e.args[0]
    if o is UNDEF:
        return Ev('set', FALSE, e.args, e.reads, e.writes, e.loc)      # a variable without value: an error instead
    if o.op != 'at' or o.args[1].op != 'poly' or o.args[1] is not sub(length(o.args[0]), ONE):
        return e
    some = gt0(length(o.args[0]))
    if some.op != 'ite' or some.args[1] is not TRUE or some.args[2] is not FALSE:
        return e
    c = some.args[0]
    e2 = Ev('set', assume(e.guard, c, 1), [assume(a, c, 1) if isinstance(a, T) else a for a in e.args], e.reads,
            e.writes, e.loc)
    return e2


def filter_events(evs, keep):
    out = []
    for e in evs:
        if e.kind == 'loop':
            body = filter_events(e.body, keep)
            if not body:
                continue
            if len(body) != len(e.body):
                e2 = Ev('loop', e.guard, e.args, e.reads, e.writes, e.loc, body)
                e2.binders = e.binders
                rd, wr = set(), set()
                for x in body:
                    rd |= x.reads
                    wr |= x.writes
                e2.reads, e2.writes = frozenset(rd), frozenset(wr)
                e = e2
            out.append(e)
        elif keep(e):
            out.append(e)
    return out


class Outcome:
    def __init__(self, verdict, why='', loc=None, details=()):
        self.verdict, self.why, self.loc, self.details = verdict, why, loc, list(details)
        self.calls = set()          # functions whose calls occur in the differences


def ev_text(e):
    s = repr(e)
    return s if len(s) < 600 else s[:600] + '…'


def tshow(t):
    s = show(t) if t is not None else '(nothing)'
    return s if len(s) < 400 else s[:400] + '…'


def compare(impl, spec, keep=None, value=True, effects=True, result=None):
    """impl, spec: Summary objects; result: optional projection of the result term"""
    ri, rs = impl.result, spec.result
    if result:
        ri, rs = result(ri), result(rs)
    if not value:
        ri = rs = NONE
    ie = canon_events(impl, keep) if effects else []
    se = canon_events(spec, keep) if effects else []
    it = [impl.interp.ev_term(e) for e in ie]
    stt = [spec.interp.ev_term(e) for e in se]
    if ri is rs and it == stt:
        return Outcome(EQUAL)
    if equivalent(ri, rs, ie, se, it, stt, independent):
        return Outcome(EQUAL)
    df = Differ([rs] + stt)
    details, loc = [], None
    if ri is not rs:
        n0 = len(df.d.prim)
        df.go(ri, rs)
        for a, b in df.d.prim[n0:][:3]:
            details.append('result: source has %s, required %s' % (tshow(a), tshow(b)))
    if it != stt:
        left_i = [e for e, t in zip(ie, it) if t not in stt]
        left_s = [e for e, t in zip(se, stt) if t not in it]
        if not left_i and not left_s:
            if sorted(x.od for x in it) == sorted(x.od for x in stt):
                for e, t, u in zip(ie, it, stt):
                    if t is not u:
                        details.append('order of effects differs at: ' + ev_text(e))
                        loc = e.loc
                        break
                df.d.prim.append((NONE, NONE))
            else:
                df.d.prim.append((NONE, NONE))
                details.append('number of occurrences of an effect differs')
        if split_loops(impl.interp, left_i, spec.interp, left_s):
            df.d.unk.append('the same effects, divided into loops in another way')
        pairs, li, ls = pair_events(left_i, left_s)
        for e, f in pairs:
            n0 = len(df.d.prim)
            if e.kind == 'loop':
                df_loop(df, e, f, impl, spec)
            else:
                df.go(e.guard, f.guard)
                if e.args and f.args and len(e.args) == len(f.args):
                    for x, y in zip(e.args, f.args):
                        df.go(dcv(e.guard, x), dcv(f.guard, y))
                else:
                    df.prim(tup(*e.args), tup(*f.args))
            if len(df.d.prim) > n0:
                loc = loc or e.loc
                details.append('effect: source has  %s' % ev_text(e))
                details.append('        required    %s' % ev_text(f))
                for a, b in df.d.prim[n0:][:2]:
                    details.append('        difference: %s  vs required  %s' % (tshow(a), tshow(b)))
        for e in li:
            df.prim(bare(e, impl.interp), None)
            loc = loc or e.loc
            details.append('effect not required: ' + ev_text(e))
        for f in ls:
            df.prim(None, bare(f, spec.interp))
            details.append('required effect missing: ' + ev_text(f))
    v = df.d.verdict()
    out = Outcome(v, '; '.join(sorted(set(df.d.unk)))[:300], loc, details)
    out.calls = set().union(*[names_in(t) for p in df.d.prim for t in p if t is not None])
    return out


def split_loops(ii, xs, si, ys):
    """do the loops over some sequence have the same effects in another number of loops"""
    def spaces(interp, evs):
        out = {}
        for e in evs:
            if e.kind == 'loop' and len(e.binders) == 1:
                fx = mk('bv', 'loop', 'f')
                for b in e.body:
                    t = interp.ev_term(b)
                    out.setdefault((e.args[0], e.guard), [0, []])[1].append(subst(t, {e.binders[0]: fx}))
                out[e.args[0], e.guard][0] += 1
        return out
    a, b = spaces(ii, xs), spaces(si, ys)
    return any(k in b and a[k][0] != b[k][0] and sorted(t.od for t in a[k][1]) == sorted(t.od for t in b[k][1])
               for k in a)


def bare(e, interp):
    """an effect nothing is paired with: what its parameters are where it happens"""
    if e.kind == 'loop':
        return interp.ev_term(e)
    return tup(e.guard, *[dcv(e.guard, a) for a in e.args])


def dcv(g, a):
    """a, where the condition g holds"""
    while isinstance(a, T) and g.op == 'ite':
        c, x, y = g.args
        if y is FALSE:
            a, g = subst(a, {c: TRUE}), x
        elif x is FALSE:
            a, g = subst(a, {c: FALSE}), y
        else:
            break
    return a


def df_loop(df, e, f, impl, spec):
    a, b = impl.interp.ev_term(e), spec.interp.ev_term(f)
    df.go(a, b)


def ev_key(e):
    if e.kind == 'set':
        return (e.kind, e.args[1])
    if e.kind in ('call', 'vcall', 'ext', 'mcall', 'raise'):
        return (e.kind, e.args[0])
    if e.kind in ('add', 'remove', 'pop', 'setitem', 'append', 'extend'):
        a = e.args[0]
        return (e.kind, a.args[1] if a.op in ('attr', 'attrv', 'param') else a.op)
    return (e.kind,)


def body_keys(e):
    out = []
    for x in e.body or ():
        out.append(ev_key(x))
        out += body_keys(x)
    return out


def pair_events(xs, ys):
    """pair up unmatched effects: the same kind of effect, the most similar ones first"""
    sub_ = {}
    for e in list(xs) + list(ys):
        acc = set()
        for a in list(e.args) + [e.guard]:
            acc |= set(subterms(a))
        sub_[id(e)] = acc, body_keys(e)
    cand = []
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            if ev_key(x) != ev_key(y):
                continue
            (sx, bx), (sy, by) = sub_[id(x)], sub_[id(y)]
            shared = sum(1 for k in set(bx) if k in by) / (1 + len(set(bx) | set(by)))
            cand.append((-(x.guard is y.guard) - 3 * shared - len(sx & sy) / (1 + max(len(sx), len(sy))), i, j))
    pairs, ui, uj = [], set(), set()
    for _, i, j in sorted(cand):
        if i not in ui and j not in uj:
            ui.add(i)
            uj.add(j)
            pairs.append((xs[i], ys[j]))
    pairs.sort(key=lambda p: xs.index(p[0]))
    return pairs, [x for i, x in enumerate(xs) if i not in ui], [y for j, y in enumerate(ys) if j not in uj]


# ---------------------------------------------------------------------------------------------------------------------


def event_names(evs):
    out = set()
    for e in evs:
        if e.kind in ('call', 'vcall') and e.args and e.args[0].op == 'str':
            out.add(e.args[0].args[0])
        if e.kind == 'loop':
            out |= event_names(e.body)
        for a in list(e.args) + [e.guard]:
            out |= {x.args[0] for x in subterms(a) if x.op in ('vcall', 'res') and isinstance(x.args[0], str)}
    return out


def used_names(s):
    return {x.args[0] for x in subterms(s.result) if x.op in ('vcall', 'res')
            and isinstance(x.args[0], str)} | event_names(s.events)


def check_pair(repo, impl_fn, spec_fn, boundary, selfcls=None, keep=None, value=True, effects=True, result=None,
               pre=None, limit=60, refs=None, inline=()):
    """compare a function of the repository with its reference; functions in `boundary` stay symbolic on both sides as
    long as both sides use them"""
    opaque = set(boundary) - set(inline)
    last = base = None
    info = {'functions': set(), 'rounds': 0, 'calls': set()}
    for rnd in range(6):
        try:
            def run():
                a = Interp(repo, opaque=opaque).analyse(impl_fn, selfcls=selfcls, pre=pre, order=spec_fn.all_params())
                b = Interp(repo, opaque=opaque, redirect=refs).analyse(spec_fn, selfcls=selfcls, pre=pre)
                return a, b, compare(a, b, keep, value, effects, result)
            a, b, out = limited(limit if base is None else min(limit, 40), run)
        except Unsupported as e:
            out = Outcome(UNKNOWN, 'unsupported construct: %s (line %s)' % (e.why, getattr(e.node, 'lineno', '?')))
            return base or last or out, info
        except (Timeout, TooBig, RecursionError) as e:
            out = Outcome(UNKNOWN, 'analysis limit: %s' % type(e).__name__)
            return base or last or out, info
        info['rounds'] = rnd + 1
        info['calls'] |= used_names(a)
        info['functions'] |= a.interp.visited | {impl_fn.qual}
        if out.verdict == EQUAL:
            return out, info
        last = out
        na, nb = used_names(a), used_names(b)
        odd = {q for q in opaque if {q.split('.')[-1], q.split('.')[-1] + '/f'} & (na ^ nb)}
        if not odd and base is None and out.verdict == DIFFERENT:
            # work may have moved between a function and one it calls: also judge them together
            odd = {q for q in opaque if {q.split('.')[-1], q.split('.')[-1] + '/f'} & out.calls}
            base = out
        if not odd:
            return base or last, info
        opaque -= odd
    return base or last, info
