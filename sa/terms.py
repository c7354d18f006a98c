"""Hash-consed value terms with canonical forms.

Numbers are Laurent polynomials with rational coefficients, booleans and conditional values are reduced ordered
decision diagrams, sequences are indexed maps with a filter.  Everything here is purely structural rewriting of terms
that were read off the source: nothing is executed and nothing is handed to a solver.
"""
import hashlib
from fractions import Fraction
from math import gcd

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


class T:
    __slots__ = ('op', 'args', 'dig', 'od', 'fv', 'ht', 'size')

    def __repr__(self):
        return show(self)


_tab = {}


def _dig_arg(a):
    if isinstance(a, T):
        return a.dig
    if isinstance(a, tuple):
        return b'(' + b','.join(_dig_arg(x) for x in a) + b')'
    return (type(a).__name__ + ':' + str(a)).encode()


def _od_arg(a):
    if isinstance(a, T):
        return a.od[:12]
    if isinstance(a, tuple):
        return b'(' + b','.join(_od_arg(x) for x in a) + b')'
    return (type(a).__name__ + ':' + str(a)).encode()


def _key_arg(a):
    if isinstance(a, T):
        return id(a)
    if isinstance(a, tuple):
        return tuple(_key_arg(x) for x in a)
    return (type(a).__name__, a)


def _walk(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _walk(x)


NO_FV = frozenset()


def mk(op, *args):
    """raw constructor (interning only)"""
    key = (op,) + tuple(_key_arg(a) for a in args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    t.dig = hashlib.blake2b(op.encode() + b'|' + b'|'.join(_dig_arg(a) for a in args), digest_size=12).digest()
    # ordering key: independent of the names of bound variables, so that opening and closing binders keeps the order
    oargs = () if op == 'bv' else args[1:2] if op == 'lam' else args
    t.od = hashlib.blake2b(op.encode() + b'|' + b'|'.join(_od_arg(a) for a in oargs), digest_size=12).digest() + t.dig
    fv, ht, size = NO_FV, 0, 1
    for a in args:
        for s in _walk(a):
            if s.fv:
                fv = fv | s.fv
            ht = max(ht, s.ht)
            size += s.size
    if op == 'bv':
        fv = frozenset([t])
    if op == 'lam':
        fv = fv - {mk('bv', args[2], args[0])}
        ht = max(ht, args[0])
    t.fv, t.ht, t.size = fv, ht, size
    if op in ('tok', 'ev'):
        t.size = size = 1
    if size > 10 ** 18:
        t.size = 10 ** 18
    _tab[key] = t
    return t


NONE = mk('none')
TRUE = mk('bool', 1)
FALSE = mk('bool', 0)
UNDEF = mk('undef')


def num(x):
    return mk('num', Fraction(x))


ZERO, ONE = num(0), num(1)


def string(s):
    return mk('str', s)


# ---------------------------------------------------------------------------------------------------------------------
# decision diagrams

BOOL_ATOMS = {'gt0', 'eq0', 'eq', 'isnone', 'truth', 'member', 'batom', 'isinst', 'raises'}


def is_bool(t):
    while t.op == 'ite':
        t = t.args[1]
    return t.op == 'bool' or t.op in BOOL_ATOMS


def as_dd(t):
    """atoms used as values are represented as the diagram ite(atom, True, False)"""
    if t.op in BOOL_ATOMS:
        return mk('ite', t, TRUE, FALSE)
    return t


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.op == 'tup' and lo.op == 'tup' and len(hi.args) == len(lo.args):
        c = mk('ite', atom, TRUE, FALSE)
        return mk('tup', *[ite(c, x, y) for x, y in zip(hi.args, lo.args)])
    return mk('ite', atom, hi, lo)


_ite_memo = {}


def _cof(t, atom, val):
    """cofactor of a diagram w.r.t. its (possibly) top atom, using simple implications between atoms"""
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """c: boolean diagram, a, b: arbitrary (diagram) terms"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = as_dd(a), as_dd(b)
    if a is b:
        return a
    c = as_dd(c)
    if a is TRUE and b is FALSE:
        return c
    key = (id(c), id(a), id(b))
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != 'ite':
        # not a boolean diagram: use its truth value
        c2 = truth(c)
        if c2.op != 'ite' and c2 not in (TRUE, FALSE):
            c2 = as_dd(c2)
        r = ite(c2, a, b)
        _ite_memo[key] = r
        return r
    top = min((t.args[0] for t in (c, a, b) if t.op == 'ite'), key=lambda x: x.od)
    hi = ite(_cof(c, top, 1), assume(_cof(a, top, 1), top, 1), assume(_cof(b, top, 1), top, 1))
    lo = ite(_cof(c, top, 0), assume(_cof(a, top, 0), top, 0), assume(_cof(b, top, 0), top, 0))
    if top.op == 'gt0' and hi is not lo and _leafnum(hi) and _leafnum(lo) and is_int(top.args[0]):
        # integers: where both branches agree on the boundary value, use the comparison that is further inside
        q = sub(top.args[0], ONE)
        d = sub(hi, lo)
        if nonneg(top.args[0]) and d.op != 'ite' and divisible(d, top.args[0]) and not _divides(d):
            _ite_memo[key] = hi           # the case that is left has the same value
            return hi
        if d.op != 'ite' and divisible(d, q):
            n = gt0(q)
            if n.op == 'ite' and n.args[0].op == 'gt0':
                r = _node(n.args[0], hi, lo) if n.args[1] is TRUE else _node(n.args[0], lo, hi)
                _ite_memo[key] = r
                return r
        r = _node(top, hi, lo)
    elif tie_equal(top, hi, lo):
        # at a tie both branches have the same value, so that strict and non-strict comparisons do not differ
        r = hi if nonneg(top.args[0]) and not _divides(hi) else _tie_node(top, hi, lo)
    else:
        r = _onode(top, hi, lo)
    _ite_memo[key] = r
    return r


_turn = [0]


def _onode(top, hi, lo):
    """node in the order of the atoms (normalising a comparison may have brought up an earlier atom below)"""
    if _turn[0] < 6 and any(x.op == 'ite' and x.args[0].od < top.od for x in (hi, lo)):
        _turn[0] += 1
        try:
            return ite(mk('ite', top, TRUE, FALSE), hi, lo)
        finally:
            _turn[0] -= 1
    return _node(top, hi, lo)


def assume(t, atom, val):
    """simplify diagram t given the value of a comparison atom (only cheap syntactic implications)"""
    if t.op != 'ite':
        return t
    a = t.args[0]
    v = implied(atom, val, a)
    if v is not None:
        return assume(t.args[1] if v else t.args[2], atom, val)
    if a.op not in ('gt0', 'eq0') or atom.op not in ('gt0', 'eq0'):
        hi, lo = t.args[1], t.args[2]
        h2, l2 = assume(hi, atom, val), assume(lo, atom, val)
        if h2 is hi and l2 is lo:
            return t
        return _node(a, h2, l2)
    hi, lo = t.args[1], t.args[2]
    h2, l2 = assume(hi, atom, val), assume(lo, atom, val)
    if h2 is hi and l2 is lo:
        return t
    return _node(a, h2, l2)


def _split_const(p):
    d = dict(pdict(p))
    c = d.pop((), F0)
    return d, c


def implied(atom, val, other):
    """truth value of `other` that follows from atom == val, or None"""
    if atom is other:
        return bool(val)
    if atom.op == 'isnone' and other.op == 'truth' and other.args[0] is atom.args[0]:
        return False if val else None
    if atom.op in ('gt0', 'eq0') and other.op in ('gt0', 'eq0'):
        key = (id(atom), bool(val), id(other))
        if key in _impl_memo:
            return _impl_memo[key]
        r = _implied_num(atom, val, other)
        _impl_memo[key] = r
        return r
    return None


_impl_memo = {}


def _implied_num(atom, val, other):
    p, q = atom.args[0], other.args[0]
    dp, cp = _split_const(p)
    dq, cq = _split_const(q)
    if not dp or not dq or set(dp) != set(dq):
        return None
    # q = r * p' + ... with the same non-constant part up to a factor r
    m = next(iter(dp))
    r = dq[m] / dp[m]
    if any(dq[x] != r * dp[x] for x in dp):
        return None
    # let u = non-constant part of p.  atom: u + cp > 0 (or == 0); other: r*u + cq > 0 (or == 0)
    isint = is_int(p) and is_int(q)
    lo, hi = None, None  # bounds on u: (value, strict)
    if atom.op == 'gt0':
        if val:
            lo = (-cp, True)
        else:
            hi = (-cp, False)
    elif val:
        lo = hi = (-cp, False)
    else:
        # u != -cp
        if other.op == 'eq0' and r * (-cp) + cq == 0:
            return False
        return None
    # bounds for w = r*u + cq
    def tr(b):
        return None if b is None else (r * b[0] + cq, b[1])
    lo2, hi2 = (tr(lo), tr(hi)) if r > 0 else (tr(hi), tr(lo))
    if isint:
        if lo2 and lo2[1]:
            lo2 = (lo2[0] + abs(r) if abs(r) == 1 else lo2[0], abs(r) != 1)
        if hi2 and hi2[1]:
            hi2 = (hi2[0] - abs(r) if abs(r) == 1 else hi2[0], abs(r) != 1)
    if other.op == 'gt0':
        if lo2 and (lo2[0] > 0 or (lo2[0] == 0 and lo2[1])):
            return True
        if hi2 and hi2[0] <= 0:
            return False
    else:
        if lo2 and (lo2[0] > 0 or (lo2[0] == 0 and lo2[1])):
            return False
        if hi2 and (hi2[0] < 0 or (hi2[0] == 0 and hi2[1])):
            return False
        if lo2 and hi2 and lo2[0] == hi2[0] == 0:
            return True
    return None


def _divides(t):
    """is something divided by a quantity (which might be zero)?"""
    return any(x.op == 'inv' or x.op == 'poly' and any(not isinstance(e, int) or e < 0 for m, _ in x.args for _, e in m)
               for x in subterms(t))


def is_polyish(t):
    return t.op in ('num', 'poly') or t.op in NUM_ATOMS


def tie_equal(atom, hi, lo):
    """for gt0(p): do hi and lo coincide when p == 0 (checked by eliminating one atom linearly)"""
    if atom.op != 'gt0':
        return False
    if not (_leafnum(hi) and _leafnum(lo)):
        return False
    diff = sub(hi, lo)
    if diff.op == 'ite':
        return False
    return divisible(diff, atom.args[0])


def _leafnum(t):
    return t.op in ('num', 'poly') or t.op not in ('ite', 'bool', 'none', 'str', 'tup', 'seq', 'dict', 'undef', 'obj',
                                                   'ref', 'lam')


def divisible(d, p):
    """is polynomial d divisible by p (p linear in some atom)?"""
    if d is ZERO:
        return True
    if p.op == 'num':
        return False
    for mono, c in pdict(p).items():
        if len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            # linear in a?
            if any(any(x is a for x, _ in m2) for m2 in pdict(p) if m2 != mono):
                continue
            if any(atom_contains(x, a) for m2 in pdict(p) for x, _ in m2 if x is not a):
                continue
            rest = add(p, mul(num(-c), a))
            val = mul(num(Fraction(-1) / c), rest)
            if subst(d, {a: val}) is ZERO:
                return True
            return False
    return exact_division(d, p)


def exact_division(d, p):
    """does multivariate division of d by p leave no remainder?"""
    dd, (lm, lc) = dict(pdict(d)), lead(p)
    pd = pdict(p)
    for _ in range(60):
        dd = {m: c for m, c in dd.items() if c}
        if not dd:
            return True
        m, c = lead(from_dict(dd))
        q = _mono_div(m, lm)
        if q is None:
            return False
        for m2, c2 in pd.items():
            mm = _mono_mul(q, m2)
            dd[mm] = dd.get(mm, F0) - c / lc * c2
    return False


def atom_contains(t, a):
    if t is a:
        return True
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        for y in x.args:
            for s in _walk(y):
                if s is a:
                    return True
                st.append(s)
    return False


def _tie_node(atom, hi, lo):
    p = atom.args[0]
    n = neg(p)
    if n.od < p.od:
        return _node(mk('gt0', n), lo, hi)
    return _node(atom, hi, lo)


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, as_bool(c), FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, as_bool(c))
    return r


def as_bool(t):
    if is_bool(t):
        return as_dd(t)
    return truth(t)


def lift(fn, *args):
    """apply fn to non-conditional leaves of the arguments"""
    conds = [a.args[0] for a in args if isinstance(a, T) and a.op == 'ite']
    if not conds:
        return fn(*args)
    top = min(conds, key=lambda x: x.od)
    hi = lift(fn, *[assume(_cof(a, top, 1), top, 1) if isinstance(a, T) else a for a in args])
    lo = lift(fn, *[assume(_cof(a, top, 0), top, 0) if isinstance(a, T) else a for a in args])
    return ite(mk('ite', top, TRUE, FALSE), hi, lo)


def leaves(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def conds(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'ite':
            out.append(x.args[0])
            st += [x.args[1], x.args[2]]
    return out


def restrict(t, c):
    """simplify t under the assumption that boolean diagram c holds (generalised cofactor, only for cubes/paths)"""
    if c is TRUE or t.op != 'ite':
        return t
    c = as_dd(c)
    # implied literals of c
    for atom, val in implied_literals(c):
        t = assume(t, atom, val)
    return t


def implied_literals(c):
    out = []
    while c.op == 'ite':
        if c.args[1] is FALSE:
            out.append((c.args[0], 0))
            c = c.args[2]
        elif c.args[2] is FALSE:
            out.append((c.args[0], 1))
            c = c.args[1]
        else:
            break
    return out


# ---------------------------------------------------------------------------------------------------------------------
# polynomials

NUM_ATOMS = set()


def pdict(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return {m: c for m, c in t.args}
    return {((t, 1),): F1}


def _mono_key(m):
    return tuple((a.od, e) for a, e in m)


def from_dict(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), _mono_key(mc[0]))))
    if len(items) > 3000:
        raise TooBig('poly')
    return mk('poly', *items)


def _numeric(t):
    """coerce bool constants used as numbers"""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _boolnum(t):
    t = as_dd(t)
    if t.op == 'ite' and is_bool(t):
        return lift(_numeric, t)
    return _numeric(t)


def add(a, b):
    a, b = _boolnum(a), _boolnum(b)
    if a.op == 'ite' or b.op == 'ite':
        return lift(add, a, b)
    d = dict(pdict(a))
    for m, c in pdict(b).items():
        d[m] = d.get(m, F0) + c
    return from_dict(d)


def neg(a):
    a = _boolnum(a)
    if a.op == 'ite':
        return lift(neg, a)
    return from_dict({m: -c for m, c in pdict(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].od))


def _reduce_mono(m, c):
    """rewrite lead(p) * inv(p) -> (1 - rest * inv(p)) / lc ; returns a dict or None if irreducible"""
    for a, e in m:
        if a.op == 'inv' and e > 0:
            p = a.args[0]
            lm, lc = lead(p)
            q = _mono_div(m, lm)
            if q is not None:
                # m = q * lm ; q contains inv(p)^e
                q1 = _mono_mul(q, ((a, -1),))  # without one inv(p)
                out = {q1: c / lc}
                for m2, c2 in pdict(p).items():
                    if m2 == lm:
                        continue
                    mm = _mono_mul(q, m2)
                    out[mm] = out.get(mm, F0) - c * c2 / lc
                return out
    return None


def _mono_div(m, lm):
    d = dict(m)
    for a, e in lm:
        if d.get(a, 0) < e:
            return None
        d[a] = d.get(a, 0) - e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].od))


_lead_memo = {}


def lead(p):
    r = _lead_memo.get(id(p))
    if r is None:
        r = max(((m, c) for m, c in pdict(p).items()),
                key=lambda mc: (sum(e for _, e in mc[0]), sorted(((a.od, e) for a, e in mc[0]), reverse=True)))
        _lead_memo[id(p)] = r
    return r


def _norm(d):
    work = True
    n = 0
    while work:
        work = False
        for m in list(d):
            if not d[m]:
                del d[m]
                continue
            r = _reduce_mono(m, d[m])
            if r is not None:
                del d[m]
                for m2, c2 in r.items():
                    d[m2] = d.get(m2, F0) + c2
                work = True
                n += 1
                if n > 5000:
                    raise TooBig('inv')
                break
    return d


def mul(a, b):
    a, b = _boolnum(a), _boolnum(b)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'ite' or b.op == 'ite':
        return lift(mul, a, b)
    da, db = pdict(a), pdict(b)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, F0) + c1 * c2
    if any(x.op == 'inv' for m in d for x, _ in m):
        d = _norm(d)
    return from_dict(d)


def inv(a):
    a = _boolnum(a)
    if a.op == 'ite':
        return lift(inv, a)
    if a is ZERO:
        return mk('divzero')
    d = pdict(a)
    if len(d) == 1:
        (m, c), = d.items()
        out = {tuple((x, -e) for x, e in m): 1 / c}
        # x^-1 where x = inv(p)  ->  p
        res = from_dict({(): 1 / c})
        for x, e in m:
            if x.op == 'inv':
                for _ in range(abs(e)):
                    res = mul(res, x.args[0] if e > 0 else x)
            else:
                res = mul(res, mk('poly', (((x, -e),), F1)) if e != -1 else x)
        return res
    # extract monomial content (clears negative exponents as well)
    exps = None
    for m in d:
        dm = dict(m)
        if exps is None:
            exps = dict(dm)
        else:
            for x in set(exps) | set(dm):
                exps[x] = min(exps.get(x, 0), dm.get(x, 0))
    content = tuple(sorted(((x, e) for x, e in exps.items() if e and x.op != 'inv'), key=lambda ae: ae[0].od))
    g = tuple((x, -e) for x, e in content)
    p = from_dict({_mono_mul(m, g): c for m, c in d.items()})
    lm, lc = lead(p)
    p = from_dict({m: c / lc for m, c in pdict(p).items()})
    return mul(from_dict({g: 1 / lc}), mk('inv', p))


def div(a, b):
    a, b = _boolnum(a), _boolnum(b)
    if a.op == 'ite' or b.op == 'ite':
        return lift(div, a, b)
    return mul(a, inv(b))


def power(a, e):
    if e.op == 'num' and e.args[0].denominator == 1 and abs(e.args[0]) <= 6:
        n = int(e.args[0])
        r = ONE
        for _ in range(abs(n)):
            r = mul(r, a)
        return inv(r) if n < 0 else r
    def f(x, y):
        if x.op == 'num' and y.op == 'num' and x.args[0] in (F0, F1):
            return x
        if y.op == 'num' and y.args[0] == Fraction(1, 2):
            return mk('call', 'sqrt', x)
        return mk('pow', x, y)
    return lift(f, a, e)


def const(t):
    return t.args[0] if t.op == 'num' else None


INT_CALLS = {'firstidx', 'floor', 'ceil', 'int', 'index', 'roundint'}
INT_FIELDS = {'_k', 'id', 'unique_id', 'steps', 'id_seq', 'n', 'current_phase', 'total_phases', 'max_iterations',
              'iterations_after_convergence', 'consecutive_idle_steps', 'size', 'simultaneous_moves', 'owner'}


def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for m, c in t.args)
    if t.op == 'len' or t.op == 'mcall' and t.args[0] == 'tell':
        return True
    if t.op == 'sum':
        lam = t.args[1]
        return is_int(lam.args[1].args[0])
    if t.op == 'bv':
        return t.args[0] in 'fbij'
    if t.op == 'call':
        return t.args[0] in INT_CALLS
    if t.op == 'attr':
        return t.args[1] in INT_FIELDS
    if t.op in ('param', 'intvar'):
        return t.op == 'intvar'
    if t.op == 'ite':
        return all(is_int(x) for x in leaves(t))
    if t.op == 'at':
        return t.args[0].op == 'argsort'
    return False


def nonneg(t):
    """cheap sufficient test t >= 0 for integer terms"""
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'len' or t.op == 'mcall' and t.args[0] == 'tell':
        return True
    if t.op == 'sum':
        return nonneg(t.args[1].args[1].args[0])
    if t.op == 'bv':
        return t.args[0] in 'fb'
    if t.op == 'call' and t.args[0] in ('index', 'abs', 'firstidx'):
        return True
    if t.op == 'poly':
        return all(c > 0 and all(e % 2 == 0 or nonneg(a) for a, e in m) for m, c in t.args)
    return False


def _denominator(d):
    """something that a polynomial is divided by, and the power"""
    best = None
    for mono in d:
        for a, e in mono:
            if isinstance(e, int) and (e < 0 or a.op == 'inv' and e > 0):
                k = (a, -abs(e))
                if best is None or (k[0].od, k[1]) < (best[0].od, best[1]):
                    best = k
    if best is None:
        return None, 0
    return (best[0].args[0] if best[0].op == 'inv' else best[0]), -best[1]


def _times(p, x, m):
    for _ in range(m):
        p = mul(p, x)
    return p


def gt0(p):
    p = _boolnum(p)
    if p.op == 'ite':
        return lift(gt0, p)
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    if p.op in ('none', 'str', 'undef'):
        return mk('gt0', p)
    d = pdict(p)
    x, m = _denominator(d)
    if x is not None:
        # multiplied by the denominator, which is not zero where there is a value
        q = _times(p, x, m)
        return gt0(q) if m % 2 == 0 or nonneg(x) else ite(gt0(x), gt0(q), gt0(neg(q)))
    # positive scaling: primitive integer coefficients
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, abs(int(c * den)))
    s = Fraction(den, g)
    p = from_dict({m: c * s for m, c in d.items()})
    if is_int(p):
        dd = pdict(p)
        ms = sorted((m for m in dd if m != ()), key=_mono_key)
        c0 = dd.get((), F0)
        gg = 0
        for m in ms:
            gg = gcd(gg, abs(int(dd[m])))
        if gg > 1:
            # g*u + c > 0 <=> u + ceil(c/g) ... with u integer: u > -c/g  <=> u >= floor(-c/g)+1 <=> u - floor(-c/g) > 0
            fl = (-c0) // gg
            p = from_dict({**{m: dd[m] / gg for m in ms}, (): Fraction(-fl)})
            return gt0(p)
        if nonneg(p) and c0 > 0:
            return TRUE
        if dd[ms[0]] < 0:
            if nonneg(neg(p)):
                return FALSE
            q = sub(ONE, p)
            return not_(gt0(q))
        return as_dd(mk('gt0', p))
    return as_dd(mk('gt0', p))


def lt(a, b):
    return gt0(sub(b, a))


def gt(a, b):
    return gt0(sub(a, b))


def ge(a, b):
    return not_(gt0(sub(b, a)))


def le(a, b):
    return not_(gt0(sub(a, b)))


def eq0(p):
    p = _boolnum(p)
    if p.op == 'ite':
        return lift(eq0, p)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    d = pdict(p)
    x, m = _denominator(d)
    if x is not None:
        return eq0(_times(p, x, m))
    ms = sorted(d, key=_mono_key)
    c = d[ms[-1]]
    p = from_dict({m: x / c for m, x in d.items()})
    if is_int(p) and nonneg(p):
        dd = pdict(p)
        if dd.get((), F0) > 0:
            return FALSE
        return not_(gt0(p))
    return as_dd(mk('eq0', p))


NONNUM = {'str', 'none', 'tup', 'dict', 'dictmap', 'seq', 'set', 'catstr', 'obj', 'bool', 'lam', 'ref', 'cls', 'fn',
          'tostr', 'catseq'}


def definitely_distinct(a, b):
    const_ops = {'num', 'str', 'none', 'bool'}
    if a.op in const_ops and b.op in const_ops:
        if {a.op, b.op} == {'num', 'bool'}:
            return _numeric(a) is not _numeric(b)
        return a is not b
    if 'none' in (a.op, b.op):
        o = b if a.op == 'none' else a
        return o.op in NONNUM
    if a.op == 'tup' and b.op == 'tup' and len(a.args) != len(b.args):
        return True
    return False


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' or b.op == 'ite':
        if is_bool(a) and b in (TRUE, FALSE):
            return as_dd(a) if b is TRUE else not_(a)
        if is_bool(b) and a in (TRUE, FALSE):
            return as_dd(b) if a is TRUE else not_(b)
        return lift(eq, a, b)
    if definitely_distinct(a, b):
        return FALSE
    if a.op == 'none' or b.op == 'none':
        return isnone(b if a.op == 'none' else a)
    if a.op == 'tup' and b.op == 'tup':
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op in NONNUM or b.op in NONNUM:
        if a.od > b.od:
            a, b = b, a
        return as_dd(mk('eq', a, b))
    return eq0(sub(a, b))


def isnone(t):
    if t.op == 'ite':
        return lift(isnone, t)
    if t.op == 'none':
        return TRUE
    if t.op in NONNUM or t.op in ('num', 'poly', 'len', 'sum', 'undef', 'strategy'):
        return FALSE
    if t.op == 'at' and t.args[0].op in ('attr', 'attrv') and t.args[0].args[1] in NEVER_NONE:
        return FALSE
    if t.op in ('call', 'ext') and t.args[0] in ('float', 'int', 'abs', 'floor', 'ceil', 'roundint', 'firstidx', 'str'):
        return FALSE
    return as_dd(mk('isnone', t))


# registries whose values are never None (whatever is stored in them is compared where it is stored)
NEVER_NONE = {'pools', 'owned_pools', 'stake_allocations', 'delegators'}


# parameters known to be numbers in the comparison at hand
NUMBERS = set()


def truth(t):
    if t.op == 'ite':
        if is_bool(t):
            return t
        return lift(truth, t)
    if t.op == 'bool':
        return t
    if t.op in BOOL_ATOMS:
        return as_dd(t)
    if t.op == 'num':
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op == 'none':
        return FALSE
    if t.op in ('tup', 'dict', 'seq', 'dictmap', 'set', 'catseq', 'sorted', 'keys'):
        return gt0(length(t))
    if t.op in ('obj', 'ref', 'fn', 'cls', 'lam'):
        return TRUE
    if t.op in ('poly', 'len', 'sum') or is_int(t) or t in NUMBERS:
        return not_(eq0(t))
    if t.op in CONTAINER_TEST and CONTAINER_TEST[t.op](t):
        return gt0(length(t))
    return as_dd(mk('truth', t))


CONTAINER_TEST = {}


# ---------------------------------------------------------------------------------------------------------------------
# binders

_fresh = [0]


def fresh(kind='f'):
    _fresh[0] += 1
    return mk('bv', kind, _fresh[0])


def close(x, *bodies):
    """lam over fresh variable x; payload is a tuple of bodies"""
    ht = max([b.ht for b in bodies] + [0]) + 1
    kind = BKIND[x.args[0]]
    b = mk('bv', kind, ht)
    m = {x: b}
    return mk('lam', ht, mk('tup', *[subst(t, m) for t in bodies]), kind)


BKIND = {'f': 'b', 'p': 'q', 'i': 'j'}
FKIND = {'b': 'f', 'q': 'p', 'j': 'i'}


def open_(lam, arg):
    b = mk('bv', lam.args[2], lam.args[0])
    return [subst(t, {b: arg}) for t in lam.args[1].args]


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


def subst(t, m):
    memo = {}
    keys = set(m)
    closed_only = all(k.op == 'bv' for k in keys)

    def go(t):
        if t in m:
            return m[t]
        if closed_only and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'lam':
            f = fresh(FKIND[t.args[2]])
            b = mk('bv', t.args[2], t.args[0])
            m2 = dict(m)
            m2.pop(b, None)
            m2[b] = f
            bodies = [subst(x, m2) for x in t.args[1].args]
            r = close(f, *bodies)
        elif t.op == 'ite':
            c = go(t.args[0])
            r = ite(as_bool(c), go(t.args[1]), go(t.args[2]))
        elif t.op == 'poly':
            r = ZERO
            for mo, c in t.args:
                x = mk('num', c)
                for a, e in mo:
                    a2 = go(a)
                    for _ in range(abs(e)):
                        x = mul(x, a2) if e > 0 else div(x, a2)
                r = add(r, x)
        else:
            r = rebuild(t.op, tuple(goarg(a) for a in t.args))
        memo[t] = r
        return r

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a

    return go(t)


REBUILD['gt0'] = gt0
REBUILD['eq0'] = eq0
REBUILD['eq'] = eq
REBUILD['isnone'] = isnone
REBUILD['truth'] = truth
REBUILD['inv'] = inv
REBUILD['pow'] = power


def contains_op(t, ops):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ops:
            return x
        for a in x.args:
            st.extend(_walk(a))
    return None


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for a in x.args:
            st.extend(_walk(a))


# ---------------------------------------------------------------------------------------------------------------------
# sequences


def tup(*items):
    return mk('tup', *items)


def seq(n, elt_fn, filt_fn=None):
    x = fresh()
    return seq_close(n, x, elt_fn(x), filt_fn(x) if filt_fn else TRUE)


def seq_close(n, x, elt, filt=TRUE):
    if n.op == 'ite':
        return lift(lambda m: seq_close(m, x, elt, filt), n)
    filt = as_dd(filt)
    if filt is FALSE:
        return tup()
    # identity map over a whole sequence
    if filt is TRUE and elt.op == 'at' and elt.args[1] is x and x not in elt.args[0].fv \
            and n is length(elt.args[0]):
        return elt.args[0]
    if n is ZERO:
        return tup()
    c = const(n)
    if filt is TRUE and c is not None and 0 < c <= 8:
        return tup(*[subst(elt, {x: num(i)}) for i in range(int(c))])
    # conditions of the element/filter that do not depend on the position are hoisted
    c = independent_cond(x, elt, filt)
    if c is not None:
        cd = as_dd(c)
        return ite(cd, seq_close(n, x, assume(elt, c, 1), assume(filt, c, 1)),
                   seq_close(n, x, assume(elt, c, 0), assume(filt, c, 0)))
    return mk('seq', n, close(x, elt, filt))


def independent_cond(x, *ts):
    best = None
    for t in ts:
        for c in conds(t):
            if x not in c.fv and (best is None or c.od < best.od):
                best = c
    return best


def _seq_rebuild(n, lam):
    x = fresh()
    elt, filt = open_(lam, x)
    if n.op == 'ite':
        return lift(lambda m: seq_close(m, x, elt, filt), n)
    return seq_close(n, x, elt, filt)


REBUILD['seq'] = _seq_rebuild


def injective(k, x):
    """does a key differ for each index x (identifiers and keys of mappings do)"""
    if x not in k.fv:
        return False
    if k is x:
        return True
    if k.op == 'ite':
        return False
    if k.op == 'poly':
        return len(k.args) <= 2 and all(m == () or len(m) == 1 and m[0][1] == 1 and injective(m[0][0], x)
                                        for m, c in k.args)
    if k.op == 'attr':
        return k.args[1] in ('unique_id', 'id') and injective(k.args[0], x)
    if k.op in ('tup', 'catstr'):
        return any(injective(a, x) for a in k.args)
    if k.op == 'tostr':
        return injective(k.args[0], x)
    if k.op == 'at':
        s, i = k.args
        if x in s.fv:
            return i is ZERO and s.op == 'at' and s.args[0].op in ('gsitems', 'items') and injective(s.args[1], x)
        return injective(i, x) and (s.op not in ('seq', 'mres', 'slice', 'sorted', 'at') or s.op == 'seq' and distinct(s))
    return False


def distinct(s):
    """do all elements of a sequence differ"""
    if s.op == 'seq':
        x = fresh()
        return injective(open_(s.args[1], x)[0], x)
    return s.op in ('set', 'setseq', 'keys')


def uniq(s):
    """each element of a sequence once (in any order)"""
    if s.op == 'ite':
        return lift(uniq, s)
    return s if distinct(s) or s.op == 'param' else mk('setseq', s)


def groups(g, what):
    """the entries of a dictionary of sums: the different keys, each with the sum of its amounts"""
    if g.op == 'dict' and not g.args:
        return tup()
    if g.op == 'groupsum' and g.args[0].op == 'dict' and not g.args[0].args:
        x, y = fresh(), fresh()
        key, w, filt = open_(g.args[2], y)
        s = seq_close(g.args[1], y, key, filt)
        if s.op == 'tup':
            return mk(what, g)
        n, k = length(rebuild('set', [s])), at(uniq(s), x)
        v = sum_close(g.args[1], y, ite(and_(filt, eq(key, k)), w, ZERO))
        return seq_close(n, x, k if what == 'gskeys' else v if what == 'gsvals' else tup(k, v))
    return mk(what, g)


def length(t):
    if t.op == 'ite':
        return lift(length, t)
    if t.op == 'tup':
        return num(len(t.args))
    if t.op == 'seq':
        x = fresh()
        elt, filt = open_(t.args[1], x)
        if filt is TRUE:
            return t.args[0]
        return sum_close(t.args[0], x, ite(filt, ONE, ZERO))
    if t.op == 'setseq':
        return length(rebuild('set', [t.args[0]]))
    if t.op == 'counter':
        return length(rebuild('set', [t.args[0]]))
    if t.op == 'groupsum' and t.args[0].op == 'dict' and not t.args[0].args:
        return length(groups(t, 'gskeys'))
    if t.op in ('gsvals', 'gskeys'):
        return length(rebuild('gsitems', [t.args[0]]))
    if t.op == 'dict':
        return num(len(t.args))
    if t.op == 'dictmap':
        x = fresh()
        k, v, filt = open_(t.args[1], x)
        if not injective(k, x):
            return length(rebuild('set', [seq_close(t.args[0], x, k, filt)]))
        return sum_close(t.args[0], x, ite(filt, ONE, ZERO))
    if t.op == 'catseq':
        r = ZERO
        for p in t.args:
            r = add(r, length(p))
        return r
    if t.op in ('sorted', 'keys', 'reversed', 'arr', 'dcopy'):
        if t.op == 'keys' and t.args[0].op in ('dict', 'dictmap'):
            return length(t.args[0])
        if t.op == 'keys':
            return mk('len', t.args[0])
        return length(t.args[0])
    if t.op == 'slice':
        L, a, b = t.args
        if b.op == 'num' and b.args[0] < 0:
            return sub(add(length(L), b), a)
        if b.op == 'none':
            if a.op == 'num' and a.args[0] < 0:
                return neg(a)
            return sub(length(L), a)
        return sub(b, a)
    if t.op == 'str':
        return num(len(t.args[0]))
    n = sampled(t)
    return mk('len', t) if n is None else n


# functions that draw a number of values: position and name of that number
DRAWS = {'choices': (None, 'k'), 'sample': (1, 'k'), 'uniform': (2, 'size'), 'normal': (2, 'size'),
         'pareto': (1, 'size'), 'choice': (1, 'size')}


def sampled(t):
    """number of values drawn, where that is an argument (a natural number, or the call fails)"""
    if t.op == 'mres' and t.args[0] in DRAWS and \
            t.args[2].op == 'tup':
        pos, key = DRAWS[t.args[0]]
        args = [a for a in t.args[2].args]
        named = {}
        plain = []
        for a in args:
            if a.op == 'tup' and len(a.args) == 2 and a.args[0].op == 'str' and a.args[0].args[0].isidentifier():
                named[a.args[0].args[0]] = a.args[1]
            else:
                plain.append(a)
        n = named.get(key)
        if n is None and pos is not None and len(plain) > pos:
            n = plain[pos]
        if n is not None and n.op not in NONNUM and n.op not in ('none', 'tup'):
            return n
    return None


REBUILD['len'] = length


for _v in ('gsvals', 'gskeys', 'gsitems'):
    REBUILD[_v] = lambda g, _v=_v: groups(g, _v)


def at(s, i):
    if s.op == 'ite' or i.op == 'ite':
        return lift(at, s, i)
    if s.op == 'arr':
        return at(s.args[0], i)
    if s.op in ('gsvals', 'gskeys'):
        return at(at(mk('gsitems', s.args[0]), i), ONE if s.op == 'gsvals' else ZERO)
    if s.op == 'tup' and i.op == 'num' and i.args[0].denominator == 1:
        n = int(i.args[0])
        if -len(s.args) <= n < len(s.args):
            return s.args[n]
        return mk('err', 'IndexError')
    if s.op == 'seq':
        x = s.args[1]
        elt, filt = open_(x, i)
        if filt is TRUE:
            if i.op == 'num' and i.args[0] < 0:
                return open_(x, add(s.args[0], i))[0]
            return elt
    if s.op == 'slice':
        L, a, b = s.args
        if i.op == 'num' and i.args[0] < 0:
            return at(L, add(i, b if b.op != 'none' else length(L)) if b.op == 'none' or not (
                b.op == 'num' and b.args[0] < 0) else add(i, b))
        return at(L, add(a, i))
    if s.op == 'catseq':
        # position inside the leading literal part
        p0 = s.args[0]
        if i.op == 'num' and i.args[0] >= 0 and p0.op == 'tup':
            if i.args[0] < len(p0.args):
                return p0.args[int(i.args[0])]
            return at(catseq(*s.args[1:]), sub(i, num(len(p0.args))))
        pl = s.args[-1]
        if i.op == 'num' and i.args[0] < 0 and pl.op == 'tup' and -i.args[0] <= len(pl.args):
            return pl.args[int(i.args[0])]
    if s.op == 'reversed':
        return at(s.args[0], sub(sub(length(s.args[0]), ONE), i))
    if s.op == 'sorted' and s.args[1].op == 'fun':
        # the element that the stable sort puts there: its position depends on the keys alone
        it = iterate(s.args[0])
        if it.items is None and it.filt is TRUE and it.ordered:
            kv = open_(s.args[1].args[0], it.elt)[0]
            j = i if not (i.op == 'num' and i.args[0] < 0) else add(length(s), i)
            return subst(it.elt, {it.x: mk('at', mk('argsort', seq_close(it.n, it.x, kv), s.args[2]), j)})
    if i.op == 'num' and i.args[0] < 0 and s.op in ('seq',):
        pass
    elif i.op == 'num' and i.args[0] < 0:
        # last element counted from the end
        return mk('at', s, add(length(s), i))
    return mk('at', s, i)


REBUILD['at'] = at


def slice_(s, a, b):
    if any(x.op == 'ite' for x in (s, a, b)):
        return lift(slice_, s, a, b)
    if a.op == 'none':
        a = ZERO
    if s.op == 'arr':
        return mk('arr', slice_(s.args[0], a, b))
    if s.op == 'tup' and a.op == 'num' and b.op in ('num', 'none'):
        return tup(*s.args[int(a.args[0]):(None if b.op == 'none' else int(b.args[0]))])
    if a is ZERO and b.op == 'none':
        return s
    if b.op == 'poly' or b.op == 'len':
        d = sub(b, length(s))
        if d is ZERO:
            return slice_(s, a, NONE)
        if d.op == 'num' and d.args[0] < 0:
            b = d
    if a.op == 'num' and a.args[0] >= 0 and s.op == 'slice' and s.args[1].op == 'num' and s.args[1].args[0] >= 0:
        if b.op == 'none':
            return slice_(s.args[0], add(a, s.args[1]), s.args[2])
    r = mk('slice', s, a, b)
    if s.op == 'seq' and open_(s.args[1], fresh())[1] is TRUE or s.op == 'sorted' and s.args[1].op == 'fun':
        # the same elements, one by one
        x = fresh()
        e = at(s, add(a, x))
        if not (a.op == 'num' and a.args[0] < 0) and not any(y.op == 'sorted' and y is s for y in subterms(e)):
            return seq_close(length(r), x, e)
    return r


REBUILD['slice'] = slice_


def catseq(*parts):
    out = []
    for p in parts:
        if p.op == 'ite':
            c = p.args[0]
            i = parts.index(p)
            rest = list(parts)
            r1 = rest[:i] + [p.args[1]] + rest[i + 1:]
            r0 = rest[:i] + [p.args[2]] + rest[i + 1:]
            return ite(as_dd(c), catseq(*[assume(q, c, 1) for q in r1]), catseq(*[assume(q, c, 0) for q in r0]))
        if p.op == 'catseq':
            out.extend(p.args)
        elif p.op == 'tup' and not p.args:
            continue
        elif p.op == 'tup' and out and out[-1].op == 'tup':
            out[-1] = tup(*(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return tup()
    # merge again after flattening
    m = [out[0]]
    for p in out[1:]:
        if p.op == 'tup' and m[-1].op == 'tup':
            m[-1] = tup(*(m[-1].args + p.args))
        else:
            m.append(p)
    if len(m) == 1:
        return m[0]
    return mk('catseq', *m)


REBUILD['catseq'] = catseq


def indicator_poly(t):
    """conditional numeric term -> {monomial: {coeff: BDD}}"""
    out = {}

    def go(t, pc):
        if t.op == 'ite':
            c = as_dd(t.args[0])
            go(t.args[1], and_(pc, c))
            go(t.args[2], and_(pc, not_(c)))
        else:
            for m, c in pdict(_numeric(t)).items():
                d = out.setdefault(m, {})
                d[c] = or_(d[c], pc) if c in d else pc
    go(as_dd(t), TRUE)
    return out


def grouped_sum(n, x, t):
    """the sum over all groups of the sum of a group is the sum of all"""
    if not (n.op == 'len' and n.args[0].op == 'set' and n.args[0].args[0].op == 'seq' and t.op == 'sum' and
            t.args[0] is n.args[0].args[0].args[0]):
        return None
    s, y = n.args[0].args[0], fresh()
    w, cond = open_(t.args[1], y)
    key, filt = open_(s.args[1], y)
    if x in w.fv or as_dd(cond) is not as_dd(and_(filt, eq(key, at(uniq(s), x)))):
        return None
    return sum_close(t.args[0], y, ite(filt, w, ZERO))


def sum_close(n, x, body):
    """sum of body over x in [0, n)"""
    body = _boolnum(body)
    if n.op == 'ite':
        return lift(lambda m: sum_close(m, x, body), n)
    if n is ZERO:
        return ZERO
    cn = const(n)
    if cn is not None and 0 < cn <= 8 and cn.denominator == 1:
        r = ZERO
        for i in range(int(cn)):
            r = add(r, subst(body, {x: num(i)}))
        return r
    c = independent_cond(x, body)
    if c is not None:
        return ite(as_dd(c), sum_close(n, x, assume(body, c, 1)), sum_close(n, x, assume(body, c, 0)))
    if n.op == 'poly':
        k = pdict(n).get((), 0)
        m = sub(n, num(k))
        if 0 < k <= 3 and k.denominator == 1 and is_int(m) and nonneg(m):
            # the last terms of a sum over one position more than a natural number
            r = sum_close(m, x, body)
            for i in range(int(k)):
                r = add(r, subst(body, {x: add(m, num(i))}))
            return r
    res = ZERO
    for m, cd in indicator_poly(body).items():
        dep = tuple((a, e) for a, e in m if x in a.fv)
        ind = tuple((a, e) for a, e in m if x not in a.fv)
        fac = from_dict({ind: F1})
        depp = from_dict({dep: F1})
        for c, g in cd.items():
            g = as_dd(g)
            if dep == () and g is TRUE:
                s = n
            elif g is TRUE and depp is x:
                s = div(mul(n, sub(n, ONE)), num(2))
            else:
                s = grouped_sum(n, x, depp) if g is TRUE else None
                if s is None:
                    s = mk('sum', n, close(x, depp, g))
            res = add(res, mul(mul(num(c), fac), s))
    return res


def _sum_rebuild(n, lam):
    x = fresh()
    dep, g = open_(lam, x)
    return sum_close(n, x, ite(g, dep, ZERO))


REBUILD['sum'] = _sum_rebuild


class Iter:
    """an iteration space: position x in [0, n), element, filter; or an explicit list of items"""

    def __init__(self, n, x, elt, filt=TRUE, items=None, ordered=True):
        self.n, self.x, self.elt, self.filt, self.items, self.ordered = n, x, elt, filt, items, ordered


def iterate(s):
    """iteration space of a sequence term"""
    if s.op == 'tup':
        return Iter(None, None, None, items=list(s.args))
    if s.op == 'dict':
        return Iter(None, None, None, items=[kv.args[0] for kv in s.args])
    if s.op == 'arr':
        return iterate(s.args[0])
    x = fresh()
    if s.op == 'ite' and all(v.op == 'seq' for v in leaves(s)):
        lams = {v.args[1] for v in leaves(s)}
        if len(lams) == 1:
            elt, filt = open_(lams.pop(), x)
            return Iter(lift(lambda v: v.args[0], s), x, elt, filt)
    if s.op == 'seq':
        elt, filt = open_(s.args[1], x)
        return Iter(s.args[0], x, elt, filt)
    if s.op == 'dictmap' and injective(open_(s.args[1], x)[0], x):
        k, v, filt = open_(s.args[1], x)
        return Iter(s.args[0], x, k, filt)
    if s.op == 'keys' and s.args[0].op in ('dictmap', 'dict'):
        return iterate(s.args[0])
    if s.op == 'slice':
        L, a, b = s.args
        return Iter(length(s), x, at(L, add(a, x)))
    if s.op == 'setdiff':
        it = iterate(s.args[0])
        if it.items is None:
            it.filt = and_(it.filt, not_(member(it.elt, s.args[1])))
            it.ordered = False
            return it
    if s.op == 'setint':
        it = iterate(s.args[0])
        if it.items is None:
            it.filt = and_(it.filt, member(it.elt, s.args[1]))
            it.ordered = False
            return it
    if s.op == 'setseq' and s.args[0].op in ('keys', 'seq', 'setseq') and distinct(s.args[0]):
        it = iterate(s.args[0])
        it.ordered = False
        return it
    return Iter(length(s), x, at(s, x))


def member(e, s):
    if s.op == 'ite' or e.op == 'ite':
        return lift(member, e, s)
    if e.op == 'at' and e.args[0] is s and s.op in ('param', 'keys') and e.args[1].op == 'bv':
        return TRUE                # what is found while going through it
    if s.op in ('tup',):
        return or_(*[eq(e, x) for x in s.args])
    if s.op == 'dict':
        return or_(*[eq(e, kv.args[0]) for kv in s.args])
    if s.op == 'arr' or s.op == 'sorted' or s.op == 'reversed':
        return member(e, s.args[0])
    if s.op == 'set':
        return member(e, s.args[0])
    if s.op == 'keys':
        return member(e, s.args[0])
    if s.op == 'setdiff':
        return and_(member(e, s.args[0]), not_(member(e, s.args[1])))
    if s.op == 'setint':
        return and_(member(e, s.args[0]), member(e, s.args[1]))
    if s.op == 'setuni':
        return or_(member(e, s.args[0]), member(e, s.args[1]))
    if s.op == 'catseq':
        return or_(*[member(e, p) for p in s.args])
    if s.op == 'dset':
        return or_(eq(e, s.args[1]), member(e, s.args[0]))
    if s.op in ('seq', 'dictmap'):
        it = iterate(s)
        # filtered identity map over an underlying collection
        if it.elt.op == 'at' and it.elt.args[1] is it.x and it.x not in it.elt.args[0].fv:
            f = subst(it.filt, {it.elt: e})
            if it.x not in f.fv and length(it.elt.args[0]) is it.n:
                return and_(member(e, it.elt.args[0]), f)
        return gt0(sum_close(it.n, it.x, ite(and_(it.filt, eq(it.elt, e)), ONE, ZERO)))
    if s.op == 'str' and e.op == 'str':
        return TRUE if e.args[0] in s.args[0] else FALSE
    if e.op == 'at' and e.args[0].op == 'keys' and e.args[0].args[0] is s:
        return TRUE
    return as_dd(mk('member', e, s))


REBUILD['member'] = member

# ---------------------------------------------------------------------------------------------------------------------
# printing


def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return '…'
    op, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if op == 'lam':
        return '%s%d. %s' % ('\\', a[0], s(a[1]))
    if op == 'num':
        c = a[0]
        if c.denominator == 1:
            return str(c.numerator)
        f = float(c)
        return repr(f) if Fraction(repr(f)) == c else str(c)
    if op == 'str':
        return repr(a[0])
    if op == 'none':
        return 'None'
    if op == 'bool':
        return 'True' if a[0] else 'False'
    if op == 'poly':
        out = []
        for m, c in a:
            fs = []
            for x, e in m:
                fs.append(s(x) + ('' if e == 1 else '^%d' % e))
            body = '*'.join(fs)
            if not body:
                body = s(mk('num', c))
            elif c != 1:
                body = '-' + body if c == -1 else s(mk('num', c)) + '*' + body
            out.append(body)
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        return 'if(%s; %s; %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'gt0':
        return '%s > 0' % s(a[0])
    if op == 'eq0':
        return '%s == 0' % s(a[0])
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'attrv':
        return "%s.%s'" % (s(a[0]), a[1])
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'param':
        return str(a[0])
    if op == 'bv':
        return '$' + str(a[0]) + str(a[1])
    if op == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if op in ('call', 'vcall'):
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'inv':
        return '1/' + s(a[0])
    return '%s{%s}' % (op, ', '.join(s(x) for x in a))
