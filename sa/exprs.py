"""Expression semantics of the abstract interpreter."""
import ast
import builtins
from fractions import Fraction
from .terms import *
from . import terms as tm
from .interp import *
from .interp import Interp as _Base

PURE_SEQ_FUNS = {'median': 'median', 'stdev': 'stdev', 'pstdev': 'pstdev', 'variance': 'variance', 'mode': 'mode'}
NP = 'numpy.'


def catstr(*parts):
    for i, p in enumerate(parts):
        if p.op == 'ite':
            return lift(catstr, *parts)
    out = []
    for p in parts:
        ps = p.args if p.op == 'catstr' else (p,)
        for q in ps:
            if q.op == 'str' and q.args[0] == '':
                continue
            if q.op in ('attr', 'param', 'at', 'res', 'vcall', 'mres') and not is_int(q):
                q = tostr(q)              # what is joined to a string is a string
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return string('')
    if len(out) == 1:
        return out[0] if out[0].op in ('str', 'tostr', 'fmt', 'join') else mk('catstr', out[0])
    return mk('catstr', *out)


tm.REBUILD['catstr'] = catstr


def tostr(t):
    if t.op == 'ite':
        return lift(tostr, t)
    if t.op in ('str', 'catstr', 'tostr', 'fmt', 'join'):
        return t
    if t.op == 'num' and t.args[0].denominator == 1:
        return string(str(int(t.args[0])))
    return mk('tostr', t)


tm.REBUILD['tostr'] = tostr


def is_str(t):
    return t.op in ('str', 'catstr', 'tostr', 'fmt', 'join')


def set_operand(t):
    """the keys of a dictionary are a set already"""
    while t.op in ('set', 'setseq') and t.args[0].op in ('keys', 'dcopy', 'set', 'setdiff', 'setint', 'setuni'):
        t = t.args[0]
    return t


def mk_sorted(s, key, rev):
    if any(x.op == 'ite' for x in (s, rev)):
        return lift(lambda a, b: mk_sorted(a, key, b), s, rev)
    if key.op == 'fun':
        x = fresh('p')
        v = open_(key.args[0], x)[0]
        if v is x:
            key = NONE
        elif rev in (TRUE, FALSE) and v.op == 'poly' and v.args[0][1] < 0:
            key, rev = mk('fun', close(x, neg(v))), not_(rev)
    if key is NONE and s.op == 'seq':
        # sorting the values f(x): the values of f at the elements sorted by f
        x = fresh()
        v, filt = open_(s.args[1], x)
        srcs = {y.args[0] for y in subterms(v) if y.op == 'at' and y.args[1] is x}
        if len(srcs) == 1 and filt is TRUE:
            src, y = srcs.pop(), fresh('p')
            w = subst(v, {at(src, x): y})
            if length(src) is s.args[0] and x not in w.fv and x not in src.fv and src.op in ('keys', 'param', 'field'):
                order = mk_sorted(src, mk('fun', close(y, w)), rev)
                return seq_map(order, lambda e: subst(w, {y: e}))
    # sorting is stable: the order before it matters only if equal keys do not mean equal elements
    while s.op == 'arr' or key is NONE and s.op in ('sorted', 'reversed'):
        s = s.args[0]
    return mk('sorted', s, key, rev)


def mk_median(s):
    while s.op in ('sorted', 'reversed', 'arr'):
        s = s.args[0]
    if s.op == 'ite':
        return lift(mk_median, s)
    return mk('call', 'median', s)


def seq_sum(s):
    if s.op == 'ite':
        return lift(seq_sum, s)
    while s.op in ('sorted', 'reversed', 'arr', 'slist'):
        s = s.args[0]
    if s.op == 'tup':
        r = ZERO
        for x in s.args:
            r = add(r, x)
        return r
    if s.op == 'catseq':
        r = ZERO
        for p in s.args:
            r = add(r, seq_sum(p))
        return r
    if s.op == 'flat':
        x = fresh()
        inner, filt = open_(s.args[1], x)
        return sum_close(s.args[0], x, ite(filt, seq_sum(inner), ZERO))
    if s.op == 'gsvals':
        g = s.args[0]
        x = fresh()
        key, w, filt = open_(g.args[2], x)
        if g.args[0].op == 'dict' and not g.args[0].args:
            return sum_close(g.args[1], x, w)
    it = iterate(s)
    return sum_close(it.n, it.x, ite(it.filt, it.elt, ZERO))


def seq_map(s, f):
    """elementwise map over a sequence term"""
    if s.op == 'ite':
        return lift(lambda a: seq_map(a, f), s)
    if s.op == 'arr':
        return mk('arr', seq_map(s.args[0], f))
    if s.op == 'tup':
        return tup(*[f(x) for x in s.args])
    if s.op == 'catseq':
        return catseq(*[seq_map(p, f) for p in s.args])
    it = iterate(s)
    return seq_close(it.n, it.x, f(it.elt), it.filt)


def fold_max(items, keys=None, sign=1):
    best, bk = items[0], (keys or items)[0]
    for v, k in zip(items[1:], (keys or items)[1:]):
        c = gt(k, bk) if sign > 0 else lt(k, bk)
        best, bk = ite(c, v, best), ite(c, k, bk)
    return best


def lex_lt(a, b):
    """lexicographic comparison of tuple terms"""
    if a.op == 'ite' or b.op == 'ite':
        return lift(lex_lt, a, b)
    if a.op == 'tup' and b.op == 'tup':
        r = FALSE
        for x, y in reversed(list(zip(a.args, b.args))):
            r = or_(lt(x, y), and_(eq(x, y), r))
        return r
    return lt(a, b)


def strip_copy(t):
    while t.op == 'scopy':
        t = t.args[0]
    return t


# parameter lists of library functions: names up to '|' are passed by position, the others by keyword; 'x=v' is the default
EXT_SIG = {
    'open': 'file | mode=r buffering=-1 encoding=None errors=None newline=None closefd=True opener=None',
    'json.dump': 'obj fp |', 'json.dumps': 'obj |', 'json.load': 'fp |', 'json.loads': 's |',
    'pickle.dump': 'obj file | protocol=None', 'pickle.dumps': 'obj | protocol=None', 'pickle.load': 'file |',
    'csv.reader': 'csvfile | dialect=excel', 'csv.writer': 'csvfile | dialect=excel',
    'csv.DictReader': 'f | fieldnames=None restkey=None restval=None dialect=excel', 'csv.DictWriter': 'f fieldnames |',
    'random.choice': 'seq |', 'random.shuffle': 'x |', 'random.sample': 'population k |', 'random.uniform': 'a b |',
    'random.randint': 'a b |', 'random.choices': 'population | weights=None cum_weights=None k=1',
    'random.gauss': 'mu sigma |', 'random.normalvariate': 'mu sigma |',
    'pandas.read_csv': 'filepath_or_buffer |', 'pandas.concat': 'objs | axis=0', 'pandas.DataFrame': '| data=None',
    'scipy.stats.truncnorm.rvs': 'a b | loc=0 scale=1 size=1 random_state=None',
    'multiprocessing.Pool': '| processes=None initializer=None', 'itertools.product': None,
    'mesa.datacollection.DataCollector': '| model_reporters=None agent_reporters=None tables=None',
}
METHOD_SIG = {
    'sample': 'population k |', 'choices': 'population | weights=None cum_weights=None k=1', 'shuffle': 'x |',
    'choice': 'a:seq | size=None replace=True p=None', 'uniform': 'low:a high:b | size=None',
    'normal': 'loc scale | size=None', 'integers': 'low high | size=None', 'randint': 'a:low b:high |',
    'pareto': 'a | size=None', 'lognormal': 'mean sigma | size=None', 'exponential': 'scale | size=None',
    'mkdir': '| mode=511 parents=False exist_ok=False', 'unlink': '| missing_ok=False',
    'open': '| mode=r buffering=-1 encoding=None errors=None newline=None',
    'read_text': '| encoding=None errors=None', 'write_text': 'data | encoding=None errors=None',
    'writerow': 'row |', 'writerows': 'rows |', 'imap_unordered': 'func iterable | chunksize=1',
    'imap': 'func iterable | chunksize=1', 'to_csv': '| path_or_buf=None', 'write': 's |',
}
SIG_CONST = {'r': string('r'), 'None': NONE, 'True': TRUE, 'False': FALSE, 'excel': string('excel')}


def parse_sig(s):
    front, back = s.split('|')
    names, rest = [], []
    for w in front.split():
        names.append(w.split(':'))
    for w in back.split():
        n_, _, v = w.partition('=')
        rest.append((n_, SIG_CONST.get(v) or num(int(v))))
    return names, rest


EXT_SIG = {k: parse_sig(v) for k, v in EXT_SIG.items() if v}
METHOD_SIG = {k: parse_sig(v) for k, v in METHOD_SIG.items()}


def by_signature(sig, args, kw):
    """arguments of a library call in one canonical form: required ones by position, optional ones by keyword unless they
    equal their default"""
    if sig is None or '**' in kw:
        return args, kw
    names, rest = sig
    if len(args) > len(names) + len(rest):
        return args, kw
    args, kw = list(args), dict(kw)
    for i, a in enumerate(args[len(names):]):
        n_ = rest[i][0]
        if n_ in kw:
            return args, kw
        kw[n_] = a
    args = args[:len(names)]
    for alias in names[len(args):]:
        hit = [a for a in alias if a in kw]
        if not hit:
            break
        args.append(kw.pop(hit[0]))
    for n_, v in rest:
        if kw.get(n_) is v or n_ == 'mode' and kw.get(n_) is string('rt'):
            del kw[n_]
    return args, kw


class Interp(_Base):

    # ----------------------------------------------------------------------------------------------------------------
    def cond(self, e, st):
        """expression in a boolean context"""
        if isinstance(e, ast.BoolOp):
            pc = st.pc
            r = None
            for v in e.values:
                c = self.cond(v, st)
                if isinstance(e.op, ast.And):
                    r = c if r is None else and_(r, c)
                    st.pc = and_(pc, r)
                else:
                    r = c if r is None else or_(r, c)
                    st.pc = and_(pc, not_(r))
                if st.pc is FALSE and r in (TRUE, FALSE):
                    break
            st.pc = pc
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.eval(e, st)
        return self.truthy(v, st)

    def truthy(self, v, st):
        if v.op == 'ite' and not is_bool(v):
            return lift(lambda x: self.truthy(x, st), v)
        if is_bool(v):
            return as_dd(v)
        if self.contkind(v):
            return gt0(length(self.as_len(self.content(v, st))))
        return truth(v)

    def as_len(self, c):
        if c.op == 'ite':
            return lift(self.as_len, c)
        return c

    # ----------------------------------------------------------------------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.fail('expression ' + type(e).__name__, e)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return mk('call', 'float', string(repr(v)))
            return num(Fraction(repr(v)))
        if isinstance(v, str):
            return string(v)
        return mk('const', repr(v))

    def e_Name(self, e, st):
        fid = self.frames[-1].fid if self.frames else None
        seen = 0
        fr = self.frames[-1] if self.frames else None
        f = fid
        par = fr.parent if fr else None
        while f is not None:
            v = st.env.get((f, e.id))
            if v is not None:
                return v
            f, par = par, self.frame_parent(par)
        return self.global_name(e.id, fr.fn.mod if fr else self.cur_mod, st, e)

    def frame_parent(self, fid):
        if fid is None:
            return None
        for fr in self.frames:
            if fr.fid == fid:
                return fr.parent
        return None

    def global_name(self, name, mod, st, node=None):
        r = self.repo.resolve(mod, name)
        if r is None:
            if hasattr(builtins, name):
                return mk('ext', 'builtins.' + name)
            if name == '__class__':
                return mk('sym', '__class__')
            if name == '__name__':
                return string(mod.name)
            self.fail('unknown name ' + name, node)
        return self.from_resolved(r, st)

    def from_resolved(self, r, st):
        if r is None:
            return mk('sym', 'unresolved')
        if r[0] == 'fn':
            return mk('fn', r[1].qual)
        if r[0] == 'cls':
            return mk('cls', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'glob':
            return self.global_value(r[1], r[2])
        return mk('sym', str(r))

    def global_value(self, mod, name):
        memo = self.repo.__dict__.setdefault('_globals', {})
        key = (mod.name, name)
        if key not in memo:
            memo[key] = mk('glob', name)
            if name not in mod.multi:
                try:
                    memo[key] = self.const_expr(mod.globals[name], mod)
                except Unsupported:
                    pass
        return memo[key]

    def const_expr(self, e, mod):
        """evaluate a module level expression (literals, names, mappings of names)"""
        sub = Interp(self.repo)
        sub.cur_mod = mod
        sub.bases = [[]]
        sub.phikind = {}
        st = State()
        v = sub.eval(e, st)
        v = sub.freeze(v, st)
        if sub.traces[0]:
            raise Unsupported('effects in module level expression', e)
        return v

    cur_mod = None

    def mod_attr(self, m, name, st):
        if m in self.repo.modules:
            r = self.repo.resolve(self.repo.modules[m], name)
            if r is not None:
                return self.from_resolved(r, st)
        if m + '.' + name in self.repo.modules or any(x.startswith(m + '.' + name + '.') for x in self.repo.modules):
            return mk('mod', m + '.' + name)
        if m in self.repo.modules:
            return mk('err', 'missing:%s.%s' % (m, name))
        return mk('ext', m + '.' + name)

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        if e.attr in ('get', '__getitem__') and self.frames and self.contkind(o) == 'dict':
            # a method of a dictionary, used as a function
            fid = self.frames[-1].fid
            name = '$d%d' % self.newid()
            st.env[fid, name] = o
            e2 = ast.parse('lambda k: D[k]' if e.attr == '__getitem__' else 'lambda k: D.get(k)', mode='eval').body
            for x in ast.walk(e2):
                if isinstance(x, ast.Name) and x.id == 'D':
                    x.id = name
                ast.copy_location(x, e)
            return self.eval(e2, st)
        return self.read_attr(o, e.attr, st, e)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.freeze(self.eval(v.value, st), st)
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, st)
                    parts.append(self.fmt(x, sp))
                else:
                    parts.append(tostr(x))
        return catstr(*parts)

    def fmt(self, x, spec):
        if spec.op == 'str' and spec.args[0] == '':
            return tostr(x)
        return mk('fmt', x, spec)

    def e_Tuple(self, e, st):
        return self.literal_seq(e, st)

    def e_List(self, e, st):
        v = self.literal_seq(e, st)
        if not self.frames:
            return v
        return self.new_ref('list', v, st)

    def literal_seq(self, e, st):
        parts, cur = [], []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(tup(*cur))
                cur = []
                parts.append(self.as_seq(self.eval(x.value, st), st, x))
            else:
                cur.append(self.eval(x, st))
        parts.append(tup(*cur))
        return catseq(*parts)

    def e_Set(self, e, st):
        v = mk_set(self.literal_seq(e, st))
        return v if not self.frames else self.new_ref('set', v, st)

    def e_Dict(self, e, st):
        d = mk('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = mk_dupd(d, self.content(self.eval(v, st), st))
            else:
                kk = self.freeze(self.eval(k, st), st)
                d = mk_dset(d, kk, self.eval(v, st))
        return d if not self.frames else self.new_ref('dict', d, st)

    def e_Lambda(self, e, st):
        fr = self.frames[-1] if self.frames else None
        mod = fr.fn.mod if fr else self.cur_mod
        fi = FuncInfo(mod, None, e, (fr.fn.qual if fr else mod.name) + '.<lambda>')
        r = mk('ref', self.newid(), 'clo')
        self.clos[r] = Closure(fi, fr.fid if fr else None, e, mod, fr.fn.cls if fr else None, fr.cls if fr else None)
        fi._defaults = {}
        if fr:
            self.capture_defaults(fi, e.args, st)
        return r

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE or restrict(c, st.pc) is TRUE:
            return self.eval(e.body, st)
        if c is FALSE or restrict(c, st.pc) is FALSE:
            return self.eval(e.orelse, st)
        return self.branch(c, lambda s: self.eval(e.body, s), lambda s: self.eval(e.orelse, s), st)

    def branch(self, c, f1, f0, st):
        p1, p0 = and_(st.pc, c), and_(st.pc, not_(c))
        if p0 is FALSE:
            return f1(st)
        if p1 is FALSE:
            return f0(st)
        a, b = st.fork(p1), st.fork(p0)
        v1, v0 = f1(a), f0(b)
        st.become(self.merge([(c, a), (not_(c), b)]))
        return ite(c, v1, v0)

    def e_BoolOp(self, e, st):
        if all(self.boolish(v) for v in e.values):
            return self.cond(e, st)
        vals = e.values
        v = self.eval(vals[0], st)
        for w in vals[1:]:
            c = self.truthy(v, st)
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return v
                v0 = v
                v = self.eval(w, st) if c is TRUE else self.branch(c, lambda s, w=w: self.eval(w, s), lambda s: v0, st)
            else:
                if c is TRUE:
                    return v
                v0 = v
                v = self.eval(w, st) if c is FALSE else self.branch(c, lambda s: v0, lambda s, w=w: self.eval(w, s), st)
        return v

    def boolish(self, e):
        return isinstance(e, ast.Compare) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or (
            isinstance(e, ast.BoolOp) and all(self.boolish(v) for v in e.values)) or (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'isinstance',
                                                                                      'hasattr', 'bool'))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.USub):
            return self.vec1(neg, v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('call', 'invert', self.freeze(v, st))

    def vec1(self, f, v, st):
        c = self.content(v, st)
        if c.op == 'arr':
            return seq_map(c, f)
        return f(v)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, e, st)

    def binop(self, op, a, b, node, st):
        if isinstance(op, ast.Add) and (is_str(a) or is_str(b)):
            return catstr(a, b)
        if a.op == 'ite' and (any(self.contkind(x) or is_str(x) or x.op == 'path' for x in leaves(a))) or \
                b.op == 'ite' and (any(self.contkind(x) or is_str(x) for x in leaves(b))):
            return lift(lambda x, y: self.binop(op, x, y, node, st), a, b)
        ka, kb = self.contkind(a), self.contkind(b)
        ca, cb = self.content(a, st) if ka or a.op == 'ref' else a, self.content(b, st) if kb or b.op == 'ref' else b
        if ca.op == 'arr' or cb.op == 'arr':
            return self.vec2(op, ca, cb, node, st)
        if isinstance(op, ast.Add) and (ka == 'list' or kb == 'list'):
            return self.wrap('list', catseq(self.as_seq(a, st), self.as_seq(b, st)), st)
        if isinstance(op, ast.Mult) and (ka == 'list' or kb == 'list'):
            s, n = (ca, b) if ka == 'list' else (cb, a)
            if s.op == 'tup' and len(s.args) == 1:
                x = s.args[0]
                return self.wrap('list', seq(n, lambda i: x), st)
            return mk('call', 'repeat', self.freeze(s, st), n)
        if isinstance(op, ast.Div) and (a.op in ('path', 'str') or is_str(b) or is_str(a) or b.op == 'path'):
            return mk('path', self.freeze(a, st), self.freeze(b, st))
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and (
                {ka, kb} & {'set'} or ca.op == 'keys' or cb.op == 'keys' or (ca.op == 'tup' and ka == 'list')):
            ca, cb = set_operand(self.freeze(ca, st)), set_operand(self.freeze(cb, st))
            if isinstance(op, ast.Sub):
                return mk('setdiff', ca, cb)
            if isinstance(op, ast.BitAnd):
                return mk('setint', *sorted((ca, cb), key=lambda t: t.od))
            if isinstance(op, ast.BitOr):
                if 'dict' in (ka, kb):
                    return self.wrap('dict', mk_dupd(ca, cb), st)
                return mk('setuni', *sorted((ca, cb), key=lambda t: t.od))
        if isinstance(op, ast.BitOr):
            if is_bool(a) and is_bool(b):
                return or_(a, b)
            ca, cb = [strip_copy(self.freeze(self.content(v, st), st)) for v in (a, b)]
            return self.wrap('dict', mk_dupd(ca, cb), st)
        if isinstance(op, ast.BitAnd):
            if is_bool(a) and is_bool(b):
                return and_(a, b)
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return self.floor(div(a, b))
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.Mod):
            if a.op == 'str':
                return mk('call', 'pctfmt', a, self.freeze(b, st))
            return sub(a, mul(b, self.floor(div(a, b))))
        return mk('call', type(op).__name__, self.freeze(a, st), self.freeze(b, st))

    def floor(self, v):
        def f(x):
            if x.op == 'num':
                return num(x.args[0].numerator // x.args[0].denominator)
            if is_int(x):
                return x
            # integer part of the sum can be taken out
            if x.op == 'poly':
                d = pdict(x)
                ip = {m: c for m, c in d.items() if m != () and c.denominator == 1 and is_int(
                    from_dict({m: c}))}
                c0 = d.get((), Fraction(0))
                fl = c0.numerator // c0.denominator
                if ip or fl:
                    rest = dict(d)
                    for m in ip:
                        rest.pop(m)
                    rest[()] = c0 - fl
                    out = dict(ip)
                    out[()] = Fraction(fl)
                    return add(from_dict(out), f(from_dict(rest)))
            return mk('call', 'floor', x)
        return lift(f, v)

    def vec2(self, op, a, b, node, st):
        def arrlike(t):
            return t.op == 'arr'
        if arrlike(a) and arrlike(b):
            ia, ib = iterate(a), iterate(b)
            if ia.items is None and ib.items is None and ia.filt is TRUE and ib.filt is TRUE and ia.n is ib.n:
                v = self.binop(op, ia.elt, subst(ib.elt, {ib.x: ia.x}), node, st)
                return mk('arr', seq_close(ia.n, ia.x, v))
            return mk('call', 'vec' + type(op).__name__, a, b)
        if arrlike(a):
            return seq_map(a, lambda x: self.binop(op, x, b, node, st))
        return seq_map(b, lambda x: self.binop(op, a, x, node, st))

    def wrap(self, kind, content, st):
        return self.new_ref(kind, content, st)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            v = self.compare(op, left, right, st, e)
            if len(e.ops) == 1:
                return v
            r = and_(r, v)
            left = right
        return r

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.freeze(self.content(b, st), st)
            r = member(self.freeze(a, st), c)
            return r if isinstance(op, ast.In) else not_(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = eq(a, b) if not (a.op == 'ref' and b.op == 'ref') else (TRUE if a is b else FALSE)
            return r if isinstance(op, ast.Is) else not_(r)
        ca, cb = self.content(a, st) if self.contkind(a) else a, self.content(b, st) if self.contkind(b) else b
        if ca.op == 'arr' or cb.op == 'arr':
            f = lambda x, y: self.compare(op, x, y, st, node)
            if ca.op == 'arr' and cb.op != 'arr':
                return seq_map(ca, lambda x: f(x, b))
            if cb.op == 'arr' and ca.op != 'arr':
                return seq_map(cb, lambda y: f(a, y))
            return mk('call', 'veccmp', ca, cb)
        if ca.op == 'mcall' and ca.args[0] == 'find' and len(ca.args) == 3:
            # is a string part of another one
            at0, m = const(cb), member(ca.args[2], ca.args[1])
            if (type(op), at0) in ((ast.GtE, 0), (ast.Gt, -1), (ast.NotEq, -1)):
                return m
            if (type(op), at0) in ((ast.Lt, 0), (ast.LtE, -1), (ast.Eq, -1)):
                return not_(m)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equality(a, b, ca, cb, st)
            return r if isinstance(op, ast.Eq) else not_(r)
        ca, cb = self.freeze(ca, st), self.freeze(cb, st)
        if ca.op in ('set', 'keys', 'setdiff', 'setint', 'setuni') and cb.op in ('set', 'keys', 'setdiff', 'setint',
                                                                              'setuni'):
            return as_dd(mk('batom', 'setcmp' + type(op).__name__, ca, cb))
        if ca.op == 'tup' and cb.op == 'tup':
            if isinstance(op, ast.Lt):
                return lex_lt(ca, cb)
            if isinstance(op, ast.Gt):
                return lex_lt(cb, ca)
            if isinstance(op, ast.LtE):
                return not_(lex_lt(cb, ca))
            return not_(lex_lt(ca, cb))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return gt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        return ge(a, b)

    def equality(self, a, b, ca, cb, st):
        ka, kb = self.contkind(a), self.contkind(b)
        if ka or kb:
            # comparison with an empty container
            for x, y in ((ca, cb), (cb, ca)):
                if (x.op == 'tup' and not x.args) or (x.op == 'dict' and not x.args):
                    return not_(gt0(length(y)))
            ca, cb = self.freeze(ca, st), self.freeze(cb, st)
            if ca is cb:
                return TRUE
            if ca.od > cb.od:
                ca, cb = cb, ca
            return as_dd(mk('eq', ca, cb))
        return eq(a, b)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Slice(self, e, st):
        return mk('sliceobj', *[self.freeze(self.eval(x, st), st) if x is not None else NONE
                                for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, st):
        self.fail('starred expression', e)

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                step = self.eval(e.slice.step, st)
                if step is num(-1) and e.slice.lower is None and e.slice.upper is None:
                    return self.mk_reversed(self.as_seq(o, st), st)
                return mk('call', 'stepslice', self.freeze(self.content(o, st), st),
                          *[self.eval(x, st) if x is not None else NONE for x in (e.slice.lower, e.slice.upper,
                                                                                 e.slice.step)])
            a = self.eval(e.slice.lower, st) if e.slice.lower is not None else NONE
            b = self.eval(e.slice.upper, st) if e.slice.upper is not None else NONE
            if is_str(o):
                return mk('call', 'substr', o, a, b)
            c = self.content(o, st)
            r = self.do_slice(c, a, b)
            return self.wrap('list', r, st) if c.op != 'arr' else r
        k = self.eval(e.slice, st)
        return self.getitem(o, k, st, e)

    def do_slice(self, c, a, b):
        return slice_(c, a, b)

    def mk_reversed(self, s, st):
        if s.op == 'tup':
            return tup(*reversed(s.args))
        if s.op == 'reversed':
            return s.args[0]
        if s.op == 'sorted' and s.args[1] is NONE:
            return mk('sorted', s.args[0], s.args[1], not_(s.args[2]))
        return mk('reversed', s)

    def getitem(self, o, k, st, node=None):
        if o.op == 'ite' or k.op == 'ite':
            return lift(lambda a, b: self.getitem(a, b, st, node), o, k)
        if o.op == 'err':
            return o
        kind = self.contkind(o)
        v = st.heap.get(('k', o, k))
        if v is not None:
            return v
        c = self.content(o, st) if (kind or o.op in ('ref', 'attr', 'param', 'attrv', 'at', 'dcopy')) else o
        k = self.freeze(k, st)
        if c.op in ('dict', 'ite') and k.op not in ('str', 'num', 'bool', 'none') and all(
                x.op == 'dict' for x in leaves(c)) and any(
                x.op == 'ref' and x.args[1] in ('list', 'dict', 'set') for x in subterms(c)):
            c = self.freeze(c, st)
        if c.op == 'ite':
            return lift(lambda a: self.item_of(a, k, st), c)
        return self.item_of(c, k, st)

    def item_of(self, c, k, st):
        if c.op in ('dict', 'dictmap', 'dset', 'ddel', 'dupd', 'ddict', 'groupsum', 'copy'):
            return dget(c, k)
        if c.op == 'counter':
            return self.count_of(c.args[0], k)
        if c.op == 'undef':
            return c
        if c.op == 'dcopy':
            inner = self.item_of(c.args[0], k, st)
            return self.dcopy_of(inner)
        return at(c, k)

    def count_of(self, s, k):
        it = iterate(s)
        if it.items is not None:
            return seq_sum(tup(*[ite(eq(x, k), ONE, ZERO) for x in it.items]))
        return sum_close(it.n, it.x, ite(and_(it.filt, eq(it.elt, k)), ONE, ZERO))

    def setitem(self, o, k, v, st, node=None):
        if o.op == 'ite':
            c = as_dd(o.args[0])
            a, b = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
            self.setitem(o.args[1], k, v, a, node)
            self.setitem(o.args[2], k, v, b, node)
            pc = st.pc
            st.become(self.merge([(c, a), (not_(c), b)]))
            st.pc = pc
            return
        k = self.freeze(k, st)
        if o.op == 'ref':
            c = st.heap.get(('c', o))
            kind = o.args[1]
            if kind == 'dict' or c is not None and c.op in ('dict', 'dictmap', 'dset', 'ddel', 'dupd', 'ddict',
                                                            'groupsum', 'bv'):
                if kind == 'list':
                    st.heap[('c', o)] = mk_lset(c, k, v)
                else:
                    st.heap[('c', o)] = lift(lambda x: mk_dset(x, k, v), c)
                self.touched(o, st, node)
                return
            if kind == 'list':
                st.heap[('c', o)] = mk_lset(c, k, v)
                self.touched(o, st, node)
                return
            self.fail('item assignment on ' + kind, node)
        if o.op == 'param' or o.op in ('attr', 'attrv', 'at', 'dcopy', 'res', 'ver', 'vcall'):
            for kk in [kk for kk in st.heap if kk[0] == 'k']:
                if not (kk[1] is o and kk[2] is not k and definitely_distinct(kk[2], k)):
                    if set(self.cloc(kk[1]) or ()) & set(self.cloc(o) or ()):
                        del st.heap[kk]
            self.emit('setitem', [o, k, v], st, writes=self.cloc(o) or ('c:?',), node=node)
            st.heap[('k', o, k)] = v
            return
        if o.op == 'bv':
            self.fail('item assignment through loop state', node)
        self.fail('item assignment on ' + o.op, node)

    # comprehensions -------------------------------------------------------------------------------------------------
    def e_ListComp(self, e, st):
        v = self.comp(e, st, lambda s: self.eval(e.elt, s))
        return self.wrap('list', v, st) if self.frames else v

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, lambda s: self.eval(e.elt, s))

    def e_SetComp(self, e, st):
        v = mk_set(self.comp(e, st, lambda s: self.eval(e.elt, s)))
        return self.wrap('set', v, st) if self.frames else v

    def e_DictComp(self, e, st):
        v = self.comp(e, st, lambda s: tup(self.freeze(self.eval(e.key, s), s), self.eval(e.value, s)))
        d = self.dict_from_pairs(v)
        return self.wrap('dict', d, st) if self.frames else d

    def dict_from_pairs(self, v):
        if v.op == 'ite':
            return lift(self.dict_from_pairs, v)
        if v.op == 'tup':
            d = mk('dict')
            for p in v.args:
                d = mk_dset(d, at(p, ZERO), at(p, ONE))
            return d
        if v.op == 'seq':
            x = fresh()
            elt, filt = open_(v.args[1], x)
            return mk_dictmap(v.args[0], x, at(elt, ZERO), at(elt, ONE), filt)
        if v.op == 'catseq':
            d = mk('dict')
            for p in v.args:
                d = mk_dupd(d, self.dict_from_pairs(p))
            return d
        return mk('dictof', v)

    def comp(self, e, st, elt, gi=0):
        """sequence term of a comprehension"""
        g = e.generators[gi]
        if g.is_async:
            self.fail('async comprehension', e)
        src = self.eval_iterable(g.iter, st)
        if not self.frames:
            self.fake_frame()
        sub = st.fork()
        r = self.comp_over(src, e, sub, elt, gi)
        # comprehension variables are local; effects of the body (rare) are kept
        for k in sub.heap:
            if k not in st.heap or st.heap[k] is not sub.heap[k]:
                st.heap[k] = sub.heap[k]
        return r

    def fake_frame(self):
        class M:
            pass
        fi = FuncInfo(self.cur_mod, None, ast.parse('def _m(): pass').body[0], self.cur_mod.name + '.<module>')
        self.frames.append(Frame(self.newid(), fi, None))

    def comp_over(self, src, e, st, elt, gi):
        g = e.generators[gi]
        if src.op == 'ite':
            return lift(lambda s: self.comp_over(s, e, st, elt, gi), src)
        if src.op == 'catseq':
            return catseq(*[self.comp_over(p, e, st, elt, gi) for p in src.args])
        if src.op == 'flat':
            x = fresh()
            inner, filt = open_(src.args[1], x)
            return mk_flat(src.args[0], x, self.comp_over(inner, e, st, elt, gi), filt)
        it = iterate(src)
        last = gi == len(e.generators) - 1
        if it.items is not None:
            out = []
            for v in it.items:
                s2 = st.fork()
                self.assign(g.target, v, s2)
                c = TRUE
                for i in g.ifs:
                    ci = self.cond(i, s2)
                    c = and_(c, ci)
                    s2.pc = and_(s2.pc, ci)
                if c is FALSE:
                    continue
                x = tup(elt(s2)) if last else self.comp_over(self.as_seq(self.eval(e.generators[gi + 1].iter, s2), s2),
                                                             e, s2, elt, gi + 1)
                out.append(ite(c, x, tup()))
                self.sync(st, s2)
            return catseq(*out)
        s2 = st.fork(TRUE)
        self.traces.append([])
        self.bases.append([])
        try:
            self.assign(g.target, it.elt, s2)
            c = it.filt
            s2.pc = c
            for i in g.ifs:
                ci = self.cond(i, s2)
                c = and_(c, ci)
                s2.pc = and_(s2.pc, ci)
            if c is FALSE:
                return tup()
            if last:
                v = self.freeze(elt(s2), s2)
                r = None
            else:
                inner = self.comp_over(self.as_seq(self.eval(e.generators[gi + 1].iter, s2), s2), e, s2, elt, gi + 1)
                r = mk_flat(it.n, it.x, self.freeze(inner, s2), c)
        finally:
            tr = self.traces.pop()
            self.bases.pop()
        if any(x.kind != 'loophead' for x in tr):
            self.loop_event(it.n, it.x, [], tr, lambda t: t, FALSE, st, e, set(), [])
            self.havoc_events(tr, st)
        if r is not None:
            return r
        v = drop_undef(ite(c, v, UNDEF))
        return seq_close(it.n, it.x, v, c)

    def havoc_events(self, tr, st):
        w = set()
        for x in tr:
            w |= x.writes
        for k in [k for k in st.heap if k[0] == 'f' and not self.is_fresh(k[1]) and ('f:' + k[2] in w or '*' in w)]:
            del st.heap[k]

    def sync(self, st, s2):
        for k in s2.heap:
            if st.heap.get(k) is not s2.heap[k]:
                st.heap[k] = s2.heap[k]

    # ----------------------------------------------------------------------------------------------------------------
    # calls

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return mk('super', self.self_term(st))
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            return NONE
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            return self.locals_dict(st)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('add_argument', 'add_argument_group'):
            # options of the command line are compared as a table (rules.custom.cli_options)
            return self.eval(e.func.value, st)
        args, kw = [], {}
        if isinstance(e.func, ast.Attribute):
            o = self.eval(e.func.value, st)
            fv = None
        else:
            fv = self.eval(e.func, st)
            o = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.eval(a.value, st), st, a)
                if s.op == 'tup':
                    args.extend(s.args)
                elif fv is not None and fv.op == 'ext' and fv.args[0] in ('builtins.max', 'builtins.min') and \
                        len(e.args) == 1:
                    args.append(s)
                elif o is not None and o.op == 'ext' or fv is not None and fv.op == 'ext':
                    args.append(mk('star', self.freeze(s, st)))
                elif self.arity(fv) is not None and a is e.args[-1] and not e.keywords:
                    # the call is possible only where the sequence has as many elements as there are parameters
                    for i in range(self.arity(fv) - len(args)):
                        args.append(at(s, num(i)))
                else:
                    self.fail('unpacked arguments', e)
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                d = self.content(self.eval(k.value, st), st)
                if d.op == 'dict' and all(kv.args[0].op == 'str' for kv in d.args):
                    for kv in d.args:
                        kw[kv.args[0].args[0]] = kv.args[1]
                else:
                    kw['**'] = self.freeze(d, st)
            else:
                kw[k.arg] = self.eval(k.value, st)
        if st.pc is FALSE:
            return UNDEF
        if fv is None:
            return self.call_method(o, e.func.attr, args, kw, st, e)
        return self.call_value(fv, args, kw, st, e)

    def arity(self, fv):
        """number of positional parameters of a function that takes exactly so many"""
        fi = None
        if fv is not None and fv.op == 'fn':
            fi = self.repo.find_function(fv.args[0])
        elif fv is not None and fv.op == 'ref' and fv in self.clos:
            fi = self.clos[fv].fn
        if fi is None:
            return None
        a = fi.node.args
        return None if a.vararg or a.defaults or a.kwonlyargs else len(a.posonlyargs + a.args)

    def self_term(self, st):
        for fr in reversed(self.frames):
            ps = fr.fn.params()
            if fr.fn.cls is not None and ps:
                return st.env.get((fr.fid, ps[0]), mk('sym', 'self'))
        return mk('sym', 'self')

    def locals_dict(self, st):
        fid = self.frames[-1].fid
        d = mk('dict')
        fn = self.frames[-1].fn
        ps = fn.all_params()
        for (f, n), v in sorted(((k, v) for k, v in st.env.items() if k[0] == fid),
                                key=lambda kv: ps.index(kv[0][1]) if kv[0][1] in ps else len(ps)):
            d = mk_dset(d, string(n), v)
        if fn.cls is not None and any(isinstance(x, ast.Name) and x.id in ('super', '__class__')
                                      for x in ast.walk(fn.node)):
            d = mk_dset(d, string('__class__'), mk('sym', '__class__'))
        return self.wrap('dict', d, st)

    def call_value(self, f, args, kw, st, node):
        if f.op == 'ite':
            c = as_dd(f.args[0])
            return self.branch(c, lambda s: self.call_value(f.args[1], args, kw, s, node),
                               lambda s: self.call_value(f.args[2], args, kw, s, node), st)
        if f.op == 'fn':
            fi = self.repo.find_function(f.args[0])
            if fi is None:
                self.fail('function ' + f.args[0], node)
            return self.call_fn(fi, args, kw, st, node)
        if f.op == 'cls':
            return self.construct(self.repo.classes[f.args[0]], args, kw, st, node)
        if f.op == 'ref' and f in self.clos:
            clo = self.clos[f]
            return self.call_fn(clo.fn, args, kw, st, node, clo=clo)
        if f.op == 'bound':
            return self.call_method(f.args[1], f.args[0], args, kw, st, node)
        if f.op == 'partial':
            a0 = list(f.args[1].args)
            k0 = {kv.args[0].args[0]: kv.args[1] for kv in f.args[2].args}
            return self.call_value(f.args[0], a0 + args, {**k0, **kw}, st, node)
        if f.op == 'ext':
            return self.call_ext(f.args[0], args, kw, st, node)
        if f.op == 'fun':
            # term-level function (from a frozen closure)
            t = f.args[0]
            for a in args:
                t = open_(t, a)[0]
            return t
        if f.op == 'err':
            return f
        if f.op in ('attr', 'attrv', 'param', 'at', 'vcall', 'res', 'glob', 'call', 'bv'):
            a = [self.freeze(x, st) for x in args]
            ks = [tup(string(k), self.freeze(v, st)) for k, v in sorted(kw.items())]
            tok = self.token(self.relevant(frozenset(['*']), st))
            self.emit('callv', [f] + a + ks, st, reads=['*'], writes=['*'], node=node)
            self.havoc(st)
            return mk('res', 'callv', f, tup(*(a + ks)), tok)
        self.fail('call of ' + f.op, node)

    def construct(self, cls, args, kw, st, node):
        r = self.new_inst(cls, st)
        init = self.repo.lookup(cls, '__init__')
        if init is not None:
            self.call_fn(init, [r] + args, kw, st, node)
            if init.qual in self.opaque:
                names = init.params()[1:]
                given = {**dict(zip(names, args)), **kw}
                self.built[r] = {f: given[p] for f, p in self.repo.copied_fields(init).items() if p in given}
        elif args or kw:
            st.heap[('f', r, '__args__')] = tup(*[self.freeze(a, st) for a in args],
                                                *[tup(string(k), self.freeze(v, st)) for k, v in sorted(kw.items())])
        return r

    def call_method(self, o, name, args, kw, st, node):
        if o.op == 'ite':
            c = as_dd(o.args[0])
            return self.branch(c, lambda s: self.call_method(o.args[1], name, args, kw, s, node),
                               lambda s: self.call_method(o.args[2], name, args, kw, s, node), st)
        if o.op == 'mod':
            v = self.mod_attr(o.args[0], name, st)
            if v.op == 'err':
                self.fail('missing name ' + v.args[0], node)
            return self.call_value(v, args, kw, st, node)
        if o.op == 'ext':
            return self.call_ext(o.args[0] + '.' + name, args, kw, st, node)
        if o.op == 'super':
            fr = next(f for f in reversed(self.frames) if f.fn.cls is not None)
            selft = o.args[0]
            cls = self.class_of(selft) or fr.fn.cls
            if fr.fn.cls not in self.repo.mro(cls):
                cls = fr.fn.cls
            m = self.repo.lookup(cls, name, after=fr.fn.cls)
            if m is not None:
                return self.call_fn(m, [selft] + args, kw, st, node)
            if name == '__init__':
                if any(dec_base(b) == 'Agent' for c in self.repo.mro(fr.fn.cls) for b in c.node.bases):
                    pass
                elif not self.is_fresh(selft):
                    self.emit('superinit', [tup(*[self.freeze(a, st) for a in args]), tup(*[
                        tup(string(k), self.freeze(v, st)) for k, v in sorted(kw.items())])], st,
                        writes=['f:__super__'], node=node)
                else:
                    st.heap[('f', selft, '__super__')] = tup(*[a for a in args])
                # mesa.Agent keeps its identifier and model
                if any(dec_base(b) == 'Agent' for c in self.repo.mro(fr.fn.cls) for b in c.node.bases):
                    for n_, v in list(zip(('unique_id', 'model'), args)) + list(kw.items()):
                        self.write_attr(selft, n_, v, st, node)
                return NONE
            self.emit('supercall', [string(name)] + args, st, reads=['*'], writes=['*'], node=node)
            return mk('res', name, tup(*[self.freeze(a, st) for a in args]))
        if o.op == 'cls':
            c = self.repo.classes[o.args[0]]
            m = self.repo.lookup(c, name)
            if m is not None:
                if m.is_classmethod:
                    return self.call_fn(m, [o] + args, kw, st, node)
                return self.call_fn(m, args, kw, st, node)
        cls = self.class_of(o)
        if cls is not None:
            m = self.repo.lookup(cls, name)
            if m is not None:
                # abstract methods (raise NotImplementedError) stay symbolic
                if is_abstract(m.node) and o.op == 'param':
                    return self.virtual(o, name, [x for x in self.repo.by_method.get(name, [])], args, kw, st, node)
                a = args if m.is_static else [o] + args
                return self.call_fn(m, a, kw, st, node)
            fv = st.heap.get(('f', o, name))
            if fv is not None:
                return self.call_value(fv, args, kw, st, node)
        kind = self.contkind(o)
        if is_str(o):
            return self.str_method(o, name, args, kw, st, node)
        if o.op in ('fn',):
            if name in ('cache_clear', 'cache_info'):
                return NONE
        if kind or o.op in ('tup', 'dict', 'seq', 'arr', 'groupsum', 'counter', 'ddict'):
            r = self.container_method(o, kind, name, args, kw, st, node)
            if r is not None:
                return r
        cands = self.repo.by_method.get(name, [])
        cands = [c for c in cands if not is_abstract(c.node)] or cands
        if cands and cls is None and o.op not in ('ref',):
            cands_all = self.repo.by_method.get(name, [])
            if len(cands) == 1 and len(cands_all) == 1:
                m = cands[0]
                return self.call_fn(m, args if m.is_static else [o] + args, kw, st, node)
            return self.virtual(o, name, cands_all, args, kw, st, node)
        r = self.container_method(o, kind, name, args, kw, st, node)
        if r is not None:
            return r
        return self.unknown_method(o, name, args, kw, st, node)

    def virtual(self, o, name, cands, args, kw, st, node):
        """dynamically dispatched method: arguments by name, effects of all candidates"""
        ps = None
        for c in cands:
            ps = c.params()
            break
        b = {}
        if ps:
            for n_, a in zip(ps[1:], args):
                b[n_] = a
        b.update(kw)
        of = self.freeze(o, st)
        # frozen arguments: state of fresh objects is part of the call
        items = [tup(string(n_), self.passed(b[n_], st)) for n_ in sorted(b)]
        reads, writes = self.effects_of(name, [c for c in cands if not is_abstract(c.node)])
        reads |= self.content_reads(args + list(kw.values()), st)
        if not writes:
            tok = self.field_token(reads, st)
            return self.mk_vcall(name, of, items, tok)
        ev = self.relevant(reads | writes, st)
        self.emit('vcall', [string(name), of] + items, st, reads=reads, writes=writes, node=node)
        res = mk('res', name, of, tup(*items), self.token(ev))
        self.havoc(st, writes)
        return res

    def mk_vcall(self, name, of, items, tok):
        def f(o, *vals):
            its = [tup(i.args[0], v) for i, v in zip(items, vals)]
            return mk('vcall', name, o, *its, *([tok] if tok is not None else []))
        return lift(f, of, *[i.args[1] for i in items])

    def unknown_method(self, o, name, args, kw, st, node):
        args, kw = by_signature(METHOD_SIG.get(name), args, kw)
        if name == 'choice' and 'size' in kw:
            kw.setdefault('replace', TRUE)
        a = [self.freeze(x, st) for x in args]
        ks = [tup(string(k), self.freeze(v, st)) for k, v in sorted(kw.items())]
        of = self.freeze(o, st)
        if of.op in ('path',) or (of.op == 'call' and of.args[0].startswith('pathlib')):
            if name not in ('mkdir', 'unlink', 'rmdir', 'write_text', 'write_bytes', 'rename', 'replace', 'touch',
                            'open'):
                return mk('mcall', name, of, *a, *ks)
            self.emit('mcall', [string(name), of] + a + ks, st, writes=['io:' + of.od.hex()[:8]], node=node)
            return mk('mres', name, of, *a, *ks)
        if name in PURE_METHODS:
            c = self.freeze(self.content(o, st), st)
            return mk('mcall', name, c, *a, *ks)
        loc = 'o:' + root_name(of)
        ev = self.relevant(frozenset([loc]), st)
        self.emit('mcall', [string(name), of] + a + ks, st, writes=[loc], node=node)
        return mk('mres', name, of, tup(*(a + ks)), self.token(ev))

    # strings --------------------------------------------------------------------------------------------------------
    def str_method(self, o, name, args, kw, st, node):
        if o.op == 'str' and name == 'format':
            return self.do_format(o.args[0], args, kw, st, node)
        if name == 'join':
            s = self.as_seq(args[0], st, node)
            if o.op == 'str' and s.op == 'tup':
                parts = []
                for i, x in enumerate(s.args):
                    if i:
                        parts.append(o)
                    parts.append(x)
                return catstr(*parts)
            return mk('join', o, self.freeze(s, st))
        if name in ('lower', 'upper', 'strip') and o.op == 'str':
            return string(getattr(o.args[0], name)())
        return mk('mcall', name, o, *[self.freeze(a, st) for a in args])

    def do_format(self, s, args, kw, st, node):
        import string as _s
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in _s.Formatter().parse(s):
                if lit:
                    parts.append(string(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    self.fail('format field', node)
                v = self.freeze(v, st)
                parts.append(self.fmt(v, string(spec)) if spec else tostr(v))
        except (ValueError, IndexError):
            self.fail('format string', node)
        return catstr(*parts)

    # containers -----------------------------------------------------------------------------------------------------
    def container_method(self, o, kind, name, args, kw, st, node):
        c = self.content(o, st)
        if c.op == 'ite' and o.op != 'ref':
            return lift(lambda x: self.container_method(x, kind, name, args, kw, st, node) or self.fail(
                'container method', node), c)
        fresh_ref = o.op == 'ref'
        if name in ('items', 'keys', 'values') and not args:
            c = self.content(o, st)
            return lift(lambda x: self.dict_view(x, name), c)
        if name == 'copy' and not args:
            c2 = self.freeze(c, st) if False else c
            k = kind or 'dict'
            if not fresh_ref:
                c2 = mk_copy(c)
            return self.wrap(k if k in ('list', 'dict', 'set') else 'list', c2, st)
        if name == 'get' and (kind == 'dict' or kind is None):
            d = args[1] if len(args) > 1 else NONE
            k = self.freeze(args[0], st)
            if c.op == 'counter':
                return self.count_of(c.args[0], k)
            v = st.heap.get(('k', o, k))
            if v is not None:
                return v
            return lift(lambda x: dget(x, k, d) if x.op != 'counter' else self.count_of(x.args[0], k), c)
        if name == 'index':
            return mk('call', 'index', self.freeze(c, st), *[self.freeze(a, st) for a in args])
        if name == 'count' and len(args) == 1:
            return self.count_of(self.freeze(c, st), self.freeze(args[0], st))
        if name == 'most_common' and c.op == 'counter':
            g = self.freeze(c, st)
            if len(args) == 1 and args[0] is ONE:
                vals = self.dict_view(g, 'values')
                return tup(tup(mk('call', 'mode', g), self.minmax_seq(vals, 1, None, None, st, node)))
            return mk('call', 'most_common', g, *args)
        if name in ('difference', 'intersection', 'union', 'issubset', 'issuperset', 'isdisjoint',
                    'symmetric_difference'):
            other = set_operand(self.freeze(self.as_seq(args[0], st), st))
            cc = set_operand(self.freeze(c, st))
            if name == 'difference':
                return mk('setdiff', cc, other)
            if name == 'intersection':
                return mk('setint', *sorted((cc, other), key=lambda t: t.od))
            if name == 'union':
                return mk('setuni', *sorted((cc, other), key=lambda t: t.od))
            return as_dd(mk('batom', name, cc, other))
        if c.op == 'arr' or name in ('mean', 'sum', 'max', 'min', 'std') and not args:
            if name == 'sum':
                return seq_sum(c)
            if name == 'mean':
                return div(seq_sum(c), length(c))
            if name in ('max', 'min'):
                return self.minmax(name, [c], {}, st, node)
            if name == 'tolist':
                return self.wrap('list', c.args[0], st)
            if name == 'std' and not args:
                return mk('call', 'pstdev', self.freeze(c, st))
        if fresh_ref:
            before = st.heap.get(('c', o))
            v = self.mutate_ref(o, name, args, kw, st, node)
            if st.heap.get(('c', o)) is not before:
                self.touched(o, st, node)
            return v
        if name in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'add', 'discard', 'setdefault',
                    'popitem', 'sort', 'reverse', 'appendleft', 'popleft', '__setitem__', '__delitem__'):
            if kind is None and o.op not in ('param', 'at', 'vcall', 'res', 'ver', 'dcopy', 'attr', 'attrv'):
                return None
            return self.mutate_ext(o, kind, name, args, kw, st, node)
        return None

    def mutate_ext(self, o, kind, name, args, kw, st, node):
        loc = self.cloc(o) or ('c:?',)
        reads = []
        if self.contkind(o) == 'slist':
            reads = ['f:' + f for f in KEY_FIELDS]
        for kk in [kk for kk in st.heap if kk[0] == 'k' and set(self.cloc(kk[1]) or ()) & set(loc)]:
            del st.heap[kk]
        if name == 'add' and self.contkind(o) == 'slist' or name == 'remove':
            self.emit(name, [o] + args, st, reads=reads, writes=loc, node=node)
            return NONE
        if name in ('pop', '__delitem__') and kind != 'list':
            c = self.content(o, st)
            val = UNDEF
            if name == 'pop' and args:
                val = dget(c, self.freeze(args[0], st), args[1] if len(args) > 1 else None)
            if len(args) > 1:
                # pop with a default is a conditional removal
                g = member(self.freeze(args[0], st), c)
                s2 = st.fork(and_(st.pc, g))
                if s2.pc is not FALSE:
                    self.emit('pop', [o, args[0]], s2, writes=loc, node=node)
            else:
                self.emit('pop', [o] + args[:1], st, writes=loc, node=node)
            return val
        if name == 'extend' or (name == 'update' and kind == 'list'):
            self.emit('extend', [o, self.as_seq(args[0], st)], st, reads=reads, writes=loc, node=node)
            return NONE
        if name == 'update' and kind in ('dict', None) and o.op in ('param', 'at') and len(args) == 1 and not kw:
            c = self.content(args[0], st)
            if c.op == 'dict' and c.args and all(kv.args[0].op == 'str' for kv in c.args):
                # named entries: stored one by one
                for kv in c.args:
                    self.setitem(o, kv.args[0], kv.args[1], st, node)
                return NONE
        if name == 'update' and kind == 'slist' and len(args) == 1:
            # adds the elements one by one
            fid = self.frames[-1].fid
            st.env[fid, '__list'] = o
            add_ = ast.Expr(ast.Call(ast.Attribute(ast.Name('__list', ast.Load()), 'add', ast.Load()),
                                     [ast.Name('__new', ast.Load())], []))
            loop = ast.For(target=ast.Name('__new', ast.Store()), iter=ast.Constant(None), body=[add_], orelse=[])
            for x in ast.walk(loop):
                ast.copy_location(x, node)
            s2 = self.for_over(self.as_seq(args[0], st), loop, st.fork())
            for k in ('__list', '__new'):
                s2.env.pop((fid, k), None)
            st.become(s2)
            return NONE
        self.emit(name, [o] + [self.content(a, st) if self.contkind(a) else a for a in args]
                  + [tup(string(k), v) for k, v in sorted(kw.items())], st, reads=reads, writes=loc, node=node)
        if name in ('pop', 'popitem', 'setdefault', 'popleft'):
            return mk('res', name, o, tup(*[self.freeze(a, st) for a in args]), self.token(self.relevant(
                frozenset(loc), st)))
        return NONE

    def mutate_ref(self, o, name, args, kw, st, node):
        key = ('c', o)
        c = st.heap.get(key)
        kind = o.args[1]
        if c is None:
            self.fail('lost container', node)
        if kind == 'list':
            if name == 'append':
                st.heap[key] = catseq(c, tup(args[0]))
                return NONE
            if name in ('extend',):
                self.list_extend(o, args[0], st, node)
                return NONE
            if name == 'insert' and args[0] is ZERO:
                st.heap[key] = catseq(tup(args[1]), c)
                return NONE
            if name == 'pop':
                i = args[0] if args else num(-1)
                v = at(c, i)
                if i is ZERO:
                    st.heap[key] = self.drop_first(c)
                elif i is num(-1):
                    st.heap[key] = slice_(c, ZERO, num(-1))
                else:
                    st.heap[key] = mk('call', 'listpop', self.freeze(c, st), i)
                return v
            if name == 'sort':
                st.heap[key] = self.do_sorted(c, kw, st, node)
                return NONE
            if name == 'reverse':
                st.heap[key] = self.mk_reversed(c, st)
                return NONE
            if name == 'clear':
                st.heap[key] = tup()
                return NONE
            if name == 'remove':
                st.heap[key] = mk('lremove', self.freeze(c, st), self.freeze(args[0], st))
                return NONE
        if kind == 'dict':
            if name == 'update':
                if args:
                    a = self.content(args[0], st)
                    if self.contkind(args[0]) != 'dict' and args[0].op not in ('at', 'bv', 'attr', 'param'):
                        a = self.dict_from_pairs(self.as_seq(args[0], st))
                    st.heap[key] = mk_dupd(c, a)
                for k, v in kw.items():
                    st.heap[key] = lift(lambda x: mk_dset(x, string(k), v), st.heap[key])
                return NONE
            if name in ('pop', '__delitem__'):
                k = self.freeze(args[0], st)
                v = dget(c, k, args[1] if len(args) > 1 else None)
                st.heap[key] = mk_ddel(c, k)
                return v
            if name == 'setdefault':
                k = self.freeze(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                m = member(k, c)
                st.heap[key] = ite(m, c, mk_dset(c, k, d)) if c.op != 'bv' else mk_dset(
                    c, k, ite(m, at(c, k), d))
                return dget(st.heap[key], k)
            if name == 'clear':
                st.heap[key] = mk('dict')
                return NONE
        if kind == 'set':
            if name == 'add':
                x = self.freeze(args[0], st)
                if c.op == 'set':
                    st.heap[key] = mk_set(catseq(c.args[0], tup(x)))
                else:
                    st.heap[key] = mk('setadd', c, x)
                return NONE
            if name == 'update':
                s = self.freeze(self.as_seq(args[0], st), st)
                st.heap[key] = mk_set(catseq(set_elems(c), s))
                return NONE
            if name in ('discard', 'remove'):
                st.heap[key] = mk('setdiff', c, tup(self.freeze(args[0], st)))
                return NONE
        if kind == 'slist':
            if name in ('update',):
                s = self.as_seq(args[0], st)
                st.heap[key] = mk_slist(catseq(c.args[0], s), c.args[1])
                return NONE
            if name == 'add':
                st.heap[key] = mk_slist(catseq(c.args[0], tup(args[0])), c.args[1])
                return NONE
        return None

    def drop_first(self, c):
        if c.op == 'tup':
            return tup(*c.args[1:])
        if c.op == 'ite':
            return lift(self.drop_first, c)
        return slice_(c, ONE, NONE)

    def list_extend(self, o, v, st, node):
        s = self.as_seq(v, st, node)
        st.heap[('c', o)] = catseq(st.heap[('c', o)], s)
        self.touched(o, st, node)

    def dict_view(self, c, name):
        if c.op == 'groupsum' and c.args[0].op != 'dictmap' and name in ('values', 'items', 'keys'):
            return groups(c, {'values': 'gsvals', 'items': 'gsitems', 'keys': 'gskeys'}[name])
        if c.op == 'counter' and name in ('values', 'items', 'keys'):
            it = iterate(c.args[0])
            if it.items is None:
                g = mk('groupsum', mk('dict'), it.n, close(it.x, it.elt, ite(it.filt, ONE, ZERO), it.filt))
                return groups(g, {'values': 'gsvals', 'items': 'gsitems', 'keys': 'gskeys'}[name])
        keys = mk_keys(c)
        if name == 'keys':
            return keys
        if name == 'values':
            return seq_map(keys, lambda k: dcget(c, k, self))
        return seq_map(keys, lambda k: tup(k, dcget(c, k, self)))

    # external functions ---------------------------------------------------------------------------------------------
    def call_ext(self, name, args, kw, st, node):
        short = name[9:] if name.startswith('builtins.') else name
        args, kw = by_signature(EXT_SIG.get(short), args, kw)
        if name.endswith('.__init__') and args:
            self.emit('superinit', [tup(*[self.freeze(a, st) for a in args[1:]]), tup(*[
                tup(string(k), self.freeze(v, st)) for k, v in sorted(kw.items())])], st,
                writes=['f:__super__'], node=node)
            return NONE
        m = getattr(self, 'x_' + short.replace('.', '_'), None)
        if m is not None:
            r = m(args, kw, st, node)
            if r is not None:
                return r
        args = [self.as_function(a, st) for a in args]
        kw = {k: self.as_function(v, st) for k, v in kw.items()}
        fz = [self.freeze(self.content(a, st) if self.contkind(a) else a, st) for a in args]
        ks = [tup(string(k), self.freeze(self.content(v, st) if self.contkind(v) else v, st))
              for k, v in sorted(kw.items())]
        if short in EXC_NAMES or short.endswith('Error'):
            return mk('exc', short)
        pure = (short in PURE_BUILTINS) or (any(name.startswith(p) for p in PURE_PREFIX)
                                            and not name.startswith('numpy.random')) or short in PURE_EXT
        if name.startswith('mesa.time.') or (name[:1].isupper() and False):
            return mk('call', name, *fz, *ks)
        if pure:
            cname = name.split('.')[-1] if name.startswith(('math.', 'numpy.')) else short
            cname = CANON.get(cname, cname)
            return self.lift_call(cname, fz, ks)
        if name.startswith('random.') or name.startswith('numpy.random'):
            ev = self.relevant(frozenset(['rng:' + name.split('.')[0]]), st)
            if name.endswith('default_rng'):
                return mk('call', 'default_rng', *(fz + [kv.args[1] for kv in ks if kv.args[0].args[0] == 'seed']))
            if name == 'random.Random':
                return mk('call', 'random.Random', *fz)
            self.emit('ext', [string(name)] + fz + ks, st, writes=['rng:' + name.split('.')[0]], node=node)
            return mk('res', name, tup(*(fz + ks)), self.token(ev))
        loc = 'io:' + name.split('.')[0]
        if short == 'open':
            fp = fz[0] if fz else NONE
            loc = 'io:' + fp.od.hex()[:8]
        if name.startswith('json.dump') or name == 'pickle.dump':
            loc = 'io:' + root_name(fz[1] if len(fz) > 1 else NONE)
        ev = self.relevant(frozenset([loc]), st)
        self.emit('ext', [string(name)] + fz + ks, st, writes=[loc], node=node)
        return mk('res', name, tup(*(fz + ks)), self.token(ev)) if ev else mk('res', name, tup(*(fz + ks)))

    def as_function(self, v, st):
        """a builtin conversion passed as a value is the function that applies it"""
        if v.op == 'ext' and v.args[0] in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.len', 'builtins.abs'):
            x = fresh('p')
            return mk('fun', close(x, self.freeze(self.call_ext(v.args[0], [x], {}, st.fork(), None), st)))
        return v

    def lift_call(self, cname, fz, ks):
        def f(*a):
            return mk('call', cname, *a, *ks)
        return lift(f, *fz)

    # builtins
    def x_len(self, a, kw, st, node):
        return lift(length, self.as_len(self.content(a[0], st)))

    def seq_arg(self, a, st, node=None):
        return self.as_seq(a, st, node)

    def x_sum(self, a, kw, st, node):
        s = self.seq_arg(a[0], st)
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return add(start, seq_sum(s))

    def x_math_fsum(self, a, kw, st, node):
        return seq_sum(self.seq_arg(a[0], st))

    def x_numpy_sum(self, a, kw, st, node):
        if len(a) != 1 or kw:
            return None
        s = self.seq_arg(a[0], st)
        return seq_sum(s)

    def x_numpy_mean(self, a, kw, st, node):
        if len(a) != 1 or kw:
            return None
        s = self.seq_arg(a[0], st)
        return div(seq_sum(s), lift(length, s))

    x_statistics_mean = x_statistics_fmean = x_numpy_average = x_numpy_mean

    def x_statistics_median(self, a, kw, st, node):
        return mk_median(self.freeze(self.seq_arg(a[0], st), st))

    def x_numpy_median(self, a, kw, st, node):
        if len(a) != 1 or kw:
            return None
        return mk_median(self.freeze(self.seq_arg(a[0], st), st))

    def x_abs(self, a, kw, st, node):
        return self.vec1(lambda v: ite(gt0(v), v, neg(v)), a[0], st)

    x_numpy_abs = x_numpy_absolute = x_math_fabs = x_abs

    def x_max(self, a, kw, st, node):
        return self.minmax('max', a, kw, st, node)

    def x_min(self, a, kw, st, node):
        return self.minmax('min', a, kw, st, node)

    x_numpy_max = x_numpy_amax = x_max
    x_numpy_min = x_numpy_amin = x_min

    def x_numpy_maximum(self, a, kw, st, node):
        return self.minmax('max', a, {}, st, node)

    def x_numpy_minimum(self, a, kw, st, node):
        return self.minmax('min', a, {}, st, node)

    def minmax(self, which, a, kw, st, node):
        sign = 1 if which == 'max' else -1
        key = kw.get('key')
        default = kw.get('default')
        if len(a) == 1:
            s = self.seq_arg(a[0], st)
            if s.op == 'ite':
                return lift(lambda x: self.minmax_seq(x, sign, key, default, st, node), s)
            return self.minmax_seq(s, sign, key, default, st, node)
        return self.minmax_items(list(a), sign, key, st, node)

    def minmax_items(self, items, sign, key, st, node):
        if key is None or key.op == 'none':
            return fold_max(items, None, sign)
        ks = [self.call_value(key, [i], {}, st, node) for i in items]
        return fold_max(items, ks, sign)

    def minmax_seq(self, s, sign, key, default, st, node):
        while s.op in ('sorted', 'reversed', 'arr') and key is None:
            s = s.args[0]
        if s.op == 'tup':
            if not s.args:
                return default if default is not None else mk('err', 'ValueError')
            return self.minmax_items(list(s.args), sign, key, st, node)
        nm = 'maxseq' if sign > 0 else 'minseq'
        if s.op in ('flat', 'gsvals', 'gsitems', 'gskeys', 'catseq'):
            v = mk('call', nm, s, self.key_term(key, st, node))
        else:
            it = iterate(s)
            if key is None or key.op == 'none':
                v = mk(nm, it.n, close(it.x, it.elt, it.filt))
            else:
                kt = self.call_value(key, [it.elt], {}, st, node)
                v = mk('arg' + nm, it.n, close(it.x, it.elt, self.freeze(kt, st), it.filt))
        if default is not None:
            return ite(gt0(length(s)), v, default)
        return v

    def key_term(self, key, st, node):
        if key is None or key.op == 'none':
            return NONE
        x = fresh('p')
        s2 = st.fork()
        v = self.freeze(self.call_value(key, [x], {}, s2, node), s2)
        return mk('fun', close(x, v))

    def x_any(self, a, kw, st, node):
        s = self.seq_arg(a[0], st)
        return lift(lambda q: gt0(seq_sum(seq_map(q, lambda e: ite(self.truthy(e, st), ONE, ZERO)))), s)

    def x_all(self, a, kw, st, node):
        s = self.seq_arg(a[0], st)
        return lift(lambda q: not_(gt0(seq_sum(seq_map(q, lambda e: ite(self.truthy(e, st), ZERO, ONE))))), s)

    def x_range(self, a, kw, st, node):
        if len(a) == 1:
            lo, hi = ZERO, a[0]
        else:
            lo, hi = a[0], a[1]
        if len(a) == 3:
            if a[2] is num(-1):
                n = sub(lo, hi)
                return lift(lambda m: seq(m, lambda i: sub(lo, i)), n)
            if a[2] is not ONE:
                return None
        n = sub(hi, lo)
        return lift(lambda m: tup() if m.op == 'num' and m.args[0] <= 0 else seq(m, lambda i: add(lo, i)), n)

    def x_enumerate(self, a, kw, st, node):
        s = self.seq_arg(a[0], st)
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)

        def f(q):
            if q.op == 'tup':
                return tup(*[tup(add(start, num(i)), x) for i, x in enumerate(q.args)])
            if q.op == 'seq' and open_(q.args[1], fresh())[1] is not TRUE:
                q = q
                x = fresh()
                return seq_close(length(q), x, tup(add(start, x), mk('at', q, x)))
            it = iterate(q)
            if it.items is not None or it.filt is not TRUE:
                x = fresh()
                return seq_close(length(q), x, tup(add(start, x), mk('at', q, x)))
            return seq_close(it.n, it.x, tup(add(start, it.x), it.elt))
        return lift(f, s)

    def x_zip(self, a, kw, st, node):
        ss = [self.seq_arg(x, st) for x in a]

        def f(*qs):
            if all(q.op == 'tup' for q in qs):
                return tup(*[tup(*x) for x in zip(*[q.args for q in qs])])
            its = []
            n = None
            for q in qs:
                it = iterate(q)
                if it.items is not None or it.filt is not TRUE:
                    return mk('call', 'zip', *qs)
                if n is not None and it.n is not n:
                    return mk('call', 'zip', *qs)
                n = it.n
                its.append(it)
            x = its[0].x
            return seq_close(n, x, tup(*[subst(it.elt, {it.x: x}) for it in its]))
        return lift(f, *ss)

    def x_reversed(self, a, kw, st, node):
        return lift(lambda s: self.mk_reversed(s, st), self.seq_arg(a[0], st))

    def x_sorted(self, a, kw, st, node):
        return self.wrap('list', self.do_sorted(self.seq_arg(a[0], st), kw, st, node), st)

    def do_sorted(self, s, kw, st, node):
        key = self.key_term(kw.get('key'), st, node)
        rev = kw.get('reverse', FALSE)
        return mk_sorted(self.freeze(s, st), key, self.truthy(rev, st))

    def x_numpy_sort(self, a, kw, st, node):
        return mk('arr', mk_sorted(self.freeze(self.seq_arg(a[0], st), st), NONE, FALSE))

    def x_heapq_nlargest(self, a, kw, st, node):
        s = mk_sorted(self.freeze(self.seq_arg(a[1], st), st), self.key_term(kw.get('key'), st, node), TRUE)
        return self.wrap('list', slice_(s, ZERO, a[0]), st)

    def x_heapq_nsmallest(self, a, kw, st, node):
        s = mk_sorted(self.freeze(self.seq_arg(a[1], st), st), self.key_term(kw.get('key'), st, node), FALSE)
        return self.wrap('list', slice_(s, ZERO, a[0]), st)

    def x_list(self, a, kw, st, node):
        if not a:
            return self.wrap('list', tup(), st)
        return self.wrap('list', self.seq_arg(a[0], st), st)

    def x_tuple(self, a, kw, st, node):
        if not a:
            return tup()
        return self.seq_arg(a[0], st)

    def x_iter(self, a, kw, st, node):
        return self.seq_arg(a[0], st)

    def x_next(self, a, kw, st, node):
        s = self.seq_arg(a[0], st)
        if s.op in ('ite', 'catseq', 'tup'):
            if s.op == 'tup' and s.args:
                return s.args[0]
            return None
        it = iterate(s)
        ex = gt0(sum_close(it.n, it.x, ite(it.filt, ONE, ZERO)))
        fi = mk('call', 'firstidx', it.n, close(it.x, it.filt)) if it.filt is not TRUE else ZERO
        v = subst(it.elt, {it.x: fi})
        d = a[1] if len(a) > 1 else mk('err', 'StopIteration')
        return ite(ex, v, d)

    def x_set(self, a, kw, st, node):
        if not a:
            return self.wrap('set', mk_set(tup()), st)
        return self.wrap('set', mk_set(self.freeze(self.seq_arg(a[0], st), st)), st)

    x_frozenset = x_set

    def x_dict(self, a, kw, st, node):
        d = mk('dict')
        if a:
            k = self.contkind(a[0])
            c = self.content(a[0], st)
            if k == 'dict' or k is None and a[0].op == 'param' and self.used_as_dict(a[0], st):
                d = c if a[0].op == 'ref' else mk_copy(c)
            else:
                d = self.dict_from_pairs(self.as_seq(a[0], st))
        for n_, v in kw.items():
            d = mk_dset(d, string(n_), v)
        return self.wrap('dict', d, st)

    def x_dict_fromkeys(self, a, kw, st, node):
        v = a[1] if len(a) > 1 else NONE
        d = self.dict_from_pairs(seq_map(self.seq_arg(a[0], st), lambda k: tup(k, v)))
        return self.wrap('dict', d, st)

    def used_as_dict(self, t, st):
        """does the analysed function itself treat the parameter as a dictionary?"""
        fr = self.frames[-1]
        names = {k[1] for k, v in st.env.items() if k[0] == fr.fid and v is t}
        is_it = lambda e: isinstance(e, ast.Name) and e.id in names
        for x in ast.walk(fr.fn.node):
            if isinstance(x, ast.keyword) and x.arg is None and is_it(x.value):
                return True
            if isinstance(x, ast.Attribute) and is_it(x.value) and x.attr in ('items', 'keys', 'values', 'get'):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'dict' and x.keywords and \
                    x.args and is_it(x.args[0]):
                return True
        return False

    def x_collections_OrderedDict(self, a, kw, st, node):
        return self.x_dict(a, kw, st, node)

    def x_collections_defaultdict(self, a, kw, st, node):
        d = mk('dict')
        if a and a[0] is not NONE:
            try:
                v = self.call_value(a[0], [], {}, st.fork(st.pc), node)
            except Unsupported:
                v = None
            if v is not None and v.op in ('num', 'str', 'bool', 'none') and v is not ZERO:
                d = mk('ddict', v)              # what a missing key stands for, if not zero or an empty container
        return self.wrap('dict', d, st)

    def x_collections_Counter(self, a, kw, st, node):
        if not a:
            return self.wrap('dict', mk('dict'), st)
        return lift(lambda s: mk('counter', s), self.freeze(self.seq_arg(a[0], st), st))

    x_typing_Counter = x_collections_Counter

    def x_int(self, a, kw, st, node):
        if not a:
            return ZERO
        return lift(lambda v: v if is_int(v) else (num(int(v.args[0])) if v.op == 'num' else mk('call', 'int', v)), a[0])

    def x_float(self, a, kw, st, node):
        if not a:
            return ZERO
        return lift(lambda v: v if v.op in ('num', 'poly', 'sum', 'len') else mk('call', 'float', v), a[0])

    def x_str(self, a, kw, st, node):
        if not a:
            return string('')
        return tostr(self.freeze(self.content(a[0], st) if self.contkind(a[0]) else a[0], st))

    def x_bool(self, a, kw, st, node):
        if not a:
            return FALSE
        return self.truthy(a[0], st)

    def x_math_floor(self, a, kw, st, node):
        return self.floor(a[0])

    def x_math_ceil(self, a, kw, st, node):
        return neg(self.floor(neg(a[0])))

    x_numpy_floor = x_math_floor
    x_numpy_ceil = x_math_ceil

    def x_math_sqrt(self, a, kw, st, node):
        return power(a[0], num(Fraction(1, 2)))

    def x_pow(self, a, kw, st, node):
        return power(a[0], a[1]) if len(a) == 2 else None

    x_math_pow = x_numpy_power = x_pow

    def x_divmod(self, a, kw, st, node):
        q = self.floor(div(a[0], a[1]))
        return tup(q, sub(a[0], mul(a[1], q)))

    def x_isinstance(self, a, kw, st, node):
        t = a[1]
        o = a[0]

        def f(x):
            k = self.contkind(x)
            tn = t.args[0] if t.op in ('ext', 'cls') else None
            if tn == 'builtins.list' and (k == 'list'):
                return TRUE
            if tn == 'builtins.list' and x.op in ('num', 'str', 'none', 'bool'):
                return FALSE
            if tn == 'builtins.dict' and k == 'dict':
                return TRUE
            if tn == 'builtins.str' and is_str(x):
                return TRUE
            return as_dd(mk('isinst', self.freeze(x, st), self.freeze(t, st)))
        return lift(f, o)

    def x_type(self, a, kw, st, node):
        if len(a) == 1:
            c = self.class_of(a[0])
            if c is not None and a[0].op == 'ref':
                return mk('cls', c.qual)
            return mk('call', 'type', self.freeze(a[0], st))
        return None

    def x_vars(self, a, kw, st, node):
        o = a[0] if a else None
        if o is None:
            return self.locals_dict(st)
        if o.op in ('res', 'mres'):
            # the attribute dictionary of an object obtained from outside: a mutable container of its own
            r = st.heap.get(('v', o))
            if r is None:
                r = st.heap[('v', o)] = self.wrap('dict', mk('call', 'vars', o), st)
            return r
        return mk('call', 'vars', self.freeze(o, st) if o.op == 'ref' and not self.class_of(o) else obj_ident(self, o))

    def x_getattr(self, a, kw, st, node):
        if a[1].op == 'str':
            v = self.read_attr(a[0], a[1].args[0], st, node)
            if len(a) == 3:
                return ite(as_dd(mk('batom', 'hasattr', self.freeze(a[0], st), a[1])), v, a[2])
            return v
        if a[1].op == 'ite':
            return lift(lambda n_: self.x_getattr([a[0], n_] + list(a[2:]), kw, st, node), a[1])
        return mk('call', 'getattr', *[self.freeze(x, st) for x in a])

    def x_hasattr(self, a, kw, st, node):
        return as_dd(mk('batom', 'hasattr', self.freeze(a[0], st), a[1]))

    def x_setattr(self, a, kw, st, node):
        o, n_, v = a
        if n_.op == 'str':
            self.write_attr(o, n_.args[0], v, st, node)
            return NONE
        if o.op == 'ite':
            return self.branch(as_dd(o.args[0]), lambda s: self.x_setattr([o.args[1], n_, v], kw, s, node),
                               lambda s: self.x_setattr([o.args[2], n_, v], kw, s, node), st)
        writes = self.repo.attribute_locations()
        if any(x.op in ('attr', 'attrv') and x.args[1] == 'multi_phase_params' for x in subterms(n_)):
            writes = self.repo.parameter_locations()       # named after a parameter of the simulation
        self.emit('setattr', [o, n_, v], st, reads=['*'], writes=writes, node=node)
        self.havoc(st, frozenset(writes))
        return NONE

    def x_copy_deepcopy(self, a, kw, st, node):
        o = a[0]

        def f(x):
            if x.op == 'ref' and x.args[1] in ('list', 'dict', 'set'):
                return self.wrap(x.args[1], st.heap[('c', x)], st)
            if x.op in ('num', 'str', 'none', 'bool', 'poly'):
                return x
            return mk('dcopy', x)
        r = lift(f, o)
        if r.op == 'dcopy' and self.contkind(r.args[0]) == 'dict' and r.args[0].op != 'ref':
            c = self.content(r.args[0], st)
            return self.wrap('dict', mk('dcopy', c), st)
        return r

    def x_copy_copy(self, a, kw, st, node):
        o = a[0]
        k = self.contkind(o)
        if o.op == 'ref' and k:
            return self.wrap(k, st.heap[('c', o)], st)
        if k in ('list', 'dict', 'set'):
            return self.wrap(k, mk_copy(self.content(o, st)), st)
        return mk('scopy', self.freeze(o, st))

    def x_functools_partial(self, a, kw, st, node):
        return mk('partial', a[0], tup(*a[1:]), tup(*[tup(string(k), v) for k, v in sorted(kw.items())]))

    def x_map(self, a, kw, st, node):
        if len(a) != 2:
            return None
        # as a generator expression that calls the function on each element
        name = '__map%d_%d' % (node.lineno, node.col_offset)
        g = ast.comprehension(target=ast.Name(name, ast.Store()), iter=node, ifs=[], is_async=0)
        e = ast.copy_location(ast.GeneratorExp(node, [g]), node)
        if not self.frames:
            self.fake_frame()
        sub = st.fork()
        r = self.comp_over(self.seq_arg(a[1], st), e, sub, lambda s: self.call_value(
            a[0], [s.env[(self.frames[-1].fid, name)]], {}, s, node), 0)
        self.sync(st, sub)
        return r

    def x_filter(self, a, kw, st, node):
        s = self.seq_arg(a[1], st)

        def f(q):
            it = iterate(q)
            if it.items is not None:
                return mk('call', 'filter', q)
            c = self.truthy(it.elt if a[0].op == 'none' else self.call_value(a[0], [it.elt], {}, st, node), st)
            return seq_close(it.n, it.x, it.elt, and_(it.filt, c))
        return lift(f, s)

    def x_numpy_array(self, a, kw, st, node):
        if len(a) != 1:
            return None
        s = self.seq_arg(a[0], st)
        return lift(lambda q: q if q.op == 'arr' else mk('arr', q), self.freeze(s, st))

    x_numpy_asarray = x_numpy_array

    def x_numpy_fromiter(self, a, kw, st, node):
        return self.x_numpy_array(a[:1], {}, st, node)

    def x_numpy_zeros(self, a, kw, st, node):
        return mk('arr', seq(a[0], lambda i: ZERO)) if a[0].op not in ('tup', 'ref') else None

    def x_numpy_append(self, a, kw, st, node):
        x, y = [self.freeze(self.seq_arg(v, st), st) for v in a[:2]]
        un = lambda q: q.args[0] if q.op == 'arr' else q
        return mk('arr', catseq(un(x), un(y)))

    def x_numpy_argmax(self, a, kw, st, node):
        s = self.freeze(self.seq_arg(a[0], st), st)
        if s.op == 'arr':
            s = s.args[0]
        if s.op == 'seq':
            it = iterate(s)
            if it.items is None and it.filt is TRUE and is_bool(as_dd(it.elt)):
                c = as_dd(it.elt)
                ex = gt0(sum_close(it.n, it.x, ite(c, ONE, ZERO)))
                fi = mk('call', 'firstidx', it.n, close(it.x, c))
                return ite(ex, fi, ZERO)
        return mk('call', 'argmax', s)

    def x_argparse_ArgumentParser(self, a, kw, st, node):
        return mk('res', 'argparse.ArgumentParser', tup())

    def x_numpy_searchsorted(self, a, kw, st, node):
        # on a sorted sequence: the first index with an element >= v (left) or > v (right); like argmax, 0 if none
        side = kw.get('side', a[2] if len(a) > 2 else string('left'))
        s = self.freeze(self.seq_arg(a[0], st), st)
        v = self.freeze(a[1], st)
        if s.op == 'arr':
            s = s.args[0]
        if side.op == 'str' and side.args[0] in ('left', 'right') and v.op not in ('ite', 'arr', 'seq', 'tup'):
            it = iterate(s)
            if it.items is None and it.filt is TRUE:
                d = sub(it.elt, v)
                c = as_dd(gt0(d)) if side.args[0] == 'right' else not_(gt0(sub(ZERO, d)))
                ex = gt0(sum_close(it.n, it.x, ite(c, ONE, ZERO)))
                return ite(ex, mk('call', 'firstidx', it.n, close(it.x, c)), ZERO)
        return None

    def x_numpy_cumsum(self, a, kw, st, node):
        s = self.freeze(self.seq_arg(a[0], st), st)
        it = iterate(s)
        if it.items is None and it.filt is TRUE:
            y = fresh()
            return mk('arr', seq_close(it.n, it.x, sum_close(add(it.x, ONE), y, subst(it.elt, {it.x: y}))))
        return None

    def x_itertools_accumulate(self, a, kw, st, node):
        if len(a) != 1 or kw:
            return None
        r = self.x_numpy_cumsum(a, kw, st, node)
        return r.args[0] if r is not None else None

    def x_itertools_chain(self, a, kw, st, node):
        return catseq(*[self.seq_arg(x, st) for x in a])

    def x_sortedcontainers_SortedList(self, a, kw, st, node):
        s = self.seq_arg(a[0], st) if a else tup()
        key = self.key_term(kw.get('key', a[1] if len(a) > 1 else None), st, node)
        return self.wrap('slist', mk_slist(self.freeze(s, st), key), st)

    x_sortedcontainers_SortedKeyList = x_sortedcontainers_SortedList

    def x_round(self, a, kw, st, node):
        nd = a[1] if len(a) > 1 else kw.get('ndigits')
        if nd is None:
            return lift(lambda v: v if is_int(v) else mk('call', 'roundint', v), a[0])
        return lift(lambda v: mk('call', 'round', v, nd), a[0])

    def x_format(self, a, kw, st, node):
        return self.fmt(self.freeze(a[0], st), a[1]) if len(a) == 2 else tostr(self.freeze(a[0], st))

    def x_operator_attrgetter(self, a, kw, st, node):
        return mk('getter', 'attr', *a)

    def x_pathlib_Path(self, a, kw, st, node):
        if len(a) == 1:
            return mk('path', a[0]) if is_str(a[0]) else self.freeze(a[0], st)
        if not a:
            return None
        r = self.freeze(a[0], st)
        for x in a[1:]:
            r = mk('path', r, self.freeze(x, st))
        return r

    def x_time_time(self, a, kw, st, node):
        return mk('call', 'time.time')


PURE_EXT = {'matplotlib.pyplot', 'seaborn.color_palette', 'ast.literal_eval', 'os.path.join', 'os.path.exists',
            'os.getcwd', 'json.load', 'json.loads', 'csv.reader', 'multiprocessing.cpu_count'}
PURE_METHODS = {'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'index', 'count', 'get', 'keys', 'values',
                'items', 'copy', 'mean', 'max', 'min', 'std', 'sum', 'tell', 'get_model_vars_dataframe', 'format',
                'replace', 'join', 'tolist', 'bisect', 'bisect_left', 'bisect_right', 'bisect_key_left', 'find'}
CANON = {'amax': 'max', 'amin': 'min'}


def obj_ident(interp, o):
    return mk('newobj', o.args[1]) if o.op == 'ref' else o


def dec_base(b):
    return b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', None)


def is_abstract(node):
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and 'NotImplementedError' in ast.dump(body[0])


def root_name(t):
    while t.op in ('attr', 'attrv', 'mres', 'res', 'call', 'at', 'mcall'):
        if t.op in ('attr', 'attrv'):
            return t.args[1]
        nxt = [x for x in t.args if isinstance(x, T)]
        if t.op == 'call':
            return t.args[0]
        if not nxt:
            break
        t = nxt[0]
    return t.op + t.od.hex()[:6]


def mk_slist(elems, key):
    def f(s):
        parts = list(s.args) if s.op == 'catseq' else [s]
        parts = [p for p in parts if not (p.op == 'tup' and not p.args)]
        flat = []
        for p in parts:
            if p.op == 'tup':
                flat += [tup(x) for x in p.args]
            elif p.op == 'slist' and p.args[1] is key:
                flat += list(p.args[0].args) if p.args[0].op == 'catseq' else [p.args[0]]
            else:
                flat.append(p)
        flat.sort(key=lambda t: t.od)
        e = mk('bag', *flat) if len(flat) != 1 else flat[0]
        return mk('slist', e, key)
    return lift(f, elems)


def dcget(c, k, interp):
    if c.op == 'dcopy':
        return interp.dcopy_of(dcget(c.args[0], k, interp))
    return dget(c, k)


def mk_lset(c, k, v):
    def f(s, i):
        if s.op == 'tup' and i.op == 'num' and 0 <= i.args[0] < len(s.args):
            j = int(i.args[0])
            return tup(*(s.args[:j] + (v,) + s.args[j + 1:]))
        return mk('dset', s, i, v)
    return lift(f, c, k)
