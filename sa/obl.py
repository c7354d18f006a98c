"""Obligations: what has to be shown of the source, and how one is decided."""
import ast
from .repo import Repo
from .exprs import Interp
from .interp import Unsupported
from .terms import *
from .compare import check_pair, limited, Timeout, Outcome, EQUAL, DIFFERENT, UNKNOWN, tshow


class Eq:
    """function `impl` has the meaning of the reference `spec` (value and effects, or a projection of them)"""
    kind = 'equals-reference'

    def __init__(self, impl, spec, selfcls=None, keep=None, value=True, effects=True, result=None, defaults=(),
                 limit=90, note='', kind=None, internal=False, assume=None):
        self.impl, self.spec, self.selfcls = impl, 'spec.' + spec, selfcls
        self.keep, self.value, self.effects, self.result = keep, value, effects, result
        self.defaults, self.limit, self.note, self.fkind, self.internal = defaults, limit, note, kind, internal
        self.assume = assume

    @property
    def name(self):
        n = self.impl + (' [%s]' % self.selfcls.split('.')[-1] if self.selfcls else '')
        return n + (' (%s)' % self.note if self.note else '')

    def run(self, ctx):
        repo = ctx.repo
        f = ctx.find(self.impl, self.fkind)
        g = repo.find_function(self.spec)
        if g is None:
            raise RuntimeError('no reference ' + self.spec)
        notes = {a.arg: a.annotation for a in g.node.args.args}
        NUMBERS.clear()
        NUMBERS.update(mk('param', 'p%d' % i, '') for i, p in enumerate(g.params())
                       if isinstance(notes.get(p), ast.Name) and notes[p].id == 'float')
        if f is None:
            return Outcome(UNKNOWN, 'function %s not found' % self.impl), {'functions': set()}
        cls = repo.classes.get(self.selfcls or self.impl.rsplit('.', 1)[0]) or f.cls
        out, info = check_pair(repo, f, g, ctx.boundary(), selfcls=cls, keep=self.keep, value=self.value,
                               effects=self.effects, result=self.result, limit=self.limit, refs=ctx.refs,
                               pre=self.make_pre(g))
        if out.verdict == EQUAL and self.defaults:
            d = self.check_defaults(repo, f, g)
            if d:
                out = d
        if out.loc is None and out.verdict != EQUAL:
            out.loc = (f.mod.relpath, f.node.lineno, f.qual)
        return out, info

    def make_pre(self, g):
        if not self.assume:
            return None
        pos = {p: 'p%d' % i for i, p in enumerate(g.params())}
        vals = {pos[p]: v for p, v in self.assume.items()}

        def pre(interp, args, st):
            for i, t in enumerate(args):
                if t.op == 'param' and t.args[0] in vals:
                    v = vals[t.args[0]]
                    if callable(v):
                        st.pc = v(t)         # what all callers guarantee
                    else:
                        args[i] = v
        return pre

    def check_defaults(self, repo, f, g):
        df, dg = defaults_of(repo, f), defaults_of(repo, g)
        for p in self.defaults:
            if p in df and df.get(p) is not dg.get(p):
                return Outcome(DIFFERENT, '', None, ['default of parameter %s: source has %s, required %s' % (
                    p, tshow(df.get(p)), tshow(dg.get(p)))])


def defaults_of(repo, f):
    a = f.node.args
    names = f.params()
    out = {}
    for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
            (p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        out[p] = Interp(repo).const_expr(d, f.mod)
    return out


class Table:
    """module level value equals the reference value"""
    kind = 'table-equals-reference'

    def __init__(self, impl, spec, project=None, note=''):
        self.impl, self.spec, self.project, self.note = impl, 'spec.' + spec, project, note

    @property
    def name(self):
        return self.impl

    def run(self, ctx):
        a, b = ctx.glob(self.impl), ctx.glob(self.spec)
        info = {'functions': set()}
        if a is None:
            return Outcome(UNKNOWN, 'name %s not found' % self.impl), info
        if self.project:
            a, b = self.project(a), self.project(b)
        if sort_dict(a) is sort_dict(b):
            return Outcome(EQUAL), info
        if contains_op(a, {'glob', 'err', 'ext'}) and not contains_op(b, {'glob'}):
            return Outcome(UNKNOWN, 'value cannot be read off the source'), info
        mod, nm = self.impl.rsplit('.', 1)
        m = ctx.repo.modules[mod]
        node = m.globals[nm]
        det = []
        if a.op == 'dict' and b.op == 'dict':
            da, db = {kv.args[0]: kv.args[1] for kv in a.args}, {kv.args[0]: kv.args[1] for kv in b.args}
            for k in list(db) + [k for k in da if k not in db]:
                if da.get(k) is not db.get(k):
                    det.append('entry %s: source has %s, required %s' % (show(k), tshow(da.get(k)), tshow(db.get(k))))
        else:
            det.append('source has %s, required %s' % (tshow(a), tshow(b)))
        return Outcome(DIFFERENT, '', (m.relpath, node.lineno, nm), det), info


def sort_dict(t):
    if t.op == 'dict':
        return mk('dict', *sorted(t.args, key=lambda kv: kv.od))
    return t


class Rule:
    """custom analysis: fn(ctx) -> (list of (loc, text), number of places examined, list of undecided reasons)"""

    def __init__(self, name, kind, fn, minimum=1):
        self.name, self.kind, self.fn, self.minimum = name, kind, fn, minimum
        self.impl = None

    def run(self, ctx):
        bad, n, und = self.fn(ctx)
        info = {'functions': set(), 'places': n}
        if bad:
            return Outcome(DIFFERENT, '', bad[0][0], [t for _, t in bad]), info
        if und:
            return Outcome(UNKNOWN, '; '.join(und)), info
        if n < self.minimum:
            return Outcome(UNKNOWN, 'only %d of at least %d places found' % (n, self.minimum)), info
        return Outcome(EQUAL), info


class Context:
    # accessors that are always looked into
    TRIVIAL = {"get_pools_list", "get_agents_dict", "get_agents_list", "k", "margin"}

    def __init__(self, repo, boundary, refs):
        self.repo, self._b, self.refs = repo, boundary, refs

    def boundary(self):
        return self._b

    def find(self, qual, kind=None):
        """function by qualified name; if it moved, the only function of that name"""
        parts = qual.split('.')
        if kind:
            c = self.repo.classes.get('.'.join(parts[:-1]))
            f = self.repo.lookup(c, parts[-1], kind) if c else None
            if f is not None:
                return f
        f = self.repo.find_function(qual)
        if f is not None and not kind:
            return f
        cands = []
        for mn in self.repo.impl_modules:
            m = self.repo.modules[mn]
            cands += [x for n, x in m.functions.items() if n == parts[-1]]
            for c in m.classes.values():
                cands += [x for n, x in getattr(c, kind or 'methods').items() if n == parts[-1]]
        return cands[0] if len(cands) == 1 else None

    def obligations_for(self, names, obs):
        return [k for k, o in obs.items() if isinstance(o, Eq) and o.impl.rsplit('.', 1)[-1] in names]

    def glob(self, qual):
        mod, name = qual.rsplit('.', 1)
        m = self.repo.modules.get(mod)
        if m is None:
            return None
        r = self.repo.resolve(m, name)
        if r is None or r[0] != 'glob':
            return None
        return Interp(self.repo).global_value(r[1], r[2])

    @classmethod
    def build(cls, repo, obs, trivial=()):
        """boundary: every function with a reference; refs: the reference of a function where it is unique"""
        refs, dup, b = {}, set(), set()
        ctx = cls(repo, b, refs)
        for o in obs.values():
            if not isinstance(o, Eq) or o.keep and not getattr(o.keep, 'minor', False) or o.result or not (o.value and o.effects):
                continue
            f, g = ctx.find(o.impl, o.fkind), repo.find_function(o.spec)
            if f is None:
                continue
            b.add(f.qual)
            if f.qual in refs and refs[f.qual] is not g:
                dup.add(f.qual)
            refs[f.qual] = g
        for q in dup:
            del refs[q]
        b -= set(trivial) | {q for q in b if q.rsplit(".", 1)[-1] in cls.TRIVIAL}
        return ctx
