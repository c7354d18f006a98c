"""Abstract interpreter: reads function bodies (syntax trees) and produces value terms and effect traces.

Calls into the repository are followed (inlined) unless the receiver's class is unknown and several classes define the
method, in which case they stay symbolic.  Nothing of the repository is imported or run.
"""
import ast
import re
from fractions import Fraction
from .terms import *
from . import terms as tm
from .repo import FuncInfo, ClassInfo, Module


class Unsupported(Exception):
    def __init__(self, why, node=None):
        super().__init__(why)
        self.why, self.node = why, node


# fields whose content is a container (inferred from constructors where possible, see Interp._infer_kinds)
DICT_FIELDS = {'pools', 'stake_allocations', 'owned_pools', 'delegators', 'multi_phase_params', '_agents', 'model_vars'}
LIST_FIELDS = {'equilibrium_steps', 'pivot_steps', 'agents', 'pool_rankings', 'pool_rankings_myopic', 'rankings'}
SORTED_FIELDS = {'pool_rankings', 'pool_rankings_myopic', 'rankings'}
KEY_FIELDS = ('desirability', 'potential_profit', 'id', 'stake', 'pledge', 'cost', '_margin', 'k', '_k', 'a0',
              'global_saturation_threshold', 'reward_scheme')

PURE_PREFIX = ('math.', 'numpy.', 'statistics.', 'collections.', 'itertools.', 'functools.', 'operator.', 'pathlib.',
               'heapq.', 'copy.', 'time.', 'pandas.', 'typing.', 'json.dumps', 'json.loads', 'sortedcontainers.',
               'mesa.time.', 'mesa.datacollection.', 'argparse.ArgumentTypeError')
PURE_BUILTINS = {'len', 'sum', 'max', 'min', 'abs', 'round', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict',
                 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'any', 'all', 'isinstance',
                 'map', 'filter', 'type', 'vars', 'hasattr', 'getattr', 'repr', 'iter', 'next', 'divmod', 'pow', 'id',
                 'hash', 'callable', 'issubclass', 'slice', 'locals', 'object', 'super', 'setattr', 'print', 'complex',
                 'format', 'bytes', 'ord', 'chr', 'delattr', 'dir', 'globals', 'property'}
EXC_NAMES = {'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'NotImplementedError',
             'RuntimeError', 'FileNotFoundError', 'ZeroDivisionError', 'Exception', 'StopIteration', 'OSError',
             'FileExistsError', 'AssertionError', 'ArithmeticError', 'LookupError', 'IOError'}


class Ev:
    __slots__ = ('kind', 'guard', 'args', 'reads', 'writes', 'loc', 'body', 'binders', 'term')

    def __init__(self, kind, guard, args, reads=(), writes=(), loc=None, body=None):
        self.kind, self.guard, self.args = kind, guard, list(args)
        self.reads, self.writes = frozenset(reads), frozenset(writes)
        self.loc, self.body, self.binders, self.term = loc, body, None, None

    def __repr__(self):
        g = '' if self.guard is TRUE else '[if %s] ' % show(self.guard)
        if self.kind == 'loop':
            return g + 'loop over %s: {%s}' % (', '.join(show(a) for a in self.args[:1]),
                                               '; '.join(map(repr, self.body)))
        return '%s%s(%s)' % (g, self.kind, ', '.join(show(a) for a in self.args))


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env=None, heap=None, pc=TRUE):
        self.env, self.heap, self.pc = env or {}, heap or {}, pc

    def fork(self, pc=None):
        return State(dict(self.env), dict(self.heap), self.pc if pc is None else pc)

    def become(self, o):
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


class Frame:
    def __init__(self, fid, fn, base, parent=None):
        self.fid, self.fn, self.base = fid, fn, base
        self.returns = []
        self.loops = []
        self.parent = parent  # lexical parent frame id (closures)
        self.cls = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues, self.ret_start = [], [], 0


class Closure:
    def __init__(self, fn, fid, node, mod, cls, selfcls):
        self.fn, self.fid, self.node, self.mod, self.cls, self.selfcls = fn, fid, node, mod, cls, selfcls


def opaque_name(repo, fn):
    """name of a function that stays symbolic; a method of the same name is something else"""
    return fn.name + '/f' if fn.cls is None and fn.name in repo.by_method else fn.name


class Summary:
    def __init__(self, result, events, state, interp, fn):
        self.result, self.events, self.state, self.interp, self.fn = result, events, state, interp, fn


def kwdefaults(a):
    return {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


def param_positions(names, order, ndef):
    """which parameter of the reference a parameter corresponds to: same name, otherwise the first free one; extra
    parameters with a default value are left to their default"""
    if order is None:
        return {p: i for i, p in enumerate(names)}
    pos = {p: order.index(p) for p in names if p in order}
    free = [i for i in range(len(order)) if i not in pos.values()]
    for j, p in enumerate(names):
        if p not in pos:
            if free and (j < len(names) - ndef or len(names) == len(order)):
                pos[p] = free.pop(0)
            elif j < len(names) - ndef:
                pos[p] = 100 + j
    return pos


def fold_returns(rets):
    """[(pc, value)] -> one conditional value (the last one is the default)"""
    if not rets:
        return UNDEF
    r = rets[-1][1]
    for pc, v in reversed(rets[:-1]):
        r = ite(pc, v, r)
    return r


class Interp:
    def __init__(self, repo, opaque=(), max_depth=25, redirect=None):
        self.repo = repo
        self.given = TRUE     # what the callers guarantee
        self.split_memo = {}
        self.redirect = redirect or {}    # functions that are replaced by their reference when they are followed
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.nid = 0
        self.objs = {}        # ref id -> info
        self.clos = {}
        self.traces = [[]]
        self.frames = []
        self.stack = []
        self.loop_markers = []
        self.node_loc = None
        self.visited = set()      # functions analysed
        self.calls = 0
        self.selfclass = {}       # term -> ClassInfo for symbolic objects of known class
        self.self_concrete = True
        self.lost = []            # notes about approximations
        self.assume_attr = {}
        self.tok_memo = {}
        self.escaped = {}
        self.bases = [[]]
        self.entry = {}           # trace level -> condition under which the loop above it was entered

    # ----------------------------------------------------------------------------------------------------------------
    def fail(self, why, node=None):
        raise Unsupported(why, node)

    def newid(self):
        self.nid += 1
        return self.nid

    def new_ref(self, kind, content, st):
        r = mk('ref', self.newid(), kind)
        st.heap[('c', r)] = content
        return r

    def new_inst(self, cls, st):
        r = mk('ref', self.newid(), 'inst:' + cls.qual)
        self.selfclass[r] = cls
        return r

    # ----------------------------------------------------------------------------------------------------------------
    # events and versions

    def emit(self, kind, args, st, reads=(), writes=(), node=None):
        raw, args = args, [self.freeze(a, st) for a in args]
        for a in raw:
            for r in subterms(a):
                if r.op == 'ref' and r.args[1].startswith('inst:') and r not in self.escaped:
                    self.escaped[r] = mk('escobj', self.freeze(r, st))
        g = self.cur_guard(st)
        e = Ev(kind, g, args, reads, writes, self.loc(node))
        self.traces[-1].append(e)
        return e

    def cur_guard(self, st):
        g = st.pc
        for b in self.bases[-1]:
            g = and_(b, g)
        return g

    def loc(self, node):
        f = self.frames[-1].fn if self.frames else None
        ln = getattr(node, 'lineno', None)
        if f is None:
            return None
        return (f.mod.relpath, ln or f.node.lineno, f.qual)

    def relevant(self, locs, st=None):
        """earlier events that may have written one of the locations (tokens for versioned reads)"""
        out = []
        if locs and all(l.startswith('f:') and l[2:] not in self.repo.unstable_fields() for l in locs):
            return out
        star = '*'
        if locs and locs <= {'c:_agents', 'c:agents'} and self.repo.fixed_agents():
            star = None                   # whatever else an agent does, it does not add or remove agents
        for i, tr in enumerate(self.traces):
            if st is None:
                g = None
            elif tr is self.traces[-1]:
                g = self.cur_guard(st)
            else:
                g = self.entry.get(i)         # condition under which the enclosing loop was entered
            for e in tr:
                if e.kind == 'loophead':
                    if e.writes & locs or star in e.writes:
                        out.append(e)
                    continue
                if not (e.writes & locs or star in e.writes):
                    continue
                if g is not None and and_(e.guard, g) is FALSE:
                    continue
                if g is not None and g is not TRUE and e.kind in SPLIT_KINDS and e.args and e.args[-1].op == 'ite':
                    out += [x for x in self.split_event(e) if and_(x.guard, g) is not FALSE]
                    continue
                out.append(e)
        return out

    def split_event(self, e):
        hit = self.split_memo.get(id(e))
        if hit is None:
            parts = split_leaves(e.args[-1], e.guard)
            hit = self.split_memo[id(e)] = (e, [e] if len(parts) < 2 else [
                Ev(e.kind, g, e.args[:-1] + [v], e.reads, e.writes, e.loc) for g, v in parts])
        return hit[1]

    def token(self, evs):
        heads = [self.ev_term(e) for e in evs if e.kind == 'loophead']
        rest = [e for e in evs if e.kind != 'loophead']
        if len(rest) > 1 or any(e.kind in SPLIT_KINDS for e in rest):
            key = tuple(id(e) for e in rest)
            hit = self.tok_memo.get(key)
            if hit is None:
                hit = self.tok_memo[key] = (rest, order_events(self, [e for e in merge_sets(self, rest)
                                                                      if e.guard is not FALSE]))
            rest = hit[1]
        return mk('tok', *(heads + [self.ev_term(e) for e in rest]))

    def ev_term(self, e):
        if e.term is not None:
            return e.term
        if e.kind == 'loophead':
            return mk('loophead')
        if e.kind == 'loop':
            body = order_events(self, merge_sets(self, e.body))
            payload = tup(*([self.ev_term(x) for x in body] + list(e.args[1:])))
            for v in reversed(e.binders):
                payload = close(v, payload)
            e.term = mk('ev', 'loop', e.guard, e.args[0], payload)
        else:
            e.term = mk('ev', e.kind, e.guard, *[dc(e.guard, a) for a in e.args])
        return e.term

    # ----------------------------------------------------------------------------------------------------------------
    # heap

    def contkind(self, t):
        """dict | list | slist | None"""
        if t.op == 'ite':
            ks = {self.contkind(x) for x in leaves(t)}
            return ks.pop() if len(ks) == 1 else None
        if t.op == 'ref':
            k = t.args[1]
            return k if k in ('list', 'dict', 'set', 'slist') else None
        if t.op in ('dict', 'dictmap', 'dset', 'ddel', 'groupsum', 'dupd', 'ddict', 'counter'):
            return 'dict'
        if t.op in ('seq', 'tup', 'catseq', 'sorted', 'slice', 'keys', 'reversed', 'arr'):
            return 'list'
        if t.op in ('attr', 'attrv'):
            if t.args[1] in DICT_FIELDS:
                return 'dict'
            if t.args[1] in SORTED_FIELDS:
                return 'slist'
            if t.args[1] in LIST_FIELDS:
                return 'list'
        if t.op in ('dcopy', 'ver', 'copy'):
            return self.contkind(t.args[0])
        if t.op in ('set', 'setdiff', 'setint', 'setuni'):
            return 'set'
        if t.op == 'param' and t.args[1] in DICT_FIELDS:
            return 'dict'
        if t.op == 'call' and t.args[0] == 'vars':
            return 'dict'
        if t.op == 'bv' and t in self.phikind:
            return self.phikind[t]
        return None

    def content(self, t, st):
        """functional content of a container value (reads through fresh references, adds version tokens)"""
        if t.op == 'ite':
            return lift(lambda x: self.content(x, st), t)
        if t.op == 'ref':
            c = st.heap.get(('c', t))
            if c is None:
                return mk('lostref')
            return c
        if t.op in ('attr', 'attrv', 'param', 'at', 'dcopy') and self.cloc(t):
            locs = frozenset(self.cloc(t))
            ev = self.relevant(locs, st)
            if ev:
                if t.op == 'param' and st is not None:
                    c = self.folded(t, ev, st)
                    if c is not None:
                        return c
                return mk('ver', t, self.token(ev))
        return t

    def folded(self, t, ev, st):
        """content of a parameter after plain dictionary updates on all paths to this point"""
        g, c = self.cur_guard(st), t
        for e in ev:
            if e.kind == 'update' and len(e.args) == 2 and e.args[0] is t and self.contkind(e.args[1]) == 'dict':
                c2 = mk_dupd(c, e.args[1])
            elif e.kind == 'setitem' and e.args[0] is t:
                c2 = mk_dupd(c, mk('dict', tup(e.args[1], e.args[2])))
            else:
                return None
            if and_(not_(e.guard), g) is not FALSE:
                return None
            c = c2
        return c

    def passed(self, v, st):
        """an argument of a call: a parameter that was updated is passed on with its new content"""
        if v.op == 'param':
            c = self.content(v, st)
            if c.op != 'ver':
                return self.freeze(c, st)
        return self.freeze(v, st)

    def cloc(self, t):
        """abstract location names of an external container"""
        if t.op in ('attr', 'attrv'):
            f = t.args[1]
            if f == 'rankings':
                return ('c:pool_rankings', 'c:pool_rankings_myopic')
            return ('c:' + f,)
        if t.op == 'param':
            return ('c:' + (t.args[1] or '?'),)
        if t.op == 'dcopy':
            return ('c:dcopy:' + '/'.join(self.cloc(t.args[0]) or ()),)
        if t.op == 'ver':
            return self.cloc(t.args[0])
        if t.op == 'at':
            return ('c:elem',)
        return ('c:?',)

    def read_attr(self, o, name, st, node=None):
        if o.op == 'ite':
            return lift(lambda x: self.read_attr(x, name, st, node), o)
        o0 = o
        if o.op == 'mod':
            return self.mod_attr(o.args[0], name, st)
        if o.op == 'ext':
            return mk('ext', o.args[0] + '.' + name)
        if o.op == 'super':
            return mk('bound', name, o)
        if o.op == 'cls':
            c = self.repo.classes[o.args[0]]
            m = self.repo.lookup(c, name)
            if m:
                return mk('fn', m.qual)
            a = self.repo.lookup(c, name, 'attrs')
            if a is not None:
                return self.const_expr(a, c.mod)
            if name == '__name__':
                return string(c.name)
            return mk('attr', o, name)
        if o.op == 'none':
            return mk('err', 'AttributeError')
        # property?
        cls = self.class_of(o)
        if cls is not None:
            g = self.repo.lookup(cls, name, 'getters')
            if g is not None:
                return self.call_fn(g, [o], {}, st, node)
            if ('f', o, name) not in st.heap:
                a = self.repo.lookup(cls, name, 'attrs')
                if a is not None:
                    return self.const_expr(a, cls.mod)
                m = self.repo.lookup(cls, name)
                if m is not None:
                    return mk('bound', name, o)
        else:
            g = self.repo.getters.get(name)
            if g is not None and len(g) == 1 and not (o.op == 'ref'):
                return self.call_fn(g[0], [o], {}, st, node)
            if g is None and o.op in ('param', 'attr', 'attrv', 'at', 'bv') and self.repo.only_method(name):
                return mk('bound', name, o)
        return self.read_field(o, name, st)

    def read_field(self, o, name, st):
        v = st.heap.get(('f', o, name))
        if v is not None:
            return v
        if o.op == 'ref':
            v = self.built.get(o, {}).get(name)
            if v is not None:
                return v
            return mk('attr', mk('newobj', o.args[1]), name)
        if o.op == 'obj':
            for kv in o.args[1:]:
                if kv.args[0].args[0] == name:
                    return kv.args[1]
            return mk('attr', o, name)
        if o.op == 'dcopy':
            # scalars of a deep copy equal those of the original; containers are copied as well
            inner = self.read_field(o.args[0], name, st)
            if not self.written(o, name, st):
                return self.dcopy_of(inner)
        if o.op == 'err':
            return o
        ev = self.relevant(frozenset(['f:' + name]), st)
        ev = [e for e in ev if not (e.kind == 'set' and self.cannot_alias(e.args[0], o))]
        if ev:
            v = self.stored_by_loop(ev[-1], o, name, st)
            return mk('attrv', o, name, self.token(ev)) if v is None else v
        if o.op == 'at' and o.args[0].op == 'dictmap':
            # the attribute that a dictionary of objects was built by is the key looked up
            x = fresh()
            k, val, _ = open_(o.args[0].args[1], x)
            if k is mk('attr', val, name):
                return o.args[1]
        return mk('attr', o, name)

    def stored_by_loop(self, e, o, name, st):
        """value of a field that the loop e has set for every element of a sequence, o being one of them"""
        if e.kind != 'loop' or o.op != 'at' or len(e.binders) != 1 or len(e.args) != 2 or e.args[1] is not FALSE:
            return None
        if e.guard is not TRUE and (e not in self.traces[-1] or
                                    and_(self.cur_guard(st), not_(e.guard)) is not FALSE):
            return None
        x, S = e.binders[0], o.args[0]
        if e.args[0] is not length(S):
            return None
        w = [b for b in e.body if 'f:' + name in b.writes or '*' in b.writes]
        if len(w) != 1 or w[0].kind != 'set' or w[0].guard is not TRUE or w[0].args[0] is not mk('at', S, x) or \
                w[0].args[1].args[0] != name:
            return None
        return subst(w[0].args[2], {x: o.args[1]})

    def written(self, o, name, st):
        return any(not (e.kind == 'set' and self.cannot_alias(e.args[0], o))
                   for e in self.relevant(frozenset(['f:' + name]), st))

    def dcopy_of(self, v):
        if v.op == 'ite':
            return lift(self.dcopy_of, v)
        k = self.contkind(v)
        if v.op in ('num', 'str', 'none', 'bool', 'poly'):
            return v
        if v.op == 'attr' and v.args[1] not in DICT_FIELDS | LIST_FIELDS | {'strategy', 'new_strategy', 'model'}:
            return v
        return mk('dcopy', v)

    def cannot_alias(self, a, b):
        if a is b:
            return False
        fa, fb = self.is_fresh(a), self.is_fresh(b)
        if fa or fb:
            return True
        ca, cb = self.class_of(a), self.class_of(b)
        if ca is not None and cb is not None and ca not in self.repo.mro(cb) and cb not in self.repo.mro(ca):
            return True
        return False

    def is_fresh(self, o):
        return o.op in ('ref', 'newobj', 'obj')

    def class_of(self, o):
        c = self.selfclass.get(o)
        if c is not None:
            return c
        if o.op in ('ref', 'newobj') and str(o.args[-1]).startswith('inst:'):
            return self.repo.classes.get(o.args[-1][5:])
        if o.op == 'obj':
            return self.repo.classes.get(o.args[0])
        return None

    def write_attr(self, o, name, v, st, node=None):
        if o.op == 'ite':
            c = as_dd(o.args[0])
            a, b = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
            if a.pc is not FALSE:
                self.write_attr(o.args[1], name, v, a, node)
            if b.pc is not FALSE:
                self.write_attr(o.args[2], name, v, b, node)
            pc = st.pc
            st.become(self.merge([(c, a), (not_(c), b)]))
            st.pc = pc
            return
        cls = self.class_of(o)
        if cls is not None:
            s = self.repo.lookup(cls, name, 'setters')
        else:
            ss = self.repo.setters.get(name)
            s = ss[0] if ss and len(ss) == 1 else None
        if s is not None:
            self.call_fn(s, [o, v], {}, st, node)
            return
        self.write_field(o, name, v, st, node)

    def write_field(self, o, name, v, st, node=None):
        if o.op == 'none' or o.op == 'err':
            return
        if not self.is_fresh(o):
            v = self.freeze_keep(v, st)
            if ('f', o, name) in st.heap and st.heap[('f', o, name)] is v:
                return
            for k in [k for k in st.heap if k[0] == 'f' and k[2] == name and k[1] is not o
                      and not self.cannot_alias(k[1], o)]:
                del st.heap[k]
            self.emit('set', [o, string(name), v], self.where_changed(o, name, v, st), writes=['f:' + name], node=node)
        elif o in self.escaped and st.heap.get(('f', o, name)) is not v and len(self.bases) == 1:
            self.emit('set', [self.escaped[o], string(name), v], st, writes=['f:' + name], node=node)
        st.heap[('f', o, name)] = v

    def where_changed(self, o, name, v, st):
        """a flag that a condition on the path tells apart is stored only where it has the other value"""
        v = as_dd(v) if is_bool(v) else v
        if v is not TRUE and v is not FALSE or not self.repo.flag(name):
            return st
        lit = truth(self.read_field(o, name, st))
        g = self.cur_guard(st)
        if lit.op != 'ite' or not any(x is lit.args[0] for x in subterms(g)):
            return st
        return st.fork(and_(st.pc, not_(lit) if v is TRUE else lit))

    def freeze_keep(self, v, st):
        """an escaping fresh object keeps its identity inside this analysis; its content is frozen when it is output"""
        return v

    def touched(self, r, st, node=None):
        """the container r was changed in place: whoever outside holds it sees the new content"""
        if len(self.bases) > 1 or st is None or st.pc is FALSE:
            return
        for k, v in list(st.heap.items()):
            if k[0] == 'f' and not self.is_fresh(k[1]) and self.reaches(v, r, st):
                self.emit('set', [k[1], string(k[2]), v], st, writes=['f:' + k[2]], node=node)
            elif k[0] == 'k' and not self.is_fresh(k[1]) and self.reaches(v, r, st):
                self.emit('setitem', [k[1], k[2], v], st, writes=self.cloc(k[1]), node=node)

    def reaches(self, v, r, st, seen=()):
        for t in subterms(v):
            if t.op != 'ref' or t in seen:
                continue
            if t is r:
                return True
            c = st.heap.get(('c', t))
            if c is not None and self.reaches(c, r, st, seen + (t,)):
                return True
        return False

    # freezing of references -----------------------------------------------------------------------------------------
    def freeze(self, t, st, _seen=()):
        refs = [s for s in subterms(t) if s.op == 'ref']
        if not refs:
            return t
        m = {}
        for r in refs:
            if r in _seen:
                m[r] = mk('cyc')
                continue
            m[r] = self.freeze_ref(r, st, _seen + (r,))
        return subst(t, m)

    def freeze_ref(self, r, st, seen):
        kind = r.args[1]
        if kind in ('list', 'dict', 'set', 'slist'):
            c = st.heap.get(('c', r))
            return self.freeze(c, st, seen) if c is not None else mk('lostref')
        if kind.startswith('inst:'):
            cls = self.repo.classes.get(kind[5:])
            fields = sorted((k[2], v) for k, v in st.heap.items() if k[0] == 'f' and k[1] is r)
            return mk('obj', kind[5:], *[tup(string(f), self.freeze(v, st, seen)) for f, v in fields])
        if kind == 'clo':
            return self.freeze_closure(r, st)
        return mk('lostref')

    def freeze_closure(self, r, st):
        """a function value as a term: applied to fresh variables"""
        try:
            clo = self.clos[r]
            ps = clo.fn.params()
            vs = [fresh('p') for _ in ps]
            st2 = st.fork()
            self.traces.append([])
            self.bases.append([])
            try:
                v = self.call_value(r, vs, {}, st2, None)
            finally:
                self.traces.pop()
                self.bases.pop()
            v = self.freeze(v, st2, (r,))
            for x in reversed(vs):
                v = close(x, v)
            return mk('fun', v)
        except Unsupported:
            return mk('opaquefn', clo.fn.name)

    # ----------------------------------------------------------------------------------------------------------------
    # merging

    def merge(self, alts):
        """alts: [(cond, state)], conds disjoint and (relatively) exhaustive; last one is the default"""
        alts = [(c, s) for c, s in alts if s is not None]
        if not alts:
            return None
        if len(alts) == 1:
            return alts[0][1]
        res = alts[-1][1].fork()
        pc = alts[-1][1].pc
        for c, s in reversed(alts[:-1]):
            pc = or_(pc, s.pc)
            for k in set(res.env) | set(s.env):
                a, b = s.env.get(k, UNDEF), res.env.get(k, UNDEF)
                if a is not b:
                    res.env[k] = ite(c, a, b)
            for k in set(res.heap) | set(s.heap):
                a, b = s.heap.get(k), res.heap.get(k)
                if a is b:
                    continue
                if a is None or b is None:
                    if k[0] == 'c':
                        res.heap[k] = a if b is None else b
                        continue
                    other = s if a is None else res
                    if k[0] == 'k':
                        dv = self.item_base(k[1], k[2], other)
                    elif self.is_fresh(k[1]):
                        dv = UNDEF
                    elif not any(x is k[1] for x in ()):
                        dv = self.read_base(k[1], k[2], other)
                    if a is None:
                        a = dv
                    else:
                        b = dv
                res.heap[k] = ite(c, a, b)
        res.pc = pc
        return res

    def item_base(self, o, key, st):
        return self.getitem(o, key, st)

    def read_base(self, o, name, st):
        return self.read_field(o, name, st)

    # ----------------------------------------------------------------------------------------------------------------
    # entry points

    def analyse(self, fn, selfcls=None, pre=None, order=None):
        """summary of a function for arbitrary arguments (order: the parameter names of the reference)"""
        self.nid = 0
        self.traces = [[]]
        self.bases = [[]]
        self.entry = {}           # trace level -> condition under which the loop above it was entered
        self.frames = []
        self.phikind = {}
        self.escaped = {}
        self.built = {}           # fields that a symbolic constructor copies from its arguments
        self.loop_markers = []
        st = State()
        a = fn.node.args
        args = []
        names = fn.params()
        pos = param_positions(names, order, len(a.defaults))
        names = [p for p in names if p in pos]
        kwargs = {}
        for i, p in enumerate(names):
            if i == 0 and fn.cls is not None and not fn.is_static or (i == 0 and p == 'self'):
                t = mk('param', 'self', 'self')
                c = selfcls or fn.cls
                if c is not None:
                    self.selfclass[t] = c
            else:
                t = mk('param', 'p%d' % pos[p], p if p in DICT_FIELDS else '')
            args.append(t)
            kwargs[p] = t
        kw = {p.arg: mk('param', 'k:' + p.arg, '') for p in a.kwonlyargs
              if order is None or p.arg in order or p.arg not in kwdefaults(a)}
        if a.kwarg:
            self.fail('variadic function', fn.node)
        if a.vararg is None and names != fn.params():
            kw.update(kwargs)
            args = []
        self.st0 = st
        if pre:
            pre(self, args, st)
            vs = list(kw.values())
            pre(self, vs, st)
            kw = dict(zip(kw, vs))
        self.given, st.pc = st.pc, TRUE
        v = self.call_fn(fn, args, kw, st, fn.node, top=True)
        v = self.freeze(v, st)
        return Summary(v, self.traces[0], st, self, fn)

    def call_fn(self, fn, args, kw, st, node, top=False, clo=None, selfcls=None):
        self.calls += 1
        if not top and fn.qual in self.opaque:
            return self.opaque_call(fn, args, kw, st, node)
        if len(self.stack) > self.max_depth or self.stack.count(fn.qual) > 1:
            return self.opaque_call(fn, args, kw, st, node)
        if not top and fn.qual in self.redirect:
            fn = self.redirect[fn.qual]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in walk_own(fn.node)):
            return self.call_generator(fn, args, kw, st, node, clo)
        self.visited.add(fn.qual)
        fid = self.newid()
        fr = Frame(fid, fn, None, clo.fid if clo else None)
        fr.cls = clo.selfcls if clo else fn.cls
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.fail('too many arguments for ' + fn.qual, node)
            bound[a.vararg.arg] = self.new_ref('list', tup(*args[len(names):]), st)
            args = args[:len(names)]
        elif a.vararg is not None:
            bound[a.vararg.arg] = mk('param', '*', '') if top else self.new_ref('list', tup(), st)
        for n_, v in zip(names, args):
            bound[n_] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in bound:
                    self.fail('duplicate argument %s for %s' % (k, fn.qual), node)
                bound[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.fail('unexpected argument %s for %s' % (k, fn.qual), node)
        if a.kwarg is not None:
            bound[a.kwarg.arg] = self.new_ref('dict', mk('dict', *[tup(string(k), v) for k, v in extra.items()]), st)
        # defaults are evaluated in the defining scope
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(kwonly, a.kw_defaults) if d is not None]
        for p, d in defs:
            if p not in bound:
                if clo is not None and not isinstance(d, ast.Constant):
                    bound[p] = clo.fn.__dict__.setdefault('_defaults', {}).get(p) or self.eval_in(d, fn, clo, st)
                else:
                    bound[p] = self.default_value(d, fn, st)
        for p in names + kwonly:
            if p not in bound:
                if top:
                    bound[p] = mk('param', p, p)
                else:
                    self.fail('missing argument %s for %s' % (p, fn.qual), node)
        for k, v in bound.items():
            st.env[(fid, k)] = v
        self.frames.append(fr)
        self.stack.append(fn.qual)
        if not top:
            self.bases[-1].append(st.pc)
        outer_pc = st.pc
        sub = st.fork(TRUE)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, sub)
                fr.returns.append((TRUE, v, sub))
                end = None
            else:
                end = self.block(fn.node.body, sub)
            if end is not None:
                fr.returns.append((end.pc, NONE, end))
        finally:
            self.frames.pop()
            self.stack.pop()
            if not top:
                self.bases[-1].pop()
        if not fr.returns:
            st.pc = FALSE
            return UNDEF
        res = fold_returns([(pc, v) for pc, v, _ in fr.returns])
        m = self.merge([(pc, s) for pc, _, s in fr.returns])
        pc = or_(*[pc for pc, _, _ in fr.returns])
        for k in [k for k in m.env if k[0] == fid]:
            if not self.captured(fid):
                del m.env[k]
        st.env, st.heap = m.env, m.heap
        st.pc = and_(outer_pc, pc)
        return res

    def captured(self, fid):
        return any(c.fid == fid for c in self.clos.values())

    def default_value(self, d, fn, st):
        if isinstance(d, ast.List) and not d.elts:
            return tup()
        if isinstance(d, ast.Dict) and not d.keys:
            return mk('dict')
        return self.const_expr(d, fn.mod)

    def eval_in(self, d, fn, clo, st):
        return self.const_expr(d, fn.mod)

    def call_generator(self, fn, args, kw, st, node, clo):
        """a generator function is analysed as the function that returns the list of the yielded values"""
        cached = getattr(fn, '_aslist', None)
        if cached is None:
            if any(isinstance(x, (ast.YieldFrom, ast.Await)) for x in walk_own(fn.node)) or \
                    any(isinstance(x, ast.Yield) and not ok for x, ok in yields(fn.node)):
                self.fail('generator', node)
            cached = FuncInfo(fn.mod, fn.cls, gen_to_list(fn.node), fn.qual)
            cached.decorators = fn.decorators
            fn._aslist = cached
        return self.call_fn(cached, args, kw, st, node, clo=clo)

    def opaque_call(self, fn, args, kw, st, node):
        names = fn.params()
        b = dict(zip(names, args))
        ref = self.redirect.get(fn.qual)
        for n, v in kw.items():
            if n not in names and n not in {x.arg for x in fn.node.args.kwonlyargs} and ref is not None \
                    and n in ref.params() and len(ref.params()) == len(names):
                n = names[ref.params().index(n)]          # the parameter goes by another name in the source
            b[n] = v
        a = fn.node.args
        fargs = []
        for i, v in enumerate(args[len(names):]):
            fargs.append(tup(string('*%d' % i), self.freeze(v, st)))
        # an omitted argument stands for the default; a reference relies on the default that the reference declares
        defs = {}
        for g in [fn] + [g for g in [self.redirect.get(fn.qual)] if g is not None]:
            gn, ga = g.params(), g.node.args
            for p, d in list(zip(gn[len(gn) - len(ga.defaults):], ga.defaults)) + [
                    (p.arg, d) for p, d in zip(ga.kwonlyargs, ga.kw_defaults) if d is not None]:
                if isinstance(d, (ast.Constant, ast.UnaryOp)) and (g is fn or p in names):
                    defs[p] = self.const_expr(d, g.mod)
        for n in sorted(set(b) | set(defs)):
            fargs.append(tup(string(n), self.passed(b[n], st) if n in b else defs[n]))
        name = opaque_name(self.repo, fn)
        reads, writes = self.effects_of(name, [fn])
        reads |= self.content_reads(list(b.values()), st)
        if not writes:
            tok = self.field_token(reads, st)
            return mk('vcall', name, *fargs, *([tok] if tok else []))
        ev = self.relevant(reads | writes, st)
        self.emit('call', [string(name)] + fargs, st, reads=reads, writes=writes, node=node)
        res = mk('res', name, tup(*fargs), self.token(ev))
        self.havoc(st, writes)
        return res

    def content_reads(self, args, st):
        """locations of argument containers that were changed before: a callee may look into them"""
        out = set()
        args = [a for a in args if a.op != 'param' or self.content(a, st).op == 'ver']
        for tr in self.traces:
            for e in tr:
                if e.kind not in ('loophead', 'loop') and e.writes and e.args and any(e.args[0] is a for a in args):
                    out |= {w for w in e.writes if w.startswith('c:')}
        return frozenset(out)

    def havoc(self, st, writes=frozenset(['*'])):
        star = '*' in writes
        for k in [k for k in st.heap if k[0] == 'f' and not self.is_fresh(k[1]) and (star or 'f:' + k[2] in writes)]:
            del st.heap[k]
        for k in [k for k in st.heap if k[0] == 'k' and (star or set(self.cloc(k[1]) or ()) & writes)]:
            del st.heap[k]

    # effect classification of repository functions by name (for calls that stay symbolic) ------------------------------
    def effects_of(self, name, cands):
        key = (name, tuple(sorted(c.qual for c in cands)))
        memo = self.repo.__dict__.setdefault('_eff', {})
        if key not in memo:
            memo[key] = syntactic_effects(self.repo, cands)
        return memo[key]

    def field_token(self, reads, st):
        """version of the locations that a symbolic (pure) call may read"""
        evs = self.relevant(reads, st)
        return self.token(evs) if evs else None

    # ----------------------------------------------------------------------------------------------------------------
    # statements

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
            if st is None or st.pc is FALSE:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.fail('statement ' + type(s).__name__, s)
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            st.env[(self.frames[-1].fid, n)] = mk('mod', tgt) if tgt in self.repo.modules else mk('ext', tgt)
        return st

    def s_ImportFrom(self, s, st):
        for a in s.names:
            n = a.asname or a.name
            mod = s.module or ''
            if mod in self.repo.modules:
                v = self.from_resolved(self.repo.resolve(self.repo.modules[mod], a.name), st)
            elif mod + '.' + a.name in self.repo.modules:
                v = mk('mod', mod + '.' + a.name)
            else:
                v = mk('ext', mod + '.' + a.name)
            st.env[(self.frames[-1].fid, n)] = v
        return st

    def s_FunctionDef(self, s, st):
        fi = FuncInfo(self.frames[-1].fn.mod, None, s, self.frames[-1].fn.qual + '.' + s.name)
        r = mk('ref', self.newid(), 'clo')
        self.clos[r] = Closure(fi, self.frames[-1].fid, s, fi.mod, self.frames[-1].fn.cls, self.frames[-1].cls)
        fi._defaults = {}
        self.capture_defaults(fi, s.args, st)
        st.env[(self.frames[-1].fid, s.name)] = r
        return st

    def capture_defaults(self, fi, a, st):
        names = [p.arg for p in a.posonlyargs + a.args]
        for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            fi._defaults[p] = self.eval(d, st)

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.pc is FALSE:
            return None
        self.frames[-1].returns.append((st.pc, v, st))
        return None

    def s_Raise(self, s, st):
        name = 'raise'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e).split('.')[-1]
        self.emit('raise', [string(name)], st, node=s, writes=['exit'], reads=['*'])
        return None

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        f = st.fork(and_(st.pc, not_(c)))
        if f.pc is not FALSE:
            self.emit('raise', [string('AssertionError')], f, node=s, writes=['exit'], reads=['*'])
        st.pc = and_(st.pc, c)
        return st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            # in-place operations on local lists
            if isinstance(s.op, ast.Add) and self.contkind(old) == 'list' and old.op == 'ref':
                v = self.eval(s.value, st)
                self.list_extend(old, v, st, s)
                return st
            v = self.binop(s.op, old, self.eval(s.value, st), s, st)
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            old = self.read_attr(o, t.attr, st, s)
            if isinstance(s.op, ast.Add) and self.contkind(old) == 'list':
                self.call_method(old, 'extend', [self.eval(s.value, st)], {}, st, s)
                return st
            v = self.binop(s.op, old, self.eval(s.value, st), s, st)
            self.write_attr(o, t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            old = self.getitem(o, k, st, s)
            v = self.binop(s.op, old, self.eval(s.value, st), s, st)
            self.setitem(o, k, v, st, s)
        else:
            self.fail('augmented assignment', s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, st), self.eval(t.slice, st)
                self.call_method(o, 'pop', [k], {}, st, s)
            elif isinstance(t, ast.Name):
                st.env.pop((self.frames[-1].fid, t.id), None)
            else:
                self.fail('del', s)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[(self.scope_of(t.id), t.id)] = v
        elif isinstance(t, ast.Attribute):
            self.write_attr(self.eval(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, st), self.eval(t.slice, st), v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts)
                c = self.content(v, st)
                for j, e in enumerate(t.elts):
                    if j < i:
                        self.assign(e, self.getitem(v, num(j), st, t), st)
                    elif j == i:
                        stop = num(j - n + 1) if j < n - 1 else NONE
                        self.assign(e.value, slice_(c, num(i), stop), st)
                    else:
                        self.assign(e, self.getitem(v, num(j - n), st, t), st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, num(i), st, t), st)
        else:
            self.fail('assignment target', t)

    def scope_of(self, name):
        fr = self.frames[-1]
        nl = getattr(fr.fn, '_nonlocals', None)
        if nl is None:
            nl = set()
            for x in walk_own(fr.fn.node):
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    nl |= set(x.names)
            fr.fn._nonlocals = nl
        if name in nl and fr.parent is not None:
            return fr.parent
        return fr.fid

    def s_Nonlocal(self, s, st):
        return st

    def s_Global(self, s, st):
        return st

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.pc is FALSE:
            return None
        if restrict(c, st.pc) is TRUE or c is TRUE:
            return self.block(s.body, st)
        if restrict(c, st.pc) is FALSE or c is FALSE:
            return self.block(s.orelse, st)
        p1, p0 = and_(st.pc, c), and_(st.pc, not_(c))
        a = b = None
        if p1 is not FALSE:
            a = self.block(s.body, st.fork(p1))
        if p0 is not FALSE:
            b = self.block(s.orelse, st.fork(p0)) if s.orelse else st.fork(p0)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge([(c, a), (not_(c), b)])

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        if not s.handlers:
            r = self.block(s.body + s.orelse, st)
            if r is None:
                return None
            return self.block(s.finalbody, r) if s.finalbody else r
        pre = st.fork()
        tr = []
        self.traces.append(tr)
        fr = self.frames[-1]
        nret = len(fr.returns)
        try:
            body = self.block(s.body, st.fork())
        finally:
            self.traces.pop()
        nbody = len(fr.returns) - nret
        changed = []
        if body is not None:
            for k in sorted(set(body.env) | set(pre.env), key=str):
                if body.env.get(k) is not pre.env.get(k) and k in body.env:
                    changed.append(self.freeze(body.env[k], body))
        for pc, v, rs in fr.returns[nret:]:
            changed.append(self.freeze(v, rs))
        sig = self.may_raise(changed + [self.ev_term(e) for e in tr if e.kind != 'raise'], s.handlers)
        alts = []
        none = TRUE
        self.traces[-1].extend(tr)
        for h in s.handlers:
            hname = ast.unparse(h.type).split('.')[-1] if h.type is not None else 'BaseException'
            c = as_dd(mk('raises', hname, sig))
            c = and_(none, c)
            none = and_(none, not_(c))
            hs = pre.fork(and_(pre.pc, c))
            if h.name:
                hs.env[(fr.fid, h.name)] = mk('exc', hname)
            r = self.block(h.body, hs)
            if r is not None:
                alts.append((c, r))
        # results of the body only count if it does not raise
        for i in range(nret, nret + nbody):
            pc, v, rs = fr.returns[i]
            fr.returns[i] = (and_(pc, none), v, rs)
        if body is not None:
            body.pc = and_(body.pc, none)
            if s.orelse:
                body = self.block(s.orelse, body)
        if body is not None and body.pc is not FALSE:
            alts.append((none, body))
        r = self.merge(alts)
        if r is not None and s.finalbody:
            r = self.block(s.finalbody, r)
        return r

    def may_raise(self, terms, handlers):
        """the operations of a try body that can raise one of the handled exceptions"""
        names = {ast.unparse(h.type) if h.type is not None else '' for h in handlers}
        ops = {'call', 'res', 'mres', 'vcall', 'ext', 'ev', 'inv'}
        if any(n == '' or any(x in n for x in ('Index', 'Key', 'Lookup', 'Exception')) for n in names):
            ops |= {'at'}
        if any(n == '' or any(x in n for x in ('Attribute', 'Exception')) for n in names):
            ops |= {'attr', 'attrv'}
        if any('TypeError' in n for n in names):
            ops |= {'len'}                # something that cannot be gone through
        if all(n.split('.')[-1] in ('FileNotFoundError', 'OSError', 'IOError', 'PermissionError') for n in names):
            ops = {'res', 'mres', 'ev'}
        found = {x for t in terms for x in subterms(t) if x.op in ops}
        return tup(*sorted(found, key=lambda t: t.od))

    def s_Break(self, s, st):
        self.frames[-1].loops[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1].continues.append(st)
        return None

    def s_Match(self, s, st):
        def tests(p):
            if isinstance(p, ast.MatchValue):
                return [ast.Compare(ast.Name('$match', ast.Load()), [ast.Eq()], [p.value])]
            if isinstance(p, ast.MatchSingleton):
                return [ast.Compare(ast.Name('$match', ast.Load()), [ast.Is()], [ast.Constant(p.value)])]
            if isinstance(p, ast.MatchOr):
                return [t for q in p.patterns for t in tests(q)]
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return [ast.Constant(True)]
            self.fail('match statement', s)
        orelse = []
        for c in reversed(s.cases):
            ts = tests(c.pattern)
            t = ts[0] if len(ts) == 1 else ast.BoolOp(ast.Or(), ts)
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, c.guard])
            orelse = [ast.If(t, c.body, orelse)]
        for x in orelse:
            for y in ast.walk(x):
                if not hasattr(y, 'lineno'):
                    ast.copy_location(y, s)
        self.assign(ast.copy_location(ast.Name('$match', ast.Store()), s), self.eval(s.subject, st), st)
        return self.block(orelse, st)

    # ----------------------------------------------------------------------------------------------------------------
    # loops

    def s_For(self, s, st):
        s = self.lazy_iter(s, st)
        src = self.eval_iterable(s.iter, st)
        return self.for_over(src, s, st)

    def lazy_iter(self, s, st):
        s = self.unnumbered(s)
        return self.mapped(s, st)

    def unnumbered(self, s):
        """`for i, x in enumerate(xs)` without any use of i"""
        e, t = s.iter, s.target
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and e.args and \
                not isinstance(e.args[0], ast.Starred) and isinstance(t, ast.Tuple) and len(t.elts) == 2 and \
                isinstance(t.elts[0], ast.Name):
            i = t.elts[0].id
            used = [x for x in ast.walk(self.frames[-1].fn.node) if isinstance(x, ast.Name) and x.id == i]
            if all(isinstance(x.ctx, ast.Store) for x in used) and not any(
                    isinstance(x, ast.Name) and x.id == 'locals' and x.lineno >= s.lineno
                    for x in ast.walk(self.frames[-1].fn.node)):
                f = ast.For(target=t.elts[1], iter=e.args[0], body=s.body, orelse=s.orelse)
                return ast.copy_location(f, s)
        return s

    def mapped(self, s, st):
        """`for x in map(f, xs): ...` calls f between the iterations: as `for y in xs: x = f(y); ...`"""
        e = s.iter
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'map' and len(e.args) == 2 and
                not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args)):
            return s
        m = self.eval(e.func, st)
        if m.op != 'ext' or m.args[0] != 'builtins.map':
            return s
        fname, xname = ('%s%d_%d' % (n, e.lineno, e.col_offset) for n in ('__map', '__elt'))
        st.env[(self.frames[-1].fid, fname)] = self.eval(e.args[0], st)
        call = ast.Call(ast.Name(fname, ast.Load()), [ast.Name(xname, ast.Load())], [])
        body = [ast.Assign([s.target], call)] + s.body
        f = ast.For(target=ast.Name(xname, ast.Store()), iter=e.args[1], body=body, orelse=s.orelse)
        return ast.fix_missing_locations(ast.copy_location(f, s))

    def eval_iterable(self, e, st):
        """iterable expression -> term for the sequence of its elements"""
        v = self.eval(e, st)
        return self.as_seq(v, st, e)

    def as_seq(self, v, st, node=None):
        if v.op == 'ite':
            return lift(lambda x: self.as_seq(x, st, node), v)
        k = self.contkind(v)
        c = self.content(v, st)
        if c.op == 'ite':
            return lift(lambda x: self.as_seq(x, st, node), c)
        if k == 'dict' or c.op in ('dict', 'dictmap', 'dset', 'groupsum', 'dupd'):
            return mk_keys(c)
        if c.op in ('set',):
            return dedup(c)
        if c.op == 'poly':
            # arithmetic on an array is arithmetic on its elements
            arrays = {a for m, _ in c.args for a, _ in m if a.op == 'mres' and a.args[0] not in ('sample', 'choices') and
                      sampled(a) is not None}
            if len(arrays) == 1:
                a, x = arrays.pop(), fresh()
                return seq_close(sampled(a), x, subst(c, {a: mk('at', a, x)}), TRUE)
        return c

    def early_break(self, s, st):
        """a loop that is left at the end of its body when something has become true, which is not so at first: the same
        is asked at the beginning"""
        fr = self.frames[-1]
        bound = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        if s.orelse:
            return s

        def nested(b):
            # what follows after `if ..: ..; continue` is the other branch
            for i, x in enumerate(b):
                if isinstance(x, ast.If) and not x.orelse and isinstance(x.body[-1], ast.Continue):
                    y = ast.If(x.test, x.body[:-1] or [ast.copy_location(ast.Pass(), x)], nested(b[i + 1:]))
                    return b[:i] + [ast.copy_location(y, x)]
            return b
        todo, spots = [(nested(s.body), [])], []
        while todo:
            b, path = todo.pop()
            z = b[-1] if b else None
            if not isinstance(z, ast.If):
                continue
            if len(z.body) == 1 and isinstance(z.body[0], ast.Break) and not z.orelse:
                spots.append((b, path))
            else:
                todo += [(z.body, path + [(b, 'body')]), (z.orelse, path + [(b, 'orelse')])]
        if len(spots) != 1:
            return s
        b, path = spots[0]
        c = b[-1].test
        names = set()
        for x in ast.walk(c):
            if isinstance(x, (ast.Call, ast.Subscript, ast.Lambda, ast.NamedExpr)):
                return s
            if isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and
                                                     (self.repo.resolve(fr.fn.mod, x.value.id) or ' ')[0] == 'mod'):
                return s
            if isinstance(x, ast.Name):
                names.add(x.id)

        def stored(nodes):
            return [x for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in names and
                    not isinstance(x.ctx, ast.Load)]
        mine = stored(b[:-1])
        if not mine or names & bound or len(stored(s.body)) != len(mine) or any(
                isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Nonlocal, ast.FunctionDef))
                for n in b[:-1] for x in ast.walk(n)):
            return s
        snap = self.snapshot()
        try:
            v = self.cond(c, st.fork(st.pc))
        finally:
            self.restore(snap)
        if restrict(v, and_(self.given, st.pc)) is not FALSE:
            return s
        new = b[:-1]
        for outer, field in reversed(path):
            z = outer[-1]
            body, orelse = (new, z.orelse) if field == 'body' else (z.body, new)
            if not body:
                body = [ast.copy_location(ast.Pass(), z)]
            new = outer[:-1] + [ast.copy_location(ast.If(z.test, body, orelse), z)]
        first = ast.copy_location(ast.If(c, [ast.copy_location(ast.Break(), s)], []), s)
        return ast.copy_location(ast.For(target=s.target, iter=s.iter, body=[first] + new, orelse=[]), s)

    def for_over(self, src, s, st):
        s = self.early_break(s, st)
        if src.op == 'ite' and all(v.op == 'seq' for v in leaves(src)) and len({v.args[1] for v in leaves(src)}) == 1:
            # the same elements, only how many depends on a condition
            it = iterate(src)
            return self.sym_loop(it.n, it.x, it.filt, s.body, s.orelse, st,
                                 lambda b: self.assign(s.target, it.elt, b), s)
        if src.op == 'ite':
            c = as_dd(src.args[0])
            p1, p0 = and_(st.pc, c), and_(st.pc, not_(c))
            a = self.for_over(src.args[1], s, st.fork(p1)) if p1 is not FALSE else None
            b = self.for_over(src.args[2], s, st.fork(p0)) if p0 is not FALSE else None
            if a is None:
                return b
            if b is None:
                return a
            return self.merge([(c, a), (not_(c), b)])
        if src.op == 'catseq' and not has_exit(s):
            for p in src.args:
                st = self.for_over(p, s, st)
                if st is None:
                    return None
            return st
        it = iterate(src)
        if it.items is not None:
            if len(it.items) <= 4 or not any(isinstance(x, (ast.If, ast.IfExp)) for b in s.body for x in ast.walk(b)):
                return self.unroll(it.items, s, st)
            x = fresh()
            it = Iter(num(len(it.items)), x, mk('at', tup(*it.items), x))
        return self.sym_loop(it.n, it.x, it.filt, s.body, s.orelse, st,
                             lambda b: self.assign(s.target, it.elt, b), s)

    def unroll(self, items, s, st):
        fr = self.frames[-1]
        lc = LoopCtx()
        fr.loops.append(lc)
        cur = st
        broken = []
        try:
            for v in items:
                if cur is None:
                    break
                self.assign(s.target, v, cur)
                lc.breaks, lc.continues = [], []
                end = self.block(s.body, cur)
                broken += lc.breaks
                nxt = [x for x in lc.continues] + ([end] if end is not None else [])
                cur = self.merge([(x.pc, x) for x in nxt]) if nxt else None
        finally:
            fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        alts = broken + ([cur] if cur is not None else [])
        return self.merge([(x.pc, x) for x in alts]) if alts else None

    def s_While(self, s, st):
        s = leading_break(s)
        # `while q: e = q.pop(0); ...` visits the elements of q in order
        q = queue_loop(s)
        if q is not None:
            lst = self.eval(ast.Name(q[0], ast.Load()), st)
            if lst.op == 'ref' and lst.args[1] == 'list':
                c = st.heap[('c', lst)]
                if c.op != 'ite':
                    body = s.body[1:]
                    tgt = q[1]
                    f = ast.For(target=tgt, iter=s.test, body=body or [ast.Pass()], orelse=s.orelse)
                    ast.copy_location(f, s)
                    st.heap[('c', lst)] = mk('drained', c) if has_exit(f) else tup()
                    self.touched(lst, st, s)
                    return self.for_over(self.as_seq(c, st), f, st)
        f = filling_loop(s)
        if f is not None:
            return self.block([f], st)
        f = filling_loop(s, False)
        if f is not None:
            # the body adds in other ways: look at what it does
            snap, keep = self.snapshot(), st.fork(st.pc)
            q = self.eval(s_counted(s).func.value, st)
            if self.snapshot() == snap:
                out = self.block([f], st)
                new = self.traces[-1][snap[1][-1]:]
                done = [e for t in new if t.kind == 'loop' for e in t.body]
                if (out is not None and all(t.kind == 'loop' and t.args[0] is new[0].args[0] for t in new) and
                        all(e.kind in ('add', 'append') and e.guard is TRUE for e in done) and
                        [e.args[1] for e in done if e.args[0] is q] == [NONE]):
                    return out
            self.restore(snap)
            st = keep
        return self.while_loop(s, st)

    def while_loop(self, s, st):
        # value of the test before the first iteration
        c0 = self.cond(s.test, st)
        if st.pc is FALSE:
            return None
        if restrict(c0, st.pc) is FALSE:
            return self.block(s.orelse, st) if s.orelse else st
        x = fresh()
        entry = st.fork(and_(st.pc, c0))
        skip = st.fork(and_(st.pc, not_(c0)))
        out = self.sym_loop(None, x, TRUE, s.body, s.orelse, entry, None, s, test=s.test)
        if skip.pc is FALSE:
            return out
        if s.orelse:
            skip = self.block(s.orelse, skip)
        if out is None:
            return skip
        if skip is None:
            return out
        return self.merge([(c0, out), (not_(c0), skip)])

    def sym_loop(self, n, x, filt, body, orelse, st, bind, node, test=None):
        """loop with a symbolic number of iterations; `test`: condition re-evaluated after each iteration (while)"""
        level = len(self.traces) - 1
        saved = self.entry.get(level)
        self.entry[level] = self.cur_guard(st)
        try:
            return self.sym_loop_(n, x, filt, body, orelse, st, bind, node, test)
        finally:
            if saved is None:
                del self.entry[level]
            else:
                self.entry[level] = saved

    def sym_loop_(self, n, x, filt, body, orelse, st, bind, node, test):
        fr = self.frames[-1]
        W, WF = {}, set()      # state keys -> phi, external fields/locations written by the body
        intish = {}
        for _round in range(12):
            snap = self.snapshot()
            b = st.fork(TRUE)
            phis = {}
            for k in W:
                init = b.env.get(k[1]) if k[0] == 'e' else b.heap.get(k[1])
                kind = 'i' if intish.get(k, init is not None and is_int(init)) else 'p'
                intish[k] = kind == 'i'
                ph = fresh(kind)
                phis[k] = ph
                ck = None
                if k[0] == 'h' and k[1][0] == 'c':
                    ck = k[1][1].args[1]
                elif init is not None:
                    ck = self.contkind(init)
                if ck:
                    self.phikind[ph] = ck
                if k[0] == 'e':
                    b.env[k[1]] = ph
                else:
                    b.heap[k[1]] = ph
            for k in [k for k in b.heap if k[0] == 'f' and not self.is_fresh(k[1])
                      and (('f:' + k[2]) in WF or '*' in WF)]:
                del b.heap[k]
            start = b.fork()
            tr = [Ev('loophead', TRUE, [], writes=WF)] if WF else []
            self.traces.append(tr)
            self.bases.append([])
            lc = LoopCtx()
            fr.loops.append(lc)
            nret = len(fr.returns)
            try:
                b.pc = TRUE
                assumed = None
                if test is not None:
                    tb = self.cond(test, b)
                    assumed = tb
                    for key in list(b.env):
                        pass
                    b.pc = TRUE
                if filt is not TRUE:
                    b.pc = filt
                if bind is not None:
                    bind(b)
                end = self.block(body, b)
            finally:
                fr.loops.pop()
                self.traces.pop()
                self.bases.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            nexts = [s2 for s2 in lc.continues] + ([end] if end is not None else [])
            if filt is not TRUE:
                sk = start.fork(not_(filt))
                nexts.append(sk)
            # which state keys / fields changed
            changed = set()
            allst = nexts + lc.breaks + [r[2] for r in rets]
            for s2 in allst:
                for k, v in s2.env.items():
                    if k in st.env and ('e', k) not in W and v is not st.env[k]:
                        changed.add(('e', k))
                    elif k not in st.env and ('e', k) not in W and k[0] in self.live_fids():
                        changed.add(('e', k))
                for k, v in s2.heap.items():
                    if k[0] == 'c' and k in st.heap and ('h', k) not in W and v is not st.heap[k]:
                        changed.add(('h', k))
                    elif k[0] == 'f' and self.is_fresh(k[1]) and k in st.heap and ('h', k) not in W \
                            and v is not st.heap[k]:
                        changed.add(('h', k))
            wf = set()
            for e in tr:
                wf |= e.writes
            wf.discard('exit')
            again = bool(changed - set(W)) or bool(wf - WF)
            nm = self.merge([(s2.pc, s2) for s2 in nexts]) if nexts else None
            if not again:
                for k in W:
                    if intish[k] and nm is not None:
                        v = nm.env.get(k[1]) if k[0] == 'e' else nm.heap.get(k[1])
                        if v is not None and not is_int(v):
                            intish[k] = False
                            again = True
            if not again:
                break
            self.restore(snap)
            for k in changed:
                W[k] = None
            WF |= wf
        else:
            self.fail('loop analysis did not stabilise', node)
        before = dict(st.heap)
        out = self.close_loop(n, x, W, phis, st, start, nm, lc.breaks, rets, tr, WF, orelse, test, node)
        for k in W:
            if k[0] == 'h' and k[1][0] == 'c' and out is not None and out.heap.get(k[1]) is not before.get(k[1]):
                self.touched(k[1][1], out, node)
        return out

    def live_fids(self):
        return {f.fid for f in self.frames}

    def snapshot(self):
        return (len(self.traces), [len(t) for t in self.traces], len(self.frames[-1].returns))

    def restore(self, snap):
        for t, n_ in zip(self.traces, snap[1]):
            del t[n_:]
        del self.frames[-1].returns[snap[2]:]

    def close_loop(self, n, x, W, phis, st, start, nm, breaks, rets, tr, WF, orelse, test, node):
        fr = self.frames[-1]
        keys = list(W)

        def init_of(k):
            v = st.env.get(k[1]) if k[0] == 'e' else st.heap.get(k[1])
            return UNDEF if v is None else v

        def val_in(s2, k):
            v = s2.env.get(k[1]) if k[0] == 'e' else s2.heap.get(k[1])
            return UNDEF if v is None else v

        # exit conditions
        B = or_(*[s2.pc for s2 in breaks])
        R = or_(*[pc for pc, _, _ in rets])
        bm = self.merge([(s2.pc, s2) for s2 in breaks]) if breaks else None
        rv = fold_returns([(pc, v) for pc, v, _ in rets]) if rets else None
        rm = self.merge([(pc, s2) for pc, _, s2 in rets]) if rets else None
        # references created inside the iteration are frozen
        old = {k[1] for k in st.heap if k[0] == 'c'} | {r for r in self.selfclass if r.op == 'ref' and
                                                       any(k[0] == 'f' and k[1] is r for k in st.heap)}

        def froz(v, s2):
            refs = [s for s in subterms(v) if s.op == 'ref' and s not in old]
            if not refs:
                return v
            return subst(v, {r: self.freeze_ref(r, s2, (r,)) for r in refs})

        nxt = {k: froz(val_in(nm, k), nm) if nm is not None else phis[k] for k in keys}
        brk = {k: froz(val_in(bm, k), bm) if bm is not None else None for k in keys}
        ret = {k: froz(val_in(rm, k), rm) if rm is not None else None for k in keys}
        if rv is not None:
            rv = froz(rv, rm)
        X = or_(B, R)
        T_after = TRUE
        if test is not None:
            # rotate: `while test` entered with test true == repeat body, leave when the test fails afterwards
            if nm is None:
                T_after = FALSE
            else:
                probe = nm.fork(TRUE)
                self.traces.append(tr)
                self.bases.append([])
                try:
                    T_after = self.cond(test, probe)
                finally:
                    self.traces.pop()
                    self.bases.pop()
                T_after = froz(T_after, nm)
            # inside the body the test holds at the start of the iteration
            tphi = self.cond_on(test, start, tr, WF)
            lits = implied_literals(tphi) if tphi is not None else []
            sub_ = {}
            for a, v in lits:
                if a.op == 'truth' and a.args[0] in phis.values():
                    sub_[a.args[0]] = TRUE if v else FALSE

            def sm(t):
                if t is None:
                    return None
                for a, v in lits:
                    t = assume(t, a, v)
                if sub_:
                    t = subst(t, sub_)
                return t
            nxt = {k: sm(v) for k, v in nxt.items()}
            brk = {k: sm(v) for k, v in brk.items()}
            ret = {k: sm(v) for k, v in ret.items()}
            rv, X, B, R, T_after = sm(rv), sm(X), sm(B), sm(R), sm(T_after)
        # closed forms -----------------------------------------------------------------------------------------------
        pf = {}
        for k in keys:
            if nxt[k] is phis[k]:
                pf[k] = (lambda v: (lambda m: v))(init_of(k))
        progress = True

        def solved_sub(t):
            m = {phis[k]: pf[k](x) for k in pf}
            return subst(t, m) if t is not None else None
        while progress:
            progress = False
            for k in keys:
                if k in pf:
                    continue
                nv = solved_sub(nxt[k])
                others = {phis[j] for j in keys if j != k}
                if nv.fv & others:
                    continue
                f = self.classify(nv, phis[k], init_of(k), x, k)
                if f is not None:
                    pf[k] = f
                    progress = True
        X2, B2, R2 = solved_sub(X), solved_sub(B), solved_sub(R)
        T2 = solved_sub(T_after)
        unsolved = [k for k in keys if k not in pf]
        uphis = {phis[k] for k in unsolved}
        # counting while loops: the test fails after a computable number of iterations
        limit = n
        if test is not None and not (T2.fv & uphis):
            lim = self.iteration_count(T2, x)
            if lim is not None:
                limit = lim
        stop = X2
        if test is not None and limit is None:
            # leave after the iteration when the test fails
            stop = or_(X2, and_(not_(X2), not_(T2)))
        env_after = st.fork(st.pc)
        # overlay of external fields written by the loop is invalid afterwards
        for k in [k for k in env_after.heap if k[0] == 'f' and not self.is_fresh(k[1])
                  and (('f:' + k[2]) in WF or '*' in WF)]:
            del env_after.heap[k]
        exit_ret = None
        if not unsolved and not (stop.fv & uphis) and (stop is FALSE or test is None or limit is not None):
            if stop is FALSE:
                if limit is None:
                    self.fail('loop without exit', node)
                for k in keys:
                    self.put(env_after, k, pf[k](limit))
                m_iter = limit
                ex = FALSE
            else:
                lam = close(x, stop)
                ex = gt0(sum_close(limit, x, ite(stop, ONE, ZERO)))
                fi = mk('call', 'firstidx', limit, lam)
                at_exit = {}
                for k in keys:
                    bv_ = subst(solved_sub(brk[k]), {x: fi}) if bm is not None else None
                    rvv = subst(solved_sub(ret[k]), {x: fi}) if rm is not None else None
                    self.put(env_after, k, pf[k](limit))
                    at_exit[k] = (bv_, rvv)
                m_iter = fi
                # the loop is left in one of the two ways
                Rx = TRUE if B2 is FALSE else FALSE if R2 is FALSE else subst(R2, {x: fi})
                Bx = not_(Rx) if stop is X2 and B2 is not FALSE else subst(B2, {x: fi})
        else:
            # general recurrence
            ex = None
        if ex is None:
            return self.general_loop(limit, x, keys, phis, pf, nxt, brk, ret, rv, B, R, X, T_after, test, st, env_after,
                                     init_of, tr, WF, orelse, node, unsolved, bm, rm, solved_sub)
        # events
        self.loop_event(limit, x, [], tr, solved_sub, stop, st, node, WF, [])
        for k in keys:
            if k[0] == 'e' and isinstance(k[1], tuple):
                pass
        after = env_after
        outs = []
        if ex is not FALSE:
            if R is not FALSE:
                rs = after.fork(and_(st.pc, and_(ex, Rx)))
                for k in keys:
                    self.put(rs, k, at_exit[k][1])
                if rs.pc is not FALSE:
                    fr.returns.append((rs.pc, subst(solved_sub(rv), {x: fi}), rs))
            if B is not FALSE:
                bs = after.fork(and_(st.pc, and_(ex, Bx) if R is not FALSE else ex))
                for k in keys:
                    self.put(bs, k, at_exit[k][0])
                if bs.pc is not FALSE:
                    outs.append((and_(ex, Bx) if R is not FALSE else ex, bs))
            done = after.fork(and_(st.pc, not_(ex)))
        else:
            done = after
        if done.pc is not FALSE:
            d = self.block(orelse, done) if orelse else done
            if d is not None:
                outs.append((not_(ex), d))
        return self.merge(outs) if outs else None

    def cond_on(self, test, start, tr, WF):
        probe = start.fork(TRUE)
        self.traces.append([e for e in tr if e.kind == 'loophead'])
        self.bases.append([])
        try:
            return self.cond(test, probe)
        except Unsupported:
            return None
        finally:
            self.traces.pop()
            self.bases.pop()

    def put(self, s2, k, v):
        if k[0] == 'e':
            s2.env[k[1]] = v
        else:
            s2.heap[k[1]] = v

    def iteration_count(self, T_after, x):
        """number of iterations of a rotated while loop whose test after iteration x is `T_after` (free of state)"""
        if T_after.op != 'ite':
            return None
        a = T_after.args[0]
        if a.op != 'gt0' or len(conds(T_after)) != 1:
            return None
        pos = T_after.args[1] is TRUE
        p = a.args[0]
        if not pos:
            p = sub(ONE, p) if is_int(p) else None
            if p is None:
                return None
        # p > 0 with p = c - x  (after iteration x the loop goes on while c - x > 0): iterations = c + 1
        c = add(p, x)
        if x in c.fv or not is_int(p):
            return None
        return add(c, ONE)

    def loop_event(self, n, x, phis, tr, fsub, stop, st, node, WF, extra):
        body = [e for e in tr if e.kind != 'loophead']
        if not body:
            return
        nb = []
        for e in body:
            e2 = Ev(e.kind, fsub(e.guard), [fsub(a) for a in e.args], e.reads, e.writes, e.loc, e.body)
            if e.kind == 'loop':
                e2 = self.sub_loop_event(e, fsub)
            nb.append(e2)
        parts = [nb]
        if stop is FALSE and not phis and not extra and len(nb) > 1:
            parts = loop_parts(nb)        # independent parts of a loop can run one after the other
        for p in parts:
            ev = Ev('loop', self.cur_guard(st), [n if n is not None else NONE, stop] + extra, loc=self.loc(node),
                    body=p)
            ev.binders = [x] + phis
            rd, wr = set(), set()
            for e in p:
                rd |= e.reads
                wr |= e.writes
            ev.reads, ev.writes = frozenset(rd), frozenset(wr)
            self.traces[-1].append(ev)

    def sub_loop_event(self, e, fsub):
        e2 = Ev('loop', fsub(e.guard), [fsub(a) for a in e.args], e.reads, e.writes, e.loc,
                [self.sub_ev(c, fsub) for c in e.body])
        e2.binders = e.binders
        return e2

    def sub_ev(self, c, fsub):
        if c.kind == 'loop':
            return self.sub_loop_event(c, fsub)
        return Ev(c.kind, fsub(c.guard), [fsub(a) for a in c.args], c.reads, c.writes, c.loc)

    def classify(self, nv, phi, init, x, k):
        """closed form of phi_0 = init, phi_{i+1} = nv(phi_i, i): function m -> value after m iterations, or None"""
        if phi not in nv.fv:
            def last(m):
                return ite(gt0(m), subst(nv, {x: sub(m, ONE)}), init)
            return last
        lv = leaves(nv)
        cds = conds(nv)
        free = all(phi not in c.fv for c in cds)
        kinds = {l.op for l in lv}
        # lists -----------------------------------------------------------------------------------------------------
        if free and all(l is phi or (l.op == 'catseq' and l.args[0] is phi and not any(phi in p.fv for p in l.args[1:]))
                        for l in lv) and any(l is not phi for l in lv):
            def payload(l):
                if l is phi:
                    return UNDEF
                if len(l.args) == 2 and l.args[1].op == 'tup':
                    if len(l.args[1].args) == 1:
                        return l.args[1].args[0]
                return mk('many', *l.args[1:])
            elt = lift(payload, nv)
            filt = lift(lambda l: FALSE if l is phi else TRUE, nv)
            if not any(l.op == 'many' for l in leaves(elt)):
                elt = drop_undef(elt)
                return lambda m: catseq(init, self.seq_sub(m, x, elt, filt))
            if elt.op == 'many' and len(elt.args) == 1:
                inner = elt.args[0]
                return lambda m: catseq(init, mk_flat(m, x, inner, TRUE))
            return None
        # dictionaries ----------------------------------------------------------------------------------------------
        if any(l.op == 'dset' for l in lv):
            f = self.classify_dict(nv, phi, init, x)
            if f is not None:
                return f
        # sets
        if free and all(l is phi or (l.op == 'setadd' and l.args[0] is phi and phi not in l.args[1].fv) for l in lv):
            elt = drop_undef(lift(lambda l: UNDEF if l is phi else l.args[1], nv))
            filt = lift(lambda l: FALSE if l is phi else TRUE, nv)
            return lambda m: mk_set(catseq(set_elems(init), self.seq_sub(m, x, elt, filt)))
        # numeric accumulation
        if free and not (kinds & {'catseq', 'tup', 'dict', 'str', 'none', 'bool', 'seq', 'ref', 'obj'}):
            d = sub(nv, phi)
            if phi not in d.fv and x is not None:
                return lambda m: add(init, self.sum_sub(m, x, d))
        # products / scaling are left to the general form
        # boolean flags
        f1, f0 = subst(nv, {phi: TRUE}), subst(nv, {phi: FALSE})
        if is_bool(as_dd(f1)) and is_bool(as_dd(f0)) and init in (TRUE, FALSE):
            if f1 is TRUE:
                c = as_dd(f0)
                return lambda m: or_(as_bool(init), gt0(self.sum_sub(m, x, ite(c, ONE, ZERO))))
            if f0 is FALSE:
                c = not_(f1)
                return lambda m: and_(as_bool(init), not_(gt0(self.sum_sub(m, x, ite(c, ONE, ZERO)))))
        # first match kept: phi is None -> e under c, otherwise unchanged
        isn = mk('isnone', phi)
        if any(c is isn for c in cds) and init is NONE:
            w0, w1 = assume(nv, isn, 0), assume(nv, isn, 1)
            if w0 is phi:
                w1 = subst(w1, {phi: NONE})
                if phi not in w1.fv:
                    filt = lift(lambda l: FALSE if l is NONE else TRUE, w1)
                    elt = drop_undef(lift(lambda l: UNDEF if l is NONE else l, w1))

                    def first(m):
                        y = fresh()
                        f = subst(filt, {x: y})
                        ex = gt0(sum_close(m, y, ite(f, ONE, ZERO)))
                        fi = mk('call', 'firstidx', m, close(y, f))
                        return ite(ex, subst(elt, {x: fi}), NONE)
                    return first
        # running maximum / minimum
        if len(cds) == 1 and cds[0].op == 'gt0' and len(lv) == 2 and phi in lv:
            g = lv[0] if lv[1] is phi else lv[1]
            if phi not in g.fv:
                p = cds[0].args[0]
                hi = nv.args[1]
                s_ = None
                for sg, cand in ((1, sub(g, phi)), (-1, sub(phi, g))):
                    q = gt0(cand)
                    if conds(q) and conds(q)[0] is cds[0]:
                        pos = q.args[1] is TRUE
                        # cand > 0 <=> atom (pos) ; max if g chosen when g > phi
                        chosen_when_g_gt = (hi is g) == (pos if sg == 1 else not pos)
                        s_ = 'maxfold' if chosen_when_g_gt else 'minfold'
                        break
                if s_:
                    return lambda m: mk(s_, init, m, close(x, g))
        return None

    def seq_sub(self, m, x, elt, filt):
        y = fresh()
        return seq_close(m, y, subst(elt, {x: y}), subst(filt, {x: y}))

    def sum_sub(self, m, x, d):
        y = fresh()
        return sum_close(m, y, subst(d, {x: y}))

    def classify_dict(self, nv, phi, init, x):
        # plain updates: phi is only extended
        lv = leaves(nv)
        cds = conds(nv)
        free = all(phi not in c.fv for c in cds)
        if free and all(l is phi or (l.op == 'dset' and l.args[0] is phi and phi not in l.args[1].fv
                                     and phi not in l.args[2].fv) for l in lv):
            key = drop_undef(lift(lambda l: UNDEF if l is phi else l.args[1], nv))
            val = drop_undef(lift(lambda l: UNDEF if l is phi else l.args[2], nv))
            filt = lift(lambda l: FALSE if l is phi else TRUE, nv)
            return lambda m: mk_dupd(init, self.dictmap_sub(m, x, key, val, filt))
        # grouped accumulation: d[k] = d[k] + w (with or without explicit initialisation)
        ks = {l.args[1] for l in lv if l.op == 'dset'}
        ks = {k_ for k_ in ks}
        mem = None
        for c in cds:
            if c.op == 'member' and c.args[1] is phi:
                mem = c
        def step(t, present, key):
            """weight added to key in this iteration"""
            def leaf(l):
                if l is phi:
                    return ZERO
                if l.op == 'dset' and l.args[0] is phi and l.args[1] is key:
                    v = l.args[2]
                    if v.op == 'ite' or True:
                        memb = mk('member', key, phi)
                        v = assume(v, memb, 1 if present else 0) if v.op == 'ite' else v
                    old = mk('at', phi, key)
                    return sub(v, old) if present else v
                return mk('bad')
            return lift(leaf, t)
        if len(ks) != 1:
            return None
        key = ks.pop()
        if phi in key.fv:
            return None
        memb = mk('member', key, phi)
        t1, t0 = assume(nv, memb, 1), assume(nv, memb, 0)
        w1, w0 = step(t1, True, key), step(t0, False, key)
        if contains_op(w1, ('bad',)) or phi in w1.fv:
            return None
        if w0 is not w1:
            # no explicit default: the old value is read even if the key is new (defaultdict / pre-initialised)
            w0b = sub(w0, mk('at', phi, key)) if not contains_op(w0, ('bad',)) else None
            if w0b is not w1:
                return None
        filt = lift(lambda l: FALSE if l is phi else TRUE, t1)
        return lambda m: self.groupsum_sub(init, m, x, key, w1, filt)

    def dictmap_sub(self, m, x, key, val, filt):
        y = fresh()
        return mk_dictmap(m, y, subst(key, {x: y}), subst(val, {x: y}), subst(filt, {x: y}))

    def groupsum_sub(self, init, m, x, key, w, filt):
        y = fresh()
        return mk_groupsum(init, m, close(y, subst(key, {x: y}), subst(ite(filt, w, ZERO), {x: y}),
                                          subst(filt, {x: y})))

    def general_loop(self, n, x, keys, phis, pf, nxt, brk, ret, rv, B, R, X, T_after, test, st, env_after, init_of, tr,
                     WF, orelse, node, unsolved, bm, rm, solved_sub):
        """recurrence that has no closed form: kept as a fixed-point term in canonical variable order"""
        fr = self.frames[-1]
        U = unsolved
        init_raw = init_of

        def init_of(k):
            return self.freeze(init_raw(k), st)
        nv = {k: solved_sub(nxt[k]) for k in U}
        Bs, Rs = solved_sub(B), solved_sub(R)
        Ts = solved_sub(T_after) if test is not None else TRUE
        bks = {k: solved_sub(brk[k]) for k in keys} if bm is not None else None
        rts = {k: solved_sub(ret[k]) for k in keys} if rm is not None else None
        rvs = solved_sub(rv)
        if test is not None:
            # leaving because the test fails is a break at the end of the iteration
            nostop = and_(not_(Rs), not_(Ts))
            B2 = or_(Bs, and_(not_(Bs), nostop))
            cur = {k: (nv[k] if k in U else solved_sub(nxt[k])) for k in keys}
            bks = {k: (ite(Bs, bks[k], cur[k]) if bks is not None else cur[k]) for k in keys}
            Bs, Ts = B2, TRUE
        stop_ = or_(Bs, Rs)
        nv = {k: drop_undef(ite(stop_, UNDEF, v)) for k, v in nv.items()}
        if bks is not None:
            bks = {k: drop_undef(ite(Bs, v, UNDEF)) for k, v in bks.items()}
        if rts is not None:
            rts = {k: drop_undef(ite(Rs, v, UNDEF)) for k, v in rts.items()}
            rvs = drop_undef(ite(Rs, rvs, UNDEF))
        vals = {}
        ph2key = {phis[k]: k for k in U}
        # state after the loop for solved keys depends on the number of iterations
        need_exit = not (Bs is FALSE and Rs is FALSE and (n is not None))
        niter = None

        def closure(seed):
            todo, seen = list(seed), []
            while todo:
                p = todo.pop()
                k = ph2key.get(p)
                if k is None or k in seen:
                    continue
                seen.append(k)
                todo += [q for q in nv[k].fv if q in ph2key]
            return seen

        exit_fv = (Bs.fv | Rs.fv)

        def mu(outexpr_next, outexpr_brk, outexpr_ret):
            """value of an expression over the state at loop exit (normal end / break / return variants)"""
            fv = set(exit_fv)
            for e in (outexpr_next, outexpr_brk, outexpr_ret):
                if e is not None:
                    fv |= e.fv
            ks = closure([p for p in fv if p in ph2key])
            color = {k: mk('colr', init_of(k)) for k in ks}
            for _ in range(max(2, len(ks))):
                color = {k: mk('colr', init_of(k), subst(nv[k], {phis[j]: color[j] for j in ks})) for k in ks}
            order = sorted(ks, key=lambda k: color[k].od)
            payload = tup(*([nv[k] for k in order] + [Bs, Rs] +
                            [e if e is not None else UNDEF for e in (outexpr_next, outexpr_brk, outexpr_ret)]))
            for v in reversed([x] + [phis[k] for k in order]):
                payload = close(v, payload)
            return mk('mu', n if n is not None else NONE, tup(*[init_of(k) for k in order]), payload)

        same_brk = {}
        for k in keys:
            cur = phis[k] if k in U else pf[k](x)
            # value at loop exit: state after the last iteration of a bounded loop, or state at the break
            b_v = bks[k] if bks is not None else None
            vals[k] = mu(cur if n is not None else None, b_v, None) if need_exit or k in U else pf[k](n)
        # only the state that the effects or the exit depend on is part of the loop's effects
        used = set(exit_fv)

        def collect(evs):
            for e in evs:
                for a in [e.guard] + list(e.args):
                    used.update(solved_sub(a).fv)
                if e.body:
                    collect(e.body)
        collect(tr)
        need = sorted(closure([p for p in used if p in ph2key]), key=lambda k: self.color(k, U, nv, phis, init_of))
        self.loop_event(n, x, [phis[k] for k in need], tr, solved_sub, or_(Bs, Rs), st, node, WF,
                        [tup(*[init_of(k) for k in need]), tup(*[nv[k] for k in need])] if need else [])
        for k in keys:
            self.put(env_after, k, vals[k])
        outs = []
        done_pc = st.pc
        if Rs is not FALSE:
            rc = as_dd(mk('batom', mu(FALSE, FALSE, TRUE)))
            r_s = env_after.fork(and_(st.pc, rc))
            for k in keys:
                self.put(r_s, k, mu(None, None, rts[k]))
            fr.returns.append((r_s.pc, mu(None, None, rvs), r_s))
            done_pc = and_(st.pc, not_(rc))
        if orelse:
            if bm is not None:
                self.fail('loop else with general recurrence', node)
        env_after.pc = done_pc
        if orelse:
            return self.block(orelse, env_after)
        return env_after

    def color(self, k, U, nv, phis, init_of):
        c = {j: mk('colr', init_of(j)) for j in U}
        for _ in range(max(2, len(U))):
            c = {j: mk('colr', init_of(j), subst(nv[j], {phis[i]: c[i] for i in U})) for j in U}
        return c[k].od


# ---------------------------------------------------------------------------------------------------------------------


def dc(guard, a):
    """value under a guard (don't care elsewhere)"""
    if guard is TRUE:
        return a
    return ite(guard, a, UNDEF)


def drop_undef(t):
    """simplify a conditional whose UNDEF branches are irrelevant"""
    if t.op != 'ite':
        return t
    hi, lo = drop_undef(t.args[1]), drop_undef(t.args[2])
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    return ite(as_dd(t.args[0]), hi, lo)


def walk_own(node):
    """nodes of a function body without nested functions"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def yields(node):
    for x in walk_own(node):
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.Yield):
                yield c, isinstance(x, ast.Expr)


def gen_to_list(node):
    import copy
    n = copy.deepcopy(node)

    class V(ast.NodeTransformer):
        def visit_FunctionDef(self, f):
            return f

        def visit_Lambda(self, f):
            return f

        def visit_Expr(self, e):
            if isinstance(e.value, ast.Yield):
                call = ast.Call(ast.Attribute(ast.Name('__acc', ast.Load()), 'append', ast.Load()),
                                [e.value.value or ast.Constant(None)], [])
                return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), e))
            return e

        def visit_Return(self, r):
            return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name('__acc', ast.Load())), r))
    body = [V().visit(s) for s in n.body]
    init = ast.Assign([ast.Name('__acc', ast.Store())], ast.List([], ast.Load()))
    fin = ast.Return(ast.Name('__acc', ast.Load()))
    n.body = [init] + body + [fin]
    for s in (init, fin):
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
    return n


def has_exit(s):
    """does the loop body contain break/return belonging to this loop?"""
    todo = list(s.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Return)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            todo.extend([y for y in ast.walk(x) if isinstance(y, ast.Return)])
            continue
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def leading_break(s):
    """`while A: if B: break; ...` as `while A and not B: ...`"""
    while s.body and isinstance(s.body[0], ast.If):
        f = s.body[0]
        if len(f.body) == 1 and isinstance(f.body[0], ast.Break):
            stay, rest = ast.UnaryOp(ast.Not(), f.test), f.orelse + s.body[1:]
        elif len(f.orelse) == 1 and isinstance(f.orelse[0], ast.Break):
            stay, rest = f.test, f.body + s.body[1:]
        else:
            break
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if s.orelse and not always:
            break
        test = stay if always else ast.BoolOp(ast.And(), [s.test, stay])
        w = ast.While(test=test, body=rest or [ast.Pass()], orelse=[])
        s = ast.fix_missing_locations(ast.copy_location(w, s))
    return s


MIRROR = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def queue_loop(s):
    """while L / len(L) > 0 / len(L) != 0: e = L.pop(0); ... -> (name of L, target)"""
    t = s.test
    name = None
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Constant) and type(t.ops[0]) in MIRROR:
        t = ast.Compare(t.comparators[0], [MIRROR[type(t.ops[0])]()], [t.left])
    if isinstance(t, ast.Name):
        name = t.id
    elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and \
            isinstance(t.left.func, ast.Name) and t.left.func.id == 'len' and isinstance(t.left.args[0], ast.Name) and \
            isinstance(t.comparators[0], ast.Constant):
        c = t.comparators[0].value
        if (isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and c == 0) or (isinstance(t.ops[0], ast.GtE) and c == 1):
            name = t.left.args[0].id
    if name is None or not s.body:
        return None
    f = s.body[0]
    if not (isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.value, ast.Call)
            and isinstance(f.value.func, ast.Attribute) and f.value.func.attr == 'pop'
            and isinstance(f.value.func.value, ast.Name) and f.value.func.value.id == name
            and len(f.value.args) == 1 and isinstance(f.value.args[0], ast.Constant) and f.value.args[0].value == 0):
        return None
    for b in s.body[1:]:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == name:
                return None
    return name, f.targets[0]


def conflict(a, b):
    return bool('*' in a.reads and b.writes or '*' in b.reads and a.writes or '*' in a.writes or '*' in b.writes or
                a.writes & b.writes or a.reads & b.writes or a.writes & b.reads)


def loop_parts(evs):
    """groups of effects of a loop body that do not affect each other"""
    for e in evs:
        if e.kind == 'loop' or 'exit' in e.writes or any(contains_op(t, {'loophead', 'res', 'mres', 'ref', 'newobj'})
                                                         for t in [e.guard] + e.args):
            return [evs]
    groups = []
    for e in evs:
        hit = [g for g in groups if any(conflict(x, e) for x in g)]
        new = [x for x in evs if x is e or any(x in g for g in hit)]
        groups = [g for g in groups if g not in hit] + [new]
    return sorted(groups, key=lambda g: evs.index(g[0]))


def mk_keys(c):
    if c.op == 'ite':
        return lift(mk_keys, c)
    if c.op == 'dict':
        return tup(*[kv.args[0] for kv in c.args])
    if c.op == 'dictmap':
        x = fresh()
        k, v, f = open_(c.args[1], x)
        s = seq_close(c.args[0], x, k, f)
        return s if s.op == 'tup' or injective(k, x) else uniq(s)
    if c.op == 'dcopy':
        return mk_keys(c.args[0])
    if c.op == 'groupsum' and c.args[0].op == 'dictmap':
        return mk_keys(c.args[0])         # only existing keys can be added to
    if c.op == 'param':
        return c                          # going through a dictionary gives its keys
    return mk('keys', c)


def dedup(s):
    return mk('setseq', s.args[0]) if s.op == 'set' else s


def mk_set(elems):
    if elems.op == 'ite':
        return lift(mk_set, elems)
    if elems.op in ('set', 'setdiff', 'setint', 'setuni'):
        return elems
    if elems.op in ('sorted', 'reversed', 'arr'):
        return mk_set(elems.args[0])
    if elems.op == 'setseq':
        return mk('set', elems.args[0])
    return mk('set', elems)


def set_elems(s):
    if s.op == 'set':
        return s.args[0]
    return s


def mk_dictmap(n, x, key, val, filt):
    filt = as_dd(filt)
    if filt is FALSE or n is ZERO:
        return mk('dict')
    c = independent_cond(x, key, filt, val)
    if c is not None:
        return ite(as_dd(c), mk_dictmap(n, x, assume(key, c, 1), assume(val, c, 1), assume(filt, c, 1)),
                   mk_dictmap(n, x, assume(key, c, 0), assume(val, c, 0), assume(filt, c, 0)))
    cn = const(n)
    if filt is TRUE and cn is not None and 0 < cn <= 8:
        return mk('dict', *[tup(subst(key, {x: num(i)}), subst(val, {x: num(i)})) for i in range(int(cn))])
    # identity copy
    if filt is TRUE and val.op == 'at' and val.args[1] is key and key.op == 'at' and key.args[0].op == 'keys' \
            and key.args[0].args[0] is val.args[0] and key.args[1] is x:
        return mk_copy(val.args[0])
    return mk('dictmap', n, close(x, key, val, filt))


def _dictmap_rebuild(n, lam):
    x = fresh()
    k, v, f = open_(lam, x)
    return mk_dictmap(n, x, k, v, f)


tm.REBUILD['dictmap'] = _dictmap_rebuild


def mk_groupsum(init, n, body):
    """init, with amounts added to its entries"""
    if n is ZERO:
        return init
    if init.op in ('dictmap', 'seq'):
        # the sum of the amounts of each entry that was there before
        x, y = fresh(), fresh()
        e = open_(init.args[1], x)
        key, w, filt = open_(body, y)
        k, v = (e[0], e[1]) if init.op == 'dictmap' else (x, e[0])
        if e[-1] is TRUE:
            v = add(v, sum_close(n, y, ite(and_(filt, eq(key, k)), w, ZERO)))
            return mk_dictmap(init.args[0], x, k, v, TRUE) if init.op == 'dictmap' else seq_close(init.args[0], x, v)
    return mk('groupsum', init, n, body)


tm.REBUILD['groupsum'] = mk_groupsum
tm.REBUILD['keys'] = mk_keys
tm.REBUILD['set'] = mk_set


VALUES = {'tup', 'seq', 'dict', 'dictmap', 'ddel', 'dset', 'dupd', 'ddict', 'groupsum', 'copy', 'catseq', 'sorted'}


def mk_copy(t):
    """a fresh container with the content of t: only of interest where t is some container of unknown origin"""
    if t.op == 'ite':
        return lift(mk_copy, t)
    return t if t.op in VALUES else mk('copy', t)


tm.REBUILD['copy'] = mk_copy


def mk_dupd(init, d):
    if init.op == 'ite' or d.op == 'ite':
        return lift(mk_dupd, init, d)
    if init.op == 'dict' and not init.args:
        return d
    if d.op == 'dict' and not d.args:
        return init
    if d.op == 'dict':
        r = init
        for kv in d.args:
            r = mk_dset(r, kv.args[0], kv.args[1])
        return r
    return mk('dupd', init, d)


tm.REBUILD['dupd'] = mk_dupd


def mk_dset(d, k, v):
    if d.op == 'copy':
        d = d.args[0]
    if d.op == 'ite' or k.op == 'ite':
        return lift(lambda a, b: mk_dset(a, b, v), d, k)
    if d.op == 'dict':
        for i, kv in enumerate(d.args):
            e = eq(kv.args[0], k)
            if e is TRUE:
                return mk('dict', *(d.args[:i] + (tup(k, v),) + d.args[i + 1:]))
        if all(eq(kv.args[0], k) is FALSE for kv in d.args):
            return mk('dict', *(d.args + (tup(k, v),)))
    if d.op == 'dset' and d.args[1] is k:
        return mk('dset', d.args[0], k, v)
    return mk('dset', d, k, v)


def _rb_dset(d, k, v):
    return mk_dset(d, k, v)


tm.REBUILD['dset'] = _rb_dset


def mk_ddel(d, k):
    if d.op == 'ite' or k.op == 'ite':
        return lift(mk_ddel, d, k)
    if d.op == 'dict':
        es = [eq(kv.args[0], k) for kv in d.args]
        if all(e in (TRUE, FALSE) for e in es):
            return mk('dict', *[kv for kv, e in zip(d.args, es) if e is FALSE])
    if d.op == 'ddel' and d.args[1] is not k and k.od < d.args[1].od:
        return mk_ddel(mk_ddel(d.args[0], k), d.args[1])       # removals commute
    if d.op == 'ddel' and d.args[1] is k:
        return d
    return mk('ddel', d, k)


UNIQUE = {'unique_id', 'id'}


def dget(d, k, default=None):
    """value of key k in dictionary content d"""
    if d.op == 'ite' or k.op == 'ite':
        return lift(lambda a, b: dget(a, b, default), d, k)
    if d.op == 'dict' and len(d.args) > 6 and k.op not in ('str', 'num', 'bool', 'none'):
        return mk('at', d, k) if default is None else mk('dget', d, k, default)
    if d.op == 'dict':
        r = default if default is not None else mk('err', 'KeyError')
        for kv in d.args:
            r = ite(eq(kv.args[0], k), kv.args[1], r)
        return r
    if d.op == 'dictmap':
        x = fresh()
        key, v, filt = open_(d.args[1], x)
        if key.op == 'at' and key.args[1] is x and x not in key.args[0].fv:
            v2 = subst(v, {key: k})
            if x not in v2.fv:
                if default is not None:
                    return ite(member(k, d), v2, default)
                return v2
        if key is x:
            return subst(v, {x: k})
        # identifiers are unique within the collection they are read from
        if key.op == 'attr' and key.args[1] in UNIQUE and k.op == 'attr' and k.args[1] == key.args[1] and \
                key.args[0].op == 'at' and k.args[0].op == 'at' and key.args[0].args[1] is x and \
                k.args[0].args[0] is key.args[0].args[0] and x not in k.args[0].args[0].fv and filt is TRUE:
            return subst(v, {x: k.args[0].args[1]})
    if d.op == 'dset':
        return ite(eq(d.args[1], k), d.args[2], dget(d.args[0], k, default))
    if d.op == 'dupd':
        m = d.args[1]
        return ite(member(k, m), dget(m, k), dget(d.args[0], k, default))
    if d.op == 'ddel' and definitely_distinct(d.args[1], k):
        return dget(d.args[0], k, default)
    if d.op == 'ddict':
        return d.args[0]
    if d.op == 'copy':
        return dget(d.args[0], k, default)
    if d.op == 'groupsum':
        x = fresh()
        key, w, filt = open_(d.args[2], x)
        s = sum_close(d.args[1], x, ite(eq(key, k), w, ZERO))
        i0 = d.args[0]
        if i0.op == 'dict' and not i0.args:
            base = ZERO if default is None or default is ZERO else None
            if base is None:
                return mk('dget', d, k, default)
            return s
        return add(dget(i0, k, default), s)
    if d.op == 'dcopy':
        v = dget(d.args[0], k, None)
        v = mk('dcopy', v) if v.op not in ('num', 'str') else v
        return ite(member(k, d.args[0]), v, default) if default is not None else v
    if default is not None:
        return ite(member(k, d), at(d, k), default)
    return at(d, k)


tm.REBUILD['ddel'] = mk_ddel


def mk_flat(n, x, inner, filt):
    return mk('flat', n, close(x, inner, filt))


# ---------------------------------------------------------------------------------------------------------------------
# syntactic effects (for calls that stay symbolic)

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'add', 'discard', 'setdefault', 'popitem',
            'sort', 'reverse', 'write', 'writerow', 'writerows', 'mkdir', 'to_csv', 'dump'}


def container_locs(x, aliases, params):
    """abstract locations of a container expression, or () if it is local to the function"""
    while True:
        if isinstance(x, ast.Subscript):
            x = x.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('values', 'items', 'keys'):
            x = x.func.value
        elif isinstance(x, ast.Name) and aliases.get(x.id) is not None and aliases[x.id] is not x:
            x = aliases[x.id]
            aliases = {}
        else:
            break
    if isinstance(x, ast.Attribute):
        if x.attr == 'rankings':
            return ('c:pool_rankings', 'c:pool_rankings_myopic')
        return ('c:' + x.attr,)
    if isinstance(x, ast.Name) and x.id in params:
        return ('c:' + x.id,) if x.id in DICT_FIELDS else ('c:?',)
    return ()


IO_METHODS = {'to_csv', 'to_json', 'to_pickle', 'to_excel', 'to_html', 'savefig', 'write', 'writelines', 'writerow',
              'writerows', 'mkdir', 'touch', 'unlink', 'rename', 'rmdir', 'write_text', 'write_bytes', 'savetxt',
              'truncate', 'makedirs'}
FILE_NAME = re.compile(r'[\w\-.]*\.(csv|json|pkl|dat|txt|png|pdf|svg|html|xlsx|log|yaml|yml)$')


def file_locs(f):
    """abstract locations of the files a function works on: the names it mentions, else one common location"""
    out, todo = set(), [f.node]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.JoinedStr, ast.BinOp)) or isinstance(x, ast.Constant) and isinstance(x.value, str):
            text = ''.join(c.value for c in ast.walk(x) if isinstance(c, ast.Constant) and isinstance(c.value, str))
            if FILE_NAME.search(text):
                out.add('io:' + (f.name + text if text.startswith(('.', '-')) else text))
        else:
            todo += list(ast.iter_child_nodes(x))
    return out or {'io:file'}


def syntactic_effects(repo, cands):
    """(reads, writes) of a set of candidate functions: attribute names / abstract locations, transitively by name"""
    seen, todo, reads, writes = set(), list(cands), set(), set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        params = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
        aliases = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                n = x.targets[0].id
                aliases[n] = None if n in aliases else (x.value if isinstance(x.value, (ast.Attribute, ast.Name)) else None)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                reads |= {'f:' + x.attr, 'c:' + x.attr}
                if x.attr == 'rankings':
                    reads |= {'c:pool_rankings', 'c:pool_rankings_myopic'}
                if isinstance(x.ctx, (ast.Store, ast.Del)):
                    writes.add('f:' + x.attr)
                todo += repo.getters.get(x.attr, []) + (repo.setters.get(x.attr, []) if isinstance(x.ctx, ast.Store)
                                                        else [])
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                writes |= set(container_locs(x.value, aliases, params))
            elif isinstance(x, ast.Call):
                fn = x.func
                if isinstance(fn, ast.Attribute):
                    if fn.attr in MUTATORS:
                        writes |= set(container_locs(fn.value, aliases, params))
                    r = None
                    if isinstance(fn.value, ast.Name):
                        r = repo.resolve(f.mod, fn.value.id)
                    if r and r[0] == 'mod' and r[1] in repo.modules:
                        r2 = repo.resolve(repo.modules[r[1]], fn.attr)
                        if r2 and r2[0] == 'fn':
                            todo.append(r2[1])
                    elif r and r[0] == 'ext':
                        full = r[1] + '.' + fn.attr
                        if full.startswith(('random.', 'numpy.random')):
                            writes.add('rng:' + full.split('.')[0])
                        elif not any(full.startswith(p) for p in PURE_PREFIX + ('math.', 'np.', 'numpy.')):
                            writes |= file_locs(f)
                    elif fn.attr in IO_METHODS and not (fn.attr in repo.by_method):
                        writes |= file_locs(f)
                    elif fn.attr in repo.by_method:
                        todo += repo.by_method[fn.attr]
                    elif fn.attr in ('step', 'advance', 'collect', 'run_model'):
                        writes.add('*')
                elif isinstance(fn, ast.Name):
                    r = repo.resolve(f.mod, fn.id)
                    if r and r[0] == 'fn':
                        todo.append(r[1])
                    if fn.id == 'open':
                        writes |= file_locs(f)
                    if fn.id == 'setattr' and f.name != '__init__' and any(
                            isinstance(y, ast.Attribute) and y.attr == 'multi_phase_params' for y in ast.walk(f.node)):
                        writes |= set(repo.parameter_locations())     # as where the function itself is analysed
                    elif fn.id in ('setattr', 'delattr', 'exec', 'eval'):
                        writes.add('*')
    if 'io:file' in writes:
        names = {l for f in cands for l in file_locs(f)} - {'io:file'}
        if names:
            writes = writes - {'io:file'} | names        # the caller names the file that a helper writes
    return frozenset(reads), frozenset(writes)


# ---------------------------------------------------------------------------------------------------------------------
# canonical event lists


def split_leaves(v, g):
    """(guard, value) pairs of a conditional value under a guard"""
    if v.op != 'ite' or is_bool(v):
        return [(g, v)]
    out = []
    c = as_dd(v.args[0])
    for cond, w in ((c, v.args[1]), (not_(c), v.args[2])):
        g2 = and_(g, cond)
        if g2 is not FALSE:
            out += split_leaves(w, g2)
    m = {}
    for g2, w in out:
        m[w] = or_(m[w], g2) if w in m else g2
    return [(g2, w) for w, g2 in m.items()]


def same_target(p, e):
    return p.kind == e.kind and all(x is y for x, y in zip(p.args[:-1], e.args[:-1])) and len(p.args) == len(e.args)


def merge_sets(interp, evs):
    """writes of conditional values become conditional writes; writes that are overwritten before anything can read
    them disappear; equal conditional writes are combined"""
    todo = []
    for e in evs:
        if e.kind == 'loophead':
            continue
        if e.kind in SPLIT_KINDS and e.args and e.args[-1].op == 'ite':
            parts = split_leaves(e.args[-1], e.guard)
            if len(parts) > 1:
                for g, v in parts:
                    todo.append(Ev(e.kind, g, e.args[:-1] + [v], e.reads, e.writes, e.loc))
                continue
        todo.append(e)
    out = []
    for e in todo:
        if e.kind == 'set':
            j = len(out) - 1
            live = e.guard
            while j >= 0 and live is not FALSE:
                p = out[j]
                if p.kind == 'set' and same_target(p, e):
                    g = and_(p.guard, not_(live))
                    if g is not p.guard:
                        p = out[j] = Ev('set', g, p.args, p.reads, p.writes, p.loc)
                        if g is FALSE:
                            del out[j]
                elif and_(p.guard, live) is not FALSE and (p.reads & e.writes or '*' in p.reads or
                                                           p.writes & e.writes or '*' in p.writes or
                                                           'exit' in p.writes):
                    live = and_(live, not_(p.guard))
                j -= 1
        if e.kind in ('setitem', 'pop') and len(e.args) >= 2:
            e = overwritten_entry(out, e)
        if e.kind in SPLIT_KINDS:
            # an equal write under a disjoint condition that this one can be moved to
            j = len(out) - 1
            hit = None
            while j >= 0:
                p = out[j]
                if same_target(p, e) and p.args[-1] is e.args[-1] and and_(p.guard, e.guard) is FALSE:
                    hit = j
                    break
                if not independent(p, e):
                    break
                j -= 1
            if hit is not None:
                p = out[hit]
                out[hit] = Ev(e.kind, or_(p.guard, e.guard), p.args, p.reads | e.reads, p.writes | e.writes, p.loc)
                continue
        if e.kind in CALL_KINDS and join_exclusive(out, e, lambda p: len(p.args) == len(e.args) and all(
                x is y for x, y in zip(p.args, e.args))):
            continue
        out.append(e)
    todo, out = out, []
    for e in todo:
        # the same function called in two exclusive branches: one call with conditional arguments
        if e.kind not in CALL_KINDS or not join_exclusive(out, e, lambda p: same_call(p, e)):
            out.append(e)
    return out


CALL_KINDS = {'call', 'vcall', 'mcall', 'ext'}


def join_exclusive(out, e, match):
    """combine e with an earlier call under an exclusive condition that it can be brought next to"""
    if e.guard is TRUE or e.guard is FALSE:
        return False
    for j in range(len(out) - 1, max(-1, len(out) - 40), -1):
        p = out[j]
        if p.kind == e.kind and and_(p.guard, e.guard) is FALSE and match(p):
            between = out[j + 1:]
            args = [zip_ite(p.guard, x, y) for x, y in zip(p.args, e.args)]
            new = Ev(e.kind, or_(p.guard, e.guard), args, p.reads | e.reads, p.writes | e.writes, p.loc)
            if all(independent(x, e) for x in between):
                out[j] = new
                return True
            if all(independent(p, x) for x in between):
                del out[j]
                out.append(new)
                return True
    return False


def overwritten_entry(out, e):
    """an entry that is stored and then stored again or removed: the first store disappears; returns the later event"""
    o, k = e.args[:2]
    j = len(out) - 1
    while j >= 0:
        p = out[j]
        if p.kind == 'setitem' and p.args[0] is o and p.args[1] is k:
            g = and_(p.guard, not_(e.guard))
            if g is p.guard:
                return e
            if e.kind == 'pop':
                if any(x.writes & p.writes or '*' in x.writes for x in out[:j]):
                    return e
                e = Ev('pop', and_(e.guard, or_(not_(p.guard), member(k, o))), e.args, e.reads, e.writes, e.loc)
            if g is FALSE:
                del out[j]
            else:
                out[j] = Ev('setitem', g, p.args, p.reads, p.writes, p.loc)
            return e
        if p.kind == 'pop' and e.kind == 'setitem' and p.args[0] is o and p.args[1] is k:
            # removed and stored again (the place in the dictionary is not followed)
            g = and_(p.guard, not_(e.guard))
            if g is FALSE:
                del out[j]
            else:
                out[j] = Ev('pop', g, p.args, p.reads, p.writes, p.loc)
            return e
        if p.reads & e.writes or p.writes & e.writes or '*' in p.reads or '*' in p.writes or 'exit' in p.writes:
            return e
        j -= 1
    return e


def same_call(p, e):
    if len(p.args) != len(e.args) or not p.args or p.args[0] is not e.args[0]:
        return False
    pos = {'call': 1, 'ext': 1, 'vcall': 2, 'mcall': 2}[e.kind]
    if pos == 2 and p.args[1] is not e.args[1]:
        return False
    for x, y in zip(p.args[pos:], e.args[pos:]):
        named = [t.op == 'tup' and len(t.args) == 2 and t.args[0].op == 'str' for t in (x, y)]
        if named[0] != named[1] or named[0] and x.args[0] is not y.args[0]:
            return False
        if e.kind == 'call' and not named[0]:
            return False
    return True


def s_counted(s):
    """the call q.count(v) in the test of a filling loop"""
    t = s.test
    return t.left if isinstance(t.ops[0], ast.Lt) else t.comparators[0]


def filling_loop(s, simple=True):
    """`while q.count(v) < n: q.add(v); ...` adds v as often as it is missing: as `for _ in range(n - q.count(v)): ...`"""
    t = s.test
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.Gt)):
        return None
    c, n = (t.left, t.comparators[0]) if isinstance(t.ops[0], ast.Lt) else (t.comparators[0], t.left)
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'count' and
            len(c.args) == 1 and not c.keywords and isinstance(c.args[0], ast.Constant)):
        return None
    q = ast.dump(c.func.value)
    if not all(isinstance(x, (ast.Name, ast.Attribute, ast.expr_context)) for x in ast.walk(c.func.value)):
        return None
    if any(isinstance(x, ast.expr) and ast.dump(x) == q or isinstance(x, ast.Call) for x in ast.walk(n)):
        return None
    filled = 0
    if not simple:
        stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        filled = int(not has_exit(s) and c.args[0].value is None and
                     not any(isinstance(x, ast.Name) and x.id in stored for x in ast.walk(t)))
    for b in s.body if simple else []:
        m = b.value if isinstance(b, ast.Expr) else None
        if not (isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in ('add', 'append') and
                len(m.args) == 1 and not m.keywords and isinstance(m.func.value, (ast.Name, ast.Attribute))):
            return None
        if ast.dump(m.func.value) == q:
            if not (isinstance(m.args[0], ast.Constant) and m.args[0].value is c.args[0].value):
                return None
            filled += 1
    if filled != 1:
        return None
    it = ast.Call(ast.Name('range', ast.Load()), [ast.BinOp(n, ast.Sub(), c)], [])
    f = ast.For(target=ast.Name('__fill%d' % s.lineno, ast.Store()), iter=it, body=s.body, orelse=[])
    return ast.fix_missing_locations(ast.copy_location(f, s))


def zip_ite(c, x, y):
    """conditional value, with the condition inside records of the same shape"""
    if x is y:
        return x
    if x.op == y.op and x.op in ('tup', 'obj') and len(x.args) == len(y.args):
        if all(isinstance(a, T) and isinstance(b, T) or a == b for a, b in zip(x.args, y.args)):
            return tm.rebuild(x.op, [zip_ite(c, a, b) if isinstance(a, T) else a for a, b in zip(x.args, y.args)])
    return ite(as_dd(c), x, y)


SPLIT_KINDS = {'set', 'setattr', 'add', 'append', 'remove', 'setitem', 'extend'}


def drop_dc(g, v):
    return v


def independent(a, b):
    if and_(a.guard, b.guard) is FALSE:
        return True
    if 'exit' in a.writes or 'exit' in b.writes:
        # relative order of exits and other effects is captured by the guards
        return True
    sa, sb = '*' in a.writes or '*' in a.reads, '*' in b.writes or '*' in b.reads
    if (sa and (b.writes or b.reads)) or (sb and (a.writes or a.reads)):
        return False
    ww = a.writes & b.writes
    if a.reads & b.writes or b.reads & a.writes:
        return False
    if not ww:
        return True
    if a.kind == b.kind and a.kind in ('add', 'remove') :
        return True
    if {a.kind, b.kind} == {'add', 'remove'} and a.args[1] is not b.args[1]:
        return True
    if a.kind == b.kind == 'setitem' and a.args[0] is b.args[0] and a.args[1].op == b.args[1].op == 'str' and \
            a.args[1] is not b.args[1] and present(a) and present(b):
        return True
    return False


def present(e):
    """was the entry that is stored looked up before (then it keeps its place in the dictionary)"""
    return any(x.op == 'at' and x.args[0] is e.args[0] and x.args[1] is e.args[1] for x in subterms(e.guard))


def order_events(interp, evs):
    """canonical linearisation of the partial order of dependent events"""
    evs = list(evs)
    n = len(evs)
    preds = {i: set() for i in range(n)}
    for j in range(n):
        for i in range(j):
            if not independent(evs[i], evs[j]):
                preds[j].add(i)
    done, out = set(), []
    while len(out) < n:
        ready = [i for i in range(n) if i not in done and preds[i] <= done]
        i = min(ready, key=lambda i: interp.ev_term(evs[i]).od)
        done.add(i)
        out.append(evs[i])
    return out
