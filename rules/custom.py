"""Rules over the syntax trees of the whole repository: call graph, effects, sources of nondeterminism, tables."""
import ast
import os
import re

from sa.repo import dec_name
from sa.exprs import Interp
from sa.interp import Unsupported
from sa.terms import *
from sa.compare import limited, Timeout, tshow


# ---------------------------------------------------------------------------------------------------------------------
# call graph by name (over-approximation: a name refers to every function of the repository with that name)

class CallGraph:
    def __init__(self, repo, prefixes=('logic', 'custom_batchrunner', 'main', 'batch-run')):
        self.repo = repo
        self.funcs = []
        for mn in sorted(repo.impl_modules):
            if not mn.startswith(prefixes):
                continue
            m = repo.modules[mn]
            self.funcs += list(m.functions.values())
            for c in m.classes.values():
                for t in ('methods', 'getters', 'setters'):
                    self.funcs += list(getattr(c, t).values())
        self.by_name = {}
        for f in self.funcs:
            self.by_name.setdefault(f.name, []).append(f)
        self.classes = {}
        for mn in repo.impl_modules:
            for c in repo.modules[mn].classes.values():
                self.classes.setdefault(c.name, []).append(c)

    def callees(self, f):
        out = []
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Name) and n.id != f.name:
                names.add(n.id)
        for x in names:
            out += self.by_name.get(x, [])
            for c in self.classes.get(x, ()):
                out += [g for g in c.methods.values() if g.name.startswith('__')]
        # tables of functions and classes used by name
        for x in names:
            m = f.mod
            r = self.repo.resolve(m, x)
            if r and r[0] == 'glob':
                for n in ast.walk(r[1].globals[r[2]]):
                    if isinstance(n, ast.Name):
                        out += self.by_name.get(n.id, [])
        return out

    def reach(self, seeds):
        seen, todo = set(), list(seeds)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo += self.callees(f)
        return seen


def loc(f, node):
    return (f.mod.relpath, node.lineno, f.qual)


def attr_writes(node):
    """(attribute name, statement, kind) for every store to an attribute"""
    for s in ast.walk(node):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        yield x, s
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(s.target, ast.Attribute):
                yield s.target, s
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ('setattr', 'delattr'):
            if len(s.args) > 1 and isinstance(s.args[1], ast.Constant):
                yield ast.Attribute(value=s.args[0], attr=s.args[1].value, ctx=ast.Store()), s


# ---------------------------------------------------------------------------------------------------------------------

def id_counter(ctx):
    """while a simulation runs, the counter that pool ids come from only ever grows"""
    f = ctx.find('logic.sim.Simulation.get_next_pool_id')
    if f is None:
        return [], 0, ['get_next_pool_id not found']
    counters = {a.attr for a, _ in attr_writes(f.node)}
    if len(counters) != 1:
        return [], 0, ['the counter of pool ids cannot be identified']
    cg = CallGraph(ctx.repo)
    seeds = [x for n in ('logic.sim.Simulation.step',) for x in [ctx.find(n)] if x]
    bad, n, und = [], 0, []
    for g in cg.reach(seeds):
        for a, s in attr_writes(g.node):
            if a.attr not in counters:
                continue
            n += 1
            v = s.value if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) else None
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(v, ast.Constant):
                if v.value > 0:
                    continue
            elif isinstance(s, ast.AugAssign) and not isinstance(s.op, ast.Sub):
                und.append('%s:%d' % (g.mod.relpath, s.lineno))
                continue
            elif isinstance(s, ast.Assign) and g is f:
                continue                        # compared with the reference of get_next_pool_id
            elif isinstance(s, ast.Assign) and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
                continue
            bad.append((loc(g, s), '%s:%d in %s changes the counter of pool ids other than by increasing it, and is '
                        'reachable from Simulation.step' % (g.mod.relpath, s.lineno, g.qual)))
    return bad, n, und


# ---------------------------------------------------------------------------------------------------------------------
# memoisation

CACHES = ('lru_cache', 'cache', 'functools.lru_cache', 'functools.cache')


def memo_pure(ctx):
    """every memoised function depends on nothing but the values of its hashable, immutable arguments"""
    bad, n, und = [], 0, []
    cg = CallGraph(ctx.repo)
    for f in cg.funcs:
        if not any(d in CACHES or d.split('.')[-1] in ('lru_cache', 'cache') for d in f.decorators):
            continue
        n += 1
        try:
            s = limited(60, lambda: Interp(ctx.repo).analyse(f, selfcls=f.cls))
        except (Unsupported, Timeout, TooBig, RecursionError) as e:
            und.append('%s: %s' % (f.qual, type(e).__name__))
            continue
        for e in s.events:
            if e.kind in ('raise', 'assert'):
                continue
            bad.append((e.loc or loc(f, f.node), 'memoised function %s has an effect: %s' % (f.qual, repr(e)[:200])))
            break
        reads = set()
        for t in [s.result] + [e.guard for e in s.events]:
            for x in subterms(t):
                if x.op in ('attr', 'attrv', 'ver', 'vcall', 'res', 'mres', 'glob'):
                    reads.add(x)
                elif x.op == 'at' and x.args[0].op == 'param':
                    reads.add(x)
        if reads:
            x = sorted(reads, key=lambda t: (t.size, t.od))[0]
            bad.append((loc(f, f.node), 'memoised function %s depends on %s, which can change while its arguments stay '
                        'the same objects' % (f.qual, tshow(x))))
    return bad, n, und


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def is_mutable(e):
    return isinstance(e, MUTABLE) or isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (
        e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in (
            'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'SortedList', 'SortedDict', 'count')


def shared_state(ctx):
    """nothing outlives a simulation: no function changes a module variable, a mutable default argument or a mutable
    class attribute"""
    bad, n, und = [], 0, []
    cg = CallGraph(ctx.repo, ('logic',))
    for f in cg.funcs:
        n += 1
        a = f.node.args
        pos = a.posonlyargs + a.args
        shared = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and is_mutable(d):
                shared[p.arg] = 'the default of parameter %s' % p.arg
        local = {x.arg for x in pos + a.kwonlyargs} | {
            x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        globs = {x for s in ast.walk(f.node) if isinstance(s, ast.Global) for x in s.names}
        for s in ast.walk(f.node):
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name) and t.id in globs:
                        bad.append((loc(f, s), '%s:%d in %s assigns the module variable %s, which outlives the '
                                    'simulation' % (f.mod.relpath, s.lineno, f.qual, t.id)))
        rebound = {t.id for s in ast.walk(f.node) if isinstance(s, ast.Assign) for t in s.targets
                   if isinstance(t, ast.Name)}

        def owner(r):
            """what shared object an expression denotes, if any"""
            if isinstance(r, ast.Name):
                if r.id in shared and r.id not in rebound:
                    return shared[r.id]
                if r.id not in local or r.id in globs:
                    g = ctx.repo.resolve(f.mod, r.id)
                    if g and g[0] == 'glob' and is_mutable(g[1].globals[g[2]]):
                        return 'the module variable %s' % r.id
            if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name):
                c = f.cls if r.value.id in ('self', 'cls') else None
                if c is None and r.value.id not in local:
                    g = ctx.repo.resolve(f.mod, r.value.id)
                    c = g[1] if g and g[0] == 'cls' else None
                    if g and g[0] == 'mod' and g[1] in ctx.repo.modules:
                        m2 = ctx.repo.modules[g[1]]
                        if r.attr in m2.globals and is_mutable(m2.globals[r.attr]):
                            return 'the module variable %s' % r.attr
                if c is not None:
                    for k in ctx.repo.mro(c):
                        e = k.attrs.get(r.attr)
                        if e is not None and is_mutable(e) and not any(
                                x.attr == r.attr for b in ctx.repo.mro(c) for g in b.methods.values()
                                if g.name == '__init__' for x, _ in attr_writes(g.node)):
                            return 'the class attribute %s.%s' % (k.name, r.attr)
        for s in ast.walk(f.node):
            r, what = None, None
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in MUTATORS:
                r, what = s.func.value, '%s()' % s.func.attr
            elif isinstance(s, ast.Subscript) and isinstance(s.ctx, (ast.Store, ast.Del)):
                r, what = s.value, 'an item assignment'
            elif isinstance(s, ast.AugAssign):
                r, what = s.target, 'an in-place update'
                if isinstance(r, ast.Name):
                    r = None
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'next' and s.args:
                r, what = s.args[0], 'next()'
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in shared and \
                    s.value.id not in rebound and any(isinstance(t, ast.Attribute) for t in s.targets):
                r, what = s.value, 'being stored in an object'
            o = owner(r) if r is not None else None
            if o:
                bad.append((loc(f, s), '%s:%d in %s changes %s by %s, which every later use sees' % (
                    f.mod.relpath, s.lineno, f.qual, o, what)))
    return bad, n, und


# ---------------------------------------------------------------------------------------------------------------------
# nondeterminism

RANDOM_FNS = {'random', 'randint', 'choice', 'choices', 'shuffle', 'sample', 'uniform', 'randrange', 'gauss',
              'normalvariate', 'expovariate', 'betavariate', 'gammavariate', 'paretovariate', 'triangular',
              'getrandbits', 'vonmisesvariate', 'weibullvariate', 'lognormvariate', 'randbytes'}
NP_OK = {'default_rng', 'RandomState', 'Generator', 'PCG64', 'SeedSequence', 'MT19937'}


def dotted(mod, e):
    """dotted name of an expression with its root resolved through the imports of the module"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    imp = mod.imports.get(e.id)
    if imp is None:
        return None
    root = imp[1] if imp[0] == 'mod' else '%s.%s' % (imp[1], imp[2])
    return '.'.join([root] + list(reversed(parts)))


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def mentions_seed(e):
    return any('seed' in x.lower() for n in ast.walk(e) for x in
               ([n.id] if isinstance(n, ast.Name) else [n.attr] if isinstance(n, ast.Attribute) else
                [n.value] if isinstance(n, ast.Constant) and isinstance(n.value, str) else []))


def is_nondet(dn, call):
    """does calling the library function `dn` bring in a value that no seed determines?"""
    if dn is None:
        return None
    if dn.startswith('random.'):
        last = dn.split('.')[-1]
        if last in RANDOM_FNS:
            return 'the process-wide generator %s' % dn
        if last == 'SystemRandom':
            return dn
        if last == 'Random' and not call.args and not call.keywords:
            return 'an unseeded generator'
        if last == 'seed' and not call.args:
            return 'reseeding from the system'
    if dn.startswith('numpy.random.'):
        last = dn.split('.')[-1]
        if last in NP_OK:
            a = list(call.args) + [k.value for k in call.keywords]
            if not a or all(isinstance(x, ast.Constant) and x.value is None for x in a):
                return 'an unseeded generator'
            return None
        if last == 'seed':
            return None if call.args else 'reseeding from the system'
        return 'the process-wide generator %s' % dn
    if dn.startswith(('secrets.', 'uuid.uuid1', 'uuid.uuid4')) or dn in ('os.urandom', 'os.getpid'):
        return dn
    if dn.startswith('scipy.stats.') and dn.endswith('.rvs'):
        if not any(k.arg == 'random_state' for k in call.keywords):
            return 'unseeded sampling %s' % dn
    return None


TIME = ('time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now',
        'datetime.datetime.utcnow', 'datetime.date.today', 'time.process_time')


def without_seed(f, c, par):
    """is `c` reached only if a test about the seed holds?"""
    about = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and mentions_seed(n.value)
             for t in n.targets if isinstance(t, ast.Name)}
    p = c
    while p in par:
        q = par[p]
        if isinstance(q, (ast.If, ast.IfExp)) and p is not q.test and (
                mentions_seed(q.test) or any(isinstance(x, ast.Name) and x.id in about for x in ast.walk(q.test))):
            return True
        p = q
    return False


def only_without_seed(cg, f):
    """is every use of the function `f` one that without_seed accepts?"""
    uses = []
    for g in cg.funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name:
                uses.append((g, n))
    return bool(uses) and all(without_seed(g, n, parents(g.node)) for g, n in uses)


def nondeterminism(ctx):
    """everything random in a run comes from generators made from the seed"""
    bad, n, und = [], 0, []
    cg = CallGraph(ctx.repo, ('logic',))
    seeds = [f for x in ('__init__', 'step', 'run_model') for f in [ctx.find('logic.sim.Simulation.' + x)] if f]
    if not seeds:
        return [], 0, ['Simulation not found']
    for f in sorted(cg.reach(seeds), key=lambda f: f.qual):
        par = parents(f.node)
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            dn = dotted(f.mod, c.func)
            if isinstance(c.func, ast.Name) and c.func.id in ('hash', 'id') and c.func.id not in f.mod.functions and \
                    c.func.id not in f.all_params():
                arg = c.args[0] if c.args else None
                if c.func.id == 'hash':
                    n += 1
                    bad.append((loc(f, c), '%s:%d in %s: hash() of text differs from process to process' % (
                        f.mod.relpath, c.lineno, f.qual)))
                continue
            what = is_nondet(dn, c)
            if dn and dn.startswith(('random.', 'numpy.random.')):
                n += 1
            if what is None:
                if dn and dn.startswith('numpy.random.') and dn.split('.')[-1] in NP_OK and \
                        any(isinstance(x, ast.Call) and dotted(f.mod, x.func) in TIME for a in
                            list(c.args) + [k.value for k in c.keywords] for x in ast.walk(a)):
                    bad.append((loc(f, c), '%s:%d in %s: generator seeded with the time' % (
                        f.mod.relpath, c.lineno, f.qual)))
                continue
            # a seed drawn at random because none was given is the documented behaviour
            ok = 'seed' in f.name.lower() or without_seed(f, c, par) or only_without_seed(cg, f)
            if not ok:
                bad.append((loc(f, c), '%s:%d in %s uses %s, which the seed of the run does not determine' % (
                    f.mod.relpath, c.lineno, f.qual, what)))
    return bad, n, und


# ---------------------------------------------------------------------------------------------------------------------
# metrics only look

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'add', 'discard', 'sort',
            'reverse', 'setdefault', '__setitem__', '__delitem__', 'difference_update', 'intersection_update'}


def metrics_readonly(ctx):
    """computing a metric changes nothing in the model"""
    bad, n, und = [], 0, []
    m = ctx.repo.modules.get('logic.model_reporters')
    table = m and m.globals.get('ALL_MODEL_REPORTEERS')
    if table is None:
        return [], 0, ['table of metrics not found']
    names = []
    for x in ast.walk(table):
        if isinstance(x, ast.Name) and x.id in m.functions and x.id not in names:
            names.append(x.id)
    if isinstance(table, ast.Dict):
        rest = [x for x in table.values if not isinstance(x, ast.Name)]
        und += ['metric that is not a named function (line %d)' % x.lineno for x in rest
                if not isinstance(x, (ast.Lambda, ast.Attribute))]
    cg = CallGraph(ctx.repo, ('logic',))
    for nm in names:
        f = m.functions[nm]
        n += 1
        try:
            s = limited(60, lambda: Interp(ctx.repo).analyse(f))
        except (Unsupported, Timeout, TooBig, RecursionError):
            # fall back on syntax: no store into, and no mutating call on, anything reached from the parameters
            b = syntactic_effects(f)
            bad += b
            continue
        for e in flat_events(s.events):
            if e.kind in ('raise', 'print', 'assert'):
                continue
            if not touches_model(e):
                continue
            if any(isinstance(a, T) and any(x.op == 'bv' and x.args[0] == 'p' for x in subterms(a)) for a in e.args):
                # an object carried from one pass of a loop to the next: which object it is is not known here
                b = syntactic_effects(f)
                bad += b
                break
            bad.append((e.loc or loc(f, f.node), 'metric %s changes the model: %s' % (nm, repr(e)[:200])))
            break
    for f in sorted(cg.reach([m.functions[nm] for nm in names]), key=lambda f: f.qual):
        for c in model_draws(f):
            bad.append((loc(f, c), '%s:%d in %s, which metrics use, draws from the generator of the model' % (
                f.mod.relpath, c.lineno, f.qual)))
    return bad, n, und


def model_draws(f):
    """calls that take random numbers from the generator kept in an object (`….random`)"""
    def gen(e):
        return isinstance(e, ast.Attribute) and e.attr in ('random', '_random', 'rng') and \
            (dotted(f.mod, e) or '').split('.')[0] not in ('random', 'numpy', 'scipy')
    alias = {t.id for s in ast.walk(f.node) if isinstance(s, ast.Assign) and gen(s.value)
             for t in s.targets if isinstance(t, ast.Name)}
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and (
                c.func.attr in RANDOM_FNS or c.func.attr == 'seed'):
            r = c.func.value
            if gen(r) or isinstance(r, ast.Name) and r.id in alias:
                yield c


def flat_events(evs):
    for e in evs:
        if e.kind == 'loop':
            yield from flat_events(e.body)
        else:
            yield e


def touches_model(e):
    if e.kind in ('call', 'vcall', 'ext', 'mcall'):
        # library call: an effect on the model only if the object it is made on belongs to the model
        if e.kind == 'mcall' and e.args[0].op == 'str' and e.args[0].args[0] in MUTATORS:
            return rooted(e.args[1])
        return e.kind in ('call', 'vcall')
    if e.kind == 'set':
        return rooted(e.args[0])
    return bool(e.args) and rooted(e.args[0])


def rooted(t):
    """does the object come from outside the function?"""
    while t.op in ('attr', 'attrv', 'at', 'ver', 'mres', 'vcall', 'keys', 'values') and t.args and isinstance(
            t.args[0], T):
        t = t.args[0]
    return t.op in ('param', 'glob', 'vcall', 'bv') or t.op == 'attr'


def syntactic_effects(f):
    bad = []
    own = local_objects(f.node)
    for a, s in attr_writes(f.node):
        r = a.value
        while isinstance(r, (ast.Attribute, ast.Subscript)):
            r = r.value
        if isinstance(r, ast.Name) and r.id not in own:
            bad.append((loc(f, s), '%s:%d in %s assigns an attribute of an object it did not create' % (
                f.mod.relpath, s.lineno, f.qual)))
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in MUTATORS:
            r = c.func.value
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name) and r.id not in own:
                bad.append((loc(f, c), '%s:%d in %s calls %s on an object it did not create' % (
                    f.mod.relpath, c.lineno, f.qual, c.func.attr)))
    return bad


def local_objects(node):
    """local names that are only ever bound to freshly built objects"""
    fresh_, other = set(), {a.arg for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs}
    for s in ast.walk(node):
        if isinstance(s, ast.Assign):
            new = isinstance(s.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call,
                                       ast.BinOp, ast.Tuple, ast.Constant))
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in (
                    'get', 'pop', 'get_agents_list'):
                new = False
            for t in s.targets:
                if isinstance(t, ast.Name):
                    (fresh_ if new else other).add(t.id)
        elif isinstance(s, (ast.For, ast.comprehension)):
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    other.add(x.id)
    return fresh_ - other


# ---------------------------------------------------------------------------------------------------------------------
# command line

def parser_options(ctx, f):
    """options added in function f or what it calls: name -> (call, {keyword: expression}), reasons for doubt, module"""
    out, und = {}, []
    cg = CallGraph(ctx.repo)
    mods = {}
    for g in (cg.reach([f]) if f in cg.funcs else [f]):
        node = g.node
        par = parents(node)
        for c in ast.walk(node):
            if isinstance(c, ast.Attribute) and c.attr == 'add_argument' and not (
                    isinstance(par.get(c), ast.Call) and par[c].func is c):
                und.append('add_argument is used other than by calling it')
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'add_argument':
                p = c
                while p in par:
                    p = par[p]
                    if isinstance(p, (ast.For, ast.While, ast.comprehension, ast.ListComp)):
                        und.append('options added in a loop')
                names = [a.value for a in c.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if not names or len(names) != len(c.args) or any(k.arg is None for k in c.keywords):
                    und.append('option with a computed name or settings (line %d)' % c.lineno)
                    continue
                kw = {k.arg: k.value for k in c.keywords}
                dest = kw['dest'].value if isinstance(kw.get('dest'), ast.Constant) else None
                name = dest or ([n for n in names if n.startswith('--')] + names)[0].lstrip('-').replace('-', '_')
                if name in out:
                    und.append('option %s added twice' % name)
                out[name] = (c, kw)
                mods[name] = g
    return out, und, mods


def option_term(ctx, mod, key, e):
    if key == 'type':
        if isinstance(e, ast.Name):
            r = ctx.repo.resolve(mod, e.id)
            if r and r[0] == 'fn':
                return string('fn ' + r[1].name)
            return string('type ' + e.id)
        r = ctx.find('logic.helper.' + e.attr) if isinstance(e, ast.Attribute) else None
        return string('fn ' + r.name) if r else mk('glob', ast.unparse(e))
    if key == 'action':
        return string(ast.unparse(e).split('.')[-1])
    return Interp(ctx.repo).const_expr(e, mod)


def cli_options(ctx):
    """each option of the single run accepts the values it is documented to accept and has its documented default"""
    return compare_options(ctx, 'logic.helper.add_script_arguments', 'spec.ref_helper.add_script_arguments')


def batch_options(ctx):
    return compare_options(ctx, 'batch-run.__main__', 'spec.ref_main.batch_options')


def compare_options(ctx, impl, spec):
    f = ctx.find(impl)
    if f is None:
        return [], 0, ['%s not found' % impl]
    g = ctx.repo.find_function(spec)
    have, und, owners = parser_options(ctx, f)
    want, _, _ = parser_options(ctx, g)
    wmod = g.mod
    bad = []
    for name, (c, kw) in want.items():
        if name not in have:
            if not und:
                bad.append((loc(f, f.node), 'option --%s is gone' % name))
            continue
        hc, hk = have[name]
        f, mod = owners[name], owners[name].mod
        for key in ('nargs', 'type', 'default', 'choices', 'action', 'required', 'const'):
            a = option_term(ctx, mod, key, hk[key]) if key in hk else NONE
            b = option_term(ctx, wmod, key, kw[key]) if key in kw else NONE
            if a is b or (key == 'choices' and choice_set(a) is not None and choice_set(a) == choice_set(b)):
                continue
            if contains_op(a, {'glob', 'err', 'ext'}) or a.op == 'call' and b.op != 'call':
                und.append('--%s: %s cannot be read off the source' % (name, key))
                continue
            bad.append((loc(f, hc), '%s:%d: option --%s has %s=%s, required %s' % (
                f.mod.relpath, hc.lineno, name, key, tshow(a), tshow(b))))
    return bad, len(want), und


def choice_set(t):
    """the set of values of a literal collection or range"""
    if t.op == 'call' and t.args[0] in ('list', 'tuple', 'set', 'sorted') and len(t.args) == 2:
        t = t.args[1]
    if t.op in ('tup', 'list', 'set'):
        return frozenset(x.dig for x in t.args)
    if t.op == 'seq' and t.args[0].op == 'num' and t.args[0].args[0] <= 1000:
        return frozenset(at(t, num(i)).dig for i in range(int(t.args[0].args[0])))
    return None


def sim_call(node, mod, repo):
    for c in ast.walk(node):
        if isinstance(c, ast.Call):
            n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
            if n == 'Simulation':
                yield c


def cli_forwarding(ctx):
    """every option of the command line reaches the simulation parameter of its name"""
    m = ctx.repo.modules.get('main')
    f = ctx.find('logic.helper.add_script_arguments')
    init = ctx.find('logic.sim.Simulation.__init__')
    if m is None or f is None or init is None:
        return [], 0, ['main.py, add_script_arguments or Simulation.__init__ not found']
    opts, und, _ = parser_options(ctx, f)
    calls = list(sim_call(m.tree, m, ctx.repo))
    if len(calls) != 1:
        return [], 0, und + ['%d calls of Simulation in main.py' % len(calls)]
    c = calls[0]
    params = [p for p in init.params() if p != 'self'] + [a.arg for a in init.node.args.kwonlyargs]
    if c.args or any(k.arg is None for k in c.keywords):
        return [], 0, und + ['arguments of Simulation in main.py are not given by name']
    parsed = set()
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'parse_args':
            parsed |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    bad, n = [], 0
    where = lambda x: (m.relpath, x.lineno, 'main')
    given = set()
    for k in c.keywords:
        n += 1
        given.add(k.arg)
        if k.arg not in params and init.node.args.kwarg is None:
            bad.append((where(k.value), 'main.py:%d: Simulation has no parameter %s' % (k.value.lineno, k.arg)))
        if k.arg not in opts:
            continue
        v = k.value
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in parsed:
            if v.attr != k.arg:
                bad.append((where(v), 'main.py:%d: parameter %s is given the value of option --%s' % (
                    v.lineno, k.arg, v.attr)))
        elif isinstance(v, ast.Constant):
            bad.append((where(v), 'main.py:%d: parameter %s is given the constant %r instead of option --%s' % (
                v.lineno, k.arg, v.value, k.arg)))
        else:
            und.append('value of parameter %s' % k.arg)
    for o in opts:
        if o in params and o not in given:
            bad.append((where(c), 'main.py:%d: option --%s does not reach the simulation' % (c.lineno, o)))
    return bad, n, und


# ---------------------------------------------------------------------------------------------------------------------
# metrics: documentation and visualisation

def metric_docs(ctx):
    """the ids of the metrics are those of docs/metrics.md, and each id leads to a function"""
    path = os.path.join(ctx.repo.root, 'docs', 'metrics.md')
    ids = ctx.glob('logic.model_reporters.REPORTER_IDS')
    fns = ctx.glob('logic.model_reporters.ALL_MODEL_REPORTEERS')
    if ids is None or fns is None or ids.op != 'dict' or fns.op != 'dict':
        return [], 0, ['tables of metrics cannot be read off the source']
    m = ctx.repo.modules['logic.model_reporters']
    where = (m.relpath, m.globals['REPORTER_IDS'].lineno, 'REPORTER_IDS')
    have = {kv.args[0]: kv.args[1] for kv in ids.args}
    names = {kv.args[0] for kv in fns.args}
    bad, n = [], 0
    try:
        text = open(path, encoding='utf-8').read()
    except OSError:
        return [], 0, ['docs/metrics.md not found']
    doc = {int(a): b for a, b in re.findall(r'^(\d+)\.\s+\*\*(.+?)\*\*', text, re.M)}
    for i, nm in sorted(doc.items()):
        n += 1
        h = have.get(num(i))
        if h is None:
            bad.append((where, 'documented metric %d (%s) has no entry' % (i, nm)))
        elif h.op == 'str' and h.args[0].lower() != nm.lower():
            bad.append((where, 'id %d stands for "%s", documented as "%s"' % (i, h.args[0], nm)))
    for i, nm in have.items():
        n += 1
        if nm not in names:
            bad.append((where, 'metric %s has no function' % show(nm)))
    return bad, n, []


def viz_labels(ctx):
    """every chart of the interactive visualisation shows a metric that the visualised model tracks"""
    m = ctx.repo.modules.get('interactiveViz.runViz')
    ids = ctx.glob('logic.model_reporters.REPORTER_IDS')
    if m is None or ids is None or ids.op != 'dict':
        return [], 0, ['runViz or table of metrics not found']
    have = {kv.args[0]: kv.args[1] for kv in ids.args}
    tracked = None
    shown, und = [], []
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Dict):
            for k, v in zip(s.keys, s.values):
                if isinstance(k, ast.Constant) and k.value == 'metrics':
                    t = Interp(ctx.repo).const_expr(v, m)
                    if t.op in ('tup', 'list'):
                        tracked = {have.get(x) for x in t.args}
    server = [c for c in ast.walk(m.tree) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
              c.func.id.endswith('ModularServer')]
    if tracked is None or len(server) != 1 or len(server[0].args) < 2:
        return [], 0, ['charts or tracked metrics cannot be read off runViz']
    elems = server[0].args[1].elts if isinstance(server[0].args[1], (ast.List, ast.Tuple)) else []
    bad, n = [], 0
    for e in elems:
        call = e
        if isinstance(e, ast.Name):
            call = m.globals.get(e.id)
        if not isinstance(call, ast.Call):
            und.append('chart of unknown origin')
            continue
        for d in ast.walk(call):
            if not isinstance(d, ast.Dict):
                continue
            for k, v in zip(d.keys, d.values):
                if isinstance(k, ast.Constant) and str(k.value).lower() == 'label' and isinstance(v, ast.Constant):
                    n += 1
                    if string(v.value) not in tracked:
                        bad.append(((m.relpath, v.lineno, 'runViz'), 'runViz.py:%d: chart shows "%s", which is not '
                                    'among the tracked metrics' % (v.lineno, v.value)))
        # the key under which the chart looks for the name of its metric has to be the one that is given
        cls = ctx.repo.find_class(call.func.id) if isinstance(call.func, ast.Name) else None
        if cls and 'render' in cls.methods:
            used = {x.slice.value for x in ast.walk(cls.methods['render'].node) if isinstance(x, ast.Subscript) and
                    isinstance(x.slice, ast.Constant) and str(x.slice.value).lower() == 'label'}
            given = {k.value for d in ast.walk(call) if isinstance(d, ast.Dict) for k in d.keys
                     if isinstance(k, ast.Constant) and str(k.value).lower() == 'label'}
            n += 1
            if used and given and not used <= given:
                bad.append((loc(cls.methods['render'], cls.methods['render'].node),
                            'chart %s looks for %s, given are %s' % (cls.name, sorted(used), sorted(given))))
    return bad, n, und


# ---------------------------------------------------------------------------------------------------------------------
# sequence numbers

def recorded_first(ctx):
    """the set-up of a run records its sequence number before it creates its output directory"""
    f = ctx.find('logic.sim.Simulation.__init__')
    if f is None:
        return [], 0, ['set-up of a run not found']

    def pre(interp, args, st):
        want = 'p%d' % f.params().index('input_from_file') if 'input_from_file' in f.params() else None
        for i, t in enumerate(args):
            if t.op == 'param' and t.args[0] == want:
                args[i] = FALSE
    try:
        s = limited(60, lambda: Interp(ctx.repo, opaque=set(ctx.boundary())).analyse(f, pre=pre))
    except (Unsupported, Timeout, TooBig, RecursionError) as e:
        return [], 0, ['set-up of a run: %s' % type(e).__name__]
    made, n, bad = None, 0, []
    recorded = False
    for e in flat_events(s.events):
        name = e.args[0].args[0] if e.args and e.args[0].op == 'str' else None
        if name == 'write_seq_id':
            n += 1
            recorded = True
            if made is not None:
                bad.append((e.loc, '%s:%d records the sequence number after line %d created the output directory' % (
                    e.loc[0], e.loc[1], made[1])))
        elif name in ('mkdir', 'makedirs') and e.loc:
            n += 1
            if made is None:
                made = e.loc
    if made is None or not recorded:
        return [], n, ['recording of the sequence number or creation of the output directory not found']
    return bad[:1], n, []
