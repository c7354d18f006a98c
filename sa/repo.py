"""Loads the source of the analysed repository (and of reference specifications) into symbol tables."""
import ast
import os


def leave_by_break(body):
    """a loop at the end of a function, where all ways out return the same value: leave the loop, then return it"""
    w = body[-1] if body else None
    if isinstance(w, ast.If):
        leave_by_break(w.body)
        leave_by_break(w.orelse)
        return
    if not isinstance(w, (ast.While, ast.For)) or w.orelse:
        return
    always = isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and bool(w.test.value)
    spots, breaks = [], False
    todo = [w.body]
    while todo:
        stmts = todo.pop()
        for i, x in enumerate(stmts):
            if isinstance(x, ast.Return):
                spots.append((stmts, i))
            elif isinstance(x, ast.Break):
                breaks = True
            elif isinstance(x, ast.If):
                todo += [x.body, x.orelse]
            elif any(isinstance(y, (ast.Return, ast.Break)) for y in ast.walk(x)):
                if any(isinstance(y, ast.Return) for y in ast.walk(x)) or not isinstance(x, (ast.For, ast.While)):
                    return

    def is_none(v):
        return v is None or isinstance(v, ast.Constant) and v.value is None
    values = [stmts[i].value for stmts, i in spots]
    if not values:
        return
    if not all(is_none(v) for v in values):
        if not always or breaks or len({ast.dump(v) for v in values if v}) != 1 or any(v is None for v in values):
            return
        r = ast.Return(values[0])
        body.append(ast.copy_location(r, spots[0][0][spots[0][1]]))
    for stmts, i in spots:
        stmts[i] = ast.copy_location(ast.Break(), stmts[i])


class OneRow(ast.NodeTransformer):
    """rows written together are written one by one; printing to a file is writing to it"""
    n = 0

    def visit_Expr(self, s):
        c = s.value
        if not isinstance(c, ast.Call) or any(isinstance(a, ast.Starred) for a in c.args):
            return s
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'writerows' and len(c.args) == 1 and not c.keywords:
            OneRow.n += 1
            row, out, pre = '$row%d' % OneRow.n, '$out%d' % OneRow.n, []
            if isinstance(c.func.value, ast.Name):
                out = c.func.value.id
            else:
                pre = [ast.Assign([ast.Name(out, ast.Store())], c.func.value)]
            call = ast.Call(ast.Attribute(ast.Name(out, ast.Load()), 'writerow', ast.Load()), [ast.Name(row, ast.Load())], [])
            loop = ast.For(ast.Name(row, ast.Store()), c.args[0], [ast.Expr(call)], [], None)
            new = pre + [loop]
        elif isinstance(c.func, ast.Name) and c.func.id == 'print':
            kw = {k.arg: k.value for k in c.keywords}
            if 'file' not in kw or not isinstance(kw['file'], ast.Name) or not set(kw) <= {'file', 'end', 'sep', 'flush'}:
                return s
            parts = []
            for i, a in enumerate(c.args):
                if i:
                    parts.append(kw.get('sep', ast.Constant(' ')))
                parts.append(a)
            parts.append(kw.get('end', ast.Constant('\n')))
            vals = [p if isinstance(p, ast.Constant) and isinstance(p.value, str) else ast.FormattedValue(p, -1, None)
                    for p in parts if not (isinstance(p, ast.Constant) and p.value == '')]
            new = [ast.Expr(ast.Call(ast.Attribute(kw['file'], 'write', ast.Load()), [ast.JoinedStr(vals)], []))]
        else:
            return s
        for x in new:
            for y in ast.walk(x):
                if not hasattr(y, 'lineno'):
                    ast.copy_location(y, s)
        return new


class FuncInfo:
    def __init__(self, mod, cls, node, qual):
        if isinstance(node, ast.FunctionDef):
            OneRow().visit(node)
        if isinstance(node, ast.FunctionDef) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            leave_by_break(node.body)
        self.mod, self.cls, self.node, self.qual = mod, cls, node, qual
        self.name = getattr(node, 'name', '<lambda>')
        decs = getattr(node, 'decorator_list', [])
        self.decorators = [dec_name(d) for d in decs]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators or 'cached_property' in self.decorators

    @property
    def setter_of(self):
        for d in self.decorators:
            if d.endswith('.setter'):
                return d[:-7]
        return None

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def all_params(self):
        return self.params() + [p.arg for p in self.node.args.kwonlyargs]

    def where(self):
        return '%s:%d' % (self.mod.relpath, self.node.lineno)


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return '.'.join(reversed(parts))


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual, self.name = mod, node, qual, node.name
        self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(mod, self, st, qual + '.' + st.name)
                if f.setter_of:
                    self.setters[st.name] = f
                elif f.is_property:
                    self.getters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value


class Module:
    def __init__(self, name, path, relpath, source):
        self.name, self.path, self.relpath, self.source = name, path, relpath, source
        self.tree = ast.parse(source)
        self.functions, self.classes, self.imports, self.globals = {}, {}, {}, {}
        self.multi = set()
        self.stars = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(self, None, st, self.name + '.' + st.name)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st, self.name + '.' + st.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(st.module)
                        continue
                    self.imports[a.asname or a.name] = ('from', st.module, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.globals:
                            self.multi.add(t.id)
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.globals[st.target.id] = st.value
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.multi.add(st.target.id)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                if isinstance(st, ast.If) and ast.unparse(st.test) in ("__name__ == '__main__'",
                                                                       "'__main__' == __name__"):
                    # what the file does when run as a script
                    fn = ast.parse('def __main__():\n    pass').body[0]
                    fn.body = st.body
                    ast.copy_location(fn, st)
                    self.functions['__main__'] = FuncInfo(self, None, fn, self.name + '.__main__')
                for f in ('body', 'orelse', 'finalbody'):
                    self._scan(getattr(st, f, []))


class Repo:
    def __init__(self, root='/repo', spec_root=None):
        self.root = root
        self.modules = {}
        self.errors = []
        for rel in self._files():
            name = rel[:-3].replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            self._load(name, os.path.join(root, rel), rel)
        self.impl_modules = set(self.modules)
        if spec_root:
            for fn in sorted(os.listdir(spec_root)):
                if fn.endswith('.py'):
                    self._load('spec.' + fn[:-3], os.path.join(spec_root, fn), 'specs/' + fn)
        self._index()

    def _files(self):
        out = []
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '.git', '__pycache__', 'docs', 'output', 'examples',
                                                         'benchmarks', 'fuzz', 'venv', '.venv')
                             and not x.startswith('.'))
            for f in sorted(files):
                if f.endswith('.py'):
                    out.append(os.path.relpath(os.path.join(d, f), self.root))
        return out

    def _load(self, name, path, rel):
        try:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            self.modules[name] = Module(name, path, rel, src)
        except SyntaxError as e:
            self.errors.append('%s: %s' % (rel, e))

    def _index(self):
        self.classes = {}
        self.by_method, self.getters, self.setters = {}, {}, {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.qual] = c
                if m.name not in self.impl_modules:
                    continue
                if m.name.startswith('interactiveViz'):
                    continue
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append(f)
                for n, f in c.getters.items():
                    self.getters.setdefault(n, []).append(f)
                for n, f in c.setters.items():
                    self.setters.setdefault(n, []).append(f)

    # -----------------------------------------------------------------------------------------------------------------
    def resolve(self, mod, name):
        """name in module scope -> ('fn', FuncInfo) | ('cls', ClassInfo) | ('mod', name) | ('ext', dotted) |
        ('glob', Module, name) | None"""
        if name in mod.functions:
            return ('fn', mod.functions[name])
        if name in mod.classes:
            return ('cls', mod.classes[name])
        if name in mod.globals:
            return ('glob', mod, name)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'mod':
                return ('mod', imp[1]) if imp[1] in self.modules or any(
                    m.startswith(imp[1] + '.') for m in self.modules) else ('ext', imp[1])
            _, m, n = imp
            if m in self.modules:
                return self.resolve(self.modules[m], n)
            if m is not None and m + '.' + n in self.modules:
                return ('mod', m + '.' + n)
            return ('ext', '%s.%s' % (m, n))
        for m in mod.stars:
            if m in self.modules:
                r = self.resolve(self.modules[m], name)
                if r is not None:
                    return r
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(c.mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve(c.mod, b.value.id)
                if r and r[0] == 'mod' and r[1] in self.modules:
                    r = self.resolve(self.modules[r[1]], b.attr)
                else:
                    r = None
            else:
                r = None
            if r and r[0] == 'cls':
                out.append(r[1])
        return out

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo = self.bases(x) + todo
        return out

    def lookup(self, c, name, table='methods', after=None):
        chain = self.mro(c)
        if after is not None:
            chain = chain[chain.index(after) + 1:]
        for x in chain:
            t = getattr(x, table)
            if name in t:
                return t[name]
        return None

    def find_class(self, name):
        for m in sorted(self.impl_modules):
            if name in self.modules[m].classes:
                return self.modules[m].classes[name]
        return None

    def find_function(self, qual):
        """'logic.helper.f' or 'logic.pool.Pool.m' -> FuncInfo or None"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                return m.functions.get(rest[0])
            c = m.classes.get(rest[0])
            if c is None:
                return None
            return self.lookup(c, rest[1]) or self.lookup(c, rest[1], 'getters')
        return None

    def unstable_fields(self):
        """attributes that may be assigned outside the constructor of their object"""
        r = self.__dict__.get('_stable')
        if r is None:
            init, other, dynamic = set(), set(), set()
            for mn in self.impl_modules:
                m = self.modules[mn]
                if not mn.startswith('logic'):
                    continue
                for node in ast.walk(m.tree):
                    if isinstance(node, ast.FunctionDef):
                        has_setattr = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id ==
                                          'setattr' for x in ast.walk(node))
                        for x in ast.walk(node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                own = isinstance(x.value, ast.Name) and x.value.id == 'self'
                                (init if node.name == '__init__' and own else other).add(x.attr)
                            elif has_setattr and isinstance(x, (ast.List, ast.Tuple)):
                                dynamic |= {c.value for c in x.elts if isinstance(c, ast.Constant)}
            r = self._stable = frozenset(other | dynamic | {'steps', 'time', 'random'})
        return r

    def fixed_agents(self):
        """are agents only registered with the scheduler while the model is being constructed"""
        r = self.__dict__.get('_fixed_agents')
        if r is None:
            r = True
            for mn in self.impl_modules:
                for f in ast.walk(self.modules[mn].tree):
                    if not isinstance(f, ast.FunctionDef) or f.name in ('__init__', 'initialize_agents'):
                        continue
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute):
                            if x.attr == '_agents' and isinstance(x.ctx, (ast.Store, ast.Del)):
                                r = False
                            base = x.value
                            if x.attr in ('add', 'remove', 'pop', 'clear', 'update', 'setdefault', 'popitem') and \
                                    isinstance(base, ast.Attribute) and base.attr in ('schedule', '_agents'):
                                r = False
                        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                                isinstance(x.value, ast.Attribute) and x.value.attr == '_agents':
                            r = False
            self._fixed_agents = r
        return r

    def parameter_locations(self):
        """what storing under the name of a constructor parameter of a model or scheme may change: that field, the field behind a property of
        that name, and what property setters store"""
        r = self.__dict__.get('_paramlocs')
        if r is None:
            r = set()
            for c in self.classes.values():
                if c.mod.name not in self.impl_modules or not {'Simulation', 'RSS'} & {x.name for x in self.mro(c)}:
                    continue
                init = c.methods.get('__init__')
                if init is not None:
                    for p in init.all_params():
                        r |= {'f:' + p, 'f:_' + p, 'c:' + p}
                for s in c.setters.values():
                    for x in ast.walk(s.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            r |= {'f:' + x.attr, 'c:' + x.attr}
                        elif isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and
                                                              x.func.id in ('int', 'float', 'ValueError', 'str')):
                            r.add('*')
            self._paramlocs = r = sorted(r)
        return r

    def flag(self, name):
        """is an attribute only ever assigned True or False"""
        r = self.__dict__.get('_flags')
        if r is None:
            yes, no = set(), set()
            for m in self.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Assign):
                        b = isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool)
                        for t in x.targets:
                            for y in ast.walk(t):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                    (yes if b and y is t else no).add(y.attr)
                for x in ast.walk(m.tree):
                    if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.With, ast.comprehension)):
                        for y in ast.walk(x.items[0] if isinstance(x, ast.With) else x.target):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                no.add(y.attr)
            self._flags = r = yes - no
        return name in r

    def only_method(self, name):
        """is the attribute name only ever that of a method"""
        r = self.__dict__.get('_stored_attrs')
        if r is None:
            r = self._stored_attrs = {x.attr for m in self.modules.values() for x in ast.walk(m.tree)
                                      if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        return name in self.by_method and name not in r and name not in self.getters

    def attribute_locations(self):
        """what an assignment to an attribute of unknown name may change"""
        r = self.__dict__.get('_attrlocs')
        if r is None:
            r = set(self.parameter_locations())
            for m in self.modules.values():
                if m.name in self.impl_modules:
                    for x in ast.walk(m.tree):
                        if isinstance(x, ast.Attribute) and not (isinstance(x.value, ast.Name) and
                                                                 x.value.id in m.imports):
                            r |= {'f:' + x.attr, 'c:' + x.attr}
            self._attrlocs = r = ['*'] if '*' in r else sorted(r)
        return r

    def copied_fields(self, init):
        """fields that a constructor sets once, to an unmodified parameter, and nothing assigns later"""
        stores, params = {}, set(init.params())
        for x in ast.walk(init.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.attr] = stores.get(x.attr, 0) + 1
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                params.discard(x.id)
        out = {}
        for s in init.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                    isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == 'self' and \
                    isinstance(s.value, ast.Name) and s.value.id in params:
                f = s.targets[0].attr
                if stores[f] == 1 and f not in self.unstable_fields() and f not in self.getters:
                    out[f] = s.value.id
        return out

    def subclasses(self, c):
        return [x for x in self.classes.values() if x.mod.name in self.impl_modules and c in self.mro(x)]
