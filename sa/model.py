"""Loads durus from source and resolves names, classes and attribute types.

Nothing of durus is imported or run: modules are parsed with `ast`, the
branches of module-level (and function-level) conditionals on the platform
are folded for CPython 3 on POSIX, and everything else is resolved by name.
"""
import ast, builtins, os

REPO = os.environ.get('DURUS_REPO', '/repo')


class ModelError(Exception):
    """An anchor that the analysis needs is not there."""


def fold_test(node):
    """The truth of a platform condition, or None if it is not one."""
    try:
        text = ast.unparse(node).replace('"', "'")
    except Exception:
        return None
    table = {
        "sys.version < '3'": False, "sys.version >= '3'": True,
        "sys.version_info[0] >= 3": True, "sys.version_info[0] < 3": False,
        "sys.version_info >= (3,)": True, "sys.version_info < (3,)": False,
        "os.name == 'nt'": False, "os.name != 'nt'": True,
        "os.name == 'posix'": True,
        "hasattr(os, 'fsync')": True, 'IS_PYPY': False, 'not IS_PYPY': True,
        'TRACE': False, '__debug__': True,
        "hasattr(PersistentBase, '__weakref__')": False,
        "hasattr(fcntl, 'FD_CLOEXEC')": True,
        "not hasattr(fcntl, 'FD_CLOEXEC')": False,
    }
    if text in table:
        return table[text]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        r = fold_test(node.operand)
        return None if r is None else not r
    return None


class Plain(ast.NodeTransformer):
    """map() and filter() of one iterable as the generator expressions they are"""
    def visit_Call(self, node):
        self.generic_visit(node)
        if not (isinstance(node.func, ast.Name) and node.func.id in ('map', 'filter')
                and len(node.args) == 2 and not node.keywords):
            return node
        f, it = node.args
        if isinstance(f, ast.Lambda):
            a = f.args
            if len(a.args) != 1 or a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs:
                return node
            name, body = a.args[0].arg, f.body
        elif isinstance(f, ast.Attribute) or isinstance(f, ast.Name) and not hasattr(builtins, f.id):
            name = '_each'
            body = ast.copy_location(ast.Call(
                f, [ast.copy_location(ast.Name(name, ast.Load()), f)], []), f)
        elif node.func.id == 'filter' and isinstance(f, ast.Constant) and f.value is None:
            name = '_each'
            body = ast.copy_location(ast.Name(name, ast.Load()), f)
        else:
            return node

        def var(ctx):
            return ast.copy_location(ast.Name(name, ctx), f)
        keep = node.func.id == 'filter'
        return ast.copy_location(ast.GeneratorExp(
            var(ast.Load()) if keep else body,
            [ast.comprehension(var(ast.Store()), it, [body] if keep else [], 0)]), node)


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module = qual, node, module
        self.cls, self.parent = cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.deco = []
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Call):
                d = d.func
            self.deco.append(ast.unparse(d))
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.locals, self.globals, self.nonlocals = local_names(node)

    @property
    def file(self):
        return self.module.path

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.body = {}      # name -> Func or expr
        self.bases = []     # qualified names
        self.mro = None


class Module:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.ns = {}   # name -> ('func', qual) ('cls', qual) ('ext', dotted)
                       #         ('mod', name) ('expr', node)


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    args = node.args
    names = set(a.arg for a in args.posonlyargs + args.args + args.kwonlyargs)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    glob, nonloc = set(), set()
    if isinstance(node, ast.Lambda):
        return names, glob, nonloc
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # comprehension targets have their own scope
            for g in n.generators:
                todo.append(g.iter)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        todo.extend(ast.iter_child_nodes(n))
    names -= glob
    names -= nonloc
    return names, glob, nonloc


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.node_func = {}
        pkg = os.path.join(self.repo, 'durus')
        for fn in sorted(os.listdir(pkg)):
            if fn.endswith('.py'):
                path = os.path.join(pkg, fn)
                with open(path, encoding='utf-8') as f:
                    source = f.read()
                tree = ast.fix_missing_locations(Plain().visit(ast.parse(source, path)))
                name = 'durus' if fn == '__init__.py' else 'durus.' + fn[:-3]
                self.modules[name] = Module(
                    name, os.path.join('durus', fn), tree, source)
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for c in self.classes.values():
            self._bases(c)
        for c in self.classes.values():
            self.get_mro(c.qual)
        self._infer_attr_types()

    # -- namespaces
    def _scan(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.add_func(m, n, m.name + '.' + n.name)
                m.ns[n.name] = ('fn', m.name + '.' + n.name)
            elif isinstance(n, ast.ClassDef):
                self._scan_class(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.ns[a.asname] = self.module_binding(a.name)
                    else:
                        top = a.name.split('.')[0]
                        m.ns[top] = self.module_binding(top)
            elif isinstance(n, ast.ImportFrom):
                self._import_from(m, n, m.ns)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ('expr', m.name, n.value)
                    elif isinstance(t, ast.Tuple) and all(
                            isinstance(e, ast.Name) for e in t.elts):
                        for i, e in enumerate(t.elts):
                            if (isinstance(n.value, ast.Tuple)
                                    and len(n.value.elts) == len(t.elts)):
                                m.ns[e.id] = ('expr', m.name, n.value.elts[i])
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    m.ns[n.target.id] = ('expr', m.name, n.value)
            elif isinstance(n, ast.If):
                r = fold_test(n.test)
                if r is not False:
                    self._scan(m, n.body)
                if r is not True:
                    self._scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                # The pure-Python fallback of an import of the C extension.
                if self._imports_ext(n.body):
                    for h in n.handlers:
                        self._scan(m, h.body)
                else:
                    self._scan(m, n.body)
                    for h in n.handlers:
                        self._scan(m, [x for x in h.body if not isinstance(
                            x, (ast.Raise, ast.Pass))])
                self._scan(m, n.orelse)
                self._scan(m, n.finalbody)
            elif isinstance(n, ast.With):
                self._scan(m, n.body)

    def _imports_ext(self, body):
        for n in body:
            if (isinstance(n, ast.ImportFrom)
                    and (n.module or '').endswith('_persistent')):
                return True
        return False

    def module_binding(self, name):
        return ('mod', name)

    def _import_from(self, m, n, ns):
        mod = n.module or ''
        if n.level:
            base = m.name.rsplit('.', n.level)[0] if m.name != 'durus' else 'durus'
            mod = (base + '.' + mod) if mod else base
        for a in n.names:
            ns[a.asname or a.name] = ('from', mod, a.name)

    def _scan_class(self, m, n, prefix=None):
        qual = (prefix or m.name) + '.' + n.name
        c = Class(qual, n, m)
        self.classes[qual] = c
        if prefix is None:
            m.ns[n.name] = ('cls', qual)
        self._scan_class_body(m, c, n.body)

    def _scan_class_body(self, m, c, body):
        for x in body:
            if isinstance(x, ast.FunctionDef):
                f = self.add_func(m, x, c.qual + '.' + x.name, cls=c)
                c.body[x.name] = f
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        v = x.value
                        if isinstance(v, ast.Name) and v.id in c.body:
                            c.body[t.id] = c.body[v.id]
                        elif (isinstance(v, ast.Call)
                              and isinstance(v.func, ast.Name)
                              and v.func.id in ('staticmethod', 'classmethod',
                                                'property')
                              and len(v.args) == 1
                              and isinstance(v.args[0], ast.Name)
                              and isinstance(c.body.get(v.args[0].id), Func)):
                            f = c.body[v.args[0].id]
                            f.deco = f.deco + [v.func.id]
                            c.body[t.id] = f
                        else:
                            c.body[t.id] = v
            elif isinstance(x, ast.AnnAssign):
                if isinstance(x.target, ast.Name) and x.value is not None:
                    c.body[x.target.id] = x.value
            elif isinstance(x, ast.If):
                r = fold_test(x.test)
                if r is not False:
                    self._scan_class_body(m, c, x.body)
                if r is not True:
                    self._scan_class_body(m, c, x.orelse)
            elif isinstance(x, ast.ClassDef):
                self._scan_class(m, x, prefix=c.qual)

    def add_func(self, m, node, qual, cls=None, parent=None):
        f = Func(qual, node, m, cls, parent)
        self.funcs[qual] = f
        self.node_func[id(node)] = f
        return f

    def local_func(self, node, parent):
        f = self.node_func.get(id(node))
        if f is None:
            name = getattr(node, 'name', '<lambda:%d>' % node.lineno)
            f = self.add_func(parent.module, node,
                              parent.qual + '.<locals>.' + name, parent=parent)
        return f

    # -- resolution: gives a binding that is not 'from'
    def resolve(self, module, name, seen=None):
        """binding of a global name in a module; None if there is none"""
        m = self.modules.get(module)
        seen = seen or set()
        if (module, name) in seen:
            return None
        seen.add((module, name))
        if m is not None:
            b = m.ns.get(name)
            if b is None:
                if module + '.' + name in self.modules:
                    return ('mod', module + '.' + name)
                return None
            if b[0] == 'from':
                return self.resolve_from(b[1], b[2], seen)
            return b
        return None

    def resolve_from(self, mod, name, seen=None):
        if mod in self.modules:
            b = self.resolve(mod, name, seen)
            if b is None:
                return ('ext', mod + '.' + name)
            return b
        if mod in ('builtins', '__builtin__'):
            return ('ext', 'builtins.' + name)
        return ('ext', canon_ext(mod + '.' + name))

    def _bases(self, c):
        for b in c.node.bases:
            c.bases.append(self.class_of_expr(c.module.name, b)
                           or ('ext', ast.unparse(b)))

    def class_of_expr(self, module, node):
        if isinstance(node, ast.Name):
            b = self.resolve(module, node.id)
            if b is None:
                if hasattr(builtins, node.id):
                    return ('ext', 'builtins.' + node.id)
                return None
            if b[0] in ('cls', 'ext'):
                return b
            if b[0] == 'expr':
                return self.class_of_expr(b[1], b[2])
        elif isinstance(node, ast.Attribute):
            base = node.value
            parts = [node.attr]
            while isinstance(base, ast.Attribute):
                parts.append(base.attr)
                base = base.value
            if isinstance(base, ast.Name):
                b = self.resolve(module, base.id)
                if b and b[0] == 'mod':
                    dotted = '.'.join([b[1]] + parts[::-1])
                    mod, _, name = dotted.rpartition('.')
                    if mod in self.modules:
                        return self.resolve(mod, name)
                    return ('ext', canon_ext(dotted))
        return None

    def get_mro(self, qual):
        c = self.classes[qual]
        if c.mro is not None:
            return c.mro
        c.mro = [qual]   # guard against cycles
        seqs = []
        for b in c.bases:
            if b[0] == 'cls' and b[1] in self.classes:
                seqs.append(list(self.get_mro(b[1])))
            else:
                seqs.append([b[1]])
        seqs.append([b[1] for b in c.bases])
        out = [qual]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        c.mro = out
        return out

    def lookup(self, qual, name):
        """(defining class, Func or expr) of a class attribute, or None"""
        if qual not in self.classes:
            return None
        for k in self.classes[qual].mro:
            c = self.classes.get(k)
            if c is not None and name in c.body:
                return c, c.body[name]
        return None

    def is_subclass(self, qual, base):
        if qual == base:
            return True
        if qual in self.classes:
            mro = self.classes[qual].mro
            if base in mro:
                return True
            for k in mro:
                if k not in self.classes and ext_subclass(k, base):
                    return True
            return False
        return ext_subclass(qual, base)

    def subclasses(self, qual):
        return sorted(q for q in self.classes if self.is_subclass(q, qual))

    def need_func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            cls, _, name = qual.rpartition('.')
            r = self.lookup(cls, name) if cls in self.classes else None
            if r and isinstance(r[1], Func):
                return r[1]
            raise ModelError('no function %s' % qual)
        return f

    def need_class(self, qual):
        if qual not in self.classes:
            raise ModelError('no class %s' % qual)
        return self.classes[qual]

    # -- attribute types, from what constructors assign
    PARAM_TYPES = {
        'storage': 'durus.storage.Storage', 'connection': 'durus.connection.Connection',
        'file': 'durus.file.File', 'fp': 'durus.file.File',
    }
    FALLBACK = {
        ('durus.btree.BNode', 'nodes'): 'list',
        ('durus.connection.Connection', 'storage'): 'durus.storage.Storage',
        ('durus.connection.Connection', 'cache'): 'durus.connection.Cache',
        ('durus.connection.Connection', 'reader'): 'durus.serialize.ObjectReader',
        ('durus.storage_server.StorageServer', 'storage'): 'durus.storage.Storage',
        ('durus.storage_server.StorageServer', 'address'): 'durus.storage_server.SocketAddress',
        ('durus.storage_server._Client', 's'): 'socket',
        ('durus.client_storage.ClientStorage', 's'): 'socket',
        ('durus.file_storage.FileStorage', 'shelf'): 'durus.shelf.Shelf',
        ('durus.file_storage2.FileStorage2', 'fp'): 'durus.file.File',
        ('durus.shelf.Shelf', 'file'): 'durus.file.File',
        ('durus.shelf.Shelf', 'offset_map'): 'durus.shelf.OffsetMap',
        ('durus.file.File', 'file'): 'pyfile',
        ('durus.serialize.ObjectWriter', 'connection'): 'durus.connection.Connection',
        ('durus.serialize.ObjectReader', 'connection'): 'durus.connection.Connection',
        ('durus.utils.ByteArray', 'file'): 'durus.file.File',
        ('durus.utils.WordArray', 'file'): 'durus.file.File',
        ('durus.utils.IntArray', 'file'): 'durus.file.File',
    }

    def _infer_attr_types(self):
        self.attr_types = {}
        self.elem_types = {}
        self.assigned_attrs = {}    # class -> set of instance attribute names
        for c in self.classes.values():
            for f in c.body.values():
                if not isinstance(f, Func) or not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                            and isinstance(n.value, ast.Name) and n.value.id == me):
                        self.assigned_attrs.setdefault(c.qual, set()).add(n.attr)
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if (isinstance(t, ast.Attribute)
                                    and isinstance(t.value, ast.Name)
                                    and t.value.id == me):
                                ty = self._expr_type(c.module.name, n.value)
                                if ty:
                                    self.attr_types.setdefault((c.qual, t.attr), ty)
                    # element types, from what is appended
                    if (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                            and n.func.attr in ('append', 'add') and len(n.args) == 1
                            and isinstance(n.func.value, ast.Attribute)
                            and isinstance(n.func.value.value, ast.Name)
                            and n.func.value.value.id == me):
                        ty = self._expr_type(c.module.name, n.args[0])
                        if ty:
                            self.elem_types.setdefault((c.qual, n.func.value.attr), ty)
        for k, v in self.FALLBACK.items():
            if k[0] in self.classes:
                self.attr_types[k] = v
        self.elem_types.setdefault(('durus.btree.BNode', 'nodes'), 'durus.btree.BNode')
        self.elem_types.setdefault(('durus.storage_server.StorageServer', 'clients'),
                                   'durus.storage_server._Client')

    def _expr_type(self, module, node):
        if isinstance(node, ast.Call):
            b = self.class_of_expr(module, node.func)
            if b and b[0] == 'cls':
                return b[1]
            if b and b[0] == 'ext':
                return {'builtins.set': 'set', 'builtins.dict': 'dict',
                        'builtins.list': 'list', 'socket.socket': 'socket',
                        'builtins.open': 'pyfile', 'builtins.frozenset': 'set',
                        'collections.deque': 'list',
                        'io.BytesIO': 'pyfile', 'sqlite3.connect': 'sqlite',
                        }.get(b[1])
            if isinstance(node.func, ast.Name) and not b:
                return {'set': 'set', 'dict': 'dict', 'list': 'list',
                        'open': 'pyfile'}.get(node.func.id)
        elif isinstance(node, (ast.Dict, ast.DictComp)):
            return 'dict'
        elif isinstance(node, (ast.List, ast.ListComp)):
            return 'list'
        elif isinstance(node, (ast.Set, ast.SetComp)):
            return 'set'
        return None

    def elem_type(self, qual, name):
        if qual in self.classes:
            for k in self.classes[qual].mro:
                t = self.elem_types.get((k, name))
                if t:
                    return t
        return None

    def attr_type(self, qual, name):
        if qual in self.classes:
            for k in self.classes[qual].mro:
                t = self.attr_types.get((k, name))
                if t:
                    return t
        return None


CANON = {'socket.error': 'builtins.OSError', 'socket.timeout': 'builtins.TimeoutError',
         'select.error': 'builtins.OSError',
         'os.path.exists': 'os.path.exists', 'posix.fsync': 'os.fsync'}


def canon_ext(dotted):
    if dotted.startswith('posixpath.'):
        dotted = 'os.path.' + dotted[10:]
    return CANON.get(dotted, dotted)


def ext_class(dotted):
    """The Python class of an external exception name, if known."""
    name = dotted
    if name.startswith('builtins.'):
        name = name[9:]
    if name in ('IOError', 'EnvironmentError', 'socket.error', 'OSError'):
        return OSError
    if name in ('socket.timeout', 'timeout'):
        return TimeoutError
    if '.' not in name:
        c = getattr(builtins, name, None)
        if isinstance(c, type):
            return c
    if name == 'struct.error':
        import struct
        return struct.error
    if name == 'zlib.error':
        import zlib
        return zlib.error
    if name.startswith('sqlite3.'):
        import sqlite3
        c = getattr(sqlite3, name[8:], None)
        if isinstance(c, type):
            return c
    if name.startswith('pickle.'):
        import pickle
        c = getattr(pickle, name[7:], None)
        if isinstance(c, type):
            return c
    return None


def ext_subclass(a, b):
    if a == b:
        return True
    ca, cb = ext_class(a), ext_class(b)
    return ca is not None and cb is not None and issubclass(ca, cb)
