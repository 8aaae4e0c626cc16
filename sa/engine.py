"""A disjunctive abstract interpreter for the Python of durus.

It follows every control-flow path of an entry function, inlining the durus
functions it calls, with loops run to a fixpoint, and keeps one abstract
state per path: what local names and attributes hold (as terms that say
where a value came from), the outcomes of the conditions passed, and the
state of the observer, which is the automaton of one rule.  Nothing is
executed and no solver is involved: conditions are only compared for
syntactic identity of the resolved terms.

Generators are interleaved with the loops that consume them.
"""
import ast
import builtins
import time
from .model import Func, ext_class, fold_test, canon_ext, ModelError

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def const(v):
    return ('c', type(v).__name__, v)


class Limit(Exception):
    pass


class Raise:
    """An exceptional result: kind 'exc' or 'abandon' (a dropped generator)"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind, self.val = kind, val

    def key(self):
        return (self.kind, self.val if self.kind == 'exc' else self.val[0])


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class State:
    __slots__ = ('env', 'heap', 'facts', 'obs', 'made')

    def __init__(self):
        self.env, self.heap, self.facts, self.obs = {}, {}, {}, {}
        self.made = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap = dict(self.env), dict(self.heap)
        s.facts, s.obs = dict(self.facts), dict(self.obs)
        s.made = self.made
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.facts.items()), frozenset(self.obs.items()))


def boolean(x):
    """is the value of this expression True or False?"""
    if isinstance(x, ast.BoolOp):
        return all(boolean(y) for y in x.values)
    return isinstance(x, ast.Compare) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)


class Ctx:
    """Where code is being executed."""
    __slots__ = ('func', 'frame', 'parent', 'module', 'handler', 'loop', 'stack')

    def __init__(self, func, frame, parent, module, handler, loop, stack):
        self.func, self.frame, self.parent = func, frame, parent
        self.module, self.handler = module, handler
        self.loop, self.stack = loop, stack

    def inloop(self):
        return Ctx(self.func, self.frame, self.parent, self.module,
                   self.handler, self.loop + 1, self.stack)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add',
            'discard', 'update', 'setdefault', 'popitem', 'sort', 'reverse',
            'difference_update', 'intersection_update', 'popleft', 'appendleft',
            'symmetric_difference_update', '__setitem__', '__delitem__',
            '__iadd__', '__imul__', '__ior__', '__iand__', '__isub__',
            '__ixor__', 'extendleft', 'rotate'}
CONTAINER_CTORS = {'builtins.list': 'list', 'builtins.set': 'set',
                   'builtins.dict': 'dict', 'builtins.sorted': 'list',
                   'builtins.tuple': 'tuple', 'builtins.frozenset': 'set',
                   'collections.deque': 'list', 'builtins.reversed': 'iter',
                   'copy.copy': None}
PURE = {'builtins.len', 'builtins.isinstance', 'builtins.ord', 'builtins.chr',
        'builtins.int', 'builtins.str', 'builtins.bytes', 'builtins.max',
        'builtins.min', 'builtins.abs', 'builtins.divmod', 'builtins.repr',
        'builtins.id', 'builtins.type', 'builtins.bool', 'builtins.sum',
        'builtins.issubclass', 'builtins.callable', 'builtins.hash',
        'struct.pack', 'struct.unpack', 'zlib.compress', 'zlib.decompress',
        'builtins.float', 'struct.calcsize'}
PURE_METHODS = {'join', 'encode', 'decode', 'startswith', 'endswith', 'format',
                'items', 'keys', 'values', 'union', 'intersection',
                'difference', 'copy', 'split', 'replace', 'strip', 'lstrip',
                'rstrip', 'issubset', 'issuperset', 'isdisjoint', 'count',
                'index', 'symmetric_difference', 'iteritems'}
# Attributes of objects of external types that code asks for with getattr().
EXT_HAS = {('socket', 'read'): False, ('socket', 'write'): False,
           ('socket', 'recv'): True, ('pyfile', 'read'): True,
           ('pyfile', 'write'): True, ('pyfile', 'seek'): True}

_depth = {}


def depth(v):
    if not isinstance(v, tuple):
        return 0
    d = _depth.get(v)
    if d is None:
        d = 1 + max([depth(x) for x in v] or [0])
        if len(_depth) > 500000:
            _depth.clear()
        _depth[v] = d
    return d


MAXDEPTH = 14


def mk(*t):
    if depth(t) > MAXDEPTH:
        return ('deep',)
    return t


def mentions(v, x):
    """does the term v contain the term x?"""
    if v == x:
        return True
    if isinstance(v, (tuple, frozenset)):
        for y in v:
            if isinstance(y, (tuple, frozenset)) and mentions(y, x):
                return True
    return False


def contains(v, pred):
    if isinstance(v, tuple) and v and pred(v):
        return True
    if isinstance(v, (tuple, frozenset)):
        for y in v:
            if isinstance(y, (tuple, frozenset)) and contains(y, pred):
                return True
    return False


_sites = {}
EMPTY = frozenset()


def sites(v):
    """the subterms of v that stand for something made or met at a site"""
    if not isinstance(v, (tuple, frozenset)):
        return EMPTY
    r = _sites.get(v)
    if r is None:
        r = set()
        if isinstance(v, tuple) and v:
            k = v[0]
            if (k in ('new', 'elem', 'key', 'val', 'old')
                    or (k == 'call' and len(v) == 4 and v[3] != 0)
                    or (k == 'sym' and isinstance(v[1], tuple))):
                r.add(v)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                r |= sites(x)
        r = frozenset(r) if r else EMPTY
        if len(_sites) > 400000:
            _sites.clear()
        _sites[v] = r
    return r


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        if v and v[0] == 'old':
            return v
        if not mentions(v, a):
            return v
        return tuple(subst(x, a, b) if isinstance(x, (tuple, frozenset)) else x
                     for x in v)
    if isinstance(v, frozenset):
        if not mentions(v, a):
            return v
        return frozenset(subst(x, a, b) for x in v)
    return v


def is_const(v):
    return v[0] == 'c'


class Observer:
    """One rule: an automaton over the events of a path.

    Events (tuples):
      ('call', name, recv, args, kwargs)   before an opaque call; name is
           '.method' for a method of an unresolved object, 'Class.method' (full
           name) for a durus method kept opaque, or a dotted external name
      ('called', name, recv, args, kwargs, result)     after it, if normal
      ('mut', container, op, args)         in-place change of a container
      ('set', obj, attr, value, old)       attribute assignment
      ('del', obj, attr)
      ('get', obj, attr, value)            attribute read (if want_get)
      ('enter', qual, self, args), ('leave', qual, value)   inlined call
      ('rawset', obj, attr, value, old)    object.__setattr__()
      ('yield', value)                     to the caller of the entry
      ('raise', value)                     explicit raise statement
      ('iter', iterable), ('next', iterable, elem), ('done', iterable)
      ('drain', container, elem)           after an element was popped
      ('assume', atom, truth)
    """
    want_get = False

    def __init__(self):
        self.reports = {}

    def init(self, interp, st):
        pass

    def on(self, interp, st, ev, node):
        pass

    def opaque(self, qual):
        """should calls of this durus function be kept as events?"""
        return False

    def raises(self, interp, st, ev, node):
        """exception classes an opaque call may raise"""
        return ()

    def model(self, interp, st, qual, recv, args, kwargs, node, cx):
        """None, or a list of (state, value) as the result of a call"""
        return None

    def havoc_yield(self, interp, st, value):
        """what the environment may do while an entry generator is suspended"""

    def renamed(self, interp, st, old, new):
        st.obs = dict((subst(k, old, new) if isinstance(k, tuple) else k,
                       subst(v, old, new) if isinstance(v, (tuple, frozenset)) else v)
                      for k, v in st.obs.items())

    def report(self, interp, node, msg, key=None):
        where = interp.where(node)
        k = (key or msg, where[1])
        if k not in self.reports:
            self.reports[k] = dict(file=where[0], function=where[1], line=where[2],
                                   message=msg, key=key or msg,
                                   entry=interp.entry_name)


class Interp:
    max_states = 3000
    deadline = None

    def __init__(self, program, observer):
        self.p = program
        self.o = observer
        self.frames = {}
        self.entry_name = '?'
        self.stats = dict(functions=set(), statements=set(), paths=0, events=0,
                          calls=set())
        self.pos = []
        self.temps = []     # values being used that no name holds

    # ---- bookkeeping
    def prune(self, st, extra=()):
        """forget what is known of things that nothing refers to"""
        live = set()
        for v in st.env.values():
            live |= sites(v)
        for k, v in st.obs.items():
            live |= sites(k)
            live |= sites(v)
        for v in extra:
            live |= sites(v)
        for v in self.temps:
            live |= sites(v)
        todo = dict(st.heap)
        while True:
            more = False
            for (obj, name), v in list(todo.items()):
                if obj[0] not in ('new', 'elem', 'key', 'val', 'old', 'call') or obj in live:
                    del todo[(obj, name)]
                    x = sites(v) | sites(obj)
                    if not x <= live:
                        live |= x
                        more = True
            if not more:
                break
        for k in todo:
            del st.heap[k]
        for a in [a for a in st.facts if not sites(a) <= live]:
            del st.facts[a]
        return st

    @staticmethod
    def group(st):
        """what is never merged: the rule's state and the flags"""
        return (frozenset(st.obs.items()),
                frozenset((k, v) for k, v in st.env.items()
                          if isinstance(v, tuple) and v[0] == 'c'
                          and (v[2] is None or isinstance(v[2], bool))),
                frozenset((k, v) for k, v in st.heap.items()
                          if k[1] != '[]' and v[0] == 'c'
                          and (v[2] is None or isinstance(v[2], bool))))

    def join(self, a, b, where):
        """one state for both"""
        s = State()
        s.obs = dict(a.obs)
        s.made = a.made | b.made
        fresh = set()
        for k in set(a.env) & set(b.env):
            x, y = a.env[k], b.env[k]
            if x == y or not isinstance(x, tuple):
                s.env[k] = x
            else:
                s.env[k] = self.phi(x, y, (where, k), fresh)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x == y:
                s.heap[k] = x
            elif k[1] == '[]':
                if x is not None and y is not None:
                    vals = frozenset(x[1]) | frozenset(y[1])
                    if len(vals) > 24:
                        vals = frozenset([('all', ('deep',))])
                    some = all(c[0] == 'some' or (c[0] == 'exact' and c[1]) for c in (x, y))
                    s.heap[k] = ('some' if some else 'maybe', vals)
                elif k[0][0] == 'new':
                    s.heap[k] = x or y      # made on one side only
            else:
                if k[0][0] == 'new' and (x is None or y is None) and \
                        (k[0] not in a.made or k[0] not in b.made):
                    s.heap[k] = x or y
                    continue
                x = x or mk('attr', k[0], k[1], 0)
                y = y or mk('attr', k[0], k[1], 0)
                s.heap[k] = self.phi(x, y, (where, k), fresh)
        for k, v in a.facts.items():
            if b.facts.get(k) is v and not (fresh and any(f in sites(k) for f in fresh)):
                s.facts[k] = v
        return s

    def phi(self, x, y, where, fresh):
        cx, cy = self.class_of(x), self.class_of(y)
        v = ('sym', ('phi',) + (hash(where),), cx if cx == cy else None)
        fresh.add(v)
        return v

    def join_all(self, states, where):
        groups = {}
        for s in states:
            k = self.group(s)
            groups[k] = self.join(groups[k], s, where) if k in groups else s
        return list(groups.values())

    max_outs = 150

    def squeeze(self, outs, where):
        """fewer outcomes: those that differ only in what is known"""
        for o in outs:
            self.prune(o.st, (o.val.key() if isinstance(o.val, Raise) else o.val,)
                       if o.val is not None else ())
        groups = {}
        for o in outs:
            v = o.val.key() if isinstance(o.val, Raise) else o.val
            k = (o.kind, v, self.group(o.st))
            if k in groups:
                groups[k] = Out(o.kind, self.join(groups[k].st, o.st, where), o.val)
            else:
                groups[k] = o
        return list(groups.values())

    def where(self, node):
        cx = self.pos[-1] if self.pos else None
        f = cx.func if cx else None
        if f is None:
            return ('?', '?', getattr(node, 'lineno', 0))
        # report in the innermost function that holds the node
        return (f.file, f.qual, getattr(node, 'lineno', f.node.lineno))

    def frame_id(self, *key):
        i = self.frames.get(key)
        if i is None:
            i = self.frames[key] = len(self.frames) + 1
        return i

    def site(self, node, cx):
        return (cx.frame, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                type(node).__name__)

    def emit(self, st, ev, node):
        self.stats['events'] += 1
        self.o.on(self, st, ev, node)

    # ---- types
    def class_of(self, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'new':
            return v[2]
        if k == 'sym':
            return v[2]
        if k == 'attr':
            return self.p.attr_type(self.class_of(v[1]), v[2])
        if k == 'tuple':
            return 'tuple'
        if k == 'old':
            return self.class_of(v[1])
        if k in ('elem', 'key', 'val'):
            it = v[1]
            for _ in range(4):
                if it[0] == 'call' and it[2] and it[1] in CONTAINER_CTORS:
                    it = it[2][0]
                elif it[0] == 'call' and it[1] in ('.copy', '.values') and it[2]:
                    it = it[2][0]
                else:
                    break
            if it[0] == 'attr':
                return self.p.elem_type(self.class_of(it[1]), it[2])
            return self.o.elem_type(v) if hasattr(self.o, 'elem_type') else None
        if k == 'item':
            it = v[1]
            if it[0] == 'call' and it[1] == '.popitem' and v[2] == ('c', 'int', 1):
                return self.class_of(('val', it[2][0]))
            if it[0] == 'attr':
                return self.p.elem_type(self.class_of(it[1]), it[2])
            return None
        if k == 'call':
            if v[1] in CONTAINER_CTORS:
                if v[1] == 'copy.copy' and v[2]:
                    return self.class_of(v[2][0])
                return CONTAINER_CTORS[v[1]]
            if v[1] in ('.pop', '.popleft') and v[2]:
                return self.class_of(('elem', v[2][0]))
            return {'builtins.open': 'pyfile', 'socket.socket': 'socket',
                    'sqlite3.connect': 'sqlite', '.cursor': 'cursor',
                    'io.BytesIO': 'pyfile', 'builtins.len': 'int',
                    'struct.pack': 'bytes', 'zlib.compress': 'bytes',
                    'tempfile.NamedTemporaryFile': 'pyfile',
                    'builtins.range': 'range', 'builtins.int': 'int',
                    'builtins.str': 'str', '.dup': 'socket',
                    'os.fdopen': 'pyfile',
                    '.join': 'bytes' if (v[2] and v[2][0][0] == 'c' and v[2][0][1] == 'bytes') else None,
                    '.encode': 'bytes'}.get(v[1])
        if k == 'exc':
            return v[1]
        if k in ('gen', 'fn', 'bm', 'xm', 'cls', 'mod'):
            return k
        return None

    def is_repo(self, cls):
        return cls in self.p.classes

    # ---- facts
    def truth_of(self, st, v):
        k = v[0]
        if k == 'c':
            return bool(v[2])
        if k in ('fn', 'bm', 'xm', 'cls', 'mod', 'gen', 'ext', 'partial', 'exc', 'comp'):
            return True
        if k == 'tuple':
            return len(v[1]) > 0
        f = st.facts.get(('truth', v))
        if f is not None:
            return f
        if k == 'new':
            c = st.heap.get((v, '[]'))
            if c is not None:
                if c[0] == 'exact':
                    return len(c[1]) > 0
                if c[0] == 'some':
                    return True
                return None
            if v[2] in self.p.classes:
                if (self.p.lookup(v[2], '__len__') is None
                        and self.p.lookup(v[2], '__bool__') is None):
                    return True
            if v[2] in ('socket', 'pyfile', 'sqlite'):
                return True
            return None
        if st.facts.get(('is', v, NONE)) is True:
            return False
        cls = self.class_of(v)
        if cls in ('socket', 'pyfile', 'sqlite', 'cursor') and k != 'attr':
            return True
        return None

    def not_none(self, st, v):
        return (v[0] in ('new', 'fn', 'bm', 'xm', 'cls', 'mod', 'gen', 'tuple',
                         'ext', 'partial', 'exc', 'comp', 'op')
                or (v[0] == 'c' and v[2] is not None)
                or (v[0] == 'call' and (v[1] in PURE or v[1] in CONTAINER_CTORS))
                or (v[0] == 'sym' and v[1] == 'self')
                or st.facts.get(('truth', v)) is True)

    def decide(self, st, atom):
        f = st.facts.get(atom)
        if f is not None:
            return f
        k = atom[0]
        if k == 'truth':
            return self.truth_of(st, atom[1])
        if k == 'is':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if a == NONE or b == NONE:
                x = b if a == NONE else a
                if self.not_none(st, x):
                    return False
                return None
            if a[0] in ('c', 'cls', 'fn', 'ext') and b[0] in ('c', 'cls', 'fn', 'ext'):
                return a == b
            if a[0] == 'new' and b[0] == 'new':
                return a == b if (a[3] == 0 and b[3] == 0) else None
            if (a[0] == 'new' and b[0] in ('sym', 'attr', 'elem')) or (
                    b[0] == 'new' and a[0] in ('sym', 'attr', 'elem')):
                return False
            return None
        if k == '==':
            a, b = atom[1], atom[2]
            if a == b and not contains(a, lambda t: t[0] == 'deep'):
                return True
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return a[2] == b[2]
                except Exception:
                    return None
            if a[0] == 'cls' and b[0] == 'cls':
                return a == b
            for x, y in ((a, b), (b, a)):
                # equal to one constant, so not to another
                if y[0] == 'c':
                    for (q, v) in st.facts.items():
                        if v is True and q[0] == '==' and x in (q[1], q[2]):
                            z = q[2] if q[1] == x else q[1]
                            if z[0] == 'c' and z != y and z[2] != y[2]:
                                return False
                    if y[2] is None and self.not_none(st, x):
                        return False
            return None
        if k == '<':
            a, b = atom[1], atom[2]
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return a[2] < b[2]
                except Exception:
                    return None
            return None
        if k == 'isinst':
            cls = self.class_of(atom[1])
            want = atom[2]
            if isinstance(want, str):
                if cls in self.p.classes:
                    if self.p.is_subclass(cls, want):
                        return True
                    if want in self.p.classes and any(
                            self.p.is_subclass(s, want) for s in self.p.subclasses(cls)):
                        return None
                    if want in self.p.classes and atom[1][0] == 'new':
                        return False
                    if want not in self.p.classes:
                        return False
                    return None
                if cls is not None and atom[1][0] == 'c':
                    c1, c2 = ext_class(cls), ext_class(want)
                    if c2 is None:
                        return False
                    if c1 is not None:
                        return issubclass(c1, c2)
                if cls in ('bytes', 'str', 'int', 'tuple', 'list', 'dict', 'set') and want.startswith('builtins.'):
                    return 'builtins.' + cls == want
                if cls in ('list', 'dict', 'set', 'pyfile', 'socket') and want in self.p.classes:
                    return False
            return None
        if k == 'hasattr':
            return self.has_attr(st, atom[1], atom[2])
        return None

    def has_attr(self, st, v, name):
        if (v, name) in st.heap:
            return True
        cls = self.class_of(v)
        if (cls, name) in EXT_HAS:
            return EXT_HAS[(cls, name)]
        if cls in self.p.classes:
            if self.p.lookup(cls, name) is not None:
                return True
            for k in self.p.classes[cls].mro:
                if name in self.p.assigned_attrs.get(k, ()):
                    return True
            for s in self.p.subclasses(cls):
                if self.p.lookup(s, name) is not None:
                    return None
            return False
        if v[0] == 'c':
            return hasattr(v[2], name)
        if cls in ('list', 'dict', 'set', 'str', 'bytes', 'tuple', 'int'):
            return hasattr(getattr(builtins, cls), name)
        return None

    def assume(self, st, atom, pol):
        """a state where the atom has this truth, or None; st is not changed"""
        d = self.decide(st, atom)
        if d is not None:
            if d is not pol:
                return None
            if atom in st.facts or atom[0] in ('isinst', 'hasattr'):
                return st
        st = st.copy()
        if d is None:
            st.facts[atom] = pol
            if atom[0] == 'truth' and pol:
                st.facts.pop(('is', atom[1], NONE), None)
        return st

    def drop_content(self, st, c):
        """the contents of container c changed"""
        for a in [a for a in st.facts
                  if a[0] not in ('is', 'isinst', 'hasattr') and mentions(a, c)]:
            del st.facts[a]

    def rename(self, st, v):
        """v is about to be made anew: what holds the previous one is older"""
        new = ('old', v) if v[0] != 'new' else ('new', v[1], v[2], 1)
        for d in (st.env, st.heap):
            for k in list(d):
                x = d[k]
                if isinstance(k, tuple) and d is st.heap and mentions(k, v):
                    del d[k]
                    k2 = subst(k, v, new)
                    if k2 in d:
                        # merged with older ones: forget contents
                        x = ('maybe', frozenset()) if k2[1] == '[]' else mk('attr', k2[0], k2[1], 'm')
                    d[k2] = subst(x, v, new)
                elif mentions(x, v):
                    d[k] = subst(x, v, new)
        for a in [a for a in st.facts if mentions(a, v)]:
            del st.facts[a]
        self.o.renamed(self, st, v, new)

    def fresh(self, st, v):
        if v in st.made:
            st_has = True
            self.rename(st, v)
        else:
            st.made = st.made | frozenset([v])
        return v

    # ---- statements
    def dedupe(self, outs):
        seen, res = set(), []
        for o in outs:
            k = (o.kind, o.st.key(),
                 o.val.key() if isinstance(o.val, Raise) else o.val)
            if k not in seen:
                seen.add(k)
                res.append(o)
        if len(res) > self.max_outs:
            cx = self.pos[-1] if self.pos else None
            res = self.squeeze(res, ('outs', cx.func.qual if cx and cx.func else None))
        if len(res) > self.max_states:
            raise Limit('more than %d states in %s' % (self.max_states, self.entry_name))
        return res

    def block(self, stmts, st, cx):
        outs = [Out('n', st)]
        for s in stmts:
            res = []
            live = False
            for o in outs:
                if o.kind == 'n':
                    live = True
                    res.extend(self.stmt(s, o.st, cx))
                else:
                    res.append(o)
            if not live:
                return outs
            outs = self.dedupe(res) if len(res) > 1 else res
        return outs

    def stmt(self, s, st, cx):
        if cx.func is not None:
            self.stats['statements'].add((cx.func.qual, s.lineno))
        if self.deadline is not None and time.time() > self.deadline:
            raise Limit('out of time')
        self.pos.append(cx)
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                return [Out('n', st)]
            return m(s, st, cx)
        finally:
            self.pos.pop()

    def lift(self, results, fn=None):
        """results of ev() as outcomes; fn(st, v) gives outcomes for values"""
        outs = []
        for st, v in results:
            if isinstance(v, Raise):
                outs.append(Out('x', st, v))
            elif fn is None:
                outs.append(Out('n', st))
            else:
                outs.extend(fn(st, v))
        return outs

    def s_Expr(self, s, st, cx):
        return self.lift(self.ev(s.value, st, cx))

    def s_Pass(self, s, st, cx):
        return [Out('n', st)]

    def s_Return(self, s, st, cx):
        if s.value is None:
            return [Out('r', st, NONE)]
        return self.lift(self.ev(s.value, st, cx), lambda st, v: [Out('r', st, v)])

    def s_Break(self, s, st, cx):
        return [Out('b', st)]

    def s_Continue(self, s, st, cx):
        return [Out('c', st)]

    def s_FunctionDef(self, s, st, cx):
        f = self.p.local_func(s, cx.func)
        st = st.copy()
        v = ('fn', f.qual, cx.frame)
        self.bind_name(st, cx, s.name, v)
        # defaults are evaluated now
        st2 = [(st, None)]
        args = f.node.args
        names = [a.arg for a in args.posonlyargs + args.args]
        res = [st]
        for name, d in list(zip(names[len(names) - len(args.defaults):], args.defaults)) + [
                (a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
            nxt = []
            for x in res:
                for st3, dv in self.ev(d, x, cx):
                    if not isinstance(dv, Raise):
                        st3 = st3.copy()
                        st3.env[(('default', f.qual), name)] = dv
                        nxt.append(st3)
            res = nxt
        return [Out('n', x) for x in res]

    def s_ClassDef(self, s, st, cx):
        st = st.copy()
        self.bind_name(st, cx, s.name, ('ext', 'local.' + s.name))
        return [Out('n', st)]

    def s_Global(self, s, st, cx):
        return [Out('n', st)]
    s_Nonlocal = s_Global

    def s_Import(self, s, st, cx):
        st = st.copy()
        for a in s.names:
            if a.asname:
                self.bind_name(st, cx, a.asname, ('mod', a.name))
            else:
                self.bind_name(st, cx, a.name.split('.')[0], ('mod', a.name.split('.')[0]))
        return [Out('n', st)]

    def s_ImportFrom(self, s, st, cx):
        st = st.copy()
        for a in s.names:
            b = self.p.resolve_from(s.module or '', a.name)
            self.bind_name(st, cx, a.asname or a.name, self.binding_value(b, st, cx))
        return [Out('n', st)]

    def s_Assert(self, s, st, cx):
        outs = []
        for st2, r in self.branch(s.test, st, cx):
            if isinstance(r, Raise):
                outs.append(Out('x', st2, r))
            elif r:
                outs.append(Out('n', st2))
            else:
                # An assertion states what is always so; a rule can ask to
                # have its failure followed.
                if getattr(self.o, 'assert_raises', False):
                    outs.append(Out('x', st2, Raise('exc', ('exc', 'builtins.AssertionError', ()))))
        return outs

    def s_Raise(self, s, st, cx):
        if s.exc is None:
            v = self.current_exc(st, cx)
            return [Out('x', st, Raise('exc', v))]
        outs = []
        for st2, v in self.ev(s.exc, st, cx):
            if isinstance(v, Raise):
                outs.append(Out('x', st2, v))
                continue
            v = self.as_exc(v)
            st2 = st2.copy()
            self.emit(st2, ('raise', v), s)
            outs.append(Out('x', st2, Raise('exc', v)))
        return outs

    def as_exc(self, v):
        if v[0] == 'exc':
            return v
        if v[0] == 'cls':
            return ('exc', v[1], ())
        if v[0] == 'ext':
            return ('exc', v[1], ())
        if v[0] == 'new':
            return ('exc', v[2], (v,))
        if v[0] == 'call' and isinstance(v[1], str) and (
                ext_class(v[1]) is not None or v[1].startswith('builtins.')):
            return ('exc', v[1], v[2])
        return ('exc', '?', (v,))

    def current_exc(self, st, cx):
        f, c = cx.frame, cx
        v = st.env.get((cx.frame, '$exc'))
        if v is None and cx.parent is not None:
            v = st.env.get((cx.parent, '$exc'))
        if v is None:
            for (fr, n), x in st.env.items():
                if n == '$exc':
                    return x
        return v or ('exc', '?', ())

    def s_Delete(self, s, st, cx):
        outs = [Out('n', st)]
        for t in s.targets:
            nxt = []
            for o in outs:
                if o.kind != 'n':
                    nxt.append(o)
                    continue
                nxt.extend(self.delete(t, o.st, cx))
            outs = nxt
        return outs

    def delete(self, t, st, cx):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env.pop((cx.frame, t.id), None)
            return [Out('n', st)]
        if isinstance(t, ast.Attribute):
            def f(st, obj):
                st = st.copy()
                st.heap.pop((obj, t.attr), None)
                self.emit(st, ('del', obj, t.attr), t)
                return [Out('n', st)]
            return self.lift(self.ev(t.value, st, cx), f)
        if isinstance(t, ast.Subscript):
            def f(st, vals):
                return self.lift(self.setitem(st, vals[0], '__delitem__', vals[1:], t, cx))
            return self.lift(self.evs([t.value, t.slice], st, cx), f)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [Out('n', st)]
            for e in t.elts:
                nxt = []
                for o in outs:
                    nxt.extend(self.delete(e, o.st, cx) if o.kind == 'n' else [o])
                outs = nxt
            return outs
        return [Out('n', st)]

    def setitem(self, st, obj, op, args, node, cx):
        """obj[...] = / del obj[...]; results like ev()"""
        cls = self.class_of(obj)
        if cls in self.p.classes:
            r = self.p.lookup(cls, op)
            if r is not None and isinstance(r[1], Func):
                return self.call_repo(r[1], obj, args, {}, st, node, cx, None)
        st = st.copy()
        return self.mutate(st, obj, op, args, node, cx, NONE)

    def mutate(self, st, obj, op, args, node, cx, result):
        ev = ('mut', obj, op, tuple(args))
        res = []
        for e in self.o.raises(self, st, ev, node):
            x = st.copy()
            res.append((x, Raise('exc', ('exc', e, ()))))
        self.emit(st, ev, node)
        self.drop_content(st, obj)
        self.content(st, obj, op, args, cx)
        res.append((st, result))
        return res

    def content(self, st, obj, op, args, cx):
        key = (obj, '[]')
        c = st.heap.get(key)
        if op == 'clear':
            st.heap[key] = ('exact', ())
            st.facts[('truth', obj)] = False
            return
        added = None
        if op in ('append', 'add', 'appendleft'):
            added = tuple(args)
        elif op in ('__setitem__', 'setdefault') and len(args) == 2:
            added = (('kv', args[0], args[1]),)
        elif op == 'insert' and len(args) == 2:
            added = (args[1],)
        elif op in ('extend', 'update', '__iadd__', '__ior__') and len(args) == 1:
            a = args[0]
            ac = st.heap.get((a, '[]'))
            if a[0] == 'tuple':
                added = a[1]
            elif ac is not None and ac[0] == 'exact':
                added = ac[1]
            else:
                if c is not None:
                    vals = frozenset(c[1]) | frozenset([('all', a)])
                    st.heap[key] = ('some' if c[0] == 'some' or (c[0] == 'exact' and c[1]) else 'maybe', vals)
                return
        if added is not None:
            if obj[0] != 'new' and c is None:
                if added:
                    st.facts[('truth', obj)] = True
                if op in ('add', '__setitem__') and args:
                    st.facts[('in', args[0], obj)] = True
                return
            if c is None:
                c = ('maybe', frozenset())
            if c[0] == 'exact' and cx.loop == 0 and len(c[1]) + len(added) <= 8:
                st.heap[key] = ('exact', c[1] + added)
            elif added:
                st.heap[key] = ('some', frozenset(c[1]) | frozenset(added))
            if op in ('add', '__setitem__') and args:
                st.facts[('in', args[0], obj)] = True
            return
        if op in ('discard', 'remove', '__delitem__') and args:
            st.facts[('in', args[0], obj)] = False
        if c is not None and op not in ('sort', 'reverse'):
            st.heap[key] = ('maybe', frozenset(c[1]))

    def s_Assign(self, s, st, cx):
        def f(st, v):
            outs = [Out('n', st)]
            for t in s.targets:
                nxt = []
                for o in outs:
                    nxt.extend(self.assign(t, v, o.st, cx) if o.kind == 'n' else [o])
                outs = nxt
            return outs
        return self.lift(self.ev(s.value, st, cx), f)

    def s_AnnAssign(self, s, st, cx):
        if s.value is None:
            return [Out('n', st)]
        return self.lift(self.ev(s.value, st, cx),
                         lambda st, v: self.assign(s.target, v, st, cx))

    def bind_name(self, st, cx, name, v):
        frame = cx.frame
        if cx.func is not None and name in cx.func.nonlocals:
            f = cx.parent
            while f is not None:
                if (f, name) in st.env:
                    frame = f
                    break
                f = st.env.get((f, '$parent'))
        st.env[(frame, name)] = v

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            st = st.copy()
            self.bind_name(st, cx, t.id, v)
            return [Out('n', st)]
        if isinstance(t, ast.Attribute):
            return self.lift(self.ev(t.value, st, cx),
                             lambda st, obj: self.lift(self.setattr(st, obj, t.attr, v, t, cx)))
        if isinstance(t, ast.Subscript):
            return self.lift(self.evs([t.value, t.slice], st, cx),
                             lambda st, vals: self.lift(self.setitem(
                                 st, vals[0], '__setitem__', [vals[1], v], t, cx)))
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [Out('n', st)]
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = self.unpack(st, v, n) if not star else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e, x = e.value, mk('op', 'rest', (v,))
                else:
                    x = parts[i] if parts else mk('item', v, const(i))
                nxt = []
                for o in outs:
                    nxt.extend(self.assign(e, x, o.st, cx) if o.kind == 'n' else [o])
                outs = nxt
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, cx)
        return [Out('n', st)]

    def unpack(self, st, v, n):
        if v[0] == 'tuple' and len(v[1]) == n:
            return list(v[1])
        c = st.heap.get((v, '[]'))
        if c is not None and c[0] == 'exact' and len(c[1]) == n:
            return list(c[1])
        return [mk('item', v, const(i)) for i in range(n)]

    def setattr(self, st, obj, name, v, node, cx):
        """results like ev()"""
        cls = self.class_of(obj)
        if cls in self.p.classes:
            r = self.p.lookup(cls, name)
            if r is not None and isinstance(r[1], Func) and (name + '.setter') in r[1].deco:
                return self.call_repo(r[1], obj, [v], {}, st, node, cx, None)
        st = st.copy()
        ev = ('set', obj, name, v, st.heap.get((obj, name)))
        res = []
        for e in self.o.raises(self, st, ev, node):
            res.append((st.copy(), Raise('exc', ('exc', e, ()))))
        self.emit(st, ev, node)
        st.heap[(obj, name)] = v
        res.append((st, NONE))
        return res

    def s_AugAssign(self, s, st, cx):
        t = s.target
        op = type(s.op).__name__
        iop = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__',
               'BitOr': '__ior__', 'BitAnd': '__iand__', 'BitXor': '__ixor__'}.get(op)

        def combine(st, old, v):
            """results: (st, new value)"""
            cls = self.class_of(old)
            if cls in self.p.classes and iop:
                r = self.p.lookup(cls, iop)
                if r is not None and isinstance(r[1], Func):
                    return self.call_repo(r[1], old, [v], {}, st, s, cx, None)
            if cls in ('list', 'set', 'dict') and iop:
                return self.mutate(st.copy(), old, iop, [v], s, cx, old)
            return [(st, self.binop(st, op, old, v, cx))]

        if isinstance(t, ast.Name):
            def f(st, vals):
                return self.lift(combine(st, vals[0], vals[1]),
                                 lambda st, v: self.assign(t, v, st, cx))
            return self.lift(self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t), s.value], st, cx), f)
        if isinstance(t, ast.Attribute):
            def f(st, vals):
                obj, v = vals

                def g(st, old):
                    return self.lift(combine(st, old, v),
                                     lambda st, nv: self.lift(self.setattr(st, obj, t.attr, nv, t, cx)))
                return self.lift(self.getattr(st, obj, t.attr, t, cx), g)
            return self.lift(self.evs([t.value, s.value], st, cx), f)
        if isinstance(t, ast.Subscript):
            def f(st, vals):
                obj, idx, v = vals
                old = mk('item', obj, idx)
                return self.lift(self.setitem(st, obj, '__setitem__',
                                              [idx, self.binop(st, op, old, v, cx)], t, cx))
            return self.lift(self.evs([t.value, t.slice, s.value], st, cx), f)
        return [Out('n', st)]

    def s_If(self, s, st, cx):
        r = fold_test(s.test)
        if r is not None:
            return self.block(s.body if r else s.orelse, st, cx)
        outs = []
        for st2, r in self.branch(s.test, st, cx):
            if isinstance(r, Raise):
                outs.append(Out('x', st2, r))
            else:
                outs.extend(self.block(s.body if r else s.orelse, st2, cx))
        return self.dedupe(outs)

    def s_While(self, s, st, cx):
        lcx = cx.inloop()
        outs = []
        seen = set()
        work = [st]
        rounds = 0
        heads = {}
        while work:
            rounds += 1
            nxt = []
            for x in work:
                k = x.key()
                if k in seen:
                    continue
                seen.add(k)
                for st2, r in self.branch(s.test, x, lcx):
                    if isinstance(r, Raise):
                        outs.append(Out('x', st2, r))
                    elif not r:
                        outs.extend(self.block(s.orelse, st2, cx) if s.orelse
                                    else [Out('n', st2)])
                    else:
                        for o in self.block(s.body, st2, lcx):
                            if o.kind in 'nc':
                                nxt.append(o.st)
                            elif o.kind == 'b':
                                outs.append(Out('n', o.st))
                            else:
                                outs.append(o)
            work = self.widen(nxt, rounds, heads, self.site(s, cx))
            outs = self.dedupe(outs)
        return outs

    def widen(self, work, rounds, heads, where):
        """Bring the states at the head of a loop together.

        The first two rounds are kept apart; later, states that differ only
        in values and known conditions (not in the rule's state, nor in
        flags) become one, that only ever gets less precise.
        """
        if not work:
            return work
        for x in work:
            self.prune(x)
        if rounds < 2 and len(work) <= 12:
            return work
        if rounds > 60:
            raise Limit('loop does not converge in %s' % self.entry_name)
        res = []
        for x in self.join_all(work, where):
            k = self.group(x)
            h = heads.get(k)
            if h is not None:
                j = self.join(h, x, where)
                if j.key() == h.key():
                    continue
                x = j
            heads[k] = x
            res.append(x)
        if len(heads) > self.max_states:
            raise Limit('loop does not converge in %s' % self.entry_name)
        return res

    def s_For(self, s, st, cx):
        lcx = cx.inloop()

        def f(st, it):
            def body(st, elem):
                outs = []
                for o in self.assign(s.target, elem, st, lcx):
                    if o.kind == 'n':
                        outs.extend(self.block(s.body, o.st, lcx))
                    else:
                        outs.append(o)
                return outs
            res = self.loop(st, it, body, s, cx)
            outs = []
            for o in res:
                if o.kind == 'done':
                    outs.extend(self.block(s.orelse, o.st, cx) if s.orelse
                                else [Out('n', o.st)])
                elif o.kind == 'b':
                    outs.append(Out('n', o.st))
                else:
                    outs.append(o)
            return self.dedupe(outs)
        return self.lift(self.ev(s.iter, st, cx), f)

    def loop(self, st, it, body, node, cx):
        """Iterate `body` over `it`.  Outcomes: 'done', 'b', 'r', 'x'."""
        kind = it[0]
        if kind == 'call' and it[1] in ('builtins.iter', 'builtins.list', 'builtins.tuple') and len(it[2]) == 1 \
                and it[2][0][0] in ('gen', 'comp'):
            it = it[2][0]
            kind = it[0]
        if kind in ('gen', 'comp'):
            return self.loop_gen(st, it, body, node, cx)
        if kind == 'call' and it[1] == 'builtins.enumerate' and it[2] and it[2][0][0] in ('gen', 'comp', 'tuple', 'new', 'sym', 'attr', 'call', 'item'):
            n = mk('sym', ('index', self.site(node, cx)), 'int')
            return self.loop(st, it[2][0],
                             lambda st, e: body(st, ('tuple', (n, e))), node, cx)
        cls = self.class_of(it)
        if cls in self.p.classes and not self.o.opaque(cls + '.__iter__'):
            r = self.p.lookup(cls, '__iter__')
            if r is not None and isinstance(r[1], Func):
                outs = []
                for st2, v in self.call_repo(r[1], it, [], {}, st, node, cx, None):
                    if isinstance(v, Raise):
                        outs.append(Out('x', st2, v))
                    elif v == it:
                        outs.extend(self.loop_unknown(st2, v, body, node, cx))
                    else:
                        outs.extend(self.loop(st2, v, body, node, cx))
                return outs
        exact = None
        if kind == 'tuple':
            exact = it[1]
        elif kind == 'call' and it[1] in ('builtins.range', 'builtins.xrange') and len(it[2]) == 1 \
                and it[2][0][0] == 'c' and isinstance(it[2][0][2], int) and it[2][0][2] <= 2:
            exact = tuple(const(k) for k in range(it[2][0][2]))
        else:
            c = st.heap.get((it, '[]'))
            if c is not None and c[0] == 'exact':
                exact = c[1]
        if exact is not None and len(exact) <= 6:
            outs = [Out('n', st)]
            final = []
            for e in exact:
                if e[0] == 'kv':
                    e = e[1]
                nxt = []
                for o in outs:
                    for r in body(o.st, e):
                        if r.kind in 'nc':
                            nxt.append(r)
                        else:
                            final.append(r)
                outs = self.dedupe(nxt)
            return final + [Out('done', o.st) for o in outs]
        return self.loop_unknown(st, it, body, node, cx)

    def elem_of(self, st, it, node, cx):
        site = self.site(node, cx)
        if it[0] == 'call':
            fn, args = it[1], it[2]
            if fn in ('.items', '.iteritems') and args:
                return ('tuple', (mk('key', args[0], site), mk('val', args[0], site)))
            if fn == '.values' and args:
                return mk('val', args[0], site)
            if fn == '.keys' and args:
                return mk('key', args[0], site)
            if fn in ('builtins.list', 'builtins.sorted', 'builtins.tuple',
                      'builtins.reversed', 'builtins.iter', 'builtins.set',
                      'builtins.frozenset') and args:
                inner = args[0]
                if inner[0] == 'call' and inner[1] in ('.items', '.iteritems', '.values', '.keys'):
                    return self.elem_of(st, inner, node, cx)
                return mk('elem', it, site)
            if fn == 'builtins.zip':
                return ('tuple', tuple(self.elem_of(st, a, node, cx) for a in args))
            if fn == 'builtins.enumerate' and args:
                return ('tuple', (mk('sym', ('index', site), 'int'),
                                  self.elem_of(st, args[0], node, cx)))
        if self.class_of(it) == 'dict' and it[0] != 'new':
            return mk('key', it, site)
        return mk('elem', it, site)

    def loop_unknown(self, st, it, body, node, cx):
        outs = []
        seen = set()
        for e in self.o.raises(self, st, ('next', it), node):
            outs.append(Out('x', st.copy(), Raise('exc', ('exc', e, ()) if isinstance(e, str) else e)))
        work = [(st, True)]
        rounds = 0
        heads = {}
        base = it
        while base[0] == 'call' and base[2] and base[1] in (
                'builtins.list', 'builtins.sorted', 'builtins.tuple', 'builtins.reversed',
                '.items', '.keys', '.values', '.iteritems', 'builtins.iter'):
            base = base[2][0]
        c = st.heap.get((base, '[]'))
        elems = None
        if c is not None and c[0] in ('some', 'maybe', 'exact') and base[0] == 'new' and base == it:
            elems = sorted(set(c[1]), key=repr)
        while work:
            rounds += 1
            nxt = []
            for x, first in work:
                k = (x.key(), first)
                if k in seen:
                    continue
                seen.add(k)
                # no more
                e = x.copy()
                ok = True
                if first:
                    self.emit(e, ('iter', it), node)
                    r = self.truth_of(e, base)
                    if r is True:
                        ok = False
                    elif r is None:
                        e.facts[('truth', base)] = False
                if ok:
                    self.emit(e, ('done', it), node)
                    outs.append(Out('done', e))
                if first and self.truth_of(x, base) is False:
                    continue
                choices = [None]
                if elems:
                    choices = elems
                for ch in choices:
                    b = x.copy()
                    if first:
                        self.emit(b, ('iter', it), node)
                        if self.truth_of(b, base) is None:
                            b.facts[('truth', base)] = True
                    if ch is None:
                        elem = self.elem_of(b, it, node, cx)
                        parts = elem[1] if elem[0] == 'tuple' else (elem,)
                        for pt in parts:
                            if pt[0] in ('elem', 'key', 'val', 'sym'):
                                self.fresh(b, pt)
                    elif ch[0] == 'all':
                        elem = mk('elem', ch[1], self.site(node, cx))
                        self.fresh(b, elem)
                    elif ch[0] == 'kv':
                        elem = ch[1]
                    else:
                        elem = ch
                    self.emit(b, ('next', it, elem), node)
                    self.temps.append((it,))
                    if not first:
                        for e in self.o.raises(self, b, ('next', it), node):
                            outs.append(Out('x', b.copy(), Raise('exc', ('exc', e, ()) if isinstance(e, str) else e)))
                    for o in body(b, elem):
                        if o.kind in 'nc':
                            nxt.append((o.st, False))
                        else:
                            outs.append(o)
                    self.temps.pop()
            self.temps.append((it,))
            work = [(w, False) for w in self.widen([w[0] for w in nxt], rounds, heads,
                                                   self.site(node, cx))]
            self.temps.pop()
            outs = self.dedupe(outs)
        return outs

    def loop_gen(self, st, it, body, node, cx):
        def handler(st, v):
            outs = []
            for o in body(st, v):
                if o.kind in 'nc':
                    outs.append((o.st, NONE))
                elif o.kind == 'x':
                    outs.append((o.st, Raise('abandon', ('x', o))))
                else:
                    outs.append((o.st, Raise('abandon', (o.kind, o))))
            return outs
        outs = []
        for o in self.run_gen(st, it, handler, node, cx):
            if o.kind in 'nr':
                e = o.st.copy()
                self.emit(e, ('done', it), node)
                outs.append(Out('done', e))
            elif o.kind == 'x' and o.val.kind == 'abandon':
                inner = o.val.val[1]
                outs.append(Out(inner.kind, o.st, inner.val))
            else:
                outs.append(o)
        return self.dedupe(outs)

    def run_gen(self, st, g, handler, node, cx):
        """Run generator value g with a handler for what it yields."""
        if g[0] == 'comp':
            return self.run_comp(st, g, handler, node, cx)
        _, qual, bound, closure = g
        f = self.p.funcs[qual]
        if sum(1 for q in cx.stack if q == qual) >= 2:
            # recursive: what it yields is unknown
            outs = [Out('n', st)]
            e = mk('elem', g, self.site(node, cx))
            x = st.copy()
            self.fresh(x, e)
            for st2, v in handler(x, e):
                outs.append(Out('x', st2, v) if isinstance(v, Raise) else Out('n', st2))
            return outs
        frame = self.frame_id(qual, self.site(node, cx), 'gen')
        st = st.copy()
        for k in [k for k in st.env if k[0] == frame]:
            del st.env[k]
        for n, v in bound:
            st.env[(frame, n)] = v
        if closure is not None:
            st.env[(frame, '$parent')] = closure
        gcx = Ctx(f, frame, closure, f.module.name, handler, cx.loop, cx.stack + (qual,))
        self.stats['functions'].add(qual)
        outs = self.block(f.node.body, st, gcx)
        keep = self.keeps_frame(f)
        for o in outs:
            if not keep:
                for k in [k for k in o.st.env if k[0] == frame]:
                    del o.st.env[k]
        return outs

    def run_comp(self, st, g, handler, node, cx):
        _, nid, frame, modname, funcqual = g
        cnode = self.comp_nodes[nid]
        f = self.p.funcs.get(funcqual)
        frame2 = self.frame_id('comp', nid, frame)
        ccx = Ctx(f, frame2, frame, modname, handler, cx.loop, cx.stack)
        return self.comp_loop(cnode.generators, 0, st, ccx,
                              lambda st: self.lift(
                                  self.ev(cnode.elt, st, ccx),
                                  lambda st, v: [Out('x', s2, r) if isinstance(r, Raise) else Out('n', s2)
                                                 for s2, r in handler(st, v)]))

    comp_nodes = {}

    def comp_loop(self, gens, i, st, ccx, innermost):
        if i == len(gens):
            return innermost(st)
        g = gens[i]
        lcx = ccx.inloop()

        def over(st, it):
            def body(st, elem):
                outs = []
                for o in self.assign(g.target, elem, st, lcx):
                    if o.kind != 'n':
                        outs.append(o)
                        continue
                    states = [(o.st, True)]
                    for c in g.ifs:
                        nxt = []
                        for s2, ok in states:
                            if isinstance(ok, Raise) or not ok:
                                nxt.append((s2, ok))
                            else:
                                nxt.extend(self.branch(c, s2, lcx))
                        states = nxt
                    for s2, ok in states:
                        if isinstance(ok, Raise):
                            outs.append(Out('x', s2, ok))
                        elif ok:
                            outs.extend(self.comp_loop(gens, i + 1, s2, lcx, innermost))
                        else:
                            outs.append(Out('n', s2))
                return outs
            outs = []
            for o in self.loop(st, it, body, g.iter, lcx):
                outs.append(Out('n', o.st) if o.kind == 'done' else o)
            return self.dedupe(outs)
        return self.lift(self.ev(g.iter, st, ccx), over)

    def s_With(self, s, st, cx):
        return self.with_items(s, 0, st, cx)

    def with_items(self, s, i, st, cx):
        if i == len(s.items):
            return self.block(s.body, st, cx)
        item = s.items[i]

        def f(st, mgr):
            if mgr[0] == 'gen':
                # a @contextmanager function
                def handler(st, v):
                    outs = [Out('n', st)]
                    if item.optional_vars is not None:
                        outs = self.assign(item.optional_vars, v, st, cx)
                    res = []
                    for o in outs:
                        for r in (self.with_items(s, i + 1, o.st, cx) if o.kind == 'n' else [o]):
                            if r.kind == 'n':
                                res.append((r.st, NONE))
                            elif r.kind == 'x' and r.val.kind == 'exc':
                                res.append((r.st, r.val))
                            else:
                                res.append((r.st, Raise('abandon', (r.kind, r))))
                    return res
                outs = []
                for o in self.run_gen(st, mgr, handler, s, cx):
                    if o.kind == 'x' and o.val.kind == 'abandon':
                        inner = o.val.val[1]
                        outs.append(Out(inner.kind, o.st, inner.val))
                    elif o.kind in 'nr':
                        outs.append(Out('n', o.st))
                    else:
                        outs.append(o)
                return outs
            cls = self.class_of(mgr)
            enter = self.p.lookup(cls, '__enter__') if cls in self.p.classes else None
            exit_ = self.p.lookup(cls, '__exit__') if cls in self.p.classes else None
            if enter and isinstance(enter[1], Func):
                entered = self.call_repo(enter[1], mgr, [], {}, st, s, cx, None)
            else:
                entered = self.opaque_call(st, '.__enter__', mgr, [], {}, s, cx, result=mgr)
            outs = []
            for st2, v in entered:
                if isinstance(v, Raise):
                    outs.append(Out('x', st2, v))
                    continue
                pre = [Out('n', st2)]
                if item.optional_vars is not None:
                    pre = self.assign(item.optional_vars, v, st2, cx)
                for o in pre:
                    rs = self.with_items(s, i + 1, o.st, cx) if o.kind == 'n' else [o]
                    for r in rs:
                        if exit_ and isinstance(exit_[1], Func):
                            ex = self.call_repo(exit_[1], mgr, [NONE] * 3, {}, r.st, s, cx, None)
                        else:
                            ex = self.opaque_call(r.st, '.__exit__', mgr, [NONE] * 3, {}, s, cx)
                        for st3, v3 in ex:
                            if isinstance(v3, Raise):
                                outs.append(Out('x', st3, v3))
                            else:
                                outs.append(Out(r.kind, st3, r.val))
            return self.dedupe(outs)
        return self.lift(self.ev(item.context_expr, st, cx), f)

    def s_Try(self, s, st, cx):
        outs = []
        for o in self.block(s.body, st, cx):
            if o.kind == 'x' and o.val.kind == 'exc':
                outs.extend(self.handlers(s, o, cx))
            elif o.kind == 'n':
                outs.extend(self.block(s.orelse, o.st, cx) if s.orelse else [o])
            else:
                outs.append(o)
        outs = self.dedupe(outs)
        if s.finalbody:
            res = []
            for o in outs:
                for r in self.block(s.finalbody, o.st, cx):
                    res.append(Out(o.kind, r.st, o.val) if r.kind == 'n' else r)
            outs = self.dedupe(res)
        return outs

    def handlers(self, s, o, cx):
        outs = []
        pending = [o.st]
        exc = o.val.val
        for h in s.handlers:
            nxt = []
            for st in pending:
                m = self.matches(h.type, exc, cx)
                if m is not False:
                    x = st.copy()
                    saved = x.env.get((cx.frame, '$exc'))
                    x.env[(cx.frame, '$exc')] = exc
                    if h.name:
                        x.env[(cx.frame, h.name)] = exc
                    self.emit(x, ('caught', exc), h)
                    for r in self.block(h.body, x, cx):
                        r.st = r.st.copy()
                        r.st.env.pop((cx.frame, '$exc'), None)
                        if h.name:
                            r.st.env.pop((cx.frame, h.name), None)
                        if saved is not None:
                            r.st.env[(cx.frame, '$exc')] = saved
                        outs.append(r)
                if m is not True:
                    nxt.append(st)
            pending = nxt
        for st in pending:
            outs.append(Out('x', st, o.val))
        return outs

    def exc_types(self, node, cx):
        if node is None:
            return ['builtins.BaseException']
        if isinstance(node, ast.Tuple):
            return [t for e in node.elts for t in self.exc_types(e, cx)]
        b = self.p.class_of_expr(cx.module, node)
        if b is None:
            if isinstance(node, ast.Name):
                b = self.p.resolve(cx.module, node.id)
                if b and b[0] == 'expr' and isinstance(b[2], ast.Tuple):
                    return [t for e in b[2].elts for t in self.exc_types(e, cx)]
            return ['?']
        if b[0] == 'expr' and isinstance(b[2], ast.Tuple):
            return [t for e in b[2].elts for t in self.exc_types(e, cx)]
        return [b[1]]

    def matches(self, node, exc, cx):
        maybe = False
        for t in self.exc_types(node, cx):
            if ext_class(t) in (BaseException,):
                return True
            if exc[1] == '?':
                if ext_class(t) is Exception:
                    return True
                maybe = True
            elif t == '?':
                maybe = True
            elif self.p.is_subclass(exc[1], t):
                return True
        return None if maybe else False

    # ---- expressions
    def ev(self, node, st, cx):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(st, ('deep',))]
        return m(node, st, cx)

    def evs(self, nodes, st, cx):
        """evaluate in order: [(st, [values]) | (st, Raise)]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in res:
                if isinstance(vals, Raise):
                    nxt.append((s, vals))
                    continue
                if vals:
                    self.temps.append(tuple(vals))
                for s2, v in self.ev(n, s, cx):
                    nxt.append((s2, v if isinstance(v, Raise) else vals + [v]))
                if vals:
                    self.temps.pop()
            res = nxt
        return res

    def e_Constant(self, n, st, cx):
        return [(st, const(n.value))]

    def e_Name(self, n, st, cx):
        return [(st, self.lookup_name(n.id, st, cx))]

    def lookup_name(self, name, st, cx):
        f = cx.frame
        v = st.env.get((f, name))
        if v is not None:
            return v
        f = cx.parent
        while f is not None:
            v = st.env.get((f, name))
            if v is not None:
                return v
            f = st.env.get((f, '$parent'))
        b = self.p.resolve(cx.module, name)
        if b is None:
            if hasattr(builtins, name):
                if name in ('True', 'False', 'None'):
                    return const(getattr(builtins, name))
                return ('ext', canon_ext('builtins.' + name))
            return ('sym', 'unbound:' + name, None)
        return self.binding_value(b, st, cx)

    def binding_value(self, b, st, cx):
        if b is None:
            return ('deep',)
        if b[0] == 'fn':
            return ('fn', b[1], None)
        if b[0] in ('cls', 'mod', 'ext'):
            return b
        if b[0] == 'from':
            return self.binding_value(self.p.resolve_from(b[1], b[2]), st, cx)
        if b[0] == 'expr':
            return self.module_const(b[1], b[2])
        return ('deep',)

    _mc = {}

    def module_const(self, module, node):
        key = (id(self.p), id(node))
        if key in self._mc:
            return self._mc[key]
        self._mc[key] = ('sym', ('global', module, node.lineno, node.col_offset), self.p._expr_type(module, node))
        if isinstance(node, (ast.Constant, ast.Name, ast.Attribute, ast.Call,
                             ast.Tuple, ast.BinOp, ast.UnaryOp, ast.Subscript)):
            saved, self.o = self.o, Observer()
            try:
                cx = Ctx(None, 0, None, module, None, 0, ())
                r = self.ev(node, State(), cx)
                if len(r) == 1 and not isinstance(r[0][1], Raise):
                    v = r[0][1]
                    if v[0] in ('c', 'tuple', 'ext', 'fn', 'cls', 'mod', 'xm', 'bm', 'partial') \
                            or (v[0] == 'call' and v[1] in ('struct.pack', 'zlib.compress', '.encode')):
                        self._mc[key] = v
            except (Limit, RecursionError):
                pass
            finally:
                self.o = saved
        return self._mc[key]

    def e_Attribute(self, n, st, cx):
        res = []
        for st2, v in self.ev(n.value, st, cx):
            if isinstance(v, Raise):
                res.append((st2, v))
            else:
                res.extend(self.getattr(st2, v, n.attr, n, cx))
        return res

    def getattr(self, st, v, name, node, cx, default=None):
        """[(st, value)]"""
        k = v[0]
        if name.startswith('__') and not name.endswith('__') and cx.func is not None:
            pass    # private names are never mixed in durus
        if k == 'mod':
            mod = v[1]
            if mod in self.p.modules:
                b = self.p.resolve(mod, name)
                if b is not None:
                    return [(st, self.binding_value(b, st, cx))]
            if mod + '.' + name in self.p.modules or name in ('path',):
                return [(st, ('mod', mod + '.' + name))]
            c = canon_ext(mod + '.' + name)
            if c in ('os.path', 'collections.abc'):
                return [(st, ('mod', c))]
            return [(st, ('ext', c))]
        if k == 'cls':
            r = self.p.lookup(v[1], name)
            if r is not None:
                owner, x = r
                if isinstance(x, Func):
                    if 'classmethod' in x.deco:
                        return [(st, ('bm', v, x.qual))]
                    return [(st, ('fn', x.qual, None))]
                return [(st, self.module_const(owner.module.name, x))]
            return [(st, mk('attr', v, name, 0))]
        if k == 'super':
            _, selfv, owner, start = v
            mro = self.p.classes[start].mro if start in self.p.classes else []
            if owner in mro:
                mro = mro[mro.index(owner) + 1:]
            for q in mro:
                c = self.p.classes.get(q)
                if c is not None and name in c.body:
                    x = c.body[name]
                    if isinstance(x, Func):
                        return [(st, ('bm', selfv, x.qual))]
            return [(st, ('xm', selfv, 'super.' + name))]
        if k == 'ext':
            return [(st, ('ext', canon_ext(v[1] + '.' + name)))]
        if name == '__class__':
            cls = self.class_of(v)
            if cls in self.p.classes and k == 'new':
                return [(st, ('cls', cls))]
            return [(st, ('classof', v, cls))]
        if k == 'classof':
            cls = v[2]
            if cls in self.p.classes:
                r = self.p.lookup(cls, name)
                if r is not None and isinstance(r[1], Func):
                    return [(st, ('fn', r[1].qual, None))]
        hv = st.heap.get((v, name))
        if hv is not None:
            if self.o.want_get:
                st = st.copy()
                self.emit(st, ('get', v, name, hv), node)
            return [(st, hv)]
        cls = self.class_of(v)
        if cls in self.p.classes:
            r = self.p.lookup(cls, name)
            if r is None and name.startswith('_') and '__' in name:
                r = None
            if r is not None:
                owner, x = r
                if isinstance(x, Func):
                    if 'staticmethod' in x.deco:
                        return [(st, ('fn', x.qual, None))]
                    if 'classmethod' in x.deco:
                        return [(st, ('bm', ('cls', cls), x.qual))]
                    if 'property' in x.deco:
                        return self.call_repo(x, v, [], {}, st, node, cx, None)
                    return [(st, ('bm', v, x.qual))]
                if not any(name in self.p.assigned_attrs.get(q, ())
                           for q in self.p.classes[cls].mro):
                    return [(st, self.module_const(owner.module.name, x))]
            elif default is not None and self.has_attr(st, v, name) is False:
                return [(st, default)]
            a = mk('attr', v, name, 0)
            if self.o.want_get:
                st = st.copy()
                self.emit(st, ('get', v, name, a), node)
            return [(st, a)]
        if default is not None:
            h = self.has_attr(st, v, name)
            if h is False:
                return [(st, default)]
        if isinstance(node, ast.Call) or cls in ('list', 'dict', 'set', 'pyfile', 'socket', 'sqlite', 'cursor', 'bytes', 'str'):
            return [(st, ('xm', v, name))]
        a = mk('attr', v, name, 0)
        if self.o.want_get:
            st = st.copy()
            self.emit(st, ('get', v, name, a), node)
        return [(st, a)]

    def e_Tuple(self, n, st, cx):
        return [(s, v if isinstance(v, Raise) else
                 (('tuple', tuple(v)) if depth(tuple(v)) < MAXDEPTH else ('deep',)))
                for s, v in self.evs([e.value if isinstance(e, ast.Starred) else e
                                      for e in n.elts], st, cx)]

    def new_container(self, n, st, cx, cls, content):
        st = st.copy()
        v = ('new', self.site(n, cx), cls, 0)
        self.fresh(st, v)
        st.heap[(v, '[]')] = content
        return st, v

    def e_List(self, n, st, cx):
        res = []
        for s, v in self.evs([e.value if isinstance(e, ast.Starred) else e
                              for e in n.elts], st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                star = any(isinstance(e, ast.Starred) for e in n.elts)
                cont = ('maybe', frozenset(
                    ('all', x) if isinstance(e, ast.Starred) else x
                    for e, x in zip(n.elts, v))) if star else ('exact', tuple(v))
                res.append(self.new_container(
                    n, s, cx, 'set' if isinstance(n, ast.Set) else 'list', cont))
        return res
    e_Set = e_List

    def e_Dict(self, n, st, cx):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.extend([k, v])
            else:
                nodes.append(v)
        res = []
        for s, v in self.evs(nodes, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                if None in n.keys:
                    cont = ('maybe', frozenset(('all', x) for x in v))
                else:
                    cont = ('exact', tuple(('kv', v[i], v[i + 1]) for i in range(0, len(v), 2)))
                res.append(self.new_container(n, s, cx, 'dict', cont))
        return res

    def e_Lambda(self, n, st, cx):
        f = self.p.local_func(n, cx.func) if cx.func else None
        return [(st, ('fn', f.qual, cx.frame) if f else ('deep',))]

    def e_IfExp(self, n, st, cx):
        res = []
        for s, r in self.branch(n.test, st, cx):
            if isinstance(r, Raise):
                res.append((s, r))
            else:
                res.extend(self.ev(n.body if r else n.orelse, s, cx))
        return res

    def e_BoolOp(self, n, st, cx):
        isand = isinstance(n.op, ast.And)
        res = []
        pend = [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in pend:
                if last:
                    res.extend(self.ev(x, s, cx))
                    continue
                if boolean(x):
                    for s2, r in self.branch(x, s, cx):
                        if isinstance(r, Raise):
                            res.append((s2, r))
                        elif r is isand:
                            nxt.append(s2)
                        else:
                            res.append((s2, FALSE if isand else TRUE))
                    continue
                for s2, v in self.ev(x, s, cx):
                    if isinstance(v, Raise):
                        res.append((s2, v))
                        continue
                    for s3, r in self.branch_value(s2, v, cx, x):
                        if isinstance(r, Raise):
                            res.append((s3, r))
                        elif r is isand:
                            nxt.append(s3)
                        else:
                            res.append((s3, v))
            pend = nxt
        return res

    def e_UnaryOp(self, n, st, cx):
        if isinstance(n.op, ast.Not):
            return [(s, r if isinstance(r, Raise) else (FALSE if r else TRUE))
                    for s, r in self.branch(n.operand, st, cx)]
        res = []
        for s, v in self.ev(n.operand, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
            elif v[0] == 'c' and isinstance(n.op, ast.USub) and isinstance(v[2], (int, float)):
                res.append((s, const(-v[2])))
            else:
                res.append((s, mk('op', type(n.op).__name__, (v,))))
        return res

    def e_Compare(self, n, st, cx):
        return [(s, r if isinstance(r, Raise) else (TRUE if r else FALSE))
                for s, r in self.branch(n, st, cx)]

    def binop(self, st, op, a, b, cx):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[2], b[2]
            try:
                if op == 'Add' and (cx.loop == 0 or isinstance(x, (str, bytes))) \
                        and type(x) == type(y) and (not isinstance(x, (str, bytes)) or len(x) + len(y) < 200):
                    return const(x + y)
                if op == 'Sub' and cx.loop == 0:
                    return const(x - y)
                if op == 'Mult' and isinstance(x, int) and isinstance(y, int) and cx.loop == 0:
                    return const(x * y)
                if op == 'Mult' and isinstance(x, bytes) and isinstance(y, int) and y < 64:
                    return const(x * y)
                if op == 'Pow' and isinstance(x, int) and isinstance(y, int) and 0 <= y <= 128:
                    return const(x ** y)
                if op == 'LShift' and isinstance(x, int) and 0 <= y <= 128:
                    return const(x << y)
            except Exception:
                pass
        return mk('op', op, (a, b))

    def e_BinOp(self, n, st, cx):
        op = type(n.op).__name__
        dunder = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
                  'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__'}.get(op)
        res = []
        for s, v in self.evs([n.left, n.right], st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            a, b = v
            cls = self.class_of(a)
            if cls in self.p.classes and dunder:
                r = self.p.lookup(cls, dunder)
                if r is not None and isinstance(r[1], Func):
                    res.extend(self.call_repo(r[1], a, [b], {}, s, n, cx, None))
                    continue
            if cls == 'list' or self.class_of(b) == 'list':
                ca, cb = s.heap.get((a, '[]')), s.heap.get((b, '[]'))
                if op == 'Add':
                    x = mk('op', 'Add', (a, b))
                    s2, nv = self.new_container(n, s, cx, 'list', ('maybe', frozenset([('all', a), ('all', b)])))
                    if ca and cb and ca[0] == 'exact' and cb[0] == 'exact' and len(ca[1]) + len(cb[1]) < 9:
                        s2.heap[(nv, '[]')] = ('exact', ca[1] + cb[1])
                    res.append((s2, nv))
                    continue
            res.append((s, self.binop(s, op, a, b, cx)))
        return res

    def e_Subscript(self, n, st, cx):
        if isinstance(n.slice, ast.Slice):
            parts = [x for x in (n.slice.lower, n.slice.upper, n.slice.step) if x is not None]
            res = []
            for s, v in self.evs([n.value] + parts, st, cx):
                if isinstance(v, Raise):
                    res.append((s, v))
                    continue
                vals = v[1:]
                it = iter(vals)
                lo = next(it) if n.slice.lower is not None else NONE
                hi = next(it) if n.slice.upper is not None else NONE
                stp = next(it) if n.slice.step is not None else NONE
                base = v[0]
                if base[0] == 'tuple' and all(x[0] == 'c' for x in (lo, hi, stp)):
                    res.append((s, ('tuple', base[1][lo[2]:hi[2]:stp[2]])))
                    continue
                if base[0] == 'c' and all(x[0] == 'c' for x in (lo, hi, stp)):
                    try:
                        res.append((s, const(base[2][lo[2]:hi[2]:stp[2]])))
                        continue
                    except Exception:
                        pass
                cls = self.class_of(base)
                if cls in self.p.classes:
                    r = self.p.lookup(cls, '__getitem__')
                    if r is not None and isinstance(r[1], Func):
                        res.extend(self.call_repo(r[1], base, [('slice', lo, hi, stp)], {}, s, n, cx, None))
                        continue
                res.append((s, mk('slice', base, lo, hi, stp)))
            return res
        res = []
        for s, v in self.evs([n.value, n.slice], st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            res.extend(self.getitem(s, v[0], v[1], n, cx))
        return res

    def e_Slice(self, n, st, cx):
        parts = [x for x in (n.lower, n.upper, n.step) if x is not None]
        res = []
        for s, v in self.evs(parts, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            it = iter(v)
            lo = next(it) if n.lower is not None else NONE
            hi = next(it) if n.upper is not None else NONE
            stp = next(it) if n.step is not None else NONE
            res.append((s, mk('slicer', lo, hi, stp)))
        return res

    def getitem(self, st, base, idx, node, cx):
        cls = self.class_of(base)
        if cls in self.p.classes:
            r = self.p.lookup(cls, '__getitem__')
            if r is not None:
                if isinstance(r[1], Func):
                    return self.call_repo(r[1], base, [idx], {}, st, node, cx, None)
        if idx[0] == 'c' and isinstance(idx[2], int):
            seq = None
            if base[0] == 'tuple':
                seq = base[1]
            else:
                c = st.heap.get((base, '[]'))
                if c is not None and c[0] == 'exact' and self.class_of(base) == 'list':
                    seq = c[1]
            if seq is not None and -len(seq) <= idx[2] < len(seq):
                return [(st, seq[idx[2]])]
            if base[0] == 'c' and isinstance(base[2], (bytes, str)):
                try:
                    return [(st, const(base[2][idx[2]]))]
                except Exception:
                    pass
        c = st.heap.get((base, '[]'))
        if c is not None:
            for e in c[1]:
                if e[0] == 'kv' and e[1] == idx and c[0] == 'exact':
                    return [(st, e[2])]
        ev = ('getitem', base, idx)
        res = []
        for e in self.o.raises(self, st, ev, node):
            res.append((st.copy(), Raise('exc', ('exc', e, ()))))
        res.append((st, mk('item', base, idx)))
        return res

    def e_JoinedStr(self, n, st, cx):
        res = []
        for s, v in self.evs([x.value for x in n.values if isinstance(x, ast.FormattedValue)], st, cx):
            res.append((s, v if isinstance(v, Raise) else mk('op', 'fstr', tuple(v))))
        return res

    def e_FormattedValue(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_Starred(self, n, st, cx):
        return self.ev(n.value, st, cx)

    def e_NamedExpr(self, n, st, cx):
        res = []
        for s, v in self.ev(n.value, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                for o in self.assign(n.target, v, s, cx):
                    res.append((o.st, v))
        return res

    def do_yield(self, st, v, node, cx):
        if cx.handler is not None:
            return cx.handler(st, v)
        st = st.copy()
        self.emit(st, ('yield', v), node)
        self.o.havoc_yield(self, st, v)
        return [(st, NONE)]

    def e_Yield(self, n, st, cx):
        res = []
        for s, v in (self.ev(n.value, st, cx) if n.value is not None else [(st, NONE)]):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                res.extend(self.do_yield(s, v, n, cx))
        return res

    def e_YieldFrom(self, n, st, cx):
        res = []
        for s, v in self.ev(n.value, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
                continue

            def body(st, elem):
                outs = []
                for s2, r in self.do_yield(st, elem, n, cx):
                    outs.append(Out('x', s2, r) if isinstance(r, Raise) else Out('n', s2))
                return outs
            for o in self.loop(s, v, body, n, cx):
                if o.kind == 'x':
                    res.append((o.st, o.val))
                else:
                    res.append((o.st, NONE))
        return res

    def e_GeneratorExp(self, n, st, cx):
        self.comp_nodes[id(n)] = n
        return [(st, ('comp', id(n), cx.frame, cx.module, cx.func.qual if cx.func else None))]

    def e_ListComp(self, n, st, cx):
        cls = 'set' if isinstance(n, ast.SetComp) else 'dict' if isinstance(n, ast.DictComp) else 'list'
        s, v = self.new_container(n, st, cx, cls, ('exact', ()))
        frame = self.frame_id('comp', id(n), cx.frame)
        ccx = Ctx(cx.func, frame, cx.frame, cx.module, cx.handler, cx.loop, cx.stack)
        lcx = ccx.inloop()

        def inner(st):
            nodes = [n.key, n.value] if cls == 'dict' else [n.elt]

            def f(st, vals):
                st = st.copy()
                if cls == 'dict':
                    self.content(st, v, '__setitem__', vals, lcx)
                else:
                    self.content(st, v, 'append', vals, lcx)
                self.emit(st, ('collect', v, vals[-1]), n)
                return [Out('n', st)]
            return self.lift(self.evs(nodes, st, lcx), f)
        res = []
        self.temps.append((v,))
        for o in self.comp_loop(n.generators, 0, s, ccx, inner):
            res.append((o.st, o.val if o.kind == 'x' else v))
        self.temps.pop()
        return res
    e_SetComp = e_ListComp
    e_DictComp = e_ListComp

    # ---- conditions
    def branch(self, n, st, cx):
        """[(state, True | False | Raise)]"""
        r = fold_test(n)
        if r is not None:
            return [(st, r)]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, r if isinstance(r, Raise) else not r)
                    for s, r in self.branch(n.operand, st, cx)]
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            res, pend = [], [st]
            for i, x in enumerate(n.values):
                nxt = []
                for s in pend:
                    for s2, r in self.branch(x, s, cx):
                        if isinstance(r, Raise):
                            res.append((s2, r))
                        elif r is isand:
                            nxt.append(s2)
                        else:
                            res.append((s2, r))
                pend = nxt
            return res + [(s, isand) for s in pend]
        if isinstance(n, ast.Compare):
            res = []
            for s, vals in self.evs([n.left] + n.comparators, st, cx):
                if isinstance(vals, Raise):
                    res.append((s, vals))
                    continue
                pend = [s]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for x in pend:
                        for s2, r in self.compare(x, op, vals[i], vals[i + 1], n, cx):
                            if isinstance(r, Raise):
                                res.append((s2, r))
                            elif r:
                                nxt.append(s2)
                            else:
                                res.append((s2, False))
                    pend = nxt
                res.extend((x, True) for x in pend)
            return res
        res = []
        for s, v in self.ev(n, st, cx):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                res.extend(self.branch_value(s, v, cx, n))
        return res

    def test_atom(self, st, atom, node, flip=False):
        res = []
        for pol in (True, False):
            s = self.assume(st, atom, pol)
            if s is not None:
                if self.decide(st, atom) is None:
                    s = s.copy() if s is st else s
                    self.emit(s, ('assume', atom, pol), node)
                res.append((s, pol is not flip))
        return res

    def strip_len(self, v):
        """the container whose length v is, or None"""
        if v[0] == 'call' and v[1] == 'builtins.len' and v[2]:
            return v[2][0]
        return None

    def compare(self, st, op, a, b, node, cx):
        k = type(op).__name__
        if k in ('Is', 'IsNot', 'Eq', 'NotEq'):
            flip = k in ('IsNot', 'NotEq')
            eq = k in ('Eq', 'NotEq')
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
            if b == NONE:
                atom = ('is', a, NONE)
            elif eq:
                # len(x) == 0
                c = self.strip_len(a)
                if c is not None and b == const(0):
                    return [(s, r if isinstance(r, Raise) else not r)
                            for s, r in self.branch_value(st, c, cx, node)] if not flip else \
                        self.branch_value(st, c, cx, node)
                if b[0] == 'c' and b[2] in ((), b'', '', []) and not isinstance(b[2], (int, bool)):
                    r = self.branch_value(st, a, cx, node)
                    return r if flip else [(s, x if isinstance(x, Raise) else not x) for s, x in r]
                cls = self.class_of(a)
                if cls in self.p.classes:
                    r = self.p.lookup(cls, '__eq__')
                    if r is not None and isinstance(r[1], Func) and not self.o.opaque(r[1].qual):
                        res = []
                        for s, v in self.call_repo(r[1], a, [b], {}, st, node, cx, None):
                            if isinstance(v, Raise):
                                res.append((s, v))
                            else:
                                for s2, r2 in self.branch_value(s, v, cx, node):
                                    res.append((s2, r2 if isinstance(r2, Raise) else r2 is not flip))
                        return res
                atom = ('==',) + tuple(sorted((a, b), key=repr))
            else:
                if a[0] == 'c' and b[0] == 'c' and a[1] == b[1]:
                    return [(st, (a[2] == b[2]) is not flip)]
                if b in (TRUE, FALSE) and False:
                    pass
                atom = ('is',) + tuple(sorted((a, b), key=repr))
            return self.test_atom(st, atom, node, flip)
        if k in ('In', 'NotIn'):
            flip = k == 'NotIn'
            cls = self.class_of(b)
            if cls in self.p.classes:
                r = self.p.lookup(cls, '__contains__')
                if r is not None and isinstance(r[1], Func) and not self.o.opaque(r[1].qual):
                    res = []
                    for s, v in self.call_repo(r[1], b, [a], {}, st, node, cx, None):
                        if isinstance(v, Raise):
                            res.append((s, v))
                        else:
                            for s2, r2 in self.branch_value(s, v, cx, node):
                                res.append((s2, r2 if isinstance(r2, Raise) else r2 is not flip))
                    return res
            exact = None
            if b[0] == 'tuple':
                exact = b[1]
            else:
                c = st.heap.get((b, '[]'))
                if c is not None and c[0] == 'exact':
                    exact = tuple(e[1] if e[0] == 'kv' else e for e in c[1])
            if exact is not None:
                if not exact:
                    return [(st, flip)]
                if len(exact) <= 6:
                    res, pend = [], [st]
                    for e in exact:
                        nxt = []
                        for s in pend:
                            for s2, r in self.compare(s, ast.Eq(), a, e, node, cx):
                                if isinstance(r, Raise):
                                    res.append((s2, r))
                                elif r:
                                    res.append((s2, not flip))
                                else:
                                    nxt.append(s2)
                        pend = nxt
                    return res + [(s, flip) for s in pend]
            if b[0] == 'c' and a[0] == 'c':
                try:
                    return [(st, (a[2] in b[2]) is not flip)]
                except Exception:
                    pass
            return self.test_atom(st, ('in', a, b), node, flip)
        if k in ('Lt', 'GtE', 'Gt', 'LtE'):
            if k in ('Gt', 'LtE'):
                a, b = b, a         # a > b: b < a;  a <= b: not b < a
            flip = k in ('GtE', 'LtE')
            # 0 < len(x); len(x) < 1
            c = self.strip_len(b)
            if c is not None and a == const(0):
                return [(s, r if isinstance(r, Raise) else r is not flip)
                        for s, r in self.branch_value(st, c, cx, node)]
            c = self.strip_len(a)
            if c is not None and b == const(1):
                return [(s, r if isinstance(r, Raise) else (not r) is not flip)
                        for s, r in self.branch_value(st, c, cx, node)]
            return self.test_atom(st, ('<', a, b), node, flip)
        return [(st, True), (st.copy(), False)]

    def branch_value(self, st, v, cx, node):
        if v[0] == 'bool_atom':
            return self.test_atom(st, v[1], node)
        cls = self.class_of(v)
        if v[0] == 'call' and v[1] == 'builtins.len' and v[2]:
            return self.branch_value(st, v[2][0], cx, node)
        if v[0] == 'call' and v[1] == 'builtins.bool' and v[2]:
            return self.branch_value(st, v[2][0], cx, node)
        if cls in self.p.classes:
            for name in ('__bool__', '__len__'):
                r = self.p.lookup(cls, name)
                if r is not None and isinstance(r[1], Func):
                    self.o.on(self, st, ('truthtest', v), node)
                    break
        return self.test_atom(st, ('truth', v), node)

    # ---- calls
    def e_Call(self, n, st, cx):
        self.stats['calls'].add((cx.func.qual if cx.func else '?', n.lineno, n.col_offset))
        res = []
        # super()
        if (isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args
                and cx.func is not None):
            f = cx.func
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None:
                me = f.node.args.args[0].arg if f.node.args.args else None
                sv = st.env.get((cx.frame, me))
                if sv is not None:
                    start = sv[1] if sv[0] == 'cls' else self.class_of(sv)
                    return [(st, ('super', sv, f.cls.qual, start))]
        if isinstance(n.func, ast.Attribute):
            fres = []
            for s, v in self.ev(n.func.value, st, cx):
                if isinstance(v, Raise):
                    fres.append((s, v))
                else:
                    fres.extend(self.getattr(s, v, n.func.attr, n, cx))
        else:
            fres = self.ev(n.func, st, cx)
        for s, fv in fres:
            if isinstance(fv, Raise):
                res.append((s, fv))
                continue
            self.temps.append((fv,))
            avs = self.evs([a.value if isinstance(a, ast.Starred) else a for a in n.args]
                           + [k.value for k in n.keywords], s, cx)
            self.temps.pop()
            for s2, av in avs:
                if isinstance(av, Raise):
                    res.append((s2, av))
                    continue
                args = []
                for a, v in zip(n.args, av):
                    if isinstance(a, ast.Starred):
                        c = s2.heap.get((v, '[]'))
                        if v[0] == 'tuple':
                            args.extend(v[1])
                        elif c is not None and c[0] == 'exact':
                            args.extend(c[1])
                        else:
                            args.append(('star', v))
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(n.keywords, av[len(n.args):]):
                    kwargs[k.arg or '**'] = v
                res.extend(self.call_value(s2, fv, args, kwargs, n, cx))
        return self.dedupe_vals(res)

    def dedupe_vals(self, res):
        if len(res) < 2:
            return res
        seen, out = set(), []
        for s, v in res:
            k = (s.key(), v.key() if isinstance(v, Raise) else v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        if len(out) > self.max_outs:
            outs = self.squeeze([Out('x' if isinstance(v, Raise) else 'r', s, v)
                                 for s, v in out], 'vals')
            out = [(o.st, o.val) for o in outs]
        if len(out) > self.max_states:
            raise Limit('too many states')
        return out

    def call_value(self, st, fv, args, kwargs, node, cx):
        k = fv[0]
        if k == 'fn':
            f = self.p.funcs[fv[1]]
            return self.call_repo(f, None, args, kwargs, st, node, cx, fv[2])
        if k == 'bm':
            f = self.p.funcs[fv[2]]
            return self.call_repo(f, fv[1], args, kwargs, st, node, cx, None)
        if k == 'xm':
            return self.call_method(st, fv[1], fv[2], args, kwargs, node, cx)
        if k == 'cls':
            return self.construct(st, fv[1], args, kwargs, node, cx)
        if k == 'classof':
            st = st.copy()
            v = ('new', self.site(node, cx), fv[2], 0)
            if fv[2] in self.p.classes:
                return self.construct(st, fv[2], args, kwargs, node, cx)
            self.fresh(st, v)
            return [(st, v)]
        if k == 'partial':
            return self.call_value(st, fv[1], list(fv[2]) + args, kwargs, node, cx)
        if k == 'ext':
            return self.call_ext(st, fv[1], args, kwargs, node, cx)
        if k == 'attr':
            cls = self.class_of(fv[1])
            # an attribute that holds a callable
            return self.opaque_call(st, '.' + fv[2], fv[1], args, kwargs, node, cx)
        if k == 'new' and fv[2] in self.p.classes:
            r = self.p.lookup(fv[2], '__call__')
            if r is not None and isinstance(r[1], Func):
                return self.call_repo(r[1], fv, args, kwargs, st, node, cx, None)
        return self.opaque_call(st, '()', fv, args, kwargs, node, cx)

    def construct(self, st, cls, args, kwargs, node, cx):
        m = self.o.model(self, st, cls, None, args, kwargs, node, cx)
        if m is not None:
            return m
        st = st.copy()
        v = ('new', self.site(node, cx), cls, 0)
        self.fresh(st, v)
        self.emit(st, ('new', cls, v, tuple(args)), node)
        if self.p.is_subclass(cls, 'builtins.BaseException'):
            return [(st, ('exc', cls, tuple(args)))]
        if self.o.opaque(cls + '.__init__'):
            return self.opaque_call(st, cls + '.__init__', v, args, kwargs, node, cx, result=v)
        r = self.p.lookup(cls, '__init__')
        if r is not None and isinstance(r[1], Func):
            res = []
            for s, x in self.call_repo(r[1], v, args, kwargs, st, node, cx, None):
                res.append((s, x if isinstance(x, Raise) else v))
            return res
        return [(st, v)]

    def keeps_frame(self, f):
        r = getattr(f, '_keeps', None)
        if r is None:
            r = False
            if not isinstance(f.node, ast.Lambda):
                for n in ast.walk(f.node):
                    if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                        r = True
                        break
            f._keeps = r
        return r

    def call_repo(self, f, selfv, args, kwargs, st, node, cx, closure):
        """Call durus function f: inline it, or keep it as an event."""
        args = list(args)
        # an unbound method called with its instance
        recv = selfv
        if selfv is None and f.cls is not None and args and 'staticmethod' not in f.deco:
            recv = args[0]
        m = self.o.model(self, st, f.qual, selfv, args, kwargs, node, cx)
        if m is not None:
            return m
        if self.o.opaque(f.qual):
            a = args[1:] if (selfv is None and recv is not None) else args
            return self.opaque_call(st, f.qual, recv, a, kwargs, node, cx)
        depth_q = sum(1 for q in cx.stack if q == f.qual)
        if depth_q >= 2 or len(cx.stack) > 40:
            a = args[1:] if (selfv is None and recv is not None) else args
            return self.opaque_call(st, f.qual, recv, a, kwargs, node, cx)
        frame = self.frame_id(f.qual, self.site(node, cx))
        bound = self.bind(f, ([selfv] if selfv is not None else []) + args, kwargs, st, cx, frame)
        if f.is_gen:
            g = ('gen', f.qual, tuple(sorted(bound.items())), closure)
            if any(d.endswith('contextmanager') for d in f.deco):
                return [(st, g)]
            return [(st, g if depth(g) < 3 * MAXDEPTH else ('deep',))]
        st = st.copy()
        for k in [k for k in st.env if k[0] == frame]:
            del st.env[k]
        for n, v in bound.items():
            st.env[(frame, n)] = v
        if closure is not None:
            st.env[(frame, '$parent')] = closure
        self.stats['functions'].add(f.qual)
        fcx = Ctx(f, frame, closure, f.module.name, None, cx.loop, cx.stack + (f.qual,))
        self.emit(st, ('enter', f.qual, recv, tuple(args)), node)
        if isinstance(f.node, ast.Lambda):
            outs = self.lift(self.ev(f.node.body, st, fcx), lambda s, v: [Out('r', s, v)])
        else:
            outs = self.block(f.node.body, st, fcx)
        keep = self.keeps_frame(f)
        res = []
        for o in outs:
            s = o.st.copy()
            if not keep:
                for k in [k for k in s.env if k[0] == frame]:
                    del s.env[k]
            if o.kind == 'x':
                self.emit(s, ('leave', f.qual, None), node)
                res.append((s, o.val))
            else:
                v = o.val if o.kind == 'r' else NONE
                self.emit(s, ('leave', f.qual, v), node)
                res.append((s, v))
        return self.dedupe_vals(res)

    def bind(self, f, args, kwargs, st, cx, frame):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        i = 0
        star = None
        for v in args:
            if v[0] == 'star':
                star = v[1]
                break
            if i < len(names):
                bound[names[i]] = v
                i += 1
            else:
                break
        if a.vararg:
            rest = args[i:]
            if star is not None or any(v[0] == 'star' for v in rest):
                bound[a.vararg.arg] = mk('op', 'starargs', tuple(rest))
            else:
                bound[a.vararg.arg] = ('tuple', tuple(rest))
        elif star is not None:
            for n in names[i:]:
                if n not in kwargs:
                    bound[n] = mk('item', star, const(names.index(n)))
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            bound[a.kwarg.arg] = mk('op', 'kwargs', tuple(sorted(extra.items()))) if extra else \
                ('sym', ('kwargs', f.qual), 'dict')
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in bound:
                v = st.env.get((('default', f.qual), n))
                if v is None:
                    if isinstance(d, ast.Constant):
                        v = const(d.value)
                    elif f.parent is None:
                        v = self.module_const(f.module.name, d)
                    else:
                        v = ('deep',)
                bound[n] = v
        for n in names:
            if n not in bound:
                bound[n] = ('sym', ('arg', f.qual, n), self.p.PARAM_TYPES.get(n))
        return bound

    def opaque_call(self, st, name, recv, args, kwargs, node, cx, result=None):
        st = st.copy()
        ev = ('call', name, recv, tuple(args), tuple(sorted(kwargs.items())))
        self.emit(st, ev, node)
        res = []
        for e in self.o.raises(self, st, ev, node):
            x = st.copy()
            exc = e if isinstance(e, tuple) else ('exc', e, ())
            self.emit(x, ('failed', name, recv, tuple(args), exc), node)
            res.append((x, Raise('exc', exc)))
        if result is None:
            full = ((recv,) if recv is not None else ()) + tuple(args) + tuple(
                v for k, v in sorted(kwargs.items()))
            if name == 'itertools.islice':
                full = full[:1]     # what is sliced, not where
            pure = name in PURE or (name[0] == '.' and name[1:] in PURE_METHODS)
            result = mk('call', name, full, 0 if pure else self.site(node, cx))
            if not pure and result[0] == 'call':
                self.fresh(st, result)
        self.emit(st, ('called', name, recv, tuple(args), tuple(sorted(kwargs.items())), result), node)
        res.append((st, result))
        return res

    def call_method(self, st, recv, name, args, kwargs, node, cx):
        m = self.o.model(self, st, '.' + name, recv, args, kwargs, node, cx)
        if m is not None:
            return m
        cls = self.class_of(recv)
        if recv[0] == 'c' and name == 'encode' and isinstance(recv[2], str):
            try:
                return [(st, const(recv[2].encode(*[a[2] for a in args])))]
            except Exception:
                pass
        if recv[0] == 'gen' and name in ('__next__', 'next'):
            return self.next_of(st, recv, None, node, cx)
        if recv[0] == 'gen' and name == 'close':
            return [(st, NONE)]
        if name == '__new__' and recv[0] in ('sym', 'classof', 'item', 'attr', 'elem', 'call'):
            st = st.copy()
            v = ('new', self.site(node, cx), 'durus.persistent.PersistentObject', 0)
            self.fresh(st, v)
            self.emit(st, ('new', recv, v, tuple(args)), node)
            return [(st, v)]
        if name in MUTATORS and not (cls in self.p.classes):
            full = (recv,) + tuple(args)
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                result = mk('call', '.' + name, full, self.site(node, cx))
                c = st.heap.get((recv, '[]'))
                if name in ('pop', 'popleft') and c is not None and c[0] == 'exact' and len(c[1]) == 1:
                    result = c[1][0]
                    if result[0] == 'kv':
                        result = result[2]
                elif result[0] == 'call':
                    st = st.copy()
                    self.fresh(st, result)
            else:
                result = NONE
            # arguments that are generators are consumed
            pre = [(st, None)]
            if args and args[-1][0] in ('gen', 'comp') and name in (
                    'extend', 'update', 'difference_update', 'intersection_update', 'extendleft'):
                pre = self.consume(st, args[-1], node, cx)
            res = []
            for s, v in pre:
                if isinstance(v, Raise):
                    res.append((s, v))
                    continue
                a2 = args if v is None else [v]
                ks = ['**'] if '**' in kwargs else []
                out = self.mutate(s.copy(), recv, name, a2 + [kwargs[k] for k in ks], node, cx, result)
                if name in ('pop', 'popitem', 'popleft') and len(args) < 2:
                    for s2, v2 in out:
                        if not isinstance(v2, Raise):
                            self.emit(s2, ('drain', recv, v2), node)
                res.extend(out)
            return res
        if name in ('join', 'union', 'difference', 'intersection', 'isdisjoint', 'issubset',
                    'issuperset') and args and args[0][0] in ('gen', 'comp'):
            res = []
            for s, v in self.consume(st, args[0], node, cx):
                if isinstance(v, Raise):
                    res.append((s, v))
                else:
                    res.extend(self.opaque_call(s, '.' + name, recv, [v] + args[1:], kwargs, node, cx))
            return res
        if name == 'copy' and cls in ('list', 'dict', 'set'):
            return self.opaque_call(st, '.copy', recv, args, kwargs, node, cx,
                                    result=mk('call', 'builtins.' + cls, (recv,), self.site(node, cx)))
        if name == 'get' and cls in ('dict',) and args:
            c = st.heap.get((recv, '[]'))
            return self.opaque_call(st, '.get', recv, args, kwargs, node, cx)
        return self.opaque_call(st, '.' + name, recv, args, kwargs, node, cx)

    def consume(self, st, it, node, cx, cls='list'):
        """exhaust an iterable into a new list: [(st, listvalue|Raise)]"""
        s0, lst = self.new_container(node, st, cx, cls, ('exact', ()))
        lcx = cx.inloop()

        def body(st, elem):
            st = st.copy()
            self.content(st, lst, 'append', [elem], lcx)
            self.emit(st, ('collect', lst, elem), node)
            return [Out('n', st)]
        self.temps.append((lst,))
        res = [(o.st, o.val if o.kind == 'x' else lst)
               for o in self.loop(s0, it, body, node, cx)]
        self.temps.pop()
        return res

    def next_of(self, st, g, default, node, cx):
        res = []

        def handler(st, v):
            return [(st, Raise('abandon', ('next', Out('next', st, v))))]
        for o in self.run_gen(st, g, handler, node, cx):
            if o.kind == 'x' and o.val.kind == 'abandon':
                res.append((o.st, o.val.val[1].val))
            elif o.kind == 'x':
                res.append((o.st, o.val))
            elif default is not None:
                res.append((o.st, default))
            else:
                res.append((o.st, Raise('exc', ('exc', 'builtins.StopIteration', ()))))
        return res

    def call_ext(self, st, name, args, kwargs, node, cx):
        m = self.o.model(self, st, name, None, args, kwargs, node, cx)
        if m is not None:
            return m
        b = name[9:] if name.startswith('builtins.') else None
        if b in ('isinstance', 'issubclass') and len(args) == 2:
            return self.ev_isinstance(st, args[0], args[1], node, cx)
        if b == 'getattr' and len(args) >= 2 and args[1][0] == 'c' and isinstance(args[1][2], str):
            return self.getattr(st, args[0], args[1][2], node, cx,
                                default=args[2] if len(args) > 2 else None)
        if b == 'setattr' and len(args) == 3 and args[1][0] == 'c':
            return self.setattr(st, args[0], args[1][2], args[2], node, cx)
        if name in ('builtins.object.__setattr__',) and len(args) == 3 and args[1][0] == 'c':
            st = st.copy()
            self.emit(st, ('rawset', args[0], args[1][2], args[2], st.heap.get((args[0], args[1][2]))), node)
            st.heap[(args[0], args[1][2])] = args[2]
            return [(st, NONE)]
        if name == 'builtins.object.__getattribute__' and len(args) == 2 and args[1][0] == 'c':
            return self.getattr(st, args[0], args[1][2], node, cx)
        if name == 'builtins.object.__new__' and args:
            st = st.copy()
            cls = args[0][1] if args[0][0] == 'cls' else (cx.func.cls.qual if cx.func and cx.func.cls else None)
            v = ('new', self.site(node, cx), cls, 0)
            self.fresh(st, v)
            return [(st, v)]
        if b == 'hasattr' and len(args) == 2 and args[1][0] == 'c':
            return [(s, TRUE if r else FALSE) for s, r in
                    self.test_atom(st, ('hasattr', args[0], args[1][2]), node)]
        if b == 'next' and args:
            g = args[0]
            if g[0] == 'call' and g[1] == 'builtins.iter' and g[2] and g[2][0][0] == 'gen':
                g = g[2][0]
            if g[0] == 'gen':
                return self.next_of(st, g, args[1] if len(args) > 1 else None, node, cx)
        if b == 'iter' and len(args) == 1 and args[0][0] in ('gen', 'comp'):
            return [(st, args[0])]
        if b in ('list', 'set', 'tuple', 'sorted', 'dict', 'frozenset') or name in ('collections.deque',):
            cls = CONTAINER_CTORS[name]
            if not args:
                return [self.new_container(node, st, cx, cls, ('exact', ()))]
            if args[0][0] in ('gen', 'comp'):
                return self.consume(st, args[0], node, cx, cls=cls)
            c = st.heap.get((args[0], '[]'))
            if c is not None and c[0] == 'exact' and args[0][0] == 'new' and b != 'sorted' and len(args) == 1:
                return [self.new_container(node, st, cx, cls, c)]
            acls = self.class_of(args[0])
            if acls in self.p.classes:
                r = self.p.lookup(acls, '__iter__')
                if r is not None and isinstance(r[1], Func) and r[1].is_gen:
                    return self.consume(st, args[0], node, cx, cls=cls)
            return self.opaque_call(st, name, None, args, kwargs, node, cx)
        if b in ('enumerate', 'zip', 'reversed', 'map', 'filter', 'iter', 'range', 'xrange'):
            return [(st, mk('call', name if b != 'xrange' else 'builtins.range', tuple(args), 0))]
        if b in ('any', 'all', 'sum', 'max', 'min') and len(args) == 1 and args[0][0] in ('gen', 'comp'):
            return self.any_all(st, b, args[0], node, cx)
        if b == 'len' and len(args) == 1:
            cls = self.class_of(args[0])
            if cls in self.p.classes:
                r = self.p.lookup(cls, '__len__')
                if r is not None and isinstance(r[1], Func):
                    return self.call_repo(r[1], args[0], [], {}, st, node, cx, None)
            if args[0][0] == 'tuple':
                return [(st, const(len(args[0][1])))]
            if args[0][0] == 'c' and isinstance(args[0][2], (str, bytes)):
                return [(st, const(len(args[0][2])))]
            return [(st, mk('call', 'builtins.len', (args[0],), 0))]
        if b == 'super' and args:
            sv = args[1] if len(args) > 1 else args[0]
            if args[0][0] == 'cls':
                return [(st, ('super', sv, args[0][1], self.class_of(sv)))]
        if b == 'type' and len(args) == 1:
            cls = self.class_of(args[0])
            if args[0][0] == 'new' and cls in self.p.classes:
                return [(st, ('cls', cls))]
            return [(st, ('classof', args[0], cls))]
        if name == 'sys.exc_info':
            e = self.current_exc(st, cx)
            return [(st, ('tuple', (('classof', e, e[1]), e, ('sym', 'traceback', None))))]
        if name in ('functools.partial', 'types.MethodType') and args:
            return [(st, ('partial', args[0], tuple(args[1:2] if name[0] == 't' else args[1:])))]
        if b and b.count('.') == 1 and args:
            ty, meth = b.split('.')
            if ty in ('list', 'dict', 'set', 'bytearray') and (
                    meth in MUTATORS or hasattr(getattr(builtins, ty), meth)):
                return self.call_method(st, args[0], meth, args[1:], kwargs, node, cx)
        if name in ('bisect.insort', 'bisect.insort_left', 'bisect.insort_right') and len(args) >= 2:
            return self.mutate(st.copy(), args[0], 'insert', [NONE, args[1]], node, cx, NONE)
        if name in ('operator.setitem', 'operator.delitem') and args:
            return self.setitem(st, args[0], '__%s__' % name[9:], args[1:], node, cx)
        if name in ('operator.iadd', 'operator.ior', 'operator.iand', 'operator.isub',
                    'operator.ixor', 'operator.imul', 'operator.iconcat') and len(args) == 2:
            return self.mutate(st.copy(), args[0], '__%s__' % name[9:].replace('iconcat', 'iadd'),
                               args[1:], node, cx, args[0])
        if name in ('heapq.heapify', 'random.shuffle') and args:
            return self.mutate(st.copy(), args[0], 'sort', [], node, cx, NONE)
        if name == 'heapq.heappush' and len(args) == 2:
            return self.mutate(st.copy(), args[0], 'append', [args[1]], node, cx, NONE)
        if name == 'heapq.heappop' and args:
            st = st.copy()
            r = mk('call', 'heapq.heappop', (args[0],), self.site(node, cx))
            if r[0] == 'call':
                self.fresh(st, r)
            out = self.mutate(st, args[0], 'pop', [], node, cx, r)
            for s2, v2 in out:
                if not isinstance(v2, Raise):
                    self.emit(s2, ('drain', args[0], v2), node)
            return out
        if name == 'struct.pack' and len(args) == 2 and all(a[0] == 'c' for a in args):
            import struct
            try:
                return [(st, const(struct.pack(*[a[2] for a in args])))]
            except Exception:
                pass
        if b in ('bytes',) and len(args) == 1 and args[0][0] == 'c':
            try:
                return [(st, const(bytes(args[0][2])))] if not isinstance(args[0][2], int) else \
                    self.opaque_call(st, name, None, args, kwargs, node, cx)
            except Exception:
                pass
        if ext_class(name) is not None and issubclass(ext_class(name), BaseException):
            return [(st, ('exc', name, tuple(args)))]
        return self.opaque_call(st, name, None, args, kwargs, node, cx)

    def any_all(self, st, b, g, node, cx):
        if b not in ('any', 'all'):
            res = []
            for s, v in self.consume(st, g, node, cx):
                res.append((s, v if isinstance(v, Raise) else mk('call', 'builtins.' + b, (v,), 0)))
            return res
        stop = b == 'any'

        def body(st, elem):
            outs = []
            for s, r in self.branch_value(st, elem, cx, node):
                if isinstance(r, Raise):
                    outs.append(Out('x', s, r))
                elif r is stop:
                    outs.append(Out('b', s))
                else:
                    outs.append(Out('n', s))
            return outs
        res = []
        for o in self.loop(st, g, body, node, cx):
            if o.kind == 'x':
                res.append((o.st, o.val))
            elif o.kind == 'b':
                res.append((o.st, TRUE if stop else FALSE))
            else:
                res.append((o.st, FALSE if stop else TRUE))
        return res

    def ev_isinstance(self, st, v, t, node, cx):
        types = []

        def flat(t):
            if t[0] == 'tuple':
                for x in t[1]:
                    flat(x)
            elif t[0] in ('cls', 'ext'):
                types.append(t[1])
            else:
                c = st.heap.get((t, '[]'))
                types.append(t)
        flat(t)
        res, pend = [], [st]
        for ty in types:
            nxt = []
            for s in pend:
                for s2, r in self.test_atom(s, ('isinst', v, ty), node):
                    if r:
                        res.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            pend = nxt
        return res + [(s, FALSE) for s in pend]

    # ---- entry
    def run(self, qual, cls=None, args=None, setup=None, selfv=None):
        """Analyse a function (as a method of class cls).  Returns outcomes."""
        f = self.p.need_func(qual)
        self.entry_name = qual if cls is None or f.cls is None or f.cls.qual == cls \
            else '%s (as %s)' % (qual, cls)
        st = State()
        self.o.init(self, st)
        bound = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = dict(args or {})
        if f.cls is not None and 'staticmethod' not in f.deco and names:
            me = names.pop(0)
            if selfv is None:
                selfv = ('cls', cls or f.cls.qual) if 'classmethod' in f.deco else \
                    ('sym', 'self', cls or f.cls.qual)
            bound[me] = selfv
        for n in names + [x.arg for x in a.kwonlyargs]:
            bound[n] = args.get(n) or ('sym', n, self.p.PARAM_TYPES.get(n))
        if a.vararg:
            bound[a.vararg.arg] = args.get(a.vararg.arg) or ('sym', a.vararg.arg, 'tuple')
        if a.kwarg:
            bound[a.kwarg.arg] = args.get(a.kwarg.arg) or ('sym', a.kwarg.arg, 'dict')
        frame = self.frame_id('entry', qual)
        for n, v in bound.items():
            st.env[(frame, n)] = v
        if setup:
            setup(self, st, selfv)
        cx = Ctx(f, frame, None, f.module.name, None, 0, (f.qual,))
        self.stats['functions'].add(f.qual)
        self.pos.append(cx)
        try:
            outs = self.block(f.node.body, st, cx)
        finally:
            self.pos.pop()
        self.stats['paths'] += len(outs)
        return outs

    def run_value(self, fv, st, args=(), cx=None):
        """Continue with a call of (or iteration over) a value."""
        cx = cx or Ctx(None, 0, None, 'durus', None, 0, ())
        node = ast.Pass(lineno=0, col_offset=0)
        if fv[0] == 'gen':
            f = self.p.funcs[fv[1]]

            def handler(st, v):
                st = st.copy()
                self.emit(st, ('yield', v), f.node)
                self.o.havoc_yield(self, st, v)
                return [(st, NONE)]
            outs = self.run_gen(st, fv, handler, node, cx)
        else:
            outs = [Out('x', s, v) if isinstance(v, Raise) else Out('r', s, v)
                    for s, v in self.call_value(st, fv, list(args), {}, node, cx)]
        self.stats['paths'] += len(outs)
        return outs
