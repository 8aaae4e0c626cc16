"""Abstract interpretation of the search and traversal methods of BTree nodes and of BTree.
The position of a key among the items of a node is symbolic, so is their number; for each
order of the two, with the key there or not, in a leaf or an inner node, a loop is
summarised as a run over the places that items and subtrees have in the order of the node,
and what the method yields is compared with the run that belongs to it: each item once, in
order, none left out.  On a BTree each key given divides the items in those below it, the
one at it and those above it; for every way the keys are ordered, the method is followed
for each class of items, and the classes that it yields, its result or its KeyError are
compared with those of an ordered map."""
TECHNIQUE = 'abstract interpretation over symbolic sequences'

import ast
from .. import btreesem as bt
from ..btreesem import num, sym, add, sub, is_num, ZERO, ONE
from ..model import Func
from .c27 import BNODE, BTREE

A, B = sym('a'), sym('b')


class GiveUp(Exception):
    pass


class Unknown(GiveUp):
    """a condition that is not decided"""


class Wrong(Exception):
    def __init__(self, msg, line=None):
        Exception.__init__(self, msg)
        self.msg, self.line = msg, line


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Raised(Exception):
    def __init__(self, name):
        self.name = name


COUNT = ('attr', ('root',), '_count')
NONE, TRUE, FALSE = ('const', None), ('const', True), ('const', False)


def const(x):
    return ('const', x)


class Interp:
    """one scenario: of a node (leaf, p, n, match) or of a tree (the order of the keys and
    which classes of items there are)"""
    def __init__(self, program, cls, **kw):
        self.p, self.cls = program, cls
        self.leaf = self.n = self.pos = self.match = None
        self.classes, self.ranks = (), {}
        for k, v in kw.items():
            setattr(self, k, v)
        self.bound = []         # (symbol, least, greatest) of the loops around
        self.out = None
        self.stack = []
        self.funcs = set()
        self.added = []
        self.fresh = 0
        self.line = None

    left = None         # the variables of a loop that was left by break
    odd = False         # values are None

    # -- numbers
    def ends(self, e):
        """the values of an expression at the ends of the loops around"""
        todo = [e]
        for s, lo, hi in reversed(self.bound):
            c = [dict(x[2]).get(s, 0) for x in todo]
            new = []
            for x, k in zip(todo, c):
                if k:
                    x = ('L', x[1], tuple(y for y in x[2] if y[0] != s))
                    new += [add(x, bt.mul(lo, k)), add(x, bt.mul(hi, k))]
                else:
                    new.append(x)
            todo = new
        return todo

    def least(self, e):
        """is the expression known to be 0 or more?"""
        return all(x[1] >= 0 and all(c >= 0 for s, c in x[2]) for x in self.ends(e))

    def sign(self, e):
        if all(x == ZERO for x in self.ends(e)):
            return 0
        if self.least(sub(e, ONE)):
            return 1
        if self.least(sub(bt.mul(e, -1), ONE)):
            return -1
        return None

    def holds(self, op, a, b):
        d = sub(a, b)
        s = self.sign(d)
        if s is None:
            up, down = self.least(d), self.least(bt.mul(d, -1))
            if op == 'GtE' and up or op == 'LtE' and down:
                return True
            if op == 'Lt' and up or op == 'Gt' and down:
                return False
            raise Unknown()
        return {'Lt': s < 0, 'LtE': s <= 0, 'Gt': s > 0, 'GtE': s >= 0, 'Eq': s == 0,
                'NotEq': s != 0}[op]

    # -- keys
    def rank(self, v):
        """a key as a number that can be compared with the other keys"""
        if v[0] == 'key':
            return ('rank', 2 * self.ranks[v[1]] + 1, True)
        if v[0] == 'k' and v[1][0] == 'C':
            return ('rank', v[1][1], v[1][1] % 2 == 1)
        return None

    def versus(self, v, w):
        """-1, 0, 1: how two keys compare"""
        for x, y, k in ((v, w, 1), (w, v, -1)):
            if x[0] == 'k' and x[1][0] == 'I' and y[0] == 'key':
                s = self.sign(sub(x[1][1], self.pos))
                if s is None:
                    if self.least(sub(x[1][1], self.pos)) and not self.match:
                        s = 1
                    else:
                        raise Unknown()
                elif s == 0:
                    s = 0 if self.match else 1
                return s * k
        a, b = self.rank(v), self.rank(w)
        if a is None or b is None:
            raise GiveUp('a comparison of keys')
        if a[1] == b[1] and not a[2]:
            raise GiveUp('a comparison of keys')
        return (a[1] > b[1]) - (a[1] < b[1])

    # -- functions
    def find(self, cls, name):
        r = self.p.lookup(cls, name)
        while r is not None and isinstance(r[1], ast.Name):
            r = self.p.lookup(cls, r[1].id)
        return r[1] if r is not None and isinstance(r[1], Func) else None

    def call_function(self, f, args, kwargs=()):
        if any(q == f.qual for q in self.stack) or len(self.stack) > 12:
            raise GiveUp('recursion')
        self.funcs.add(f.qual)
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise GiveUp('arguments')
        names = [x.arg for x in a.args]
        env = dict(zip(names, args))
        if len(args) > len(names):
            raise GiveUp('arguments')
        for n, d in list(zip(reversed(names), reversed(a.defaults))) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                env[n] = self.expr(d, {})
        env.update(kwargs)
        out, self.out = self.out, []
        bound = self.bound
        self.stack.append(f.qual)
        try:
            try:
                self.block(f.node.body, env)
                v = NONE
            except Return as r:
                v = r.v
            except (Break, Continue):
                raise GiveUp('break')
            made = self.out
        finally:
            self.stack.pop()
            self.out, self.bound = out, bound
        return ('seq', tuple(made)) if f.is_gen else v

    # -- statements
    def block(self, body, env):
        for s in body:
            self.line = s.lineno
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise GiveUp(type(s).__name__)
            m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value, env)

    def s_Return(self, s, env):
        raise Return(self.expr(s.value, env) if s.value is not None else NONE)

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_Raise(self, s, env):
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if not isinstance(e, ast.Name):
            raise GiveUp('raise')
        raise Raised(e.id)

    def s_Assert(self, s, env):
        try:
            ok = self.truth(self.expr(s.test, env))
        except Unknown:
            return
        if not ok:
            raise Raised('AssertionError')

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.expr(s.test, env)) else s.orelse, env)

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        if not isinstance(s.target, ast.Name):
            raise GiveUp('assignment')
        v = self.binop(type(s.op).__name__, self.expr(
            ast.copy_location(ast.Name(s.target.id, ast.Load()), s), env), self.expr(s.value, env))
        self.assign(s.target, v, env)

    def s_Try(self, s, env):
        if s.finalbody:
            raise GiveUp('finally')
        try:
            self.block(s.body, env)
        except Raised as e:
            for h in s.handlers:
                names = [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                         if isinstance(x, ast.Name)] if h.type is not None else [e.name]
                if e.name in names or 'Exception' in names or 'LookupError' in names and e.name in (
                        'KeyError', 'IndexError'):
                    self.block(h.body, env)
                    return
            raise
        else:
            self.block(s.orelse, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.parts(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript) and self.expr(t.value, env) == ('tree',):
            self.method(('tree',), '__setitem__', [self.expr(t.slice, env), v], {})
        else:
            raise GiveUp('assignment')

    def parts(self, v, n):
        if v[0] == 'tuple' and len(v[1]) == n:
            return v[1]
        if v[0] in ('I', 'C', 'min', 'max', 'found') and n == 2:
            return (('k', v), ('v', v))
        raise GiveUp('unpacking')

    def s_For(self, s, env):
        seq = self.sequence(self.expr(s.iter, env))
        assigned = {x.id for b in s.body for x in ast.walk(b)
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for t in seq:
            if not self.over(t, lambda v: self.turn(s, v, env, assigned)):
                break
        else:
            self.left = None
        names = assigned | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        left, self.left = self.left, None
        for n in names:
            if left is not None and n in left:
                env[n] = left[n]
            elif n not in env or left is None and n not in assigned:
                env[n] = ('unknown',)
        if left is None:
            self.block(s.orelse, env)

    def turn(self, s, v, env, assigned):
        """one turn of a loop: (does it go on, what it yields)"""
        e = dict(env)
        out, self.out = self.out, []
        go = True
        try:
            self.assign(s.target, v, e)
            try:
                self.block(s.body, e)
            except Continue:
                pass
            except Break:
                go = False
                self.left = dict(e)
            made = self.out
        finally:
            self.out = out
        if go and any(n in env and e.get(n) != env[n] for n in assigned):
            raise GiveUp('a variable of a loop')
        return go, made

    def over(self, t, turn):
        """run a loop over one part of a sequence; does it go on after that?"""
        if t[0] == 'one':
            go, made = turn(t[1])
            self.out.extend(made)
            return go
        if t[0] == 'cls':
            go, made = turn(t[1])
            for m in made:
                if m[0] != 'one' or self.item_of(m[1]) != self.item_of(t[1]):
                    raise Wrong('something else than the item is yielded', self.line)
            if len(made) > 1:
                raise Wrong('an item is yielded more than once', self.line)
            for m in made:
                self.out.append(('cls', m[1], t[2]))
            return go
        if t[0] in ('whole', 'part', 'run'):
            go, made = turn(('each', t))
            if not go:
                raise GiveUp('break')
            if made and made != [('one', ('each', t))]:
                if len(made) == 1:
                    raise Wrong('something else than the item is yielded', self.line)
                if all(m == ('one', ('each', t)) for m in made):
                    raise Wrong('an item is yielded more than once', self.line)
                raise GiveUp('a loop over ' + t[0])
            if made:
                self.out.append(t)
            return True
        lo, hi, d = self.extent(t)
        return self.span(t, lo, hi, d, turn)

    def item_of(self, v):
        return v[1] if v[0] in ('k', 'v') else v

    def span(self, t, lo, hi, d, turn, tries=0):
        if self.sign(sub(hi, lo)) == 0 or self.least(sub(lo, hi)):
            return True
        if not self.least(sub(hi, lo)):
            raise Unknown()
        self.fresh += 1
        k = 'k%d' % self.fresh
        self.bound = self.bound + [(k, lo, sub(hi, ONE))]
        try:
            go, made = turn(self.element(t, sym(k)))
            runs = self.merge([self.run(m) for m in made], d)
        except Return as r:
            r.v = self.at(r.v, k, lo if d > 0 else sub(hi, ONE))
            raise
        except Unknown:
            if tries > 3:
                raise
            self.bound = self.bound[:-1]
            cuts = [lo]
            for c in (self.pos, self.pos and add(self.pos, ONE), sub(hi, ONE)):
                if c is not None and self.least(sub(c, cuts[-1])) and self.least(sub(hi, c)):
                    cuts.append(c)
            cuts.append(hi)
            spans = [(x, y) for x, y in zip(cuts, cuts[1:]) if not (x == lo and y == hi)
                     and self.sign(sub(y, x)) != 0]
            if not spans:
                raise
            for x, y in spans if d > 0 else reversed(spans):
                if not self.span(t, x, y, d, turn, tries + 1):
                    return False
            return True
        finally:
            self.bound = [b for b in self.bound if b[0] != k]
        if not go:
            first = lo if d > 0 else sub(hi, ONE)
            for r in runs:
                self.out.append(self.at(r, k, first))
            self.left = {n: self.at(v, k, first) for n, v in self.left.items()}
            return False
        if runs:
            self.out.append(self.whole(runs, k, lo, hi, d))
        return True

    def at(self, v, k, x):
        """a value for a value of the loop's variable"""
        if is_num(v):
            c = dict(v[2]).get(k, 0)
            return add(('L', v[1], tuple(y for y in v[2] if y[0] != k)), bt.mul(x, c)) if c else v
        if isinstance(v, tuple):
            return tuple(self.at(y, k, x) for y in v)
        return v

    def whole(self, runs, k, lo, hi, d):
        """the run that the turns of a loop make together"""
        if len(runs) != 1:
            raise Wrong('items are not visited in order', self.line)
        tag, a, b, e, kind = runs[0]
        if self.sign(sub(sub(hi, lo), ONE)) == 0:
            return self.at(runs[0], k, lo)
        if kind != 'all':
            raise Wrong('a part of a subtree is visited more than once', self.line)
        if b != self.at(a, k, add(sym(k), ONE)):
            raise Wrong('items are left out or visited more than once', self.line)
        if e not in (None, d):
            raise Wrong('items are not visited in order', self.line)
        return ('run', self.at(a, k, lo), self.at(a, k, hi), d, 'all')

    # -- places in the order of the node
    def run(self, t):
        if t[0] == 'run':
            return t
        if t[0] == 'one' and t[1][0] == 'I':
            e = t[1][1]
            self.inside(e, self.n)
            e = e if self.leaf else add(bt.mul(e, 2), ONE)
            return ('run', e, add(e, ONE), None, 'all')
        if t[0] == 'items':
            if self.leaf:
                return ('run', t[1], t[2], t[3], 'all')
            if sub(t[2], t[1]) == ONE:
                e = add(bt.mul(t[1], 2), ONE)
                return ('run', e, add(e, ONE), None, 'all')
            if self.least(sub(t[1], t[2])):
                return ('run', ZERO, ZERO, None, 'all')
            raise Wrong('subtrees are left out', self.line)
        if t[0] == 'whole':
            e = bt.mul(t[1], 2)
            self.inside(t[1], add(self.n, ONE))
            return ('run', e, add(e, ONE), t[2], 'all')
        if t[0] == 'part':
            self.inside(t[1], add(self.n, ONE))
            e, kind = bt.mul(t[1], 2), 'all'
            s = self.sign(sub(t[1], self.pos))
            if s is None:
                raise Unknown()
            if s == 0 and not self.match:
                kind = 'part'
            elif (s > 0) if t[2] > 0 else (s <= 0):
                pass
            else:
                return ('run', e, e, None, 'all')
            return ('run', e, add(e, ONE), t[2], kind)
        if t[0] == 'one':
            raise Wrong('something else than an item is yielded', self.line)
        raise GiveUp('a sequence of ' + t[0])

    def inside(self, e, n):
        if not self.least(e) or not self.least(sub(sub(n, e), ONE)):
            if self.least(sub(e, n)):
                raise Wrong('an index is out of range', self.line)
            raise Unknown()

    def merge(self, runs, d=None):
        out = []
        for r in runs:
            if r[0] == 'cls':
                out.append(r)
                continue
            if r[1] == r[2] or self.sign(sub(r[2], r[1])) == 0:
                continue
            if out and out[-1][0] == 'run' and out[-1][4] == r[4] == 'all':
                x, e = out[-1], out[-1][3] or r[3]
                if r[3] in (None, e):
                    if e != -1 and x[2] == r[1] and not (e is None and x[1] == r[2]):
                        out[-1] = ('run', x[1], r[2], 1, 'all')
                        continue
                    if e != 1 and x[1] == r[2]:
                        out[-1] = ('run', r[1], x[2], -1, 'all')
                        continue
            out.append(r)
        return out

    # -- sequences
    def sequence(self, v):
        """the parts of what is iterated over"""
        if v[0] == 'seq':
            return v[1]
        if v[0] == 'lst':
            return (('items' if v[1] == 'items' else 'nodes', ZERO,
                     self.n if v[1] == 'items' else add(self.n, ONE), 1),)
        if v[0] == 'child':
            self.inside(v[1], add(self.n, ONE))
            return (('whole', v[1], 1),)
        if v[0] == 'root':
            return self.in_order(1)
        if v[0] == 'tuple':
            return tuple(('one', x) for x in v[1])
        if v[0] in ('self', 'tree'):
            f = self.find(self.cls, '__iter__')
            if f is not None:
                return self.sequence(self.call_function(f, [v]))
        raise GiveUp('iteration over ' + v[0])

    def in_order(self, d, lo=None, hi=None):
        return tuple(('cls', ('C', c), d) for c in (self.classes if d > 0 else reversed(self.classes))
                     if (lo is None or c >= lo) and (hi is None or c < hi))

    def backwards(self, v):
        if v[0] == 'child':
            self.inside(v[1], add(self.n, ONE))
            return ('seq', (('whole', v[1], -1),))
        if v[0] == 'root':
            return ('seq', self.in_order(-1))
        if v[0] in ('self', 'tree'):
            f = self.find(self.cls, '__reversed__')
            if f is None:
                raise GiveUp('reversed')
            return self.call_function(f, [v])
        return ('seq', tuple(self.turned(t) for t in reversed(self.sequence(v))))

    def turned(self, t):
        if t[0] in ('items', 'nodes', 'range', 'run'):
            return t[:3] + (-t[3] if t[3] else None,) + t[4:]
        if t[0] in ('enum', 'zip'):
            return (t[0], self.turned(t[1])) + (t[2:] if t[0] == 'enum' else (self.turned(t[2]),))
        if t[0] in ('whole', 'cls'):
            return t[:2] + (-t[2],)
        if t[0] == 'one':
            return t
        raise GiveUp('reversed')

    def extent(self, t):
        if t[0] in ('items', 'nodes', 'range'):
            return t[1], t[2], t[3]
        if t[0] in ('enum', 'zip'):
            return self.extent(t[1])
        raise GiveUp('a loop over ' + t[0])

    def element(self, t, k):
        if t[0] == 'items':
            return ('I', k)
        if t[0] == 'nodes':
            return ('child', k)
        if t[0] == 'range':
            return k
        if t[0] == 'enum':
            lo, hi, d = self.extent(t[1])
            if d < 0 and not t[3]:
                return ('tuple', (add(sub(sub(hi, ONE), k), t[2]), self.element(t[1], k)))
            return ('tuple', (add(sub(k, lo), t[2]), self.element(t[1], k)))
        if t[0] == 'zip':
            a, b = self.extent(t[1]), self.extent(t[2])
            return ('tuple', (self.element(t[1], k), self.element(t[2], add(sub(k, a[0]), b[0]))))
        raise GiveUp('an element')

    # -- expressions
    def expr(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise GiveUp(type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        if isinstance(n.value, int) and not isinstance(n.value, bool):
            return num(n.value)
        return const(n.value)

    def e_Name(self, n, env):
        if n.id in env:
            if env[n.id] == ('unknown',):
                raise GiveUp('a variable after a loop')
            return env[n.id]
        return ('name', n.id)

    def e_Tuple(self, n, env):
        return ('tuple', tuple(self.expr(x, env) for x in n.elts))

    e_List = e_Tuple

    def e_IfExp(self, n, env):
        return self.expr(n.body if self.truth(self.expr(n.test, env)) else n.orelse, env)

    def e_NamedExpr(self, n, env):
        env[n.target.id] = v = self.expr(n.value, env)
        return v

    def e_UnaryOp(self, n, env):
        v = self.expr(n.operand, env)
        if isinstance(n.op, ast.Not):
            return const(not self.truth(v))
        if isinstance(n.op, ast.USub) and is_num(v):
            return bt.mul(v, -1)
        raise GiveUp('operator')

    def e_BoolOp(self, n, env):
        stop = isinstance(n.op, ast.Or)
        for x in n.values:
            v = self.expr(x, env)
            if self.truth(v) == stop:
                return v
        return v

    def e_BinOp(self, n, env):
        return self.binop(type(n.op).__name__, self.expr(n.left, env), self.expr(n.right, env))

    def binop(self, op, a, b):
        if is_num(a) and is_num(b):
            if op == 'Add':
                return add(a, b)
            if op == 'Sub':
                return sub(a, b)
            if op == 'Mult' and (not a[2] or not b[2]):
                return bt.mul(a, b[1]) if not b[2] else bt.mul(b, a[1])
        if op == 'Add' and 'seq' in (a[0], b[0]):
            return ('seq', self.sequence(a) + self.sequence(b))
        raise GiveUp('operator')

    def e_Compare(self, n, env):
        left = self.expr(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            right = self.expr(r, env)
            if not self.compare(type(op).__name__, left, right):
                return FALSE
            left = right
        return TRUE

    def compare(self, op, a, b):
        if op in ('In', 'NotIn') and b[0] == 'tree':
            f = self.find(self.cls, '__contains__')
            if f is not None:
                return self.truth(self.call_function(f, [b, a])) == (op == 'In')
        if op in ('Is', 'IsNot'):
            if NONE in (a, b) and 'v' in (a[0], b[0]):
                return self.odd == (op == 'Is')
            if b in (NONE, TRUE, FALSE) or a in (NONE, TRUE, FALSE):
                if ('unknown',) in (a, b):
                    raise Unknown()
                return (a == b) == (op == 'Is')
            raise GiveUp('is')
        if is_num(a) and is_num(b):
            return self.holds(op, a, b)
        if a[0] in ('k', 'key') and b[0] in ('k', 'key'):
            s = self.versus(a, b)
            return {'Lt': s < 0, 'LtE': s <= 0, 'Gt': s > 0, 'GtE': s >= 0, 'Eq': s == 0,
                    'NotEq': s != 0}[op]
        if op in ('Eq', 'NotEq') and (a[0] == 'const' or b[0] == 'const'):
            if a[0] == b[0]:
                return (a == b) == (op == 'Eq')
            if NONE in (a, b):
                return op == 'NotEq'
        raise GiveUp('comparison')

    def truth(self, v):
        if is_num(v):
            return self.holds('NotEq', v, ZERO)
        if v[0] == 'const':
            return bool(v[1])
        if v[0] == 'lst':
            return v[1] == 'nodes' or self.holds('Gt', self.n, ZERO)
        if v[0] in ('I', 'C', 'found', 'child', 'min', 'max'):
            if v[0] == 'child':
                raise GiveUp('the truth of a node')
            return True
        if v[0] == 'tree':
            for name in ('__bool__', '__len__'):
                f = self.find(self.cls, name)
                if f is not None:
                    return self.truth(self.call_function(f, [v]))
            return True
        if v[0] == 'some':
            return bool(self.classes)
        if v[0] == 'v':
            return not self.odd
        raise GiveUp('a condition')

    def e_Attribute(self, n, env):
        b = self.expr(n.value, env)
        if b[0] == 'self':
            if n.attr == 'items':
                return ('lst', 'items')
            if n.attr == 'nodes':
                return NONE if self.leaf else ('lst', 'nodes')
        if b[0] == 'tree' and n.attr == 'root':
            return ('root',)
        if b[0] == 'root' and n.attr == 'items':
            return ('some',)
        return ('attr', b, n.attr)

    def e_Subscript(self, n, env):
        b = self.expr(n.value, env)
        if isinstance(n.slice, ast.Slice):
            return self.cut(b, n.slice, env)
        i = self.expr(n.slice, env)
        if b[0] == 'tree':
            f = self.find(self.cls, '__getitem__')
            if f is None:
                raise GiveUp('subscript')
            return self.call_function(f, [b, i])
        if b[0] == 'lst' and is_num(i):
            size = self.n if b[1] == 'items' else add(self.n, ONE)
            i = self.wrap(i, size)
            self.inside(i, size)
            return ('I', i) if b[1] == 'items' else ('child', i)
        if b[0] in ('I', 'C', 'found', 'min', 'max') and i in (ZERO, ONE, num(-1), num(-2)):
            return ('k' if i in (ZERO, num(-2)) else 'v', b)
        if b[0] == 'tuple' and is_num(i) and not i[2] and -len(b[1]) <= i[1] < len(b[1]):
            return b[1][i[1]]
        raise GiveUp('subscript')

    def wrap(self, i, size):
        """an index counted from the end"""
        if self.least(i):
            return i
        if self.least(sub(bt.mul(i, -1), ONE)):
            return add(i, size)
        raise Unknown()

    def cut(self, b, s, env):
        step = self.expr(s.step, env) if s.step is not None else NONE
        if step == num(-1) and s.lower is None and s.upper is None:
            return self.backwards(b)
        if step == num(-1) and s.upper is None and b[0] == 'lst':
            t, lo, hi, d = self.sequence(b)[0]
            x = add(self.wrap(self.expr(s.lower, env), hi), ONE)
            return ('seq', ((t, lo, self.clip(x, hi), -1),))
        if step not in (NONE, ONE):
            raise GiveUp('a slice')
        seq = self.sequence(b)
        if len(seq) != 1 or seq[0][0] not in ('items', 'nodes', 'range') or seq[0][3] < 0:
            raise GiveUp('a slice')
        t, lo, hi, d = seq[0]
        size = sub(hi, lo)
        x = ZERO if s.lower is None else self.wrap(self.expr(s.lower, env), size)
        y = size if s.upper is None else self.wrap(self.expr(s.upper, env), size)
        x, y = self.clip(x, size), self.clip(y, size)
        if self.least(sub(x, y)):
            y = x
        elif not self.least(sub(y, x)):
            raise Unknown()
        return ('seq', ((t, add(lo, x), add(lo, y), d),))

    def clip(self, x, size):
        if self.least(bt.mul(x, -1)):
            return ZERO
        if self.least(sub(x, size)):
            return size
        if self.least(x) and self.least(sub(size, x)):
            return x
        raise Unknown()

    def e_Yield(self, n, env):
        v = self.expr(n.value, env) if n.value is not None else NONE
        if v[0] in ('C', 'k', 'v') and self.item_of(v)[0] == 'C':
            self.out.append(('one', v))
        else:
            self.out.append(('one', v))
        return NONE

    def e_YieldFrom(self, n, env):
        self.out.extend(self.flat(self.sequence(self.expr(n.value, env))))
        return NONE

    def flat(self, seq):
        for t in seq:
            if t[0] in ('enum', 'zip', 'range', 'nodes'):
                raise Wrong('something else than items is yielded', self.line)
        return seq

    def e_GeneratorExp(self, n, env):
        if len(n.generators) != 1:
            raise GiveUp('a comprehension')
        g = n.generators[0]
        body = [ast.Expr(ast.Yield(n.elt))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        loop = ast.For(g.target, g.iter, body, [])
        for x in ast.walk(loop):
            if not hasattr(x, 'lineno'):
                x.lineno, x.col_offset = n.lineno, n.col_offset
        out, self.out = self.out, []
        try:
            self.s_For(loop, dict(env))
            made = self.out
        finally:
            self.out = out
        return ('seq', tuple(made))

    e_ListComp = e_GeneratorExp

    def e_Call(self, n, env):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            raise GiveUp('a call')
        f = self.expr(n.func, env)
        args = [self.expr(a, env) for a in n.args]
        kw = {k.arg: self.expr(k.value, env) for k in n.keywords}
        if f[0] == 'name':
            return self.builtin(f[1], args, kw)
        if f[0] == 'attr':
            return self.method(f[1], f[2], args, kw)
        raise GiveUp('a call')

    def builtin(self, name, args, kw):
        one = args[0] if len(args) == 1 and not kw else None
        if one is not None:
            if name == 'len':
                if one[0] == 'lst':
                    return self.n if one[1] == 'items' else add(self.n, ONE)
                if one[0] in ('some', 'root'):
                    return COUNT if one[0] == 'root' else ('size',)
            elif name in ('iter', 'list', 'tuple'):
                return ('seq', self.sequence(one))
            elif name == 'reversed':
                return self.backwards(one)
            elif name == 'bool':
                return const(self.truth(one))
        if name in ('enumerate', 'range', 'zip'):
            return ('seq', (self.counted(name, args, kw),))
        if name == 'isinstance' and args[0] == COUNT and args[1] == ('name', '_NullCount'):
            return const(self.odd)
        if name in ('chain',):
            return ('seq', tuple(t for a in args for t in self.sequence(a)))
        if name in ('min', 'max') and len(args) == 2 and all(map(is_num, args)):
            small = args[0] if self.holds('LtE', args[0], args[1]) else args[1]
            return small if name == 'min' else args[1] if small is args[0] else args[0]
        if name == 'next' and len(args) == 2:
            s = self.sequence(args[0])
            if not s:
                return args[1]
            if s[0][0] == 'cls' and s[0][1][1] % 2:
                return s[0][1]
        raise GiveUp('a call of ' + name)

    def counted(self, name, args, kw):
        if name == 'range' and 1 <= len(args) <= 3 and all(map(is_num, args)):
            lo, hi = (ZERO, args[0]) if len(args) == 1 else args[:2]
            if len(args) < 3 or args[2] == ONE:
                return ('range', lo, hi, 1)
            if args[2] == num(-1):
                return ('range', add(hi, ONE), add(lo, ONE), -1)
        elif name == 'enumerate':
            s = self.sequence(args[0])
            start = args[1] if len(args) > 1 else kw.get('start', ZERO)
            if len(s) == 1 and is_num(start):
                return ('enum', s[0], start, False)
        elif name == 'zip' and len(args) == 2:
            a, b = self.sequence(args[0]), self.sequence(args[1])
            if len(a) == len(b) == 1:
                a, b = a[0], b[0]
                (p, q, d), (r, s, e) = self.extent(a), self.extent(b)
                if d == e == 1:
                    if self.least(sub(sub(s, r), sub(q, p))):
                        return ('zip', a, b)
                    if a[0] == 'nodes':
                        return ('zip', (a[0], p, add(p, sub(s, r)), 1), b)
        raise GiveUp(name)

    def method(self, base, name, args, kw):
        if base[0] in ('self', 'tree'):
            if base[0] == 'tree' and name in ('add', '__setitem__') and len(args) == 2:
                self.added.append((args[0], args[1]))
                return NONE
            f = self.find(self.cls, name)
            if f is not None:
                a = args if 'staticmethod' in f.deco else [base] + args
                return self.call_function(f, a, kw)
        if base[0] == 'name' and name == 'chain':
            return self.builtin('chain', args, kw)
        if kw:
            args = args + list(kw.values())
        if base[0] == 'child':
            self.inside(base[1], add(self.n, ONE))
            k = base[1]
            if name in ('__iter__', '__reversed__') and not args:
                return ('seq', (('whole', k, 1 if name == '__iter__' else -1),))
            if name in ('iter_from', 'iter_backward_from') and args == [('key', 'key')]:
                return ('seq', (('part', k, 1 if name == 'iter_from' else -1),))
            if name == 'search' and args == [('key', 'key')]:
                s = self.sign(sub(k, self.pos))
                if s is None:
                    raise Unknown()
                return NONE if s or self.match else ('found', k)
            if name in ('get_min_item', 'get_max_item') and not args:
                return ('min' if 'min' in name else 'max', k)
        if base[0] == 'root':
            if name in ('__iter__', '__reversed__') and not args:
                return ('seq', self.in_order(1 if name == '__iter__' else -1))
            if args and args[0][0] == 'key':
                c = self.rank(args[0])[1]
                if name == 'iter_from':
                    return ('seq', self.in_order(1, lo=c))
                if name == 'iter_backward_from':
                    return ('seq', self.in_order(-1, hi=c))
                if name == 'search' and self.added:
                    for k, v in self.added:
                        if k == args[0]:
                            return ('tuple', (k, v))
                    raise GiveUp('search')
                if name == 'search':
                    return ('C', c) if c in self.classes else NONE
                if name == 'insert_item':
                    raise GiveUp('insertion')
            if name == 'get_count' and not args:
                return ('count',)
            if name in ('get_min_item', 'get_max_item') and not args and self.classes:
                return (name[4:7], self.classes[0 if 'min' in name else -1])
        if name in ('_p_note_change',):
            return NONE
        raise GiveUp('a call of ' + name)


# ---- the scenarios
def nodes():
    """(leaf, p, n, match)"""
    for leaf in (True, False):
        for p, n in ((p, add(p, rest)) for p in (ZERO, ONE, add(num(2), A))
                     for rest in (ZERO, ONE, add(num(2), B))):
            if n == ZERO and not leaf:
                continue
            yield leaf, p, n, False
            if p != n:
                yield leaf, p, n, True


def describe(leaf, p, n, match):
    return 'in %s%s' % ('a leaf' if leaf else 'an inner node', '' if p is None else
                        ', with the key there' if match else ', with the key not there')


def wanted(name, leaf, p, n, match):
    """the runs or the result"""
    end = n if leaf else add(bt.mul(n, 2), ONE)
    if name == '__iter__':
        return [('run', ZERO, end, 1, 'all')]
    if name == '__reversed__':
        return [('run', ZERO, end, -1, 'all')]
    q = bt.mul(p, 2)
    part = lambda d: [] if leaf or match else [('run', q, add(q, ONE), d, 'part')]
    if name == 'iter_from':
        return part(1) + [('run', p if leaf else add(q, ONE), end, 1, 'all')]
    if name == 'iter_backward_from':
        return part(-1) + [('run', ZERO, p if leaf else add(q, ONE) if match else q, -1, 'all')]
    if name == 'get_position':
        return p
    if name == 'search':
        return ('I', p) if match else NONE if leaf else ('found', p)
    if name == 'get_min_item':
        return ('I', ZERO) if leaf else ('min', ZERO)
    if name == 'get_max_item':
        return ('I', sub(n, ONE)) if leaf else ('max', n)


def same_runs(it, got, want):
    got, want = it.merge(got), it.merge(want)
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != 'run' or g[1:3] != w[1:3] or g[4] != w[4]:
            return False
        if g[3] not in (None, w[3]) and sub(g[2], g[1]) != ONE:
            return False
        if g[3] not in (None, w[3]) and not it.leaf:
            return False
        if g[3] is None and sub(g[2], g[1]) != ONE:
            return False
    return True


def node_method(check, name, keyed):
    p = check.p
    it = Interp(p, BNODE)
    f = it.find(BNODE, name)
    if f is None:
        return
    seen = set()
    for leaf, pos, n, match in nodes():
        if not keyed:
            if (leaf, n) in seen or match:
                continue
            seen.add((leaf, n))
        if n == ZERO and name.startswith('get_m'):
            continue
        it = Interp(p, BNODE, leaf=leaf, pos=pos, n=n, match=match)
        check.oblige('node')
        want = wanted(name, leaf, pos, n, match)
        where = describe(leaf, pos if keyed else None, n, match)
        try:
            try:
                v = it.call_function(f, [('self',)] + [('key', 'key')] * keyed)
                if isinstance(want, list):
                    got = [it.run(t) for t in it.flat(it.sequence(v))]
                    ok = same_runs(it, got, want)
                else:
                    ok = v == want or is_num(v) and is_num(want) and it.sign(sub(v, want)) == 0
                    if v[0] == 'I' and want[0] == 'I':
                        ok = it.sign(sub(v[1], want[1])) == 0
                if not ok:
                    check.finding('node', f, None, (
                        'the items are not each visited once, in order, ' if isinstance(want, list)
                        else 'the result is another than the place or the item looked for, ') + where)
            except Wrong as e:
                check.finding('node', f, e.line, '%s, %s' % (e.msg, where))
            except Raised as e:
                check.finding('node', f, None, '%s is raised, %s' % (e.name, where))
        except GiveUp as e:
            check.undecided.append('node: %s: %s' % (f.qual, e or 'an undecided condition'))
        check.functions |= it.funcs
        check.paths += 1


def trees(names):
    """the ways in which the keys are ordered, with the classes of items there are"""
    orders = [{}] if not names else [{names[0]: 0}] if len(names) == 1 else [
        {names[0]: 0, names[1]: 1}, {names[0]: 0, names[1]: 0}, {names[0]: 1, names[1]: 0}]
    for ranks in orders:
        top = 2 * (max(ranks.values()) + 1) if ranks else 0
        for bits in range(1 << (top + 1)):
            yield ranks, tuple(c for c in range(top + 1) if bits >> c & 1)


def expected(name, ranks, classes, flags):
    """what an ordered map gives: ('seq', classes, proj) or a result"""
    asc, desc = list(classes), list(reversed(classes))
    at = {k: 2 * r + 1 for k, r in ranks.items()}
    if name in ('__iter__', 'iterkeys', 'keys'):
        return asc, 1, 'k'
    if name in ('itervalues', 'values'):
        return asc, 1, 'v'
    if name in ('iteritems', 'items'):
        return asc, 1, 'item'
    if name == '__reversed__':
        return desc, -1, 'k'
    if name == 'items_backward':
        return desc, -1, 'item'
    if name == 'items_from':
        k = at['key']
        return [c for c in asc if c > k or flags['closed'] and c == k], 1, 'item'
    if name == 'items_backward_from':
        k = at['key']
        return [c for c in desc if c < k or flags['closed'] and c == k], -1, 'item'
    s, e = at['start'], at['end']
    first, last = flags['closed_start'], flags['closed_end']
    if s <= e:
        return [c for c in asc if (c > s or first and c == s) and (c < e or last and c == e)], 1, 'item'
    return [c for c in desc if (c < s or first and c == s) and (c > e or last and c == e)], -1, 'item'


TREE = {
    '__iter__': (), 'iterkeys': (), 'keys': (), 'itervalues': (), 'values': (), 'iteritems': (),
    'items': (), '__reversed__': (), 'items_backward': (), 'items_from': ('key',),
    'items_backward_from': ('key',), 'items_range': ('start', 'end'),
}
FLAGS = {'items_from': ('closed',), 'items_backward_from': ('closed',),
         'items_range': ('closed_start', 'closed_end')}
DEFAULT = {'items_from': {'closed': True}, 'items_backward_from': {'closed': False},
           'items_range': {'closed_start': True, 'closed_end': False}}
LOOKUP = ('__len__', '__getitem__', 'get', '__contains__', 'has_key', 'setdefault', 'get_min_item',
          'get_max_item')


def flag_sets(name):
    fs = FLAGS.get(name, ())
    for bits in range(1 << len(fs)):
        yield {f: bool(bits >> i & 1) for i, f in enumerate(fs)}, True
    if fs:
        yield dict(DEFAULT[name]), False


def tree_method(check, name, keys):
    p = check.p
    f = Interp(p, BTREE).find(BTREE, name)
    if f is None or f.qual.split('.')[1] != 'btree':
        return
    for ranks, classes in trees(keys):
        for flags, given in flag_sets(name):
            it = Interp(p, BTREE, ranks=ranks, classes=classes)
            check.oblige('tree')
            want, d, proj = expected(name, ranks, classes, flags)
            args = [('tree',)] + [('key', k) for k in keys]
            kw = {k: const(v) for k, v in flags.items()} if given else {}
            try:
                try:
                    v = it.call_function(f, args, kw)
                    got = []
                    for t in it.sequence(v):
                        if t[0] == 'one' and it.item_of(t[1])[0] == 'C' and it.item_of(t[1])[1] % 2:
                            t = ('cls', t[1], d)
                        if t[0] != 'cls':
                            raise Wrong('something else than items is given')
                        got.append(t)
                    bad = None
                    if [it.item_of(t[1])[1] for t in got] != want:
                        bad = 'not exactly the items asked for are given, each once and in order'
                    elif any(t[2] != d and it.item_of(t[1])[1] % 2 == 0 for t in got):
                        bad = 'the items are not given in order'
                    elif any((t[1][0] if t[1][0] in 'kv' else 'item') != proj for t in got):
                        bad = 'keys, values and items are mixed up'
                    if bad:
                        check.finding('tree', f, None, bad + ('' if given or not flags else
                                                              ', by default'))
                except Wrong as e:
                    check.finding('tree', f, e.line, e.msg)
                except Raised as e:
                    check.finding('tree', f, None, '%s is raised' % e.name)
            except GiveUp as e:
                check.undecided.append('tree: %s: %s' % (f.qual, e or 'an undecided condition'))
                return
            finally:
                check.functions |= it.funcs
                check.paths += 1


def lookup_method(check, name):
    p = check.p
    f = Interp(p, BTREE).find(BTREE, name)
    if f is None:
        return
    keyed = name != '__len__' and not name.startswith('get_m')
    dflt = ('default',)
    for ranks, classes, odd in ((r, c, o) for r, c in trees(('key',)) for o in (False, True)):
        it = Interp(p, BTREE, ranks=ranks, classes=classes, odd=odd)
        there = 1 in classes
        args = [('tree',)] + [('key', 'key')] * keyed
        if name in ('get', 'setdefault'):
            args.append(dflt)
        check.oblige('lookup')
        item = ('C', 1)
        added = []
        if name == '__len__':
            want = ('count',) if odd else COUNT
        elif name == '__getitem__':
            want = ('v', item) if there else 'KeyError'
        elif name == 'get':
            want = ('v', item) if there else dflt
        elif name in ('__contains__', 'has_key'):
            want = const(there)
        elif name == 'setdefault':
            want = ('v', item) if there else dflt
            added = [] if there else [(('key', 'key'), dflt)]
        else:
            if not classes:
                continue
            want = (name[4:7], classes[0 if 'min' in name else -1])
        try:
            try:
                got = it.call_function(f, args)
            except Raised as e:
                got = e.name
            except Wrong as e:
                check.finding('lookup', f, e.line, e.msg)
                continue
            where = 'of a key that is there' if there else 'of a key that is not there'
            if name == 'setdefault' and got == ('v', item) and not there:
                got = want          # the value read back
            if got != want:
                check.finding('lookup', f, None, 'the result %s is wrong' % (
                    where if keyed else 'is not that item, or it'))
            elif it.added != added:
                check.finding('lookup', f, None, 'a value is set %s' % where if it.added else
                              'no value is set ' + where)
        except GiveUp as e:
            check.undecided.append('lookup: %s: %s' % (f.qual, e or 'an undecided condition'))
            return
        finally:
            check.functions |= it.funcs
            check.paths += 1


def decide(check):
    p = check.p
    p.need_class(BNODE)
    p.need_class(BTREE)
    for name in ('__iter__', '__reversed__', 'get_min_item', 'get_max_item'):
        node_method(check, name, 0)
    for name in ('get_position', 'search', 'iter_from', 'iter_backward_from'):
        node_method(check, name, 1)
    for name in sorted(TREE):
        tree_method(check, name, TREE[name])
    for name in LOOKUP:
        lookup_method(check, name)
