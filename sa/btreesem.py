"""Abstract interpretation of the methods of BTree nodes over symbolic sequences.

A list is a tuple of pieces: intervals of the list that some node had at first, and
single elements.  Numbers are linear expressions over the symbols that stand for the
first lengths of lists, the minimum degree and the results of get_position().  The
in-order contents of a node is a list of tokens over the first contents; two contents
are the same exactly if their normal forms are.
"""
import ast


class GiveUp(Exception):
    pass


# ---- linear expressions: ('L', constant, ((symbol, coefficient), ...))
def num(k):
    return ('L', k, ())


def sym(s):
    return ('L', 0, ((s, 1),))


def is_num(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'L'


def add(a, b, k=1):
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
    return ('L', a[1] + k * b[1], tuple(sorted(((s, c) for s, c in d.items() if c), key=repr)))


def sub(a, b):
    return add(a, b, -1)


def mul(a, k):
    return ('L', a[1] * k, tuple((s, c * k) for s, c in a[2]) if k else ())


ZERO, ONE = num(0), num(1)
T = sym('t')


class State:
    __slots__ = ('nodes', 'lists', 'facts', 'atoms', 'env', 'kids', 'leaf', 'n', 'log', 'root')

    def __init__(self):
        self.nodes, self.lists, self.facts, self.atoms = {}, {}, (sub(T, num(2)),), {}
        self.env, self.kids, self.leaf, self.n, self.log, self.root = {}, {}, {}, 0, (), None

    def copy(self):
        s = State.__new__(State)
        s.nodes, s.lists, s.facts, s.atoms = dict(self.nodes), dict(self.lists), self.facts, dict(self.atoms)
        s.env, s.kids, s.leaf, s.n, s.log = dict(self.env), dict(self.kids), dict(self.leaf), self.n, self.log
        s.root = self.root
        return s

    def new(self):
        self.n += 1
        return self.n

    # ---- facts
    def holds(self, e):
        """e >= 0 follows from up to three facts"""
        if not e[2]:
            return e[1] >= 0
        fs = self.facts
        todo = [e]
        for depth in range(3):
            nxt = []
            for x in todo:
                for f in fs:
                    if not any(s in dict(x[2]) for s, c in f[2]):
                        continue
                    y = sub(x, f)
                    if not y[2]:
                        if y[1] >= 0:
                            return True
                        continue
                    if len(y[2]) <= 4 and depth < 2:
                        nxt.append(y)
            todo = nxt[:400]
        return False

    def decide(self, e):
        """True if e >= 0, False if e < 0, None if not known"""
        if self.holds(e):
            return True
        if self.holds(sub(mul(e, -1), ONE)):
            return False
        return None

    def zero(self, e):
        if not e[2]:
            return e[1] == 0
        return self.holds(e) and self.holds(mul(e, -1))

    def settle(self):
        """substitute the equations that follow from the facts"""
        for _ in range(20):
            for e in self.facts:
                if e[2] and any(abs(c) == 1 for s, c in e[2]) and self.holds(mul(e, -1)):
                    s, c = [x for x in e[2] if abs(x[1]) == 1][-1]
                    n = len(self.kids)
                    substitute(self, s, mul(add(e, sym(s), -c), -c))
                    if len(self.kids) != n:
                        raise GiveUp('two names of one child')
                    break
            else:
                return

    def assume(self, e):
        if not self.holds(e):
            self.facts = self.facts + (e,)

    # ---- nodes
    def node(self, group=None, fresh=False):
        i = self.new()
        n = sym(('n', i))
        self.lists[('i', i)] = (('seg', i, 'items', ZERO, n),)
        self.nodes[i] = {'items': ('list', ('i', i)), 'nodes': 'lazy', '_count': sym(('K', i)),
                         'group': group or ('own', i), 'n0': n}
        self.assume(n)
        return i

    def child(self, parent, index):
        key = (parent, index)
        for (par, idx), c in self.kids.items():
            if par == parent and (idx == index or self.zero(sub(idx, index))):
                return c
        if key not in self.kids:
            i = self.node(('kids', self.nodes[parent]['group'] if parent in self.nodes else parent))
            n = sym(('n', i))
            self.assume(sub(n, sub(T, ONE)))
            self.assume(sub(sub(mul(T, 2), ONE), n))
            self.kids[key] = i
        return self.kids[key]

    def set(self, i, name, v):
        d = dict(self.nodes[i])
        d[name] = v
        self.nodes[i] = d


def length(pieces):
    n = ZERO
    for x in pieces:
        n = add(n, sub(x[4], x[3]) if x[0] == 'seg' else x[3] if x[0] == 'opq' else ONE)
    return n


class Interp:
    def __init__(self, program, cls, calls):
        self.p, self.cls = program, cls
        self.opaque = calls
        self.steps = 0
        self.given = set()
        self.reports = {}

    def report(self, node, msg):
        self.reports.setdefault((getattr(node, 'lineno', 0), msg), msg)

    # ---- running
    def call_function(self, st, fn, args, closure=None, depth=0):
        """outcomes (st, kind, value) of a FunctionDef"""
        if depth > 12:
            raise GiveUp('too deep')
        a = fn.args
        fr = st.new()
        st = st.copy()
        names = [x.arg for x in a.args]
        if a.vararg or a.kwarg or a.kwonlyargs or len(args) > len(names):
            raise GiveUp('arguments of ' + fn.name)
        defaults = a.defaults
        for k, x in enumerate(names):
            if k < len(args):
                st.env[(fr, x)] = args[k]
            else:
                j = k - (len(names) - len(defaults))
                if j < 0:
                    raise GiveUp('missing argument of ' + fn.name)
                st.env[(fr, x)] = self.const(defaults[j])
        st.env[(fr, '.up')] = closure
        out = []
        for s, k, v in self.block(st, fn.body, fr, depth):
            out.append((s, 'x' if k == 'x' else 'r', v if k in 'rx' else ('c', None)))
        return out

    def const(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, int) and not isinstance(n.value, bool):
                return num(n.value)
            return ('c', n.value)
        return ('unk', ast.dump(n)[:60])

    def block(self, st, body, fr, depth):
        work = [(st, 'n', None)]
        for s in body:
            nxt = []
            for st, k, v in work:
                if k != 'n':
                    nxt.append((st, k, v))
                else:
                    try:
                        nxt.extend(self.stmt(st, s, fr, depth))
                    except GiveUp as e:
                        self.given.add(str(e))
            work = nxt
            if len(work) > 400:
                raise GiveUp('too many paths')
        return work

    def stmt(self, st, s, fr, depth):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise GiveUp('line %d: %s' % (s.lineno, type(s).__name__))
        out = []
        try:
            for r in m(st, s, fr, depth):
                out.append(r)
        except Raised as e:
            raise GiveUp('raised in ' + type(s).__name__)
        return out

    def s_Pass(self, st, s, fr, depth):
        return [(st, 'n', None)]

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Expr(self, st, s, fr, depth):
        if isinstance(s.value, ast.Constant):
            return [(st, 'n', None)]
        return [self.done(x, v) for x, v in self.expr(st, s.value, fr, depth)]

    def done(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'raise':
            return (st, 'x', v)
        return (st, 'n', None)

    def s_FunctionDef(self, st, s, fr, depth):
        st.env[(fr, s.name)] = ('fn', s, fr)
        return [(st, 'n', None)]

    def s_Return(self, st, s, fr, depth):
        if s.value is None:
            return [(st, 'r', ('c', None))]
        return [(x, 'x' if raised(v) else 'r', v) for x, v in self.expr(st, s.value, fr, depth)]

    def s_Raise(self, st, s, fr, depth):
        name = None
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if isinstance(n, ast.Name):
            name = n.id
        return [(st, 'x', ('raise', name, s.lineno))]

    def s_Assert(self, st, s, fr, depth):
        out = []
        # what is asserted is not learnt, so that preconditions are proved without it
        for x, t in self.cond(st.copy(), s.test, fr, depth):
            if raised(t):
                out.append((x, 'x', t))
            elif t is False:
                continue
        seen = [t for x, t in self.cond(st.copy(), s.test, fr, depth)]
        if True in seen or not seen:
            out.append((st, 'n', None))
        elif False in seen:
            out.append((st, 'x', ('raise', 'AssertionError', s.lineno)))
        return out

    def s_If(self, st, s, fr, depth):
        out = []
        for x, t in self.cond(st, s.test, fr, depth):
            if raised(t):
                out.append((x, 'x', t))
            else:
                out.extend(self.block(x, s.body if t else s.orelse, fr, depth))
        return out

    def s_Assign(self, st, s, fr, depth):
        out = []
        for x, v in self.expr(st, s.value, fr, depth):
            if raised(v):
                out.append((x, 'x', v))
                continue
            work = [(x, 'n', None)]
            for t in s.targets:
                work = [r for y, k, w in work for r in
                        (self.assign(y, t, v, fr, depth) if k == 'n' else [(y, k, w)])]
            out.extend(work)
        return out

    def s_AnnAssign(self, st, s, fr, depth):
        if s.value is None:
            return [(st, 'n', None)]
        return self.s_Assign(st, ast.copy_location(ast.Assign([s.target], s.value), s), fr, depth)

    def s_AugAssign(self, st, s, fr, depth):
        read = ast.copy_location(ast.BinOp(load(s.target), s.op, s.value), s)
        ast.fix_missing_locations(read)
        out = []
        if isinstance(s.op, ast.Add):
            # += of a list changes it in place
            for x, a in self.expr(st.copy(), load(s.target), fr, depth):
                if isinstance(a, tuple) and a[0] == 'list':
                    for y, b in self.expr(x, s.value, fr, depth):
                        if raised(b):
                            out.append((y, 'x', b))
                            continue
                        y = y.copy()
                        y.lists[a[1]] = y.lists[a[1]] + self.pieces(y, b)
                        out.append((y, 'n', None))
                    return out
                break
        for x, v in self.expr(st, read, fr, depth):
            if raised(v):
                out.append((x, 'x', v))
            else:
                out.extend(self.assign(x, s.target, v, fr, depth))
        return out

    def s_Delete(self, st, s, fr, depth):
        work = [(st, 'n', None)]
        for t in s.targets:
            nxt = []
            for st, k, v in work:
                if k != 'n':
                    nxt.append((st, k, v))
                    continue
                if not isinstance(t, ast.Subscript):
                    if isinstance(t, ast.Name):
                        nxt.append((st, 'n', None))
                        continue
                    raise GiveUp('del')
                for x, base in self.expr(st, t.value, fr, depth):
                    if raised(base):
                        nxt.append((x, 'x', base))
                        continue
                    if base[0] != 'list':
                        raise GiveUp('del of an element of something')
                    nxt.extend(self.remove(x, base, t.slice, fr, depth))
            work = nxt
        return work

    def remove(self, st, base, sl, fr, depth):
        out = []
        if isinstance(sl, ast.Slice):
            for x, lo, hi in self.bounds(st, base, sl, fr, depth):
                ps = x.lists[base[1]]
                x = x.copy()
                x.lists[base[1]] = self.cut(x, ps, ZERO, lo) + self.cut(x, ps, hi, length(ps))
                out.append((x, 'n', None))
            return out
        for x, i in self.expr(st, sl, fr, depth):
            for y, j in self.position(x, base, i, sl):
                if raised(j):
                    out.append((y, 'x', j))
                    continue
                ps = y.lists[base[1]]
                y = y.copy()
                y.lists[base[1]] = self.cut(y, ps, ZERO, j) + self.cut(y, ps, add(j, ONE), length(ps))
                out.append((y, 'n', None))
        return out

    def s_For(self, st, s, fr, depth):
        """a loop that adds up something of every element"""
        if s.orelse or not isinstance(s.target, ast.Name):
            raise GiveUp('line %d: a loop' % s.lineno)
        out = []
        for x, it in self.expr(st, s.iter, fr, depth):
            if raised(it):
                out.append((x, 'x', it))
                continue
            work = [(x, 'n', None)]
            for piece in self.pieces(x, it):
                nxt = []
                for y, k, v in work:
                    if k != 'n':
                        nxt.append((y, k, v))
                        continue
                    y = y.copy()
                    before = y.copy()
                    if piece[0] == 'el':
                        y.env[(fr, s.target.id)] = piece[1]
                    elif piece[0] == 'seg':
                        y.env[(fr, s.target.id)] = ('gen',) + piece[1:]
                    else:
                        raise GiveUp('a loop over an unknown list')
                    rs = self.block(y, s.body, fr, depth)
                    if piece[0] == 'seg' and (len(rs) != 1 or rs[0][1] != 'n' or not
                                              self.linear(before, rs[0][0], piece)):
                        raise GiveUp('line %d: a loop' % s.lineno)
                    nxt.extend(rs)
                work = nxt
            out.extend(work)
        return out

    def linear(self, a, b, piece):
        """from a to b only counts changed, by the sums over the piece"""
        if a.lists != b.lists:
            return False
        for i, d in b.nodes.items():
            for k, v in d.items():
                old = a.nodes.get(i, {}).get(k)
                if v != old and not (is_num(v) and is_num(old) and self.sums(sub(v, old), piece)):
                    return False
        for k, v in b.env.items():
            old = a.env.get(k)
            if v != old and old is not None and not (isinstance(v, tuple) and v[0] == 'gen') and \
                    not (is_num(v) and is_num(old) and self.sums(sub(v, old), piece)):
                return False
        return True

    def sums(self, d, piece):
        return d[1] == 0 and all(s[0] == 'F' and s[1] == piece[1] for s, c in d[2] if isinstance(s, tuple)) \
            and all(isinstance(s, tuple) for s, c in d[2])

    def s_Try(self, st, s, fr, depth):
        if s.orelse:
            raise GiveUp('line %d: else of try' % s.lineno)
        out = []
        for x, k, v in self.block(st, s.body, fr, depth):
            if k != 'x':
                out.append((x, k, v))
                continue
            for h in s.handlers:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [t.id if isinstance(t, ast.Name) else None for t in ts if t is not None]
                if h.type is None or v[1] in names or 'Exception' in names or 'BaseException' in names or \
                        'LookupError' in names and v[1] in ('KeyError', 'IndexError'):
                    if h.name:
                        x = x.copy()
                        x.env[(fr, h.name)] = ('unk', 'exception')
                    for y, kk, w in self.block(x, h.body, fr, depth):
                        if kk == 'x' and w[1] is None:
                            w = v
                        out.append((y, kk, w))
                    break
                if None in names:
                    raise GiveUp('line %d: what is caught' % h.lineno)
            else:
                out.append((x, k, v))
        if not s.finalbody:
            return out
        end = []
        for x, k, v in out:
            for y, kk, w in self.block(x, s.finalbody, fr, depth):
                end.append((y, k, v) if kk == 'n' else (y, kk, w))
        return end

    # ---- assignment
    def assign(self, st, t, v, fr, depth):
        st = st.copy()
        if isinstance(t, ast.Name):
            st.env[(fr, t.id)] = v
            return [(st, 'n', None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if v[0] != 'tup' or len(v[1]) != len(t.elts):
                raise GiveUp('unpacking')
            work = [(st, 'n', None)]
            for x, w in zip(t.elts, v[1]):
                work = [r for y, k, z in work for r in
                        (self.assign(y, x, w, fr, depth) if k == 'n' else [(y, k, z)])]
            return work
        if isinstance(t, ast.Attribute):
            out = []
            for x, base in self.expr(st, t.value, fr, depth):
                if raised(base):
                    out.append((x, 'x', base))
                elif base[0] == 'node':
                    x = x.copy()
                    x.set(base[1], t.attr, v)
                    out.append((x, 'n', None))
                elif base[0] == 'tree':
                    x = x.copy()
                    if t.attr == 'root':
                        x.root = v
                    out.append((x, 'n', None))
                elif base == ('c', None):
                    out.append((x, 'x', ('raise', 'AttributeError', t.lineno)))
                else:
                    raise GiveUp('assignment to an attribute')
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, base in self.expr(st, t.value, fr, depth):
                if raised(base):
                    out.append((x, 'x', base))
                    continue
                if base[0] != 'list':
                    raise GiveUp('assignment to an element')
                if isinstance(t.slice, ast.Slice):
                    for y, lo, hi in self.bounds(x, base, t.slice, fr, depth):
                        ps = y.lists[base[1]]
                        y = y.copy()
                        y.lists[base[1]] = self.cut(y, ps, ZERO, lo) + self.pieces(y, v) + \
                            self.cut(y, ps, hi, length(ps))
                        out.append((y, 'n', None))
                    continue
                for y, i in self.expr(x, t.slice, fr, depth):
                    for z, j in self.position(y, base, i, t):
                        if raised(j):
                            out.append((z, 'x', j))
                            continue
                        ps = z.lists[base[1]]
                        z = z.copy()
                        z.lists[base[1]] = self.cut(z, ps, ZERO, j) + (('el', v),) + \
                            self.cut(z, ps, add(j, ONE), length(ps))
                        out.append((z, 'n', None))
            return out
        raise GiveUp('assignment')

    # ---- lists
    def pieces(self, st, v):
        if v[0] == 'list':
            return st.lists[v[1]]
        if v[0] == 'tup' and not any(x[0] == 'star' for x in v[1]):
            return tuple(('el', x) for x in v[1])
        raise GiveUp('not a list: %s' % v[0])

    def make(self, st, ps):
        i = st.new()
        st.lists[i] = ps
        return ('list', i)

    def cut(self, st, ps, lo, hi):
        """the pieces of ps between two positions"""
        out = []
        at = ZERO
        for x in ps:
            n = sub(x[4], x[3]) if x[0] == 'seg' else x[3] if x[0] == 'opq' else ONE
            end = add(at, n)
            a = self.order(st, lo, at)
            b = self.order(st, hi, end)
            if a <= 0 and b >= 0:
                out.append(x)
            else:
                from_ = lo if a > 0 else at
                to = hi if b < 0 else end
                if self.order(st, from_, to) < 0:
                    if x[0] == 'seg':
                        out.append(('seg', x[1], x[2], add(x[3], sub(from_, at)), add(x[3], sub(to, at))))
                    else:
                        raise GiveUp('cutting an unknown list')
            at = end
        return tuple(x for x in out if not (x[0] == 'seg' and st.zero(sub(x[4], x[3]))))

    def order(self, st, a, b):
        d = sub(a, b)
        if not d[2]:
            return (d[1] > 0) - (d[1] < 0)
        if st.zero(d):
            return 0
        if st.holds(d):
            return 1
        if st.holds(mul(d, -1)):
            return -1
        raise GiveUp('two positions that cannot be compared')

    def position(self, st, base, i, node):
        """[(st, index from the start)], or an IndexError"""
        if not is_num(i):
            if i[0] == 'unk':
                raise GiveUp('an unknown index')
            raise GiveUp('an index that is not a number')
        n = length(st.lists[base[1]])
        out = []
        for x, t in self.fork(st, i):
            j = i if t else add(n, i)
            if not t:
                ok = self.fork(x, j)
            else:
                ok = [(x, True)]
            for y, u in ok:
                if not u:
                    out.append((y, ('raise', 'IndexError', node.lineno)))
                    continue
                for z, w in self.fork(y, sub(sub(n, j), ONE)):
                    out.append((z, j if w else ('raise', 'IndexError', node.lineno)))
        return out

    def fork(self, st, e):
        """whether e >= 0"""
        d = st.decide(e)
        if d is not None:
            return [(st, d)]
        a, b = st.copy(), st.copy()
        a.assume(e)
        b.assume(sub(mul(e, -1), ONE))
        return [(a, True), (b, False)]

    def at(self, st, base, j):
        """the element at a position"""
        ps = st.lists[base[1]]
        p = self.cut(st, ps, j, add(j, ONE))
        if len(p) != 1:
            raise GiveUp('an element')
        x = p[0]
        if x[0] == 'el':
            return x[1]
        if x[0] == 'opq':
            raise GiveUp('an element of an unknown list')
        if x[2] == 'items':
            return ('item', x[1], x[3])
        i = st.child(x[1], x[3])
        st.lists[base[1]] = self.cut(st, ps, ZERO, j) + (('el', ('node', i)),) + \
            self.cut(st, ps, add(j, ONE), length(ps))
        return ('node', i)

    def bounds(self, st, base, sl, fr, depth):
        if sl.step is not None:
            raise GiveUp('a slice with a step')
        n = length(self.pieces(st, base))
        out = []
        los = self.expr(st, sl.lower, fr, depth) if sl.lower is not None else [(st, ZERO)]
        for x, lo in los:
            his = self.expr(x, sl.upper, fr, depth) if sl.upper is not None else [(x, n)]
            for y, hi in his:
                if not is_num(lo) or not is_num(hi):
                    raise GiveUp('the bounds of a slice')
                vs = []
                for b in (lo, hi):
                    neg = y.decide(b)
                    if neg is False:
                        b = add(n, b)
                    elif neg is None:
                        raise GiveUp('the bounds of a slice')
                    if y.decide(sub(n, b)) is not True:
                        if y.decide(sub(b, n)) is True:
                            b = n
                        else:
                            raise GiveUp('the bounds of a slice')
                    vs.append(b)
                out.append((y, vs[0], vs[1]))
        return out

    # ---- expressions: [(st, value)]
    def expr(self, st, n, fr, depth):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise GiveUp('line %d: %s' % (n.lineno, type(n).__name__))
        return m(st, n, fr, depth)

    def e_Constant(self, st, n, fr, depth):
        return [(st, self.const(n))]

    def e_JoinedStr(self, st, n, fr, depth):
        return [(st, ('unk', 'str'))]

    def e_Name(self, st, n, fr, depth):
        f = fr
        while f is not None:
            if (f, n.id) in st.env:
                return [(st, st.env[(f, n.id)])]
            f = st.env.get((f, '.up'))
        return [(st, ('global', n.id))]

    def e_Tuple(self, st, n, fr, depth):
        work = [(st, ())]
        for x in n.elts:
            if isinstance(x, ast.Starred):
                # the pieces of a list, in a place of their own
                work = [(z, vs + (('star', v),)) for y, vs in work for z, v in self.expr(y, x.value, fr, depth)]
                continue
            work = [(z, vs + (v,)) for y, vs in work for z, v in self.expr(y, x, fr, depth)]
        return [(y, ('tup', vs)) for y, vs in work]

    def e_List(self, st, n, fr, depth):
        out = []
        for x, v in self.e_Tuple(st, n, fr, depth):
            x = x.copy()
            ps = ()
            for y in v[1]:
                ps += self.pieces(x, y[1]) if y[0] == 'star' else (('el', y),)
            out.append((x, self.make(x, ps)))
        return out

    def e_IfExp(self, st, n, fr, depth):
        out = []
        for x, t in self.cond(st, n.test, fr, depth):
            out.extend([(x, t)] if raised(t) else self.expr(x, n.body if t else n.orelse, fr, depth))
        return out

    def e_UnaryOp(self, st, n, fr, depth):
        if isinstance(n.op, ast.USub):
            out = []
            for x, v in self.expr(st, n.operand, fr, depth):
                if not is_num(v):
                    raise GiveUp('a negation')
                out.append((x, mul(v, -1)))
            return out
        return [(x, t if raised(t) else ('c', t)) for x, t in self.cond(st, n, fr, depth)]

    def e_BoolOp(self, st, n, fr, depth):
        # the value of the last operand looked at
        work, out = [(st, None)], []
        for k, x in enumerate(n.values):
            nxt = []
            for y, v in work:
                if k == len(n.values) - 1:
                    out.extend(self.expr(y, x, fr, depth))
                    continue
                for z, w in self.expr(y, x, fr, depth):
                    for u, t in self.truth(z, w, x):
                        if raised(t):
                            out.append((u, t))
                        elif t == isinstance(n.op, ast.And):
                            nxt.append((u, w))
                        else:
                            out.append((u, w))
            work = nxt
        return out

    def e_Compare(self, st, n, fr, depth):
        return [(x, t if raised(t) else ('c', t)) for x, t in self.cond(st, n, fr, depth)]

    def e_BinOp(self, st, n, fr, depth):
        out = []
        for x, a in self.expr(st, n.left, fr, depth):
            if raised(a):
                out.append((x, a))
                continue
            for y, b in self.expr(x, n.right, fr, depth):
                if raised(b):
                    out.append((y, b))
                elif is_num(a) and is_num(b):
                    if isinstance(n.op, ast.Add):
                        out.append((y, add(a, b)))
                    elif isinstance(n.op, ast.Sub):
                        out.append((y, sub(a, b)))
                    elif isinstance(n.op, ast.Mult) and (not a[2] or not b[2]):
                        out.append((y, mul(a, b[1]) if not b[2] else mul(b, a[1])))
                    else:
                        out.append((y, ('unk', ast.dump(n)[:80])))
                elif isinstance(n.op, ast.Add) and a[0] == 'list' and b[0] == 'list':
                    y = y.copy()
                    out.append((y, self.make(y, y.lists[a[1]] + y.lists[b[1]])))
                elif a == ('c', None) or b == ('c', None):
                    out.append((y, ('raise', 'TypeError', n.lineno)))
                else:
                    out.append((y, ('unk', ast.dump(n)[:80])))
        return out

    def lazy(self, st, i):
        """decide whether a node is a leaf"""
        d = st.nodes[i]
        if d['nodes'] != 'lazy':
            return [st]
        out = []
        g = d['group']
        for leaf in (True, False):
            if st.leaf.get(g, leaf) != leaf:
                continue
            x = st.copy()
            x.leaf[g] = leaf
            if leaf:
                x.set(i, 'nodes', ('c', None))
            else:
                n = sym(('n', i))
                x.lists[('c', i)] = (('seg', i, 'nodes', ZERO, add(n, ONE)),)
                x.set(i, 'nodes', ('list', ('c', i)))
                x.assume(sub(n, ONE))
            out.append(x)
        return out

    def e_Attribute(self, st, n, fr, depth):
        out = []
        for x, base in self.expr(st, n.value, fr, depth):
            if raised(base):
                out.append((x, base))
            elif base[0] == 'node':
                if n.attr == 'nodes':
                    for y in self.lazy(x, base[1]):
                        out.append((y, y.nodes[base[1]]['nodes']))
                elif n.attr in ('items', '_count'):
                    out.append((x, x.nodes[base[1]][n.attr]))
                elif n.attr == 'minimum_degree':
                    out.append((x, T))
                elif n.attr == '__class__':
                    out.append((x, ('cls',)))
                elif n.attr in x.nodes[base[1]]:
                    out.append((x, x.nodes[base[1]][n.attr]))
                else:
                    out.append((x, ('bm', base, n.attr)))
            elif base[0] == 'gen' and n.attr == '_count':
                out.append((x, sub(sym(('F', base[1], base[4])), sym(('F', base[1], base[3])))))
            elif base[0] == 'list':
                out.append((x, ('lm', base, n.attr)))
            elif base[0] == 'tree':
                out.append((x, x.root if n.attr == 'root' else ('tm', n.attr)))
            elif base == ('c', None):
                out.append((x, ('raise', 'AttributeError', n.lineno)))
            else:
                out.append((x, ('unk', '.' + n.attr)))
        return out

    def e_Subscript(self, st, n, fr, depth):
        out = []
        for x, base in self.expr(st, n.value, fr, depth):
            if raised(base):
                out.append((x, base))
                continue
            if base == ('c', None):
                out.append((x, ('raise', 'TypeError', n.lineno)))
                continue
            if isinstance(n.slice, ast.Slice):
                if base[0] != 'list':
                    raise GiveUp('a slice of something')
                for y, lo, hi in self.bounds(x, base, n.slice, fr, depth):
                    y = y.copy()
                    out.append((y, self.make(y, self.cut(y, y.lists[base[1]], lo, hi))))
                continue
            for y, i in self.expr(x, n.slice, fr, depth):
                if raised(i):
                    out.append((y, i))
                elif base[0] == 'list':
                    for z, j in self.position(y, base, i, n):
                        if raised(j):
                            out.append((z, j))
                        else:
                            z = z.copy()
                            out.append((z, self.at(z, base, j)))
                elif base[0] == 'tup' and is_num(i) and not i[2] and -len(base[1]) <= i[1] < len(base[1]):
                    out.append((y, base[1][i[1]]))
                elif is_num(i) and not i[2]:
                    out.append((y, ('key', base) if i[1] == 0 else ('part', base, i[1])))
                else:
                    out.append((y, ('unk', 'item')))
        return out

    def e_Call(self, st, n, fr, depth):
        if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            raise GiveUp('line %d: arguments' % n.lineno)
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'sum' and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.total(st, n.args[0], fr, depth)
        for x, f in self.expr(st, n.func, fr, depth):
            if raised(f):
                out.append((x, f))
                continue
            work = [(x, ())]
            for a in n.args:
                nxt = []
                for y, vs in work:
                    for z, v in self.expr(y, a, fr, depth):
                        if raised(v):
                            out.append((z, v))
                        else:
                            nxt.append((z, vs + (v,)))
                work = nxt
            for y, vs in work:
                out.extend(self.call(y, f, vs, n, depth))
        return out

    def total(self, st, g, fr, depth):
        if len(g.generators) != 1 or g.generators[0].ifs or not isinstance(g.generators[0].target, ast.Name):
            raise GiveUp('a sum')
        out = []
        for x, it in self.expr(st, g.generators[0].iter, fr, depth):
            t = ZERO
            for piece in self.pieces(x, it):
                y = x.copy()
                y.env[(fr, g.generators[0].target.id)] = piece[1] if piece[0] == 'el' else ('gen',) + piece[1:]
                vs = self.expr(y, g.elt, fr, depth)
                if len(vs) != 1 or not is_num(vs[0][1]):
                    raise GiveUp('a sum')
                if piece[0] == 'seg' and not self.sums(vs[0][1], piece):
                    raise GiveUp('a sum')
                t = add(t, vs[0][1])
            out.append((x, t))
        return out

    def call(self, st, f, args, n, depth):
        k = f[0]
        if k == 'fn':
            return self.unroll(self.call_function(st, f[1], list(args), f[2], depth + 1))
        if k == 'cls':
            st = st.copy()
            i = st.new()
            st.nodes[i] = {'group': ('own', i), 'new': True}
            init = self.method('__init__')
            if init is None:
                raise GiveUp('no __init__')
            out = []
            for x, kind, v in self.call_function(st, init, [('node', i)], None, depth + 1):
                out.append((x, v if kind == 'x' else ('node', i)))
            return out
        if k == 'bm':
            return self.node_call(st, f[1], f[2], args, n, depth)
        if k == 'tm':
            fn = self.tree_method(f[1])
            if fn is None:
                raise GiveUp('call of ' + f[1])
            return self.unroll(self.call_function(st, fn, [('tree',)] + list(args), None, depth + 1))
        if k == 'lm':
            return self.list_call(st, f[1], f[2], args, n)
        if k == 'global':
            if f[1] == 'len' and len(args) == 1:
                if args[0][0] in ('list', 'tup'):
                    return [(st, length(self.pieces(st, args[0])))]
                if args[0][0] == 'node':
                    return [(st, st.nodes[args[0][1]]['_count'])]
                if args[0] == ('c', None):
                    return [(st, ('raise', 'TypeError', n.lineno))]
            if f[1] == 'list' and len(args) <= 1:
                st = st.copy()
                return [(st, self.make(st, self.pieces(st, args[0]) if args else ()))]
            if f[1] in ('isinstance', 'str', 'repr', 'hasattr'):
                return [(st, ('unk', f[1] + repr(args)[:80]))]
            fn = self.function(f[1])
            if fn is not None:
                return self.unroll(self.call_function(st, fn, list(args), None, depth + 1))
        raise GiveUp('line %d: a call' % n.lineno)

    def unroll(self, outs):
        return [(s, v) for s, k, v in outs]

    def method(self, name):
        f = self.p.lookup(self.cls, name)
        return f[1].node if f and hasattr(f[1], 'node') and isinstance(f[1].node, ast.FunctionDef) else None

    def tree_method(self, name):
        f = self.p.lookup(self.cls.rpartition('.')[0] + '.BTree', name)
        return f[1].node if f and hasattr(f[1], 'node') and isinstance(f[1].node, ast.FunctionDef) else None

    def function(self, name):
        f = self.p.funcs.get(self.cls.rpartition('.')[0] + '.' + name)
        return f.node if f is not None and isinstance(f.node, ast.FunctionDef) else None

    def node_call(self, st, base, name, args, n, depth):
        if name.startswith('_p_'):
            return [(st, ('c', None))]
        m = self.opaque.get(name)
        if m is not None:
            return m(self, st.copy(), base[1], args, n)
        fn = self.method(name)
        if fn is None:
            raise GiveUp('call of ' + name)
        return self.unroll(self.call_function(st, fn, [base] + list(args), None, depth + 1))

    def list_call(self, st, base, name, args, n):
        st = st.copy()
        ps = st.lists[base[1]]
        if name == 'append' and len(args) == 1:
            st.lists[base[1]] = ps + (('el', args[0]),)
            return [(st, ('c', None))]
        if name == 'extend' and len(args) == 1:
            st.lists[base[1]] = ps + self.pieces(st, args[0])
            return [(st, ('c', None))]
        if name == 'copy' and not args:
            return [(st, self.make(st, ps))]
        if name == 'clear' and not args:
            st.lists[base[1]] = ()
            return [(st, ('c', None))]
        if name == 'insert' and len(args) == 2 and is_num(args[0]):
            size = length(ps)
            out = []
            for x, t in self.fork(st, args[0]):
                i = args[0] if t else add(size, args[0])
                if x.decide(i) is not True or x.decide(sub(size, i)) is not True:
                    if x.decide(sub(i, size)) is True:
                        i = size
                    else:
                        raise GiveUp('the position of an insertion')
                x = x.copy()
                x.lists[base[1]] = self.cut(x, ps, ZERO, i) + (('el', args[1]),) + self.cut(x, ps, i, size)
                out.append((x, ('c', None)))
            return out
        if name == 'pop' and len(args) <= 1:
            out = []
            for x, j in self.position(st, base, args[0] if args else num(-1), n):
                if raised(j):
                    out.append((x, j))
                    continue
                x = x.copy()
                v = self.at(x, base, j)
                ps = x.lists[base[1]]
                x.lists[base[1]] = self.cut(x, ps, ZERO, j) + self.cut(x, ps, add(j, ONE), length(ps))
                out.append((x, v))
            return out
        raise GiveUp('line %d: .%s of a list' % (n.lineno, name))

    # ---- conditions: [(st, bool)]
    def cond(self, st, n, fr, depth):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(x, t if raised(t) else not t) for x, t in self.cond(st, n.operand, fr, depth)]
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            work, out = [st], []
            for k, v in enumerate(n.values):
                nxt = []
                for x in work:
                    for y, t in self.cond(x, v, fr, depth):
                        if raised(t) or t != is_and or k == len(n.values) - 1:
                            out.append((y, t))
                        else:
                            nxt.append(y)
                work = nxt
            return out
        if isinstance(n, ast.Compare):
            if len(n.ops) > 1:
                vals = [n.left] + n.comparators
                parts = [ast.copy_location(ast.Compare(vals[k], [n.ops[k]], [vals[k + 1]]), n)
                         for k in range(len(n.ops))]
                return self.cond(st, ast.copy_location(ast.BoolOp(ast.And(), parts), n), fr, depth)
            out = []
            for x, a in self.expr(st, n.left, fr, depth):
                if raised(a):
                    out.append((x, a))
                    continue
                for y, b in self.expr(x, n.comparators[0], fr, depth):
                    out.extend([(y, b)] if raised(b) else self.compare(y, type(n.ops[0]).__name__, a, b, n))
            return out
        out = []
        for x, v in self.expr(st, n, fr, depth):
            out.extend([(x, v)] if raised(v) else self.truth(x, v, n))
        return out

    def truth(self, st, v, n):
        if v[0] == 'c':
            return [(st, bool(v[1]))]
        if v[0] == 'list':
            return self.nonempty(st, v)
        if v[0] == 'tup':
            return [(st, bool(v[1]))]
        if is_num(v):
            out = []
            for x, t in self.fork(st, v):
                if not t:
                    out.append((x, True))
                else:
                    out.extend(self.fork(x, sub(v, ONE)))
            return out
        if v[0] in ('node', 'gen'):
            self.report(n, 'whether a node exists is decided by whether it is empty')
            return [(st, True)]
        if v[0] in ('bm', 'fn', 'cls', 'tree', 'lm'):
            return [(st, True)]
        return self.atom(st, ('truth', v))

    def nonempty(self, st, v):
        ps = st.lists[v[1]]
        n = length(ps)
        d = st.decide(sub(n, ONE))
        if d is not None:
            return [(st, d)]
        a, b = st.copy(), st.copy()
        a.assume(sub(n, ONE))
        for x in ps:
            if x[0] == 'seg':
                self.equal(b, x[3], x[4])
        return [(a, True), (b, False)]

    def equal(self, st, a, b):
        """substitute what follows from a == b"""
        e = sub(a, b)
        if not e[2]:
            return
        for s, c in e[2]:
            if abs(c) == 1:
                v = mul(add(e, sym(s), -c), -c)
                substitute(st, s, v)
                return
        raise GiveUp('an equation')

    def atom(self, st, key):
        if key in st.atoms:
            return [(st, st.atoms[key])]
        out = []
        for t in (True, False):
            x = st.copy()
            x.atoms[key] = t
            out.append((x, t))
        return out

    def compare(self, st, op, a, b, n):
        if op in ('Is', 'IsNot'):
            same = a == b
            if a[0] == 'unk' or b[0] == 'unk':
                r = self.atom(st, ('is', a, b))
            else:
                r = [(st, same)]
            return [(x, t if op == 'Is' else not t) for x, t in r]
        if is_num(a) and is_num(b):
            d = sub(a, b)
            if op == 'GtE':
                return self.fork(st, d)
            if op == 'Lt':
                return [(x, not t) for x, t in self.fork(st, d)]
            if op == 'LtE':
                return self.fork(st, mul(d, -1))
            if op == 'Gt':
                return [(x, not t) for x, t in self.fork(st, mul(d, -1))]
            out = []
            for x, t in self.fork(st, d):
                if not t:
                    out.append((x, False))
                    continue
                out.extend(self.fork(x, mul(d, -1)))
            return [(x, t if op == 'Eq' else not t) for x, t in out]
        if op in ('Eq', 'NotEq'):
            if (a[0] == 'c') and (b[0] == 'c'):
                r = [(st, a == b)]
            else:
                x, y = sorted((a, b), key=repr)
                r = []
                for s, t in self.atom(st, ('eq', x, y)):
                    r.append((s, t))
            return [(x, t if op == 'Eq' else not t) for x, t in r]
        if op in ('Lt', 'Gt', 'LtE', 'GtE'):
            if op in ('Gt', 'LtE'):
                a, b = b, a
            # now Lt: a < b ; LtE became  not a < b
            r = []
            if op in ('Lt', 'Gt'):
                r = self.less(st, a, b)
                return r
            return [(x, not t) for x, t in self.less(st, a, b)]
        return self.atom(st, (op, a, b))

    def less(self, st, a, b):
        x, y = sorted((a, b), key=repr)
        if st.atoms.get(('eq', x, y)) is True:
            return [(st, False)]
        if st.atoms.get(('lt', b, a)) is True:
            return [(st, False)]
        if st.atoms.get(('lt', b, a)) is False and st.atoms.get(('eq', x, y)) is False:
            return [(st, True)]
        return self.atom(st, ('lt', a, b))


class Raised(Exception):
    pass


def raised(v):
    return isinstance(v, tuple) and bool(v) and v[0] == 'raise'


def load(t):
    c = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(c):
        ast.copy_location(x, t)
    return c


def replace(v, s, e):
    if is_num(v):
        d = dict(v[2])
        c = d.pop(s, 0)
        new = ('L', v[1], tuple((k, x) for k, x in v[2] if k != s))
        # symbols can hold expressions
        out = ('L', new[1], ())
        for k, x in new[2]:
            out = add(out, ('L', 0, ((replace(k, s, e) if isinstance(k, tuple) else k, x),)))
        return add(out, e, c)
    if isinstance(v, tuple):
        return tuple(replace(x, s, e) for x in v)
    return v


def substitute(st, s, e):
    st.lists = {k: replace(v, s, e) for k, v in st.lists.items()}
    st.nodes = {k: {a: replace(b, s, e) for a, b in d.items()} for k, d in st.nodes.items()}
    st.facts = tuple(replace(f, s, e) for f in st.facts)
    st.atoms = {replace(k, s, e): v for k, v in st.atoms.items()}
    st.env = {k: replace(v, s, e) for k, v in st.env.items()}
    st.kids = {replace(k, s, e): v for k, v in st.kids.items()}
    st.log = replace(st.log, s, e)
    st.root = replace(st.root, s, e)


# ---- in-order contents
class Bad(Exception):
    """the lists of a node do not fit together"""


def first(st, i):
    """the tokens of the first contents of a node"""
    d = st.nodes[i]
    if d.get('new'):
        return []
    n = subst_n(st, i)
    if st.leaf.get(d['group']) is not False:
        # a leaf, or never looked into
        if d['nodes'] == 'lazy' and st.leaf.get(d['group']) is None:
            return [('whole', i)]
        return [('leaf', i, ZERO, n)]
    kids = [(k[1], c) for k, c in st.kids.items() if k[0] == i]
    order = []
    for idx, c in kids:
        at = 0
        for at in range(len(order) + 1):
            if at == len(order):
                break
            dd = sub(order[at][0], idx)
            if st.holds(dd):
                break
            if not st.holds(mul(dd, -1)):
                raise GiveUp('two children that cannot be compared')
        order.insert(at, (idx, c))
    out, at = [], ZERO
    for idx, c in order:
        out.append(('lin', i, at, mul(idx, 2)))
        out.extend(first(st, c))
        at = add(mul(idx, 2), ONE)
    out.append(('lin', i, at, add(mul(n, 2), ONE)))
    return out


def subst_n(st, i):
    """the first number of items of a node, after substitutions"""
    v = st.nodes[i].get('n0')
    return v if v is not None else sym(('n', i))


def item_tokens(st, v):
    if v[0] == 'item':
        if st.leaf.get(st.nodes[v[1]]['group']) is False:
            a = add(mul(v[2], 2), ONE)
            return [('lin', v[1], a, add(a, ONE))]
        return [('leaf', v[1], v[2], add(v[2], ONE))]
    return [('el', v)]


def inorder(st, i):
    d = st.nodes[i]
    if d['nodes'] == 'lazy':
        g = st.leaf.get(d['group'])
        if g is None:
            return [('whole', i)] if d['items'] == ('list', ('i', i)) and \
                st.lists[('i', i)] == (('seg', i, 'items', ZERO, subst_n(st, i)),) else \
                leaf_tokens(st, d)
        if g:
            return leaf_tokens(st, d)
        return zipped(st, st.lists[d['items'][1]], (('seg', i, 'nodes', ZERO, add(subst_n(st, i), ONE)),))
    if d['nodes'] == ('c', None):
        return leaf_tokens(st, d)
    if d['items'][0] != 'list' or d['nodes'][0] != 'list':
        raise Bad('the items or nodes are not a list')
    return zipped(st, st.lists[d['items'][1]], st.lists[d['nodes'][1]])


def leaf_tokens(st, d):
    if d['items'][0] != 'list':
        raise Bad('the items are not a list')
    out = []
    for x in st.lists[d['items'][1]]:
        if x[0] == 'seg':
            if x[2] != 'items':
                raise Bad('nodes are among the items')
            if st.leaf.get(st.nodes[x[1]]['group']) is False:
                raise Bad('items of an inner node are in a leaf')
            out.append(('leaf', x[1], x[3], x[4]))
        elif x[0] == 'opq':
            out.append(('sub',) + x[4])
        else:
            out.extend(item_tokens(st, x[1]))
    return out


def zipped(st, items, nodes):
    I, C = list(items), list(nodes)
    if len(I) == len(C) == 1 and I[0][0] == C[0][0] == 'opq' and I[0][1] == C[0][1]:
        return [('sub',) + I[0][4]]
    if any(x[0] == 'opq' for x in I + C):
        if not st.zero(sub(sub(length(C), length(I)), ONE)):
            raise Bad('the number of children is not one above the number of items')
        raise GiveUp('an unknown list')
    out = []
    want = 'node'

    def size(x):
        return sub(x[4], x[3])
    while True:
        while I and I[0][0] == 'seg' and st.zero(size(I[0])):
            I.pop(0)
        while C and C[0][0] == 'seg' and st.zero(size(C[0])):
            C.pop(0)
        if want == 'item' and not I and not C:
            return out
        a, b = (C, I) if want == 'node' else (I, C)
        if not a:
            raise Bad('the number of children is not one above the number of items')
        x = a[0]
        off = 0 if want == 'node' else 1
        if x[0] == 'el':
            a.pop(0)
            if want == 'node':
                if x[1][0] != 'node':
                    raise Bad('a child that is not a node')
                out.extend(inorder(st, x[1][1]))
            else:
                out.extend(item_tokens(st, x[1]))
            want = 'item' if want == 'node' else 'node'
            continue
        if x[2] != ('nodes' if want == 'node' else 'items'):
            raise Bad('nodes and items are mixed')
        y = b[0] if b else None
        if y is not None and y[0] == 'seg' and y[1] == x[1] and sub(y[3], x[3]) == num(off):
            # the same stretch of both lists
            n, m = size(x), size(y)
            d = sub(n, m)
            if st.zero(d):
                k = n
            elif st.holds(d):
                k = m
            elif st.holds(mul(d, -1)):
                k = n
            else:
                raise GiveUp('two stretches that cannot be compared')
            if not st.zero(k):
                lo = add(mul(x[3], 2), num(off))
                out.append(('lin', x[1], lo, add(lo, mul(k, 2))))
                a[0] = x[:3] + (add(x[3], k), x[4])
                b[0] = y[:3] + (add(y[3], k), y[4])
                continue
        # one element of the stretch
        if not st.holds(sub(size(x), ONE)):
            if st.decide(sub(size(x), ONE)) is None:
                raise Bad('the items and children of a node do not fit together')
            raise Bad('the number of children is not one above the number of items')
        if x[2] == 'nodes':
            c = st.kids.get((x[1], x[3]))
            if c is not None:
                out.extend(inorder(st, c))
            else:
                out.append(('lin', x[1], mul(x[3], 2), add(mul(x[3], 2), ONE)))
        else:
            out.extend(item_tokens(st, ('item', x[1], x[3])))
        a[0] = x[:3] + (add(x[3], ONE), x[4])
        want = 'item' if want == 'node' else 'node'


def canon(st, toks):
    out = []
    for x in toks:
        if x[0] == 'whole':
            # looked into meanwhile
            d = st.nodes[x[1]]
            g = st.leaf.get(d['group'])
            if g is not None:
                x = ('leaf', x[1], ZERO, subst_n(st, x[1])) if g else \
                    ('lin', x[1], ZERO, add(mul(subst_n(st, x[1]), 2), ONE))
        if x[0] in ('lin', 'leaf'):
            if st.zero(sub(x[3], x[2])):
                continue
            if out and out[-1][:2] == x[:2] and st.zero(sub(out[-1][3], x[2])):
                out[-1] = x[:2] + (out[-1][2], x[3])
                continue
        if x[0] == 'sub':
            x = ('sub', x[1], x[2], tuple(canon(st, x[3])))
        out.append(x)
    # the greatest item taken out of a node and put behind it, or the least before it
    k = 0
    while k < len(out):
        x = out[k]
        if x[0] == 'sub' and x[1] == 'delete':
            if x[2][0] == 'key' and x[2][1][0] == 'max' and k + 1 < len(out) and \
                    out[k + 1] == ('el', x[2][1]) and ends(st, x[2][1], x[3]):
                return canon(st, out[:k] + list(x[3]) + out[k + 2:])
            if x[2][0] == 'key' and x[2][1][0] == 'min' and k and out[k - 1] == ('el', x[2][1]) \
                    and ends(st, x[2][1], x[3]):
                return canon(st, out[:k - 1] + list(x[3]) + out[k + 1:])
        k += 1
    return out


def ends(st, v, pre):
    return tuple(canon(st, v[2])) == tuple(pre)


def measure(st, toks):
    """the number of items"""
    n = ZERO
    for x in toks:
        if x[0] == 'leaf':
            n = add(n, sub(x[3], x[2]))
        elif x[0] == 'lin':
            a0, a1 = halves(x[2])
            b0, b1 = halves(x[3])
            n = add(n, sub(b0, a0))
            n = add(n, sub(sym(('F', x[1], b1)), sym(('F', x[1], a1))))
        elif x[0] == 'whole':
            n = add(n, sym(('K', x[1])))
        elif x[0] == 'sub':
            n = add(n, measure(st, x[3]))
            n = add(n, num(-1) if x[1] == 'delete' else sym(('D', x[2])))
        else:
            n = add(n, ONE)
    return prefix(n)


def prefix(n):
    out = ('L', n[1], ())
    for s, c in n[2]:
        if isinstance(s, tuple) and s[0] == 'F' and s[2] == ZERO:
            continue
        out = add(out, ('L', 0, ((s, c),)))
    return out


def halves(e):
    """floor and ceiling of half of a linear position"""
    if any(c % 2 for s, c in e[2]):
        raise GiveUp('half a position')
    low = ('L', e[1] // 2, tuple((s, c // 2) for s, c in e[2]))
    high = ('L', -(-e[1] // 2), low[2])
    return low, high


def counted(st, v):
    """a count with the first counts of nodes written out"""
    if not is_num(v):
        return None
    for _ in range(20):
        for s, c in v[2]:
            if isinstance(s, tuple) and s[0] == 'K':
                t = first(st, s[1])
                if t == [('whole', s[1])]:
                    continue
                v = add(sub(v, ('L', 0, ((s, c),))), measure(st, t), c)
                break
        else:
            return prefix(v)
    raise GiveUp('a count')
