"""The methods of the compact arrays of durus.utils are followed path by path, each class
against the one that it is built on.  Positions, sizes and indexes are polynomials over the
symbols of the method; the conditions of a path are inequalities between them.  An access
must be at the place of its index (byte, word, bit), within the array by the conditions of
its path, with the position of the file set since the file was last left to others; an
index is refused only on paths whose conditions exclude every index of the array.  What is
decoded must be what was encoded: the padding of a number, the mask of a bit, the blank
word.  IntSet makes room for a number before it sets its bit."""
TECHNIQUE = 'path-sensitive dataflow analysis with polynomials over sizes and indexes'

from .. import engine
from ..engine import NONE, TRUE, FALSE, const, contains
from ..model import Func
from .common import mname
from .files import FileObs

U = 'durus.utils.'
BYTES, BITS, WORDS, INTS, SET = (U + x for x in ('ByteArray', 'BitArray', 'WordArray', 'IntArray', 'IntSet'))
ITEMS = ('__getitem__', '__setitem__', '__getslice__', '__setslice__', '__len__', '__iter__',
         '__init__', 'set_size', 'gen_set_size', 'get_size', 'generate', 'get_bytes_per_word')
BELOW = {BYTES: (), BITS: (BYTES,), WORDS: (BYTES,), INTS: (WORDS,), SET: (BITS,)}


# ---- polynomials: {(atom, ...): factor}
def plus(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
    return {m: c for m, c in out.items() if c}


def times(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=repr))
            out[x] = out.get(x, 0) + c * d
    return {m: c for m, c in out.items() if c}


def number(n):
    return {(): n} if n else {}


def atom(t):
    return {(t,): 1}


def integer(v):
    return v[0] == 'c' and v[1] == 'int'


def parts(v):
    """(what, by, 'q' or 'r') of a division with remainder by a number"""
    if v[0] == 'item' and v[1][0] == 'call' and mname(v[1]) == 'divmod' and len(v[1][2]) == 2 and \
            v[2] in (const(0), const(1)) and integer(v[1][2][1]):
        return v[1][2][0], v[1][2][1][2], 'qr'[v[2][2]]
    if v[0] == 'op' and len(v[2]) == 2 and integer(v[2][1]):
        a, n = v[2][0], v[2][1][2]
        if v[1] == 'FloorDiv' and n > 0:
            return a, n, 'q'
        if v[1] == 'RShift' and 0 <= n < 10:
            return a, 1 << n, 'q'
        if v[1] == 'Mod' and n > 0:
            return a, n, 'r'
        if v[1] == 'BitAnd' and n > 0 and n & (n + 1) == 0:
            return a, n + 1, 'r'
    return None


class Math:
    def __init__(self):
        self.seen = {}          # atoms with relations of their own

    def poly(self, v):
        if v[0] == 'c' and v[1] in ('int', 'bool'):
            return number(int(v[2]))
        d = parts(v)
        if d is not None:
            a, n, which = d
            p = self.poly(a)
            key = frozenset(p.items())
            q, r = ('q', key, n), ('r', key, n)
            if q not in self.seen:
                e = plus(plus(p, times(number(n), atom(q)), -1), atom(r), -1)
                self.seen[q] = [e, times(e, number(-1)), atom(r), plus(number(n - 1), atom(r), -1)]
            return atom(q if which == 'q' else r)
        if v[0] == 'op' and len(v[2]) == 2 and v[1] in ('Add', 'Sub', 'Mult'):
            a, b = self.poly(v[2][0]), self.poly(v[2][1])
            if v[1] == 'Mult':
                return times(a, b) if v[2][1][0] != 'c' or v[2][1][1] == 'int' else atom(v)
            return plus(a, b, 1 if v[1] == 'Add' else -1)
        if v[0] == 'op' and v[1] == 'LShift' and len(v[2]) == 2 and integer(v[2][1]):
            return times(self.poly(v[2][0]), number(1 << v[2][1][2]))
        if v[0] == 'op' and v[1] == 'USub' and len(v[2]) == 1:
            return times(self.poly(v[2][0]), number(-1))
        if v[0] == 'call' and mname(v) == 'max' and len(v[2]) > 1:
            if v not in self.seen:
                self.seen[v] = []
                self.seen[v] = [plus(atom(v), self.poly(x), -1) for x in v[2]]
        elif v[0] == 'call' and mname(v) == 'int' and len(v[2]) == 1:
            x = v[2][0]
            if x[0] == 'op' and x[1] == 'Mult' and len(x[2]) == 2:
                for n, f in (x[2], x[2][::-1]):
                    if f[0] == 'c' and f[1] == 'float' and f[2] >= 1:
                        self.seen.setdefault(v, [plus(atom(v), self.poly(n), -1)])   # of n >= 0
            elif x[0] != 'c':
                return self.poly(x)
        elif v[0] == 'call' and mname(v) == 'len' and len(v[2]) == 1:
            return self.length(v[2][0])
        elif v[0] == 'call' and mname(v) == 'get_bytes_per_word':
            return atom(('width',))
        elif v[0] == 'elem' or v[0] == 'call' and mname(v) == 'next':
            self.element(v)
        return atom(v)

    def element(self, v):
        """of a range"""
        it = v[1] if len(v) > 1 else None
        if isinstance(it, tuple) and it[0] == 'call' and mname(it) in ('range', 'xrange') and v not in self.seen:
            self.seen[v] = []
            a = it[2]
            lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) < 3:
                self.seen[v] = [plus(atom(v), self.poly(lo), -1),
                                plus(plus(self.poly(hi), atom(v), -1), number(-1))]

    def length(self, v):
        if v[0] == 'c' and v[1] in ('bytes', 'str'):
            return number(len(v[2]))
        if v[0] == 'op' and v[1] == 'Mult' and len(v[2]) == 2:
            for a, b in (v[2], v[2][::-1]):
                if a[0] == 'c' and a[1] == 'bytes':
                    return times(number(len(a[2])), self.poly(b))
        if v[0] == 'op' and v[1] == 'Add':
            return plus(self.length(v[2][0]), self.length(v[2][1]))
        return atom(('len', v))

    def facts(self, facts):
        out = []
        for a, yes in facts.items():
            if a[0] == '<':
                d = plus(self.poly(a[2]), self.poly(a[1]), -1)
                out.append(plus(d, number(-1)) if yes else times(d, number(-1)))
            elif a[0] == '==' and yes and not (a[1][0] == 'c' and a[1][1] not in ('int', 'bool')):
                d = plus(self.poly(a[2]), self.poly(a[1]), -1)
                out += [d, times(d, number(-1))]
            elif a[0] == 'truth' and not yes:
                d = self.poly(a[1])
                out += [d, times(d, number(-1))]
            elif a[0] == 'truth' or a[0] == '==' and not yes:
                d = self.poly(a[1]) if a[0] == 'truth' else plus(self.poly(a[2]), self.poly(a[1]), -1)
                if len(d) == 1 and list(d)[0] and list(d)[0][0][0] == 'r' and list(d.values()) == [1]:
                    out.append(plus(d, number(-1)))     # a remainder that is not zero
        return out

    def differs(self, d, facts):
        """a condition says that this is not zero"""
        for a, yes in facts.items():
            if a[0] == '==' and not yes:
                x = plus(self.poly(a[2]), self.poly(a[1]), -1)
                if x == d or x == times(d, number(-1)):
                    return True
        return False

    def holds(self, e, facts):
        """e >= 0 follows from up to four of the inequalities"""
        def settled(e):
            return all(m == () for m in e)
        if settled(e):
            return e.get((), 0) >= 0
        todo, done = [e], set()
        for depth in range(4):
            nxt = []
            for x in todo:
                ms = {m for m in x if m}
                fs = facts + [f for t, r in self.seen.items() for f in r]
                for f in fs:
                    if not any(m in ms and (f[m] > 0) == (x[m] > 0) for m in f if m) and ms:
                        continue
                    y = plus(x, f, -1)
                    if settled(y):
                        if y.get((), 0) >= 0:
                            return True
                        continue
                    k = frozenset(y.items())
                    if k not in done and len(y) <= 6 and depth < 3:
                        done.add(k)
                        nxt.append(y)
            todo = nxt[:400]
        return False

    def absurd(self, facts):
        """the inequalities exclude each other"""
        for f in facts:
            if set(f) <= {()} and f.get((), 0) < 0:
                return True
        # -1 >= 0 follows: some fact f, and -f - 1 >= 0 from the others
        return any(self.holds(plus(times(f, number(-1)), number(-1)), [g for g in facts if g is not f])
                   for f in facts if not set(f) <= {()})


def odd(st):
    """a path on which a number is a slice"""
    return any(yes and a[0] == 'isinst' and a[2] == 'builtins.slice' and
               not (a[1][0] == 'sym' and a[1][2] == 'slice')
               for a, yes in st.facts.items())


class Arr(FileObs):
    opaque_prefixes = ('durus.logger.',)
    opaque_names = (U + 'int8_to_str', U + 'str_to_int8')

    def __init__(self, cls):
        FileObs.__init__(self)
        self.cls, self.math, self.n = cls, Math(), 0
        self.opaque_names = Arr.opaque_names + tuple(
            c + '.' + n for c in BELOW[cls] for n in ITEMS) + \
            ((cls + '.set_size', cls + '.gen_set_size') if cls == BYTES else ())
        self.yields = None

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == U + 'as_bytes' and len(args) == 1:
            v = args[0]
            if v[0] == 'c' and v[1] == 'str':
                v = const(v[2].encode('latin1'))
            return [(st, v)]
        if qual == U + 'read' and len(args) == 2:       # all of it, or an exception
            raw = st.heap.get((args[0], 'file'), args[0])
            if not self.is_raw(i, raw):
                raw = ('attr', args[0], 'file', 0)
            if self.is_raw(i, raw):
                return i.opaque_call(st, '.read', raw, [args[1]], {}, node, cx)
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def access(self, st, *a):
        st.obs['acc'] = st.obs.get('acc', ())[-2:] + (a,)

    def before(self, i, st, n, raw, args, node):
        if n in ('read', 'write') and args and self.cls == BYTES:
            self.n += 1
            m, pos = self.math, st.obs.get(('pos', raw))
            if pos is None or pos == 'end':
                self.report(i, node, 'the file is %s wherever its position happens to be' % (
                    'read' if n == 'read' else 'written'))
                return
            x = plus(m.poly(pos[1]), m.poly(('attr', ('sym', 'self', BYTES), 'start', 0)), -1)
            size = m.poly(('attr', ('sym', 'self', BYTES), 'size', 0))
            count = m.poly(args[0]) if n == 'read' else m.length(args[0])
            st.obs['at'] = (tuple(sorted(x.items(), key=repr)), tuple(sorted(count.items(), key=repr)))
            facts = m.facts(st.facts)
            if not odd(st) and not m.absurd(facts) and not (
                    m.holds(x, facts) and m.holds(plus(plus(size, x, -1), count, -1), facts)):
                self.report(i, node, 'the %s is not known to stay within the array' % n)

    def op(self, i, st, n, raw, args, result, node):
        if self.cls == WORDS and n in ('read', 'write', 'seek'):
            st.obs['raw'] = st.obs.get('raw', ())[-5:] + ((n, args[0] if args else None, result),)
        if n in ('read', 'write') and st.obs.get('at'):
            x, count = st.obs.pop('at')
            self.access(st, n, x, count, args[0] if args else None, result)

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        if ev[0] == 'called' and isinstance(ev[1], str) and ev[1].startswith(U):
            c, _, n = ev[1].rpartition('.')
            if c == BYTES and n in ('__init__', 'gen_set_size', 'set_size') and self.cls == WORDS:
                st.obs['raw'] = st.obs.get('raw', ())[-5:] + ((n, ev[3], ev[4]),)
            if c in BELOW[self.cls] or c == self.cls:
                self.access(st, c.rpartition('.')[2] + '.' + n, ev[2], ev[3], dict(ev[4] or ()) if not
                            isinstance(ev[4], tuple) else ev[4], ev[5])
        elif ev[0] == 'yield':
            self.n += 1
            if self.yields is not None and not odd(st):
                self.yields(i, st, ev[1], node)
            for k in [k for k in st.obs if isinstance(k, tuple) and k[0] == 'pos']:
                st.obs[k] = None        # the file is left to others
            st.obs.pop('acc', None)


class Rules:
    def __init__(self, check):
        self.check, self.p = check, check.p

    def me(self, cls, name=None):
        v = ('sym', 'self', cls)
        return v if name is None else ('attr', v, name, 0)

    def entry(self, cls, name, judge, yields=None, **args):
        f = self.p.funcs.get(cls + '.' + name)
        if f is None:
            return
        o = Arr(cls)
        o.yields = yields and (lambda i, st, v, node: yields(o, i, st, v, node))
        names = [a.arg for a in f.node.args.args]
        if 'staticmethod' not in f.deco:
            names = names[1:]
        args = dict(zip(names, args.values()))
        outs = self.check.run(cls.rpartition('.')[2], o, f.qual, args=args)
        n = 0
        for out in outs or ():
            facts = o.math.facts(out.st.facts)
            if odd(out.st) or o.math.absurd(facts):
                continue
            n += 1
            msg = judge(o.math, facts, out) if judge else None
            if msg and out.val is not None and out.kind == 'r' and contains(out.val, lambda t: t == ('deep',)):
                continue            # a value that is not followed
            if msg:
                self.check.finding(cls.rpartition('.')[2], f, None, msg)
        self.check.oblige(cls.rpartition('.')[2], n + o.n)

    @staticmethod
    def raises(out, *names):
        if out.kind != 'x' or out.val.kind != 'exc':
            return False
        v = out.val.val
        return isinstance(v, tuple) and len(v) > 1 and v[0] == 'exc' and \
            str(v[1]).rpartition('.')[2] in names

    def refused(self, m, facts, inside):
        """no index that is refused is one of the array"""
        return None if m.absurd(facts + inside) else 'an index of the array is refused'

    # ---- bytes
    def bytes(self):
        cls = BYTES
        size = self.me(cls, 'size')
        for name, slices in (('__getitem__', False), ('__getitem__', True), ('__getslice__', True),
                             ('__setitem__', False), ('__setitem__', True), ('__setslice__', True)):
            writes = name.startswith('__set')
            v = ('sym', 'v', 'bytes')
            j, k = ('sym', 'j', 'int'), ('sym', 'k', 'int')
            if slices and name.endswith('item__'):
                args = dict(j=('slice', j, k, NONE))
                args = dict(j=('sym', 'j', 'slice'))
                lo, hi = ('attr', args['j'], 'start', 0), ('attr', args['j'], 'stop', 0)
            elif slices:
                args, lo, hi = dict(j=j, k=k), j, k
            else:
                args, lo, hi = dict(j=j), j, None
            if writes:
                args['v'] = v

            def judge(m, facts, out):
                x = m.poly(lo)
                count = plus(m.poly(hi), x, -1) if hi is not None else number(1)
                inside = [x, plus(plus(m.poly(size), x, -1), count, -1), plus(count, number(-1))]
                is_slice = out.st.facts.get(('isinst', j, 'builtins.slice'))
                if hi is None and is_slice or hi is not None and name.endswith('item__') and \
                        out.st.facts.get(('isinst', args['j'], 'builtins.slice')) is False:
                    return None
                acc = [a for a in out.st.obs.get('acc', ()) if a[0] in ('read', 'write')]
                if out.kind == 'x':
                    if self.raises(out, 'IndexError'):
                        if hi is not None and name.endswith('item__') and not self.stepless(out, args['j']):
                            return None
                        return self.refused(m, facts, inside)
                    if self.raises(out, 'ValueError') and writes:
                        d = plus(m.length(v), count, -1)
                        if not m.differs(d, out.st.facts) and \
                                not m.absurd(facts + inside + [d, times(d, number(-1))]):
                            return 'bytes of the right length are refused'
                    return None
                if len(acc) != 1 or acc[0][0] != ('write' if writes else 'read'):
                    return 'not one access to the file'
                _, at, n, what, result = acc[0]
                if dict(at) != x:
                    return 'the access is not at the place of the index'
                if writes:
                    d = plus(m.length(v), count, -1)
                    if what != v:
                        return 'what is written is not what was given'
                    if not m.holds(d, facts) or not m.holds(times(d, number(-1)), facts):
                        return 'bytes of another length than the part they replace are written'
                else:
                    if dict(n) != count:
                        return 'the access is not of the size asked for'
                    if out.val != result:
                        return 'what is returned is not what was read'
            self.entry(cls, name, judge, **args)

        def yields(o, i, st, v, node):
            acc = st.obs.get('acc', ())
            if not acc or acc[-1][0] != 'read' or acc[-1][4] != v or dict(acc[-1][2]) != number(1):
                o.report(i, node, 'what is yielded is not the byte read for it')
            elif not any(len(mo) == 1 and mo[0][0] == 'elem' and c == 1 for mo, c in acc[-1][1]) or \
                    len(acc[-1][1]) != 1:
                if any(mo for mo, c in acc[-1][1]) and not self.counter(acc[-1][1]):
                    o.report(i, node, 'the bytes are not read one after the other')
        self.entry(cls, '__iter__', None, yields)
        self.simple(cls, '__len__', size)
        self.simple(cls, 'get_size', size)

    @staticmethod
    def counter(x):
        """something that a loop counts"""
        return any(contains(a, lambda t: t == ('deep',) or t[0] in ('old', 'sym') and isinstance(t[1], tuple))
                   for mo, c in x for a in mo)

    @staticmethod
    def stepless(out, j):
        step = ('attr', j, 'step', 0)
        f = out.st.facts
        return f.get(('is', step, NONE)) is True or f.get(('==', step, const(1))) is True or \
            f.get(('==', const(1), step)) is True

    def simple(self, cls, name, want):
        def judge(m, facts, out):
            if out.kind == 'r' and m.poly(out.val) != m.poly(want):
                return 'not the size of the array'
        self.entry(cls, name, judge)

    # ---- words
    def place(self, m, a, below):
        """(index, count) of an access through an array of bytes"""
        name = a[0].partition('.')[2]
        args = a[2]
        if name in ('__getitem__', '__setitem__') and args and args[0][0] in ('slice', 'slicer'):
            lo, hi, step = args[0][1:4]
            if step not in (NONE, const(1)):
                return None
            lo = number(0) if lo == NONE else m.poly(lo)
            return lo, plus(m.poly(hi), lo, -1)
        if name in ('__getslice__', '__setslice__') and len(args) > 1:
            return m.poly(args[0]), plus(m.poly(args[1]), m.poly(args[0]), -1)
        if name in ('__getitem__', '__setitem__') and args:
            return m.poly(args[0]), number(1)
        return None

    def index(self, m, facts, j, size):
        """an index, which may count from the end"""
        if m.holds(plus(times(m.poly(j), number(-1)), number(-1)), facts):
            return plus(m.poly(j), m.poly(size))
        if m.holds(m.poly(j), facts):
            return m.poly(j)
        return None

    def words(self):
        cls = WORDS
        size, width = self.me(cls, 'number_of_words'), self.me(cls, 'bytes_per_word')
        j, w = ('sym', 'j', 'int'), ('sym', 'w', 'bytes')
        for name in ('__getitem__', '__setitem__'):
            def judge(m, facts, out):
                p = self.index(m, facts, j, size)
                if p is None:
                    return 'it is not known from which end the index counts'
                if self.raises(out, 'IndexError'):
                    return self.refused(m, facts, [p, plus(plus(m.poly(size), p, -1), number(-1))])
                if out.kind == 'x':
                    return None
                acc = [a for a in out.st.obs.get('acc', ()) if a[0].startswith('ByteArray.')]
                if len(acc) != 1 or acc[0][1] != self.me(cls, 'byte_array'):
                    return 'not one access to the bytes'
                at = self.place(m, acc[0], BYTES)
                b = m.poly(width)
                if at is None or at[0] != times(p, b) or at[1] != b:
                    return 'the access is not to the word of this index'
                if name == '__getitem__' and (acc[0][0][10:13] != '__g' or out.val != acc[0][4]):
                    return 'what is returned is not the word of this index'
                if name == '__setitem__' and (acc[0][0][10:13] != '__s' or acc[0][2][-1] != w):
                    return 'what is stored is not the word given'
            self.entry(cls, name, judge, j=j, w=w)

        def yields(o, i, st, v, node):
            acc = st.obs.get('acc', ())
            m = o.math
            if not acc or acc[-1][4] != v:
                o.report(i, node, 'what is yielded is not the word read for it')
                return
            at = self.place(m, acc[-1], BYTES)
            if at is None or at[1] != m.poly(width):
                o.report(i, node, 'what is yielded is not a word')
        self.entry(cls, '__iter__', None, yields)
        self.simple(cls, '__len__', size)
        self.simple(cls, 'get_bytes_per_word', width)

    def layout(self):
        """what the header of a new array says is what its readers look for"""
        cls = WORDS
        b, n, f, init = (('sym', 'b', 'int'), ('sym', 'n', 'int'), ('sym', 'f', 'pyfile'), ('sym', 'init', 'bytes'))
        fields = set()

        def given(a, k, name):
            for x in k:
                if x[0] == name:
                    return x[1]
            return a[0] if a else None

        def generated(m, facts, out):
            if out.kind == 'x':
                return None
            head, made, sized = [], False, None
            for w, a, r in out.st.obs.get('raw', ()):
                if w == 'write' and not made:
                    head.append(a[2][-1] if a[0] == 'call' and mname(a) == 'int8_to_str' and a[2] else None)
                elif w == '__init__':
                    made = True
                elif w in ('gen_set_size', 'set_size') and made:
                    sized = (given(a, r, 'size'), given(a[1:], r, 'init_byte'))
            if None in head or not made or sized is None:
                return None         # written in another way
            if m.poly(sized[0]) != times(m.poly(b), m.poly(n)):
                return 'the array is not made for all of its words'
            if sized[1] != init:
                return 'the words are not filled with the byte asked for'
            fields.add((len(head),) + tuple(head.index(x) if x in head else None for x in (b, n)))

        def read(m, facts, out):
            if out.kind == 'x' or len(fields) != 1:
                return None
            (count, bi, ni), = fields
            at, where, made = None, {}, None
            for w, a, r in out.st.obs.get('raw', ()):
                if w == 'seek':
                    at = 0
                elif w == 'read' and at is not None and integer(a):
                    where[r] = at
                    at += a[2]
                elif w == 'read':
                    at = None
                elif w == '__init__' and made is None:
                    made = at
                    size = given(a, r, 'size')
            me = self.me(cls)
            got = []
            for name, want in (('bytes_per_word', bi), ('number_of_words', ni)):
                v = out.st.heap.get((me, name))
                got.append(v)
                if v is None or v[0] != 'call' or mname(v) != 'str_to_int8':
                    return None
                x, off = v[2][-1], 0
                if x[0] == 'slice' and (x[2] == NONE or integer(x[2])):
                    off = 0 if x[2] == NONE else x[2][2]
                    x = x[1]
                if x not in where or want is None:
                    return None
                if where[x] + off != 8 * want:
                    return '%s is not read from where it is written' % name
            if made is not None and made != 8 * count:
                return 'the words do not begin after the header'
            if made is not None and size is not None and m.poly(size) != times(m.poly(got[0]), m.poly(got[1])):
                return 'the array is not as large as its header says'
        self.entry(cls, 'generate', generated, f=f, b=b, n=n, init=init)
        self.entry(cls, '__init__', read, f=f, b=b, n=n)

    # ---- numbers
    def decoded(self, v):
        """the word that a number was made of"""
        if v[0] == 'call' and mname(v) == 'from_bytes' and v[2]:
            return v[2][0] if v[2][1:2] == (const('big'),) else None
        if v[0] == 'call' and mname(v) == 'str_to_int8' and v[2]:
            x = v[2][0]
            if x[0] == 'op' and x[1] == 'Add' and x[2][0] == self.me(INTS, 'pad'):
                return x[2][1]
            if x[0] == 'call' and mname(x) == 'rjust' and x[2][1:] == (const(8), const(b'\0')):
                return x[2][0]
        return None

    def ints(self):
        cls = INTS
        j, v, d = ('sym', 'j', 'int'), ('sym', 'v', 'int'), ('sym', 'd', None)
        words, blank = self.me(cls, 'word_array'), self.me(cls, 'blank')

        def word(out, w):
            return any(a[0] == 'WordArray.__getitem__' and a[1] == words and a[2] == (j,) and a[4] == w
                       for a in out.st.obs.get('acc', ()))

        def is_blank(st, w):
            for a, yes in st.facts.items():
                if a[0] == '==' and blank in a[1:]:
                    x = a[1] if a[2] == blank else a[2]
                    if x == w or x[:3] == w[:3] and x[0] == 'call' and mname(x) == '__getitem__':
                        return yes
            return None

        def get(m, facts, out):
            if out.kind != 'r':
                return None
            w = self.decoded(out.val)
            if w is None or not word(out, w):
                return 'what is returned is not the number of the word of this index'

        def get_or(m, facts, out):
            if out.kind != 'r':
                return None
            if out.val == d:
                sizes = [atom(a[4]) for a in out.st.obs.get('acc', ()) if a[0] == 'WordArray.__len__']
                if any(m.absurd(facts + [m.poly(j), plus(plus(s, m.poly(j), -1), number(-1))]) and
                       m.absurd(facts + [plus(times(m.poly(j), number(-1)), number(-1)), plus(s, m.poly(j))])
                       for s in sizes):
                    return None
                if not any(yes and a[0] == '==' and blank in a[1:] for a, yes in out.st.facts.items()) and \
                        out.st.obs.get('acc'):
                    return 'a number that is there is not found'
                return None
            w = self.decoded(out.val)
            if w is None or not word(out, w):
                return 'what is returned is not the number of the word of this index'
            if is_blank(out.st, w) is not False:
                return 'a blank word is taken for a number'

        def put(m, facts, out):
            acc = [a for a in out.st.obs.get('acc', ()) if a[0] == 'WordArray.__setitem__']
            enc = ('call', U + 'int8_to_str')
            if out.kind == 'x':
                return None
            if len(acc) != 1 or acc[0][1] != words or acc[0][2][0] != j:
                return 'the number is not stored as the word of its index'
            w = acc[0][2][1]
            if w[0] == 'call' and mname(w) == 'to_bytes':
                return None
            if w[0] != 'slice' or w[1][0] != 'call' or mname(w[1]) != 'int8_to_str' or \
                    w[1][2][:1] != (v,) or w[3] != NONE or w[4] != NONE:
                return 'the word is not the end of the number in eight bytes'
            pad = self.me(cls, 'pad')
            cut = m.poly(w[2])
            if cut != atom(('len', pad)) and cut != plus(number(8), self.width(m), -1):
                return 'the word is not as long as the words of the array'
            if not any(yes and a[0] in ('truth', '==') and contains(a, lambda t: t == pad)
                       for a, yes in out.st.facts.items()):
                return 'a number that does not fit in a word is cut'
        self.entry(cls, '__getitem__', get, j=j)
        self.entry(cls, 'get', get_or, j=j, d=d)
        self.entry(cls, '__setitem__', put, j=j, v=v)

        def yields(o, i, st, x, node):
            ws = [x]
            if x[0] == 'tuple' and len(x[1]) == 2:
                ws = [x[1][1]]
            w = self.decoded(ws[0])
            if w is None and ws[0][0] == 'call' and mname(ws[0]) in ('str_to_int8', 'from_bytes'):
                o.report(i, node, 'what is yielded is not the number of a word')
            if w is not None and x[0] == 'tuple' and is_blank(st, w) is not False:
                o.report(i, node, 'a blank word is taken for a number')
        for name in ('__iter__', 'iteritems', 'items'):
            self.entry(cls, name, None, yields)

        def made(m, facts, out):
            if out.kind == 'x':
                return None
            pad, bl = out.st.heap.get((self.me(cls), 'pad')), out.st.heap.get((self.me(cls), 'blank'))
            for x, byte in ((pad, b'\0'), (bl, b'\xff')):
                if x is not None and not (x[0] == 'op' and x[1] == 'Mult' and const(byte) in x[2]):
                    return 'the %s is not made of %r' % ('blank word' if byte != b'\0' else 'padding', byte)
            if pad is not None and bl is not None and plus(m.length(pad), m.length(bl)) != number(8):
                return 'padding and word are not eight bytes together'
        self.entry(cls, '__init__', made)
        self.generate()

    def width(self, m):
        return atom(('width',))

    def generate(self):
        """blank is never a number that may be stored"""
        cls = INTS
        top, n, file = ('sym', 'top', 'int'), ('sym', 'n', 'int'), ('sym', 'f', None)

        def judge(m, facts, out):
            if out.kind == 'x':
                return None
            for a in out.st.obs.get('made', ()):
                if len(a) < 4 or a[0] != file or a[1] == NONE:
                    continue
                wide, count, init = a[1:4]
                if count != n:
                    return 'the array is not made for the number of words asked for'
                if init != const(b'\xff'):
                    return 'the words are not blank at first'
                if out.st.facts.get(('is', top, NONE)) is True:
                    if wide != const(8):
                        return 'a word of an array without a maximum is not eight bytes'
                    continue
                hit = []

                def look(t):
                    if t[0] == 'call' and mname(t) in ('int8_to_str', 'bit_length') and t[2]:
                        hit.append(t[2][-1])
                    return False
                contains(wide, look)
                for x in hit:
                    d = plus(m.poly(x), m.poly(top), -1)
                    if set(d) <= {()} and d.get((), 0) < 1:
                        return 'the greatest number may be taken for a blank word'
        f = self.p.funcs.get(cls + '.generate')
        if f is None:
            return
        o = Arr(cls)
        base = o.on

        def on(i, st, ev, node):
            base(i, st, ev, node)
            if ev[0] in ('call', 'called') and ev[1] == WORDS + '.generate':
                st.obs['made'] = (tuple(ev[3]),)
        o.on = on
        names = [a.arg for a in f.node.args.args][-3:]
        outs = self.check.run('IntArray', o, f.qual, args=dict(zip(names, (file, n, top))))
        for out in outs or ():
            msg = judge(o.math, o.math.facts(out.st.facts), out)
            self.check.oblige('IntArray')
            if msg:
                self.check.finding('IntArray', f, None, msg)

    # ---- bits
    def mask(self, m, v):
        """the form of a mask with one bit, and which"""
        if v[0] == 'op' and len(v[2]) == 2 and v[2][0][0] == 'c':
            p = m.poly(v[2][1])
            if v[1] == 'RShift' and v[2][0][2] == 0x80:
                return p
            if v[1] == 'LShift' and v[2][0][2] == 1:
                return plus(number(7), p, -1)
        return None

    def bits(self):
        cls = BITS
        size = self.me(cls, 'size')
        array = self.me(cls, 'byte_array')
        j, v = ('sym', 'j', 'int'), ('sym', 'v', None)
        used = set()

        def source(x, q, out):
            """is x the number in the byte at q?"""
            while x[0] == 'call' and mname(x) in ('ord', 'int', 'from_bytes') or \
                    x[0] == 'item' and x[2] == const(0):
                x = x[2][0] if x[0] == 'call' else x[1]
            return any(a[0] == 'ByteArray.__getitem__' and a[1] == array and a[4] == x
                       for a in out.st.obs.get('acc', ()))

        def places(m, facts, out):
            p = self.index(m, facts, j, size)
            if p is None:
                return None, None, 'it is not known from which end the index counts'
            key = frozenset(p.items())
            q, r = atom(('q', key, 8)), atom(('r', key, 8))
            for a in out.st.obs.get('acc', ()):
                if a[0].startswith('ByteArray.') and a[0][10:] in ('__getitem__', '__setitem__'):
                    if a[1] != array or m.poly(a[2][0]) != q:
                        return None, None, 'the access is not to the byte of this index'
            return q, r, None

        def inside(m, facts):
            p = self.index(m, facts, j, size)
            return [p, plus(plus(m.poly(size), p, -1), number(-1))]

        def right(m, x, r):
            """is it the bit of this index?  one order of the bits is as good as another"""
            p = self.mask(m, x)
            if p is None:
                return False
            if p == r:
                used.add('down')
            elif p == plus(number(7), r, -1):
                used.add('up')
            else:
                return False
            return True

        def get(m, facts, out):
            q, r, bad = places(m, facts, out)
            if bad:
                return bad
            if self.raises(out, 'IndexError'):
                return self.refused(m, facts, inside(m, facts))
            if out.kind != 'r':
                return None
            for a, yes in out.st.facts.items():
                x = a[1] if a[0] == 'truth' else a[2] if a[0] == '==' and a[1] == const(0) else \
                    a[1] if a[0] == '==' and a[2] == const(0) else \
                    a[2] if a[0] == '<' and a[1] == const(0) else None
                if x is None or x[0] != 'op' or x[1] != 'BitAnd':
                    continue
                if a[0] == '==':
                    yes = not yes
                for y, mk in (x[2], x[2][::-1]):
                    if right(m, mk, r) and source(y, q, out):
                        if out.val in (TRUE, FALSE, const(1), const(0)):
                            return None if bool(out.val[2]) == yes else 'the bit is returned the other way round'
            if out.val[0] == 'c':
                return 'what is returned is not the bit of this index'
            x = out.val
            if x[0] == 'op' and x[1] == 'BitAnd' and const(1) in x[2]:
                y = x[2][0] if x[2][1] == const(1) else x[2][1]
                if y[0] == 'op' and y[1] == 'RShift' and source(y[2][0], q, out):
                    p = m.poly(y[2][1])
                    if p == plus(number(7), r, -1):
                        used.add('down')
                        return None
                    if p == r:
                        used.add('up')
                        return None
            return 'what is returned is not the bit of this index'

        def put(m, facts, out):
            q, r, bad = places(m, facts, out)
            if bad:
                return bad
            if self.raises(out, 'IndexError'):
                return self.refused(m, facts, inside(m, facts))
            if out.kind == 'x':
                return None
            acc = [a for a in out.st.obs.get('acc', ()) if a[0] == 'ByteArray.__setitem__']
            if len(acc) != 1:
                return 'the byte of this index is not stored'
            x = acc[0][2][1]
            yes = out.st.facts.get(('truth', v))
            if x[0] in ('item', 'elem', 'index') and len(x) > 2:
                x = x[2]
            elif x[0] == 'call' and mname(x) in ('pack', 'bytes') and x[2]:
                x = x[2][-1]
                if x[0] in ('list', 'tuple') and x[1]:
                    x = x[1][0]
            if x[0] != 'op' or len(x[2]) != 2:
                return 'what is stored is not the byte with this bit changed'
            for y, mk in (x[2], x[2][::-1]):
                if not source(y, q, out):
                    continue
                if x[1] == 'BitOr' and right(m, mk, r):
                    return None if yes is not False else 'the bit is set when it should be cleared'
                if x[1] == 'BitAnd' and mk[0] == 'op' and mk[1] in ('Invert', 'Sub', 'BitXor'):
                    z = mk[2][0] if mk[1] == 'Invert' else mk[2][1]
                    if right(m, z, r):
                        return None if yes is not True else 'the bit is cleared when it should be set'
            return 'what is stored is not the byte with this bit changed'
        self.entry(cls, '__getitem__', get, j=j)
        self.entry(cls, '__setitem__', put, j=j, v=v)
        if len(used) > 1:
            self.check.finding('BitArray', self.p.need_func(cls + '.__getitem__'), None,
                               'the bits are read in another order than they are written')
        self.simple(cls, '__len__', size)
        self.simple(cls, 'get_size', size)

        def sized(m, facts, out):
            if out.kind == 'x':
                return None
            acc = [a for a in out.st.obs.get('acc', ()) if a[0] == 'ByteArray.set_size']
            n = ('sym', 'n', 'int')
            if len(acc) != 1 or not m.holds(plus(times(number(8), m.poly(acc[0][2][0])), m.poly(n), -1), facts):
                return 'the bytes are not enough for the bits'
            new = out.st.heap.get((self.me(cls), 'size'))
            if new is None or m.poly(new) != m.poly(n):
                return 'the size is not the number of bits asked for'
        self.entry(cls, 'set_size', sized, n=('sym', 'n', 'int'))

    # ---- sets
    def sets(self):
        cls = SET
        bits, n = self.me(cls, 'bit_array'), ('sym', 'n', 'int')

        def size(m, out):
            """(the number of bits now as a polynomial, accesses after that)"""
            now = None
            for a in out.st.obs.get('acc', ()):
                if a[0] in ('BitArray.get_size', 'BitArray.__len__'):
                    now = atom(a[4])
                elif a[0] == 'BitArray.set_size':
                    now = m.poly(a[2][0])
                    facts = [m.poly(n)]
                    for t in list(m.seen):
                        if t[0] == 'q' and m.holds(dict(t[1]), facts):
                            m.seen[t].append(atom(t))       # of a number that is not negative
                elif a[0] in ('BitArray.__getitem__', 'BitArray.__setitem__'):
                    yield now, a

        def common(m, facts, out):
            facts = facts + [m.poly(n)]
            for now, a in size(m, out):
                if a[1] != bits or m.poly(a[2][0]) != m.poly(n):
                    return 'the access is not to the bit of this number'
                if now is None or not m.holds(plus(plus(now, m.poly(n), -1), number(-1)), facts):
                    return 'the bit of this number is not known to be within the array'

        def stored(out):
            return [a[2][1] for a in out.st.obs.get('acc', ()) if a[0] == 'BitArray.__setitem__']

        def outside(m, facts, out):
            return any(a[0] in ('BitArray.get_size', 'BitArray.__len__') and
                       m.holds(plus(m.poly(n), atom(a[4]), -1), facts)
                       for a in out.st.obs.get('acc', ()))

        def add(m, facts, out):
            if out.kind == 'x':
                return None
            x = stored(out)
            if len(x) != 1 or x[0][0] != 'c' or not x[0][2]:
                return 'the bit of the number is not set'
            return common(m, facts, out)

        def discard(m, facts, out):
            if out.kind == 'x':
                return None
            x = stored(out)
            if not x:
                return None if outside(m, facts, out) else 'the bit of the number is not cleared'
            if len(x) != 1 or x[0][0] != 'c' or x[0][2]:
                return 'the bit of the number is not cleared'
            return common(m, facts, out)

        def contains_(m, facts, out):
            if out.kind != 'r':
                return None
            bit = [a[4] for a in out.st.obs.get('acc', ()) if a[0] == 'BitArray.__getitem__']
            if not bit:
                if out.val == FALSE and outside(m, facts, out):
                    return None
                return 'the bit of the number does not decide'
            bad = common(m, facts, out)
            if bad:
                return bad
            yes = None
            for b in bit:
                for a, y in out.st.facts.items():
                    if a == ('truth', b) or a[0] == '==' and {a[1], a[2]} == {b, const(1)}:
                        yes = y
                    elif a[0] == '==' and {a[1], a[2]} == {b, const(0)}:
                        yes = not y
                if out.val == b:
                    return None
            if out.val[0] == 'c':
                return None if yes is not None and bool(out.val[2]) == yes else \
                    'the bit of the number does not decide'
        self.entry(cls, 'add', add, n=n)
        self.entry(cls, 'discard', discard, n=n)
        self.entry(cls, '__contains__', contains_, n=n)


def decide(check):
    engine.MAXDEPTH = max(engine.MAXDEPTH, 24)
    for c in (BYTES, BITS, WORDS, INTS, SET):
        check.p.need_class(c)
    r = Rules(check)
    r.bytes()
    r.words()
    r.layout()
    r.ints()
    r.bits()
    r.sets()
