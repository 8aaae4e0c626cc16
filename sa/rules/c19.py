"""A symbolic cursor is kept for each storage file on every path of what writes and reads
it, as a linear expression over positions and lengths.  A number that holds a length must
count exactly the bytes written after it; one that is filled in later must be the distance
to the end of what was written, or the position where a part begins; where a reader
computes a position from a length that it read, it must be the position after exactly that
many bytes.  A position kept for an oid must be where its record begins.  The widths of
the length prefixes, headers and terminators on the paths of the writer are compared with
those on the paths of the reader, and unpack_record() is evaluated on the term that
pack_record() returns.  Numbers in bytes are unsigned and big endian."""
TECHNIQUE = 'path-sensitive dataflow analysis with linear expressions'

import ast

from ..engine import NONE, const, contains
from ..model import Func
from ..rule import Obs
from . import wire
from . import c20
from .c20 import Dialog
from .common import At, mname
from .files import FILEV, FS2, RAW, SHELF, FileObs, storage_file

U = 'durus.utils.'
INTS = {'int8_to_str': 8, 'int4_to_str': 4, 'str_to_int8': 8, 'str_to_int4': 4}
D = Dialog(None)


class Lin(dict):
    """a linear expression: {term: factor}, '' for one"""

    def __hash__(self):
        return hash(frozenset(self.items()))


def add(*ps):
    return Lin(c20.add(*ps))


def scale(p, n):
    return Lin(c20.scale(p, n))


def number(n):
    return Lin(c20.number(n))


def size(v):
    return linear(v, D.size)


def linear(v, f):
    out = Lin()
    for t, k in f(v, {}).items():
        x = t
        if t != '' and t[0] == 'len':
            x = lengths(t[1])
            out = add(out, scale(x, k))
        else:
            out = add(out, {t: k})
    return out


def lengths(v):
    """the length of bytes"""
    while v[0] == 'old':
        v = v[1]
    if v[0] == 'call' and mname(v) == 'read' and v[2]:
        return size(v[2][-1])
    if v[0] == 'op' and v[1] == 'Add':
        return add(*[lengths(x) for x in v[2]])
    if v[0] == 'call' and mname(v) in INTS:
        return number(INTS[mname(v)])
    return Lin(D.length(v, {}))


def diff(a, b):
    return add(a, scale(b, -1))


def vague(p):
    """something that a loop made unknown"""
    return p is None or any(t != '' and wire.plain(t) for t in p)


def field(v):
    """(width, number) of a number in bytes"""
    if v[0] == 'call' and mname(v) in ('int8_to_str', 'int4_to_str') and v[2]:
        return INTS[mname(v)], v[2][-1]
    if v[0] == 'call' and mname(v) in ('pack', 'to_bytes') and v[2]:
        a = v[2][0] if mname(v) == 'to_bytes' else v[2][-1]
        f = wire.form(v, a)
        if f:
            return f[0], a
    return None


def number_read(v):
    """(width, what was read) of a number read from a file"""
    if v[0] == 'item' and v[2] == const(0):
        v = v[1]
    if v[0] == 'call' and mname(v) in ('str_to_int8', 'str_to_int4') and v[2]:
        return INTS[mname(v)], v[2][-1]
    if v[0] == 'call' and mname(v) == 'from_bytes' and v[2]:
        return None, v[2][0]
    if v[0] == 'call' and mname(v) == 'unpack' and len(v[2]) == 2:
        f = wire.form(v, v[2][1])
        if f:
            return f[0], v[2][1]
    return None


class Layout(FileObs):
    """st.obs: ('at', raw) the cursor, ('left', raw) the bytes that a length written still
    has to count, ('held', raw) placeholders, ('seq', raw) the fields in order"""

    def __init__(self):
        FileObs.__init__(self)
        self.n = 0
        self.seqs = set()

    def is_raw(self, i, v):
        return v is not None and i.class_of(v) == 'pyfile'

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == U + 'iteritems' and len(args) == 1 and args[0][0] == 'sym':
            return None
        if qual == '.tell' and self.is_raw(i, recv):
            p = st.obs.get(('at', recv))
            v = self.told(st, recv, p)
            return [(st, v)] if v is not None else None
        if qual == U + 'as_bytes' and len(args) == 1 and args[0][0] == 'c':
            return [(st, args[0])]
        if qual == U + 'read' and len(args) == 2:       # all of it, or an exception
            raw = st.heap.get((args[0], 'file'), args[0])
            if self.is_raw(i, raw):
                return i.opaque_call(st, '.read', raw, [args[1]], {}, node, cx)
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def track(self, i, st, n, raw, args, result):
        """the cursor is followed here"""

    def told(self, st, raw, p):
        """a term that is known to be this position"""
        if p is not None and len(p) == 1:
            (t, k), = p.items()
            if k == 1 and t != '' and isinstance(t, tuple) and t[0] == 'call' and mname(t) == 'tell':
                return t
        return None

    # ---- fields
    def token(self, st, raw, *t):
        s = st.obs.get(('seq', raw), ())
        if s and s[-1] == t == ('R',):
            return
        s += (t,)
        if len(s) > 3 and s[-2:] == s[-4:-2]:
            s = s[:-2]                  # another record
        if len(s) < 12:
            st.obs[('seq', raw)] = s

    def say(self, i, st, node, msg):
        self.report(i, node, msg)

    def leave(self, st, raw):
        """the writer goes elsewhere, perhaps to undo what it wrote"""
        left = st.obs.pop(('left', raw), None)
        if left is not None and left[0]:
            st.obs[('missed', raw)] = left

    def settle(self, i, st, raw, node):
        """what was announced must have been written by now"""
        left = st.obs.pop(('left', raw), None)
        if left is not None and left[0] and not vague(left[0]):
            self.say(i, st, left[1], 'a length that is written does not count exactly the bytes that follow')

    def op(self, i, st, name, raw, args, result, node):
        b = st.obs
        for key in (('ints', raw), ('same', raw), ('began', raw), ('held', raw)):
            if key in b and name in ('tell', 'read'):       # what a round before left
                b[key] = tuple(x for x in b[key] if not contains(untold(x), stale))
        at = b.get(('at', raw))
        if at is not None and any(contains(t, stale) for t in at if t != ''):
            at = None
            b[('at', raw)] = None
        if name == 'seek':
            self.leave(st, raw)
            wh = args[1] if len(args) > 1 else const(0)
            b.pop(('patch', raw), None)
            if wh == const(0):
                to = size(args[0])
                self.place(i, st, raw, to, node)
                b[('patch', raw)] = (to, at)
                b[('at', raw)] = to
            else:
                b[('at', raw)] = b.get(('eof', raw)) if wh == const(2) and args[0] == const(0) else None
            self.n += 1
        elif name == 'tell' and result is not None:
            if at is None:
                b[('at', raw)] = Lin({result: 1})
            elif not vague(at):
                same = b.get(('same', raw), ())
                if at != Lin({result: 1}):
                    b[('same', raw)] = (same + ((result, at),))[-4:]
                    b[('at', raw)] = Lin({result: 1})
        elif name == 'write' and args:
            self.wrote(i, st, raw, args[0], at, node)
        elif name == 'read' and args and result is not None:
            self.n += 1
            n = size(args[0])
            b[('at', raw)] = add(at, n) if at is not None else None
            # a string with its length in front
            for t in n:
                r = number_read(t) if t != '' else None
                if r is not None and n == Lin({t: 1}):
                    for src in self.ints(st, raw):
                        if src[0] == r[1]:
                            self.pop(st, raw)
                            self.token(st, raw, 'S', src[1])
                            return
            if len(n) == 1 and '' in n:
                b[('ints', raw)] = (self.ints(st, raw) + ((result, n[''], at),))[-4:]
                if n[''] not in (4, 8):
                    self.token(st, raw, 'B', n[''])
        elif name in ('truncate', 'close'):
            self.leave(st, raw)

    def ints(self, st, raw):
        return st.obs.get(('ints', raw), ())

    def fixed(self, st, raw, at):
        """a position that is known"""
        if at is None or vague(at):
            return None
        at = self.known(st, raw, at)
        return at.get('', 0) if set(at) <= {''} else None

    def pop(self, st, raw):
        s = st.obs.get(('seq', raw), ())
        if s and s[-1][0] == 'I':
            st.obs[('seq', raw)] = s[:-1]

    def wrote(self, i, st, raw, v, at, node):
        b = st.obs
        self.n += 1
        if at is None:
            at = Lin({('call', '.tell', (raw,), 'here'): 1})
            for key in (('same', raw), ('began', raw), ('held', raw), ('ints', raw)):
                if key in b:
                    b[key] = tuple(x for x in b[key] if not contains(untold(x), here))
        parts = pieces(st, v)
        for x in parts:
            f = field(x)
            left = b.get(('left', raw))
            if left is not None and left[0] and x[0] == 'call' and mname(x) == 'join':
                b.pop(('left', raw))        # of what, is not seen
                left = None
            if left is not None and left[0]:
                rest = diff(left[0], number(f[0]) if f else lengths(x))
                b[('left', raw)] = (rest, left[1])
                if rest and set(rest) == {''} and rest[''] < 0:
                    self.settle(i, st, raw, node)
                elif not rest:
                    b.pop(('left', raw))
                at = add(at, number(f[0]) if f else lengths(x)) if at is not None else None
                continue
            patch = b.pop(('patch', raw), None)
            if f:
                w, n = f
                V = size(n)
                if patch is not None and not (set(V) <= {''}) and (
                        any(is_tell(t) for t in V) or not any(t != '' and t[0] == 'len' for t in V)):
                    self.filled(i, st, raw, patch, w, V, node)
                    self.token(st, raw, 'F', w, self.fixed(st, raw, patch[0]))
                elif any(t != '' and (t[0] == 'len' or number_read(t)) for t in V) and not vague(V):
                    b[('left', raw)] = (V, node)
                    b[('began', raw)] = (b.get(('began', raw), ()) + (at,))[-3:]
                    self.token(st, raw, 'S', w)
                else:
                    b[('held', raw)] = (b.get(('held', raw), ()) + ((at, w),))[-3:]
                    b[('began', raw)] = (b.get(('began', raw), ()) + (at,))[-3:]
                    self.token(st, raw, 'I', w, self.fixed(st, raw, at), V.get('', 0) if set(V) <= {''} else None)
                at = add(at, number(w)) if at is not None else None
            else:
                n = lengths(x)
                if len(n) == 1 and n.get('') in (4, 8) and x[0] == 'c' and not x[2].strip(
                        '\0' if isinstance(x[2], str) else b'\0'):
                    self.token(st, raw, 'I', n[''], self.fixed(st, raw, at), 0)
                elif len(n) == 1 and '' in n:
                    self.token(st, raw, 'B', n[''])
                elif not n:
                    pass
                else:
                    self.token(st, raw, 'R')
                    b[('began', raw)] = (b.get(('began', raw), ()) + (at,))[-3:]
                at = add(at, n) if at is not None else None
        b[('at', raw)] = at if not vague(at) else None

    def filled(self, i, st, raw, patch, w, V, node):
        """a number that is written at an earlier place"""
        to, end = patch
        if vague(V) or vague(to):
            return
        V, to = self.known(st, raw, V), self.known(st, raw, to)
        held = [self.known(st, raw, x) for x, k in st.obs.get(('held', raw), ()) if x is not None]
        held = [diff(to, x) for x in held if not vague(x)]
        if held and all(set(x) == {''} for x in held):
            self.say(i, st, node, 'a number is filled in where no place was left for it')
            return
        for x in st.obs.get(('began', raw), ()):
            if x is not None and self.known(st, raw, x) == V:
                return
        if end is None or vague(end):
            return
        end = self.known(st, raw, end)
        want = diff(diff(end, to), number(w))
        self.n += 1
        if V != want and any(t != '' and t[0] == 'call' and mname(t) == 'tell' for t in V):
            self.say(i, st, node, 'a length that is filled in is not the number of bytes written after it')

    def known(self, st, raw, p):
        """with positions that are known to be others written out"""
        for _ in range(6):
            for r, q in st.obs.get(('same', raw), ()):
                if r in p:
                    k = p[r]
                    p = add({t: c for t, c in p.items() if t != r}, scale(q, k))
                    break
            else:
                return p
        return p

    def place(self, i, st, raw, p, node):
        """a position that is computed with a number read from the file"""
        for src in self.ints(st, raw):
            for t in p:
                r = number_read(t) if t != '' else None
                if r is None or r[1] != src[0] or src[2] is None:
                    continue
                if p == Lin({t: 1}):
                    return          # a position itself
                self.n += 1
                rest = diff(diff(p, Lin({t: 1})), add(src[2], number(src[1])))
                rest = self.known(st, raw, rest)
                if rest and not vague(rest) and all(x == '' or is_tell(x) for x in rest):
                    self.say(i, st, node, 'a position computed from a length that was read is not where '
                             'that many bytes end')
                return

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k in ('next', 'done', 'iter') and isinstance(node, (ast.For, ast.While)):
            for key in [x for x in b if isinstance(x, tuple)]:
                if key[0] in ('at', 'same', 'ints', 'patch') and k != 'iter':
                    b.pop(key)
                elif key[0] == 'left' and k == 'iter':
                    b.pop(key)          # perhaps a loop over what follows
                elif key[0] == 'left':
                    self.settle(i, st, key[1], node)
        elif k == 'mut' and ev[2] == '__setitem__' and len(ev[3]) >= 2 or \
                k == 'call' and mname(ev) == '__setitem__' and len(ev[3]) >= 2:
            self.kept(i, st, ev[3][-2], ev[3][-1], node)
        elif k == 'assume' and ev[1][0] == '<':
            d = diff(size(ev[1][2]), size(ev[1][1]))
            for raw in [x[1] for x in b if isinstance(x, tuple) and x[0] == 'ints']:
                self.compared(i, st, raw, d, node)
        elif k == 'assume' and ev[1][0] == '==' and ev[2]:
            d = diff(size(ev[1][1]), size(ev[1][2]))
            t = [x for x in d if is_tell(x)]
            if len(t) == 1 and set(d) <= {t[0], ''} and d[t[0]] in (1, -1):
                raw = t[0][2][0] if t[0][2] else None
                b[('same', raw)] = (b.get(('same', raw), ()) + (
                    (t[0], scale(number(d.get('', 0)), -d[t[0]])),))[-4:]
        elif k == 'called' and mname(ev) in ('str_to_int8', 'str_to_int4') and ev[3]:
            for key in [x for x in b if isinstance(x, tuple) and x[0] == 'ints']:
                for src in b[key]:
                    if src[0] == ev[3][-1] and src[1] in (4, 8):
                        self.token(st, key[1], 'I', src[1], self.fixed(st, key[1], src[2]), None)
            n = lengths(ev[3][-1])
            if set(n) == {''} and n[''] != INTS[mname(ev)]:
                self.say(i, st, node, 'a number of %d bytes is read from %d bytes' % (INTS[mname(ev)], n['']))
            self.n += 1

    def kept(self, i, st, name, v, node):
        """a position is kept for a record that was read"""
        p = size(v)
        base = name
        while base[0] in ('slice', 'item') or base[0] == 'call' and mname(base) != 'read' and base[2]:
            base = base[1] if base[0] != 'call' else base[2][-1]
        for raw in [x[1] for x in st.obs if isinstance(x, tuple) and x[0] == 'ints']:
            if not contains(name, lambda t: t[0] == 'call' and mname(t) == 'read' and raw in t[2]) or \
                    vague(p) or not p or not all(t == '' or is_tell(t) for t in p):
                continue
            rest = [self.known(st, raw, diff(p, x[2])) for x in self.ints(st, raw)
                    if x[2] is not None and x[0] != base]
            self.n += 1
            if rest and all(set(x) == {''} for x in rest):
                self.say(i, st, node, 'the position that is kept for a record is not where it begins')

    def compared(self, i, st, raw, d, node):
        for src, t, k in [(src, t, k) for src in self.ints(st, raw) for t, k in d.items()]:
            r = number_read(t) if t != '' else None
            if r is None or r[1] != src[0] or abs(k) != 1 or src[2] is None:
                continue
            rest = diff(scale(d, k), Lin({t: 1}))
            bad = []
            for y, c in rest.items():
                if c == -1 and is_tell(y):
                    r = self.known(st, raw, diff(add(rest, {y: 1}), add(src[2], number(src[1]))))
                    bad.append(not vague(r) and r.get('', 0) not in (0, 1, -1) and all(
                        x == '' or is_tell(x) for x in r))
            self.n += 1
            if bad and all(bad):
                self.say(i, st, node, 'a position is compared with one that is not where the bytes that '
                         'a length counts end')
            return


def here(x):
    return x[0] == 'call' and x[-1] == 'here'


def untold(x):
    """with the terms of linear expressions"""
    if isinstance(x, Lin):
        return tuple(t for t in x if t != '')
    return tuple(untold(y) for y in x) if isinstance(x, tuple) else x


def stale(x):
    return isinstance(x, tuple) and len(x) > 1 and x[0] == 'old'


def is_tell(x):
    return isinstance(x, tuple) and x[0] == 'call' and mname(x) == 'tell'


def pieces(st, v):
    """what is written, piece by piece"""
    if v[0] == 'op' and v[1] == 'Add':
        return [y for x in v[2] for y in pieces(st, x)]
    if v[0] == 'call' and mname(v) == 'join' and v[2]:
        x = v[2][-1]
        if x[0] in ('list', 'tuple'):
            return [z for y in x[1] for z in pieces(st, y)]
        c = st.heap.get((x, '[]'))
        if c and c[0] == 'exact' and x[0] == 'new' and not any(y[0] == 'all' for y in c[1]):
            return [z for y in c[1] for z in pieces(st, y)]
    return [v]


def run(check, qual, cls=None, opaque=()):
    """the fields on the paths of an entry: [{raw: tokens}]"""
    p = check.p
    r = p.lookup(cls, qual) if cls else None
    f = r[1] if r and isinstance(r[1], Func) else p.funcs.get(qual)
    if f is None:
        check.undecided.append('no %s' % qual)
        return None, None
    seqs = []

    def setup(i, st, selfv):
        if selfv is not None and cls is not None:
            storage_file(i, st, selfv)
        st.heap[(FILEV, 'file')] = RAW

    obs = Layout()
    obs.opaque_names = Layout.opaque_names + tuple(opaque)
    args = {x.arg: FILEV for x in f.node.args.args if x.arg in ('file', 'fp', 'f')}

    def then(i, outs):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                for key, v in o.st.obs.items():
                    if isinstance(key, tuple) and key[0] in ('left', 'missed') and v[0] and not vague(v[0]):
                        obs.say(i, o.st, v[1], 'a length that is written does not count exactly the '
                                'bytes that follow')
                seqs.append({k[1]: v for k, v in o.st.obs.items() if isinstance(k, tuple) and k[0] == 'seq'})
    outs = check.run('layout', obs, f.qual, then=then, setup=setup, cls=cls, args=args)
    check.oblige('layout', obs.n)
    return f, seqs


def widths(seqs, keep):
    """the widths of the fields that keep(tokens, index) picks"""
    out = set()
    for q in seqs or ():
        for toks in q.values():
            out |= {t[1] for j, t in enumerate(toks) if keep(toks, j)}
    return out


def agree(check, what, sides, f):
    """sides: [(who, widths)]"""
    check.oblige('widths', len(sides))
    known = [(n, w) for n, w in sides if w]
    if len(known) < len(sides):
        check.undecided.append('%s: not seen in %s' % (what, ', '.join(n for n, w in sides if not w)))
    for n, w in known[1:]:
        if w != known[0][1]:
            check.finding('widths', f, f.node.lineno, '%s has %s bytes in %s and %s in %s' % (
                what, '/'.join(str(x) for x in sorted(known[0][1])), known[0][0],
                '/'.join(str(x) for x in sorted(w)), n))
            return


class Plain(Obs):
    opaque_names = FileObs.opaque_names + tuple(U + n for n in INTS)

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == U + 'as_bytes' and len(args) == 1:
            return [(st, args[0])]
        return None


def records(check):
    """unpack_record() of what pack_record() returns"""
    p = check.p
    S = 'durus.serialize.'
    pack, unpack = p.funcs.get(S + 'pack_record'), p.funcs.get(S + 'unpack_record')
    if pack is None or unpack is None or len(pack.node.args.args) != 3 or len(unpack.node.args.args) != 1:
        check.undecided.append('records: no pack_record or unpack_record')
        return
    parts = [('sym', x.arg) + (None,) for x in pack.node.args.args]
    rec = ('sym', unpack.node.args.args[0].arg, None)
    packed, given = [], []
    check.run('records', Plain(), pack.qual, args={x[1]: x for x in parts},
              then=lambda i, outs: packed.extend(pieces(o.st, o.val) for o in outs if o.kind == 'r'))
    check.run('records', Plain(), unpack.qual, args={rec[1]: rec},
              then=lambda i, outs: given.extend(o.val for o in outs if o.kind == 'r'))
    for ps in packed:
        for v in given:
            check.oblige('records')
            if v[0] not in ('tuple', 'list') or len(v[1]) != 3:
                check.undecided.append('records: %s' % (v[0],))
                continue
            sizes = [number(8) if x == parts[0] else lengths(x) for x in ps]
            for n, (x, want) in enumerate(zip(v[1], parts)):
                got = cut(x, rec, ps, sizes)
                if got is None:
                    check.undecided.append('records: part %d' % n)
                elif got != [want]:
                    check.finding('records', unpack, unpack.node.lineno, 'unpack_record() does not return the %s '
                                  'that pack_record() was given' % want[1])


def cut(x, rec, ps, sizes):
    """the pieces that a slice of the record covers; [] when it ends within one"""
    if x[0] != 'slice' or x[1] != rec or len(x) > 4 and x[4] not in (NONE, None):
        return None
    ends, at = [number(0)], number(0)
    for z in sizes:
        at = add(at, z)
        ends.append(at)
    w = []
    for v, other in ((x[2], ends[0]), (x[3], ends[-1])):
        if v == NONE or v is None:
            w.append(other)
            continue
        out = Lin()
        for t, k in size(v).items():
            r = number_read(t) if t != '' else None
            if t == '':
                out = add(out, {t: k})
            elif t == ('len', rec):
                out = add(out, scale(at, k))
            elif r is not None:
                got = cut(r[1], rec, ps, sizes)
                if got is None:
                    return None
                f = field(got[0]) if len(got) == 1 else None
                if f is None or r[0] not in (None, f[0]):
                    return []
                out = add(out, scale(size(f[1]), k))
            else:
                return None
        w.append(out)
    if w[0] in ends and w[1] in ends:
        return list(ps[ends.index(w[0]):ends.index(w[1])])
    return []


def codecs(check):
    for n, w in sorted(INTS.items()):
        f = check.p.funcs.get(U + n)
        if f is None or len(f.node.args.args) != 1:
            check.undecided.append('codecs: no %s' % n)
            continue
        arg = ('sym', f.node.args.args[0].arg, None)

        def then(i, outs):
            for o in outs:
                if o.kind != 'r':
                    continue
                check.oblige('codecs')
                form = wire.form(o.val, arg)
                if form is None:
                    check.undecided.append('codecs: %s' % n)
                elif form[0] not in (None, w) or not form[1] or form[2]:
                    check.finding('codecs', f, f.node.lineno, 'a number is not converted as an unsigned big-endian '
                                  'number of %d bytes' % w)
        check.run('codecs', Plain(), f.qual, args={arg[1]: arg}, then=then)


class Words(Layout):
    """WordArray: the header"""

    def __init__(self):
        Layout.__init__(self)
        self.values, self.attrs = set(), set()

    def wrote(self, i, st, raw, v, at, node):
        for x in pieces(st, v):
            f = field(x)
            st.obs['fields'] = (st.obs.get('fields') or ()) + (f or (None, x),)
        self.n += 1

    def op(self, i, st, name, raw, args, result, node):
        if name == 'read' and result is not None and set(size(args[0])) == {''}:
            st.obs['header'] = (result, size(args[0])[''])
        Layout.op(self, i, st, name, raw, args, result, node)

    def on(self, i, st, ev, node):
        Layout.on(self, i, st, ev, node)
        h = st.obs.get('header')
        if ev[0] == 'set' and h and ev[1] == ('sym', 'self', WORDS):
            r = number_read(ev[3])
            if r and r[1][0] == 'slice' and r[1][1] == h[0]:
                a, b = r[1][2], r[1][3]
                if a[0] == 'c' and b[0] == 'c':
                    self.attrs.add((ev[2], a[2] or 0, h[1] if b[2] is None else b[2], h[1]))


WORDS = U + 'WordArray'


def words(check, deep):
    p = check.p
    g = p.lookup(WORDS, 'generate') if WORDS in p.classes else None
    m = p.lookup(WORDS, '__init__') if g else None
    if not g or not m:
        return
    g, m = g[1], m[1]
    wr, rd = Words(), Words()
    wr.opaque_names = rd.opaque_names = Layout.opaque_names + deep
    fields = set()
    me = ('sym', 'self', WORDS)

    def setup(i, st, selfv):
        st.heap[(FILEV, 'file')] = RAW
    check.run('words', wr, g.qual, setup=setup, args={'file': FILEV}, then=lambda i, outs: fields.update(
        o.st.obs.get('fields') or () for o in outs if o.kind != 'x'))
    check.run('words', rd, m.qual, setup=setup, args={'file': FILEV}, selfv=me, cls=WORDS)
    names = [x.arg for x in g.node.args.args]
    for fs in fields:
        at, where = 0, {}
        for w, v in fs:
            if w is None:
                break
            where[(at, at + w)] = v
            at += w
        for name, a, b, n in rd.attrs:
            check.oblige('words')
            if any(w is None for w, v in fs):
                check.undecided.append('words: not only numbers')
            elif at != n:
                check.finding('words', g, g.node.lineno, 'the header of an array has %d bytes and %d are read' % (at, n))
            elif (a, b) not in where:
                check.finding('words', m, m.node.lineno, 'a number of the header of an array is not read where it '
                              'is written')
            elif name in names and where[(a, b)][0] == 'sym' and where[(a, b)][1] in names and \
                    where[(a, b)][1] != name:
                check.finding('words', m, m.node.lineno, 'the %s of an array is read where the %s is written' % (
                    name, where[(a, b)][1]))
    check.oblige('words', wr.n)


def decide(check):
    p = check.p
    p.need_class(SHELF)
    p.need_class(FS2)
    MAP = 'durus.shelf.OffsetMap'
    deep = (MAP + '.__init__', MAP + '.generate', MAP + '.gen_stitch', MAP + '.__setitem__',
            SHELF + '.generate_shelf', 'durus.serialize.unpack_record', 'durus.serialize.split_oids',
            'durus.shelf.read_transaction_offsets', FS2 + '._build_index', U + 'ByteArray.__init__',
            U + 'ByteArray.gen_set_size')

    def first(kind):
        return lambda toks, j: toks[j][0] == kind and not any(t[0] == kind for t in toks[:j])

    def record(toks, j):        # not what is filled in right after
        return toks[j][0] == 'S' and toks[j + 1:j + 2] != () and toks[j + 1][0] != 'F' \
            or toks[j][0] == 'S' and toks[j + 1:] == ()

    def every(kind):
        return lambda toks, j: toks[j][0] == kind

    def places(seqs, kind):
        return {t[2] for q in seqs or () for toks in q.values() for t in toks if t[0] == kind and t[2] is not None}

    records(check)
    codecs(check)
    words(check, deep)
    # ---- FileStorage
    store, st = run(check, 'store', SHELF, deep)
    make, ge = run(check, 'generate_shelf', SHELF, deep)
    get, gi = run(check, 'get_item_at_position', SHELF, deep)
    opening, op = run(check, '__init__', SHELF, deep)
    scan, sc = run(check, 'durus.shelf.read_transaction_offsets', None, deep)
    if store and get and scan:
        agree(check, 'the length of a record', [
            ('get_item_at_position()', widths(gi, every('S'))), ('store()', widths(st, every('S'))),
            ('generate_shelf()', widths(ge, every('S'))),
            ('read_transaction_offsets()', widths(sc, lambda toks, j: toks[j][0] == 'I' and j))], store)
        agree(check, 'the length of a transaction', [
            ('read_transaction_offsets()', widths(sc, first('I'))), ('store()', widths(st, first('I'))),
            ('the end of store()', widths(st, first('F')))], store)
    if make and opening:
        agree(check, 'the length of the first transaction', [
            ('Shelf.__init__()', widths(op, first('I'))), ('generate_shelf()', widths(ge, first('I'))),
            ('the end of generate_shelf()', widths(ge, first('F')))], make)
        a, b = places(op, 'I'), places([{0: t[:2]} for q in ge or () for t in q.values()], 'I')
        check.oblige('places')
        if a and b and a != b:
            check.finding('places', make, make.node.lineno, 'the first transaction is written at %s and read at %s' %
                          (sorted(b), sorted(a)))
    # ---- FileStorage2
    end, en = run(check, 'end', FS2, deep)
    load, lo = run(check, 'load', FS2, deep)
    create, cr = run(check, 'create_from_records', FS2, deep)
    init, ni = run(check, '__init__', FS2, deep)
    build, bu = run(check, '_build_index', FS2, deep)
    pack, pk = run(check, '_packer', FS2, deep)
    if not (end and load and create and build and pack):
        return
    pk = [{r: t for r, t in q.items() if any(x[0] == 'F' for x in t)} for q in pk or ()]
    agree(check, 'the length of a record', [
        ('load()', widths(lo, every('S'))), ('end()', widths(en, every('S'))),
        ('create_from_records()', widths(cr, record)), ('_packer()', widths(pk, record)),
        ('_build_index()', widths(bu, lambda toks, j: toks[j][0] == 'S' and any(t[0] == 'S' for t in toks[:j])))],
        end)
    for f, seqs in ((end, en), (create, cr), (pack, pk)):
        for q in seqs or ():
            for toks in q.values():
                check.oblige('end mark')
                w = widths(lo, every('S'))
                if not any(t[0] == 'I' and t[1] in w and t[3] == 0 and j + 1 in (
                        len(toks), len(toks) - 2) for j, t in enumerate(toks)) and toks:
                    check.finding('end mark', f, f.node.lineno, 'the records of a transaction are not ended by a '
                                  'length of zero')
    agree(check, 'the length of the index', [
        ('_build_index()', widths(bu, first('S'))),
        ('create_from_records()', widths(cr, lambda t, j: t[j][0] == 'S' and not record(t, j))),
        ('_packer()', widths(pk, lambda t, j: t[j][0] == 'S' and not record(t, j))),
        ('a new file', widths(ni, every('S')))], create)
    agree(check, 'the offset of the index', [
        ('_build_index()', widths(bu, first('I'))), ('create_from_records()', widths(cr, first('I'))),
        ('the end of create_from_records()', widths(cr, first('F'))), ('_packer()', widths(pk, first('I'))),
        ('a new file', widths(ni, first('I')))], create)
    a = places([{0: t[:2]} for q in bu or () for t in q.values()], 'I')
    for f, seqs in ((create, cr), (pack, pk), (init, ni)):
        check.oblige('places')
        b = places(seqs, 'F')
        if a and b and a != b:
            check.finding('places', f, f.node.lineno, 'the offset of the index is written at %s and read at %s' %
                          (sorted(b), sorted(a)))
