"""FileStorage.end() and FileStorage2.end() are followed over all paths down to
the writes: in a FileStorage, the first write of a transaction is a length no
file can have, and the length is put right only after all records, with no
write after that; in a FileStorage2, the zero length that ends a transaction is
written after all records and nothing follows.  The readers are followed over
all paths: a transaction enters the index only on paths that have compared its
end with the position reached and with the end of the file (FileStorage), or
have read the ending zero (FileStorage2)."""
import struct
from .. import engine
from ..engine import NONE, const, contains, mentions
from ..model import ModelError
from .common import At, attr, covers, mname, parts, fact
from .files import (FileObs, storage_file, FS, FS2, RAW, SHELFV, SHELF, FILE, FILEV, pending, told)
from .c10 import End


engine.Interp.max_outs = 12     # many conditions of an opened file do not matter here


def number(v):
    """the constant that v encodes, and in how many bytes"""
    if v[0] == 'call' and mname(v) in ('int8_to_str', 'int4_to_str') and v[2] and v[2][0][0] == 'c':
        return v[2][0][2], 8 if mname(v) == 'int8_to_str' else 4
    if v[0] == 'c' and isinstance(v[2], bytes) and len(v[2]) in (4, 8):
        return int.from_bytes(v[2], 'big'), len(v[2])
    if v[0] == 'call' and v[1] == 'struct.pack' and len(v[2]) == 2 and v[2][1][0] == 'c':
        return v[2][1][2], 8
    return None


class Order(End):
    quiet = True

    def visible(self, i, st, node):
        pass

    def before(self, i, st, n, raw, args, node):
        End.before(self, i, st, n, raw, args, node)
        b = st.obs
        if n != 'write' or raw != RAW or b.get('caught'):
            return
        self.n += 1
        pos = b.get(('pos', raw))
        if self.cls == FS:
            if 'start' not in b:
                b['start'] = pos
                c = number(args[0])
                if c is not None:
                    b['placeholder'] = True
                    if c[0] < 2 ** 60:
                        self.report(i, node, 'the length of a transaction fits the data before '
                                    'all of it is written')
                return
            if b.get('final'):
                self.report(i, node, 'something is written after the length of the transaction')
            if pos is not None and pos == b['start']:
                if not b.get('complete'):
                    self.report(i, node, 'the length of a transaction is put right before all of '
                                'it is written')
                b['final'] = True
        else:
            if b.get('final'):
                self.report(i, node, 'something is written after the end of the transaction')
            if number(args[0]) == (0, 4):
                b['final'] = True
                if not b.get('complete'):
                    self.report(i, node, 'the end of a transaction is written before all its '
                                'records')

    def on(self, i, st, ev, node):
        End.on(self, i, st, ev, node)
        if ev[0] == 'caught':
            st.obs['caught'] = True

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                b = o.st.obs
                if o.kind == 'x' or not b.get(('dirty', RAW)) and 'start' not in b and not b.get('final'):
                    continue
                self.n += 1
                if not b.get('final') and (self.cls == FS2 or b.get('placeholder')):
                    self.report(i, f.node, 'a transaction can end without being marked as complete')


class Reader(FileObs):
    """opening a file"""
    opaque_names = FileObs.opaque_names + (SHELF + '.generate_shelf', SHELF + '.has_format',
                                           FS2 + '.has_format')

    def __init__(self, cls, me):
        FileObs.__init__(self)
        self.cls, self.me = cls, me
        self.n = 0
        self.name = 'memory_index' if cls == SHELF else 'index'

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual in ('durus.utils.str_to_int8', 'durus.utils.str_to_int4') and args:
            if st.obs.get('read') == args[0]:
                st = st.copy()      # which fails unless all is there
                st.obs.pop('read')
            return [(st, ('call', qual, tuple(args), 0))]
        if qual == '.tell':
            # sums would grow with each round of a loop
            pos = st.obs.get(('pos', recv))
            if pos is None or pos[0] != 'at' or pos[1][0] != 'call' or pos[1][1] != '.tell':
                return None
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def index(self, st):
        return st.heap.get((self.me, self.name), attr(self.me, self.name))

    def track(self, i, st, n, raw, args, result):
        """only what matters here, to keep the states few"""
        b = st.obs
        if n == 'seek':
            b.pop('last', None)
            wh = args[1] if len(args) > 1 else const(0)
            b['pos', raw] = 'end' if wh == const(2) else ('at', args[0])
        elif n == 'tell':
            b.pop('last', None)
            if b.get(('pos', raw)) == 'end':
                b[('end', raw)] = result
            b[('pos', raw)] = ('at', result)
        elif n in ('read', 'write', 'truncate'):
            b[('pos', raw)] = None
            if n != 'read':
                b.pop(('end', raw), None)

    def before(self, i, st, n, raw, args, node):
        if n == 'read' and st.obs.pop('read', None) is not None:
            st.obs['short'] = True
        if n in ('read', 'seek'):
            st.obs.pop('ended', None)
            st.obs.pop('whole', None)

    def op(self, i, st, n, raw, args, result, node):
        b = st.obs
        if n == 'seek':
            wh = args[1] if len(args) > 1 else const(0)
            if wh == const(2) or args[0][0] == 'call' and args[0][1] == '.tell':
                return
            if self.in_file(i, st, args[0]):
                return
            b['unsure'] = args[0]       # this may be past the end of the file
        elif n == 'read':
            b['last'] = b['read'] = result

    def in_file(self, i, st, x):
        """is x known not to be past the end of the file?"""
        for t in [v for k, v in st.obs.items() if k[0] == 'end']:
            if (st.facts.get(('<', t, x)) is False or st.facts.get(('<=', x, t))
                               or st.facts.get(('<', x, t)) or fact(st, '==', x, t)):
                return True
        return False

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'assume':
            a, yes = ev[1], ev[2]
            got = b.get('read')
            if got is not None and (a[0] == '<' and not yes or a[0] == '==' and yes) and \
                    ('call', 'builtins.len', (got,), 0) in a[1:]:
                b.pop('read')
            last = b.get('last')
            if a[0] in ('==', 'truth', '<') and last is not None and contains(a, lambda t: t == last):
                ln = ('call', 'builtins.len', (last,), 0)
                if a[0] == '==' and const(0) in a[1:] and ln in a[1:] and yes or \
                        a[0] == 'truth' and not yes and a[1] in (last, ln):
                    b['ended'] = True
                elif a[0] == '<' and a[1] == ln and not yes and a[2] != const(0):
                    b.pop('unsure', None)      # something was there
            if a[0] in ('==', '<') and len(a) == 3 and a[0] == '==' and yes or a[0] == '<' and not yes:
                # where the transaction should end, compared with where it does
                for x, e, side in ((a[1], a[2], 'not less'), (a[2], a[1], 'not more')):
                    if self.end(e) and not self.end(x) and contains(
                            x, lambda t: t[0] == 'call' and t[1] == '.tell' or t[0] == 'sym'):
                        old = b.get('whole')
                        b['whole'] = 'both' if a[0] == '==' or old not in (None, side) else side
            if b.get('unsure') is not None and self.in_file(i, st, b['unsure']):
                b.pop('unsure', None)
        if k == 'set' and ev[1] == self.me and ev[2] == self.name:
            b.pop('unsure', None)
        if k in ('mut', 'set'):
            new = (k == 'mut' and ev[1] == self.index(st) and ev[2] in (
                'update', '__ior__', '__setitem__') or
                k == 'set' and ev[1] == self.me and ev[2] == self.name)
            if new and self.offsets(st, ev):
                self.accept(i, st, node)

    def offsets(self, st, ev):
        """does the index get offsets of a transaction?"""
        if ev[0] == 'set':
            return False
        v = ev[3][-1]
        if v[0] == 'new' or contains(v, lambda t: t[0] == 'new'):
            return True
        return contains(v, lambda t: t[0] == 'call' and t[1] == '.tell')

    def accept(self, i, st, node):
        b = st.obs
        self.n += 1
        if b.pop('read', None) is not None or b.pop('short', None):
            self.report(i, node, 'a transaction may be accepted though a read of it came out short')
        if self.cls == FS2:
            if not b.get('ended'):
                self.report(i, node, 'a transaction is accepted before its end has been read')
            return
        x = b.get('unsure')
        if x is not None and not self.in_file(i, st, x):
            self.report(i, node, 'a transaction is accepted though its last record may be cut short')
        if b.get('whole') != 'both':
            self.report(i, node, 'a transaction is accepted without having been read to its end')

    def end(self, v):
        """does v say where the transaction should end?"""
        return v[0] == 'op' and contains(
            v, lambda t: t[0] == 'call' and mname(t) == 'str_to_int8') and contains(
            v, lambda t: t[0] == 'call' and t[1] == '.tell')


def opening(check, rule, cls, make, then=None):
    """run the constructor on a file that has something in it"""
    p = check.p
    me = ('sym', 'self', cls)
    f = p.need_func(cls + '.__init__')
    o = make(cls, me)

    def setup(i, st, selfv):
        st.heap[(FILEV, 'file')] = RAW
    check.run(rule, o, f.qual, selfv=me, args={'file': FILEV}, setup=setup,
              then=(lambda i, outs: then(o, i, f, outs)) if then else None)
    return o


def decide(check):
    p = check.p
    rule = 'writing'
    for cls in (FS, FS2):
        f = p.need_func(cls + '.end')
        o = Order(cls)
        check.run(rule, o, f.qual, setup=storage_file, then=lambda i, outs: o.check(i, f, outs))
        check.oblige(rule, o.n)

    rule = 'reading'
    for cls in (SHELF, FS2):
        o = opening(check, rule, cls, Reader)
        check.oblige(rule, o.n)
        if not o.n and not check.undecided:
            check.finding(rule, p.need_func(cls + '.__init__'), None,
                          'no transaction of an existing file is read')
