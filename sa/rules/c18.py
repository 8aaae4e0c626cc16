"""new_oid() of every storage is followed over all paths.  A storage that counts
must give out the number that its counter stands for and leave the counter
moved on by a positive constant; where a file is opened or built from records,
the counter must end at the running maximum of all stored oids, or just above
it.  FileStorage.new_oid() may only return an oid it has found not to be handed
out already and has noted as handed out, and a failing end() may not forget
that; the Shelf may only offer names found not to be in its memory index, taken
from the holes of its offset map or counted on from the end of that, and never
the same one twice running.  A client takes the oid it hands out off its pool,
and puts oids of a transaction back only where the server is then told that
nothing follows."""
import re
from ..engine import NONE, const, contains, mentions
from .common import At, Tagged, attr, covers, mname, parts, strip
from .files import (FileObs, storage_file, FS, FS2, SQL, MEM, RAW, FILEV, SHELF, SHELFV)
from .c11 import Reader
from .c12 import FailEnd

CLIENT = 'durus.client_storage.ClientStorage'
MAP = 'durus.shelf.OffsetMap'
NUM = 'durus.utils.str_to_int8'


def linear(v):
    """v as (term, constant)"""
    if v[0] == 'op' and v[1] == 'Add' and len(v[2]) == 2:
        for a, b in (v[2], v[2][::-1]):
            if b[0] == 'c' and isinstance(b[2], int):
                t, d = linear(a)
                return t, d + b[2]
    if v[0] == 'op' and v[1] == 'Sub' and len(v[2]) == 2 and v[2][1][0] == 'c' and \
            isinstance(v[2][1][2], int):
        t, d = linear(v[2][0])
        return t, d - v[2][1][2]
    if v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool):
        return None, v[2]
    return v, 0


def number(v):
    """the number that an oid stands for"""
    if v[0] == 'call' and mname(v) == 'int8_to_str' and v[2]:
        return v[2][0]
    return None


class Count(FileObs):
    """new_oid() of a storage with a counter"""
    def __init__(self, cls):
        FileObs.__init__(self)
        self.me = ('sym', 'self', cls)
        self.name, self.off = None, None

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                check.oblige('new oid')
                n = number(o.val) if o.val is not None else None
                if n is None:
                    continue
                t, d = linear(n)
                if t is None:
                    self.report(i, f.node, 'the same oid is handed out each time')
                    continue
                if t[0] != 'attr' or t[1] != self.me:
                    continue
                self.name = t[2]
                self.off = d if self.off is None else min(d, self.off)
                now = o.st.heap.get((self.me, t[2]), t)
                t2, k = linear(now)
                if t2 == t and k <= 0:
                    self.report(i, f.node, 'the counter does not move on with each oid')
                elif t2 is None:
                    self.report(i, f.node, 'the counter of oids is set back')


class Highest(FileObs):
    """the running maximum of the numbers of oids, as a path goes through them"""
    def __init__(self, cls, name, off):
        FileObs.__init__(self)
        self.cls, self.me, self.name, self.off = cls, ('sym', 'self', cls), name, off
        self.n = 0

    def source(self, i, st, it):
        s = strip(it)
        return ('of', s)

    def numbers(self, st, v):
        """the tags of the loops whose element v is the number of"""
        return [t for t, e in ((k[1], e) for k, e in st.obs.items() if k[0] == 'todo')
                if v[0] == 'call' and mname(v) == 'str_to_int8' and v[2] and any(
                    v[2][0] == x or v[2][0][0] == 'item' and v[2][0][1] == x for x in parts(e))]

    def larger(self, i, st, x, n, r, node):
        """r is the larger of x and n, the number of an element in hand"""
        b = st.obs
        for tag in self.numbers(st, n):
            acc = b.get(('acc', tag))
            if acc is not None and acc != x:
                b[('broken', tag)] = True
            b[('acc', tag)] = r
            b[('done', tag)] = True

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual in ('builtins.max',) and len(args) == 2:
            r = ('call', 'builtins.max', tuple(args), 0)
            for x, n in (args, args[::-1]):
                tags = self.numbers(st, n)
                if tags:
                    st = st.copy()
                    if st.obs.get(('acc', tags[0])) in (None, x):
                        r = ('sym', ('highest of', tags[0]), None)
                    self.larger(i, st, x, n, r, node)
            return [(st, r)]
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'assume' and ev[1][0] == '<':
            x, y, yes = ev[1][1], ev[1][2], ev[2]
            for p, q in ((x, y), (y, x)):
                if self.numbers(st, q) and not self.numbers(st, p):
                    self.larger(i, st, p, q, y if yes else x, node)
        elif k == 'called' and mname(ev) in ('execute', 'executemany', 'executescript'):
            sql = ev[3][0][2] if ev[3] and ev[3][0][0] == 'c' else ''
            sql = sql if isinstance(sql, str) else ''
            if mname(ev) == 'executemany':
                b['rows'] = True
                b.pop('top', None)
            elif mname(ev) == 'executescript' and re.search(r'create\s+table', sql, re.I):
                b['created'] = True
            else:
                b['asked'] = bool(re.search(r'max\s*\(\s*\w*id\b|order\s+by\s+id\s+desc', sql, re.I))
        elif k == 'called' and mname(ev) in ('fetchone', 'fetchall'):
            if b.pop('asked', None):
                b['top'] = ev[5]
        if k == 'called' and mname(ev) == 'exists' and ev[1].startswith('os.'):
            b['exists'] = ev[5]

    def left(self, i, st, tag, node):
        e = st.obs.pop(('todo', tag), None)
        if e is not None and not st.obs.pop(('done', tag), None) and ('acc', tag) in st.obs:
            st.obs[('broken', tag)] = True

    def started(self, i, st, tag, elem, node):
        st.obs['some'] = True

    def finished(self, i, st, tag, node):
        st.obs.pop(('through', tag), None)
        b = st.obs
        acc = b.pop(('acc', tag), None)
        if acc is not None:
            b['highest'] = (acc, tag[1], b.pop(('broken', tag), False))

    def check(self, i, f, outs, check, stored):
        with At(i, f):
            for o in outs:
                if o.kind == 'x' or not stored(o.st):
                    continue
                check.oblige('counter')
                b = o.st.obs
                init = attr(self.me, self.name)
                v = o.st.heap.get((self.me, self.name), init)
                t, c = linear(v)
                h = b.get('highest')
                ok = False
                if h is not None and not h[2]:
                    ht, hc = linear(h[0])
                    ok = ht == t and c - hc + self.off >= 1
                if not ok and contains(v, lambda x: x[0] == 'call' and mname(x) == 'max'
                                       and len(x[2]) == 1 or x[0] == 'call' and mname(x) == 'sorted'):
                    ok = c + self.off >= 1 or self.inside(v)
                top = b.get('top')
                if not ok and top is not None and mentions(v, top):
                    ok = c + self.off >= 1
                elif not ok and top is not None and t is None:
                    # nothing is stored
                    ok = c + self.off >= 0
                if not ok and h is None and self.untouched(o.st, v) and c + self.off >= 0 and (
                        not b.get('some') or t is None and self.cls != FS2):
                    ok = self.cls != SQL or bool(b.get('created')) and not b.get('rows')
                if not ok:
                    self.report(i, f.node, 'the counter of oids may not be above every stored oid')

    def inside(self, v):
        return contains(v, lambda x: x[0] == 'op' and x[1] == 'Add')

    def untouched(self, st, v):
        """was there nothing to go through?"""
        return linear(v)[0] is None or v == attr(self.me, self.name)


class Opened(Highest, Reader):
    """the counter of a FileStorage2 whose index is read from a file"""
    opaque_names = Reader.opaque_names + (FS2 + '._build_index', FS2 + '._write_header',
                                          FS2 + '._write_index', FS2 + '.has_format')

    def __init__(self, cls, name, off):
        Reader.__init__(self, cls, ('sym', 'self', cls))
        self.off, self.n, self.counter = off, 0, name
        self.name = name

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == FS2 + '._build_index':       # which C11 looks into
            st = st.copy()
            st.heap[(self.me, 'index')] = attr(self.me, 'index')
            return [(st, NONE)]
        return Highest.model(self, i, st, qual, recv, args, kwargs, node, cx)

    on = Highest.on
    before = FileObs.before
    op = FileObs.op
    track = FileObs.track


class Handed(FileObs):
    """FileStorage.new_oid()"""
    opaque_names = FileObs.opaque_names + (SHELF + '.next_name',)

    def __init__(self):
        FileObs.__init__(self)
        self.me = ('sym', 'self', FS)
        self.out = attr(self.me, 'allocated_unused_oids')

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'assume' and ev[1][0] == 'in' and ev[1][2] == self.out and not ev[2]:
            b[('new', ev[1][1])] = True
        elif k == 'mut' and ev[1] == self.out:
            if ev[2] in ('add', 'update', '__ior__'):
                for a in ev[3]:
                    b[('noted', a)] = True
                    c = st.heap.get((a, '[]'))
                    for x in (c[1] if c else ()):
                        if isinstance(x, tuple):
                            b[('noted', x)] = True
            else:
                b['lost'] = True

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                if o.kind == 'x' or o.val is None:
                    continue
                check.oblige('new oid')
                if ('new', o.val) not in o.st.obs:
                    self.report(i, f.node, 'an oid that was handed out and not stored yet can be '
                                'handed out again')
                if ('noted', o.val) not in o.st.obs or o.st.obs.get('lost'):
                    self.report(i, f.node, 'an oid that is handed out is not noted as such')


class Kept(FailEnd):
    """FileStorage.end() keeps what is handed out, until it is stored"""
    def __init__(self):
        FailEnd.__init__(self, FS)
        self.out = attr(self.me, 'allocated_unused_oids')

    def on(self, i, st, ev, node):
        FailEnd.on(self, i, st, ev, node)
        k = ev[0]
        now = st.heap.get((self.me, 'allocated_unused_oids'), self.out)
        if k == 'mut' and ev[1] == now and ev[2] not in ('add', 'update', '__ior__') or \
                k == 'set' and ev[1] == self.me and ev[2] == 'allocated_unused_oids':
            st.obs['forgotten'] = True
            empty = k == 'mut' and ev[2] == 'clear' or k == 'set' and ev[3][0] == 'new' and (
                st.heap.get((ev[3], '[]')) == ('exact', ()))
            if empty:
                self.report(i, node, 'oids that are handed out but not stored are forgotten')

    def report(self, i, node, msg, key=None):
        if 'forgotten' in msg:
            FailEnd.report(self, i, node, msg, key)

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                check.oblige('handed out')
                if o.kind == 'x' and o.val.kind == 'exc' and o.st.obs.get('forgotten'):
                    self.report(i, f.node, 'oids of a transaction that fails are forgotten, and '
                                'can be handed out again while they are in use')


class Names(FileObs):
    """Shelf.next_name()"""
    opaque_prefixes = FileObs.opaque_prefixes + (MAP + '.',)

    def __init__(self):
        FileObs.__init__(self)
        self.me = ('sym', 'self', SHELF)
        self.index = attr(self.me, 'memory_index')
        self.map = attr(self.me, 'offset_map')
        self.n = 0

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'next' and contains(ev[1], lambda t: t[0] == 'call' and mname(t) == 'gen_holes'):
            b['hole'] = ev[2]
        if k == 'assume' and ev[1][0] == 'in' and ev[1][2] == self.index:
            b[('seen', ev[1][1])] = not ev[2]
        elif k == 'assume' and ev[1][0] == 'is' and NONE in ev[1][1:] and ev[2]:
            x = ev[1][1] if ev[1][2] == NONE else ev[1][2]
            if x[0] == 'call' and mname(x) in ('get_position', 'get') and len(x[2]) > 1:
                b[('seen', x[2][1])] = True
        elif k == 'offer':
            pass

    def offered(self, i, st, v, node):
        b = st.obs
        self.n += 1
        if not b.get(('seen', v)):
            self.report(i, node, 'a name that is in the memory index can be offered')
        n = number(v)
        if n is not None:
            t, d = linear(n)
            if t is None:
                self.report(i, node, 'a name is offered that may be in the offset map')
            elif contains(t, lambda x: x[0] == 'call' and mname(x) in (
                    'get_array_size', '__len__', 'len')) and d < 0:
                self.report(i, node, 'a name is offered that may be in the offset map')
        if st.heap.get((self.me, '#last')) == v and n is not None and b.get('hole') is None:
            self.report(i, node, 'the same name is offered again')

    def check(self, i, f, outs, check):
        pass


class NamesGen(Names):
    """the generator of names, from start to end"""
    def havoc_yield(self, i, st, value):
        b = st.obs
        st.heap[(self.me, '#last')] = value     # not part of the rule's state
        for k in [k for k in b if k[0] == 'seen']:
            b.pop(k)
        for a in [a for a in st.facts if mentions(a, self.index)]:
            st.facts.pop(a)

    def on(self, i, st, ev, node):
        if ev[0] == 'yield':
            self.offered(i, st, ev[1], node)
            return
        if ev[0] == 'done':
            st.obs.pop('hole', None)
        Names.on(self, i, st, ev, node)


class ClientObs(FileObs):
    opaque_prefixes = FileObs.opaque_prefixes + ('durus.utils.',)

    def __init__(self):
        FileObs.__init__(self)
        self.me = ('sym', 'self', CLIENT)
        self.pool = attr(self.me, 'oid_pool')
        self.new = attr(self.me, 'transaction_new_oids')

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        pool = st.heap.get((self.me, 'oid_pool'), self.pool)
        new = st.heap.get((self.me, 'transaction_new_oids'), self.new)
        if k in ('mut', 'set'):
            self.change(i, st, ev, node, pool, new)
        if k == 'assume' and ev[1][0] == 'truth' and ev[1][1] == self.pool and not ev[2]:
            b['empty'] = True
        if k == 'set' and ev[1] == self.me and ev[2] == 'transaction_new_oids':
            c = st.heap.get((ev[3], '[]'))
            if ev[3][0] == 'new' and c == ('exact', ()):
                b['cleared'] = True
                b.pop('again', None)
        elif k == 'mut' and ev[1] == new and ev[2] in ('clear', '__delitem__'):
            b['cleared'] = True
            b.pop('again', None)

    def change(self, i, st, ev, node, pool, new):
        pass


class Take(ClientObs):
    """ClientStorage.new_oid()"""
    def change(self, i, st, ev, node, pool, new):
        b = st.obs
        if ev[0] == 'set' and ev[1] == self.me and ev[2] == 'oid_pool':
            if not b.get('empty') and not covers(st, ev[3], pool) and not contains(
                    ev[3], lambda t: t == self.pool):
                self.report(i, node, 'oids of the pool are lost before they are used')
            b['fresh'] = True
        elif ev[0] == 'mut' and ev[1] == new and ev[2] in ('append', 'add', 'insert') and ev[3]:
            b[('noted', ev[3][-1])] = True

    def on(self, i, st, ev, node):
        ClientObs.on(self, i, st, ev, node)
        if ev[0] == 'called' and mname(ev) in ('pop', 'popleft') and ev[5] is not None:
            st.obs[('popped', ev[5])] = True
        elif ev[0] == 'mut' and ev[2] in ('__delitem__', 'remove'):
            st.obs['removed'] = True
        if ev[0] == 'drain':
            st.obs[('popped', ev[2])] = True

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                if o.kind == 'x' or o.val is None:
                    continue
                check.oblige('client')
                b = o.st.obs
                if ('popped', o.val) not in b and not b.get('removed') and contains(
                        o.val, lambda t: t == self.pool or t[0] == 'call' and mname(t) == 'split_oids') \
                        and not contains(o.val, lambda t: t[0] == 'call' and mname(t) in ('pop', 'popleft')):
                    self.report(i, f.node, 'an oid stays in the pool after it was handed out')


class Back(ClientObs):
    """ClientStorage.end(): oids that go back into the pool"""
    def change(self, i, st, ev, node, pool, new):
        b = st.obs
        grows = None
        if ev[0] == 'mut' and ev[1] == pool and ev[2] in ('extend', '__iadd__', 'append', 'insert',
                                                           'update', 'add', '__setitem__'):
            grows = ev[3]
        elif ev[0] == 'set' and ev[1] == self.me and ev[2] == 'oid_pool':
            grows = (ev[3],)
        if grows:
            b['back'] = True
            b['again'] = True
            if b.get('sent'):
                self.report(i, node, 'oids go back into the pool after records were sent')

    def on(self, i, st, ev, node):
        ClientObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'call' and mname(ev) in ('write_int4', 'write_int4_str', 'write', 'write_all', 'sendall', 'send') \
                and ev[3] and len(ev[3]) > 1:
            v = ev[3][1]
            if mname(ev) == 'write' and v == const('C'):
                return
            zero = v == const(0) or v[0] == 'call' and mname(v) == 'int4_to_str' and v[2][0] == const(0) \
                or v in (const(b'\0\0\0\0'), const(b''), const(''))
            if zero:
                b['nothing'] = True
            else:
                b['sent'] = True
                if b.get('back'):
                    self.report(i, node, 'records are sent after their oids went back into the pool')

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and ev[1] == '()' and ev[2] is not None and ev[2][0] == 'sym':
            return ('durus.error.WriteConflictError',)
        return ()

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                check.oblige('client')
                b = o.st.obs
                if f.qual != CLIENT + '.end':
                    if b.get('back'):
                        self.report(i, f.node, 'oids that may be in use go back into the pool')
                    continue
                if b.get('again'):
                    self.report(i, f.node, 'oids that went back into the pool may go there again')
                if b.get('back') and not b.get('nothing'):
                    self.report(i, f.node, 'the server is not told that nothing follows')


def decide(check):
    p = check.p
    for cls in (FS2, MEM, SQL):
        f = p.need_func(cls + '.new_oid')
        o = Count(cls)
        check.run('new oid', o, f.qual, then=lambda i, outs: o.check(i, f, outs, check))
        if o.name is None:
            continue
        name, off = o.name, o.off
        if cls == FS2:
            f = p.need_func(cls + '.__init__')
            h = Opened(cls, name, off)

            def setup(i, st, selfv):
                st.heap[(FILEV, 'file')] = RAW
            check.run('counter', h, f.qual, selfv=h.me, args={'file': FILEV}, setup=setup,
                      then=lambda i, outs: h.check(i, f, outs, check, lambda st: True))
            f2 = p.need_func(cls + '.create_from_records')
            h2 = Highest(cls, name, off)
            check.run('counter', h2, f2.qual, setup=storage_file,
                      then=lambda i, outs: h2.check(i, f2, outs, check, lambda st: True))
        elif cls == SQL:
            for m in ('__init__', 'create_from_records'):
                f = p.need_func('%s.%s' % (cls, m))
                h = Highest(cls, name, off)
                check.run('counter', h, f.qual, selfv=h.me,
                          then=lambda i, outs: h.check(i, f, outs, check, lambda st: True))
        else:
            f = p.need_func(cls + '.__init__')
            h = Highest(cls, name, off)
            check.run('counter', h, f.qual, selfv=h.me,
                      then=lambda i, outs: h.check(i, f, outs, check, lambda st: True))
    f = p.need_func(FS + '.new_oid')
    o = Handed()
    check.run('new oid', o, f.qual, setup=storage_file,
              then=lambda i, outs: o.check(i, f, outs, check))
    f = p.need_func(FS + '.end')
    o = Kept()
    check.run('handed out', o, f.qual, setup=storage_file,
              then=lambda i, outs: o.check(i, f, outs, check))
    names(check, p)
    f = p.need_func(CLIENT + '.new_oid')
    o = Take()
    check.run('client', o, f.qual, then=lambda i, outs: o.check(i, f, outs, check))
    f = p.need_func(CLIENT + '.end')
    o = Back()
    check.run('client', o, f.qual, then=lambda i, outs: o.check(i, f, outs, check))
    for m in ('begin', 'load', 'store', 'sync', 'pack', 'bulk_load', 'close'):
        f = p.need_func('%s.%s' % (CLIENT, m))
        o = Back()
        check.run('client', o, f.qual, then=lambda i, outs: o.check(i, f, outs, check))
    # what one transaction took must not be given back by a later one
    cleared = []
    for m in ('begin', 'end'):
        f = p.need_func('%s.%s' % (CLIENT, m))
        o = ClientObs()
        outs = check.run('client', o, f.qual) or []
        cleared.append(all(x.st.obs.get('cleared') for x in outs if x.kind != 'x'))
        check.oblige('client')
    if not any(cleared):
        check.finding('client', p.need_func(CLIENT + '.begin'), None,
                      'oids of a transaction that is done may go back into the pool')


def names(check, p):
    f = p.need_func(SHELF + '.next_name')
    o = NamesGen()

    def follow(i, outs):
        seen = set()
        for out in outs:
            for (obj, name), v in list(out.st.heap.items()):
                if obj == o.me and v[0] == 'gen' and v not in seen:
                    seen.add(v)
                    i.run_value(v, out.st)
        if not seen:
            # no generator: what is returned is what is offered
            with At(i, f):
                for out in outs:
                    if out.kind != 'x' and out.val is not None:
                        o.offered(i, out.st, out.val, f.node)
    check.run('names', o, f.qual, then=follow)
    check.oblige('names', o.n)
