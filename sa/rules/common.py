"""Helpers of the rules."""
from ..engine import NONE, contains, mentions
from ..rule import Obs

PO = 'durus.persistent.PersistentObject'


def mname(ev):
    """the bare name of what is called in an event"""
    return ev[1].rpartition('.')[2] if isinstance(ev[1], str) else ''


def strip(it):
    """the container behind list(), items() etc."""
    while it[0] == 'call' and it[2] and it[1] in (
            'builtins.list', 'builtins.sorted', 'builtins.tuple', 'builtins.reversed',
            'builtins.set', 'builtins.frozenset', 'builtins.dict',
            '.items', '.keys', '.values', '.iteritems', 'builtins.iter', '.copy'):
        it = it[2][0]
    return it


def attr(base, name):
    return ('attr', base, name, 0)


def parts(elem):
    if elem[0] == 'call' and elem[1] == '.popitem':
        return (('item', elem, ('c', 'int', 0)), ('item', elem, ('c', 'int', 1)))
    return elem[1] if elem[0] == 'tuple' else (elem,)


class Tagged(Obs):
    """Keeps obligations of the elements of loops.

    source(i, st, it) -> a tag if the loop over `it` is one that must do
    something for every element, else None.  While an element is in hand,
    st.obs[('todo', tag)] holds the element; done_with() removes it.  An
    element left in hand at the end of its round is reported by missed().
    """

    def source(self, i, st, it):
        return None

    def missed(self, i, st, tag, elem, node):
        pass

    def started(self, i, st, tag, elem, node):
        pass

    def on(self, i, st, ev, node):
        k = ev[0]
        if k == 'drain':
            k, ev = 'next', ('next', ev[1], ev[2])
        elif k == 'assume' and ev[1][0] == 'truth' and not ev[2]:
            k, ev = 'done', ('done', ev[1][1])
        if k == 'next':
            tag = self.source(i, st, ev[1])
            if tag is not None:
                self.left(i, st, tag, node)
                st.obs[('todo', tag)] = ev[2]
                self.started(i, st, tag, ev[2], node)
        elif k == 'done':
            tag = self.source(i, st, ev[1])
            if tag is not None:
                self.left(i, st, tag, node)
                st.obs[('through', tag)] = True
                self.finished(i, st, tag, node)

    def finished(self, i, st, tag, node):
        pass

    def left(self, i, st, tag, node):
        e = st.obs.pop(('todo', tag), None)
        if e is not None:
            self.missed(i, st, tag, e, node)

    def in_hand(self, st, v):
        """the tags whose current element v is, or comes from"""
        return [k[1] for k, e in st.obs.items() if k[0] == 'todo'
                and any(mentions(v, x) for x in parts(e))]

    def done_with(self, st, tag):
        st.obs.pop(('todo', tag), None)


class ConnObs(Tagged):
    """Analyses methods of Connection: the storage, the cache, the
    serializer and the status methods of objects are kept as events."""

    opaque_prefixes = Obs.opaque_prefixes + (
        'durus.storage.', 'durus.file_storage.', 'durus.connection.Cache.',
        'durus.connection.ObjectDictionary.', 'durus.connection.ReferenceContainer.',
        'durus.serialize.', 'durus.persistent.', 'durus.error.')
    SELF = ('sym', 'self', 'durus.connection.Connection')
    STORAGE = attr(SELF, 'storage')
    CHANGED = attr(SELF, 'changed')
    INVALID = attr(SELF, 'invalid_oids')

    def elem_type(self, v):
        b = strip(v[1])
        if v[0] in ('val', 'elem') and b == self.CHANGED:
            return PO
        return None

    def is_storage(self, ev, *names):
        return ev[0] in ('call', 'called', 'failed') and ev[2] == self.STORAGE and mname(ev) in names


def facts_in(st, x):
    """containers known (from a test) to contain x"""
    return [a[2] for a, v in st.facts.items() if v and a[0] == 'in' and a[1] == x]


def cached_of(v, e):
    """is v what the cache holds for the oid e?"""
    return (v[0] == 'call' and v[1].rpartition('.')[2] == 'get'
            and len(v[2]) >= 2 and v[2][1] == e)


ALL_OF = {'list', 'sorted', 'tuple', 'reversed', 'set', 'frozenset', 'dict', 'items', 'keys',
          'values', 'iteritems', 'iter', 'copy', 'union', 'enumerate', 'split_oids', 'chain'}


def covers(st, it, x, depth=0):
    """does going through `it` go through all of x?"""
    if it == x:
        return True
    if depth > 4 or not isinstance(it, tuple) or not it:
        return False
    if it[0] == 'new':
        c = st.heap.get((it, '[]'))
        return c is not None and any(
            v[0] == 'all' and covers(st, v[1], x, depth + 1) for v in c[1]
            if isinstance(v, tuple) and v)
    if it[0] == 'call':
        return mname(it) in ALL_OF and any(covers(st, y, x, depth + 1) for y in it[2])
    if it[0] == 'op' and it[1] in ('|', '+', 'BitOr', 'Add'):
        return any(covers(st, y, x, depth + 1) for y in it[2])
    return False


class At:
    """reports about a whole function"""
    def __init__(self, i, f):
        self.i, self.f = i, f

    def __enter__(self):
        self.i.pos.append(type('P', (), {'func': self.f})())

    def __exit__(self, *x):
        self.i.pos.pop()


class Invalidations(ConnObs):
    """What must happen to each oid that the storage reports as changed by
    others: `reported` holds the terms of such lists."""
    SERIAL = attr(ConnObs.SELF, 'transaction_serial')

    def __init__(self, reported=()):
        ConnObs.__init__(self)
        self.reported = list(reported)
        self.count = 0

    def source(self, i, st, it):
        for r in self.reported:
            if covers(st, it, r):
                return ('reported', r)
        r = st.obs.get('result')
        if r is not None and covers(st, it, r):
            return ('reported', r)
        return None

    def started(self, i, st, tag, elem, node):
        self.count += 1
        st.obs[('flags', tag)] = frozenset()

    def flag(self, st, elem_test, *names):
        for k, e in list(st.obs.items()):
            if k[0] == 'todo' and k[1][0] == 'reported' and elem_test(e):
                f = ('flags', k[1])
                st.obs[f] = st.obs.get(f, frozenset()) | frozenset(names)

    def on(self, i, st, ev, node):
        ConnObs.on(self, i, st, ev, node)
        k = ev[0]
        if k == 'assume':
            a, yes = ev[1], ev[2]
            if a[0] == 'is' and NONE in a[1:]:
                self.flag(st, lambda e: any(cached_of(x, e) for x in a[1:]),
                          'none' if yes else 'cached')
            elif a[0] == '==' and self.SERIAL in a[1:]:
                self.flag(st, lambda e: any(x[0] == 'attr' and x[2] == '_p_serial'
                                            and cached_of(x[1], e) for x in a[1:]),
                          'accessed' if yes else 'not accessed')
            elif a[0] == 'in' and a[2] == self.CHANGED:
                self.flag(st, lambda e: a[1] == e or a[1][0] == 'attr' and a[1][2] == '_p_oid'
                          and cached_of(a[1][1], e), 'changed' if yes else 'not changed')
            elif a[0] == 'in' and not yes and mentions(a[2], attr(self.SELF, 'cache')):
                self.flag(st, lambda e: a[1] == e, 'none')
            elif a[0] == 'truth' and yes and a[1][0] == 'call' and mname(a[1]) == '_p_is_ghost':
                self.flag(st, lambda e: a[1][2] and cached_of(a[1][2][0], e), 'ghost')
        elif k in ('call', 'enter') and mname(ev) == '_p_set_status_ghost' and ev[2] is not None:
            self.flag(st, lambda e: cached_of(ev[2], e), 'unloaded')
        elif k in ('set', 'rawset') and ev[2] == '_p_status' and ev[3] == ('c', 'int', -1):
            self.flag(st, lambda e: cached_of(ev[1], e), 'unloaded')
        if k == 'mut' and ev[1] == self.INVALID and ev[2] == 'add' and ev[3]:
            self.flag(st, lambda e: ev[3][0] == e, 'marked')
        if k == 'mut' and ev[1] == self.INVALID and ev[2] in ('update', '__ior__') and ev[3]:
            # held in a list of conflicts
            c = st.heap.get((ev[3][0], '[]'))
            if c is not None:
                st.obs['marked all'] = True
                st.obs.pop('conflict not marked', None)

    def missed(self, i, st, tag, elem, node):
        f = st.obs.pop(('flags', tag), frozenset())
        if 'none' in f or 'ghost' in f:
            return
        if 'not accessed' in f and 'not changed' in f:
            if 'unloaded' not in f:
                self.report(i, node, 'a loaded object that others have changed, and that was not '
                            'used in this transaction, keeps its old state')
            if 'marked' in f:
                self.report(i, node, 'an object that was not used in this transaction is '
                            'treated as a conflict')
            return
        if 'accessed' in f or 'changed' in f:
            st.obs['conflict'] = True
            if 'marked' not in f:
                st.obs['conflict not marked'] = True
            if 'unloaded' in f:
                self.report(i, node, 'an object in conflict is unloaded before the transaction '
                            'is aborted')
            return
        if 'not accessed' in f:
            self.report(i, node, 'an object that was changed in this transaction without being '
                        'read, and also by others, is no conflict')
        elif 'not changed' in f:
            self.report(i, node, 'an object that was read in this transaction and changed by others '
                        'is no conflict')
        else:
            self.report(i, node, 'an object that others have changed is not checked for conflicts')

    def finished(self, i, st, tag, node):
        st.obs[('handled', tag[1])] = True


def fact(st, op, a, b):
    """True, False or None (unknown), for a symmetric comparison"""
    v = st.facts.get((op, a, b))
    return v if v is not None else st.facts.get((op, b, a))
