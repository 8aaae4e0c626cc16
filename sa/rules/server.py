"""What the rules about StorageServer share.

ServerObs keeps facts about clients: (kind, client, what).  At the end of a loop
over clients, what holds for the client of every iteration becomes a fact about
ALL clients, and what holds for every client but the one being served a fact
about OTHERS; at the end of any other loop, what holds for the element of every
iteration becomes a fact about the container.  The kinds are
  told      the oid (or all oids in the container) is among the client's
            invalidations
  not told  the oid is not among them
  free      the oid (or no oid in it) is reserved for the client"""
from ..engine import NONE, const, contains, mentions
from .common import attr, covers, mname, strip
from .files import FileObs

SERVER = 'durus.storage_server.StorageServer'
U = 'durus.utils.'
CONFLICT = 'durus.error.ConflictError'
HIDE = ('durus.storage_server.SocketAddress.', 'durus.storage_server.HostPortAddress.',
        'durus.storage_server.Unix', 'durus.storage.Storage.', U)
ME = ('sym', 'self', SERVER)
S = ('sym', 's', 'socket')
CLIENTS, STORAGE = attr(ME, 'clients'), attr(ME, 'storage')
SENDS = ('write', 'write_all', 'write_int4_str', 'write_int4', 'sendall', 'send')


class ServerObs(FileObs):
    opaque_prefixes = FileObs.opaque_prefixes + HIDE
    opaque_names = FileObs.opaque_names + ('durus.serialize.extract_class_name',)

    def __init__(self):
        FileObs.__init__(self)
        self.n = 0

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual in (U + 'as_bytes',) and len(args) == 1:
            return [(st, args[0])]
        if qual == U + 'iteritems' and len(args) == 1:
            return i.call_method(st, args[0], 'items', [], {}, node, cx)
        if qual in (U + 'str_to_int4', U + 'str_to_int8') and args:
            st = st.copy()
            v = ('call', 'a.field', (), i.site(node, cx))
            i.fresh(st, v)
            return [(st, v)]
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    # who is who
    def own(self, st, c):
        """is c the client of this connection?"""
        if c[0] == 'item' and contains(c[1], lambda t: t == ME) and c[2] == S:
            return True
        return any(st.facts.get((op,) + p) for op in ('is', '==')
                   for p in ((attr(c, 's'), S), (S, attr(c, 's'))))

    def client(self, st, v, name):
        """the client whose attribute of this name v is"""
        if v[0] == 'attr' and v[2] == name:
            return v[1]
        return None

    def facts(self, st):
        return st.obs.get('facts', frozenset())

    def add(self, st, *f):
        st.obs['facts'] = self.facts(st) | {f}

    def holds(self, st, kind, who, what):
        """is it a fact about all oids in `what`?"""
        if st.facts.get(('truth', what)) is False:
            return True
        c = st.heap.get((what, '[]'))
        if c and c[0] == 'exact' and what[0] == 'new' and not any(x[0] == 'all' for x in c[1]) \
                and all(self.holds(st, kind, who, x) for x in c[1]):
            return True
        return any(k == kind and (c == who or c == 'ALL') and
                   (w == what or covers(st, w, what)) for k, c, w in self.facts(st)) or \
            ('none', 'none', 'none') in self.facts(st) or \
            who == 'OTHERS' and ('any', 'OTHERS', 'any') in self.facts(st)

    # loops
    def source(self, i, st, it):
        if covers(st, it, CLIENTS):
            return 'clients'
        c = st.heap.get((it, '[]'))
        if c and any(contains(x, lambda t: t[0] == 'elem' and covers(st, t[1], CLIENTS))
                     for x in c[1] if isinstance(x, tuple)):
            return 'clients'
        return it if st.obs.get(('live', it)) else None

    def left(self, i, st, tag, node):
        e = st.obs.pop(('todo', tag), None)
        if e is None:
            return
        self.n += 1
        for a, yes in list(st.facts.items()):
            if a[0] == 'in' and len(a) == 3 and a[1] == e and yes is False:
                self.assumed(i, st, a, yes, node)
        fs = self.facts(st)
        if tag == 'clients':
            new = set(('ALL', k, w) for k, c, w in fs if c == e and k != 'own')
            new |= set(('OTHERS', k, w) for k, c, w in fs if c == e and k != 'own')
            skip = ('own', e, 'own') in fs
        else:
            new = set((c, k, tag) for k, c, w in fs if w == e)
            skip = False
        acc = st.obs.get(('acc', tag))
        if skip:
            # nothing is asked about this one, but for ALL
            new = frozenset(x for x in (acc or ()) if x[0] == 'OTHERS') | frozenset(new) \
                if acc is not None else frozenset(new) | {('OTHERS', 'any', 'any')}
        if acc is not None:
            some = ('OTHERS', 'any', 'any')
            if some in acc:
                acc = acc | frozenset(x for x in new if x[0] == 'OTHERS')
            if some in new:
                new = new | frozenset(x for x in acc if x[0] == 'OTHERS')
            new = frozenset(new) & acc
        st.obs[('acc', tag)] = frozenset(new)
        st.obs['facts'] = frozenset(f for f in fs if not mentions(f, e))

    def on(self, i, st, ev, node):
        k = ev[0]
        if k == 'iter':
            tag = self.source(i, st, ev[1])
            st.obs.pop(('todo', tag), None)
            st.obs.pop(('acc', tag), None)
            if tag is None:
                st.obs[('live', ev[1])] = True
        FileObs.on(self, i, st, ev, node)
        if k == 'assume':
            self.assumed(i, st, ev[1], ev[2], node)
        elif k == 'mut':
            c = self.client(st, ev[1], 'invalid')
            if c is not None and ev[2] in ('update', 'add', '__ior__') and ev[3]:
                for x in ev[3]:
                    self.add(st, 'told', c, x)
            elif c is not None and ev[2] == 'clear':
                self.cleared(i, st, c, node)
        elif k == 'set' and ev[2] == 'invalid' and ev[1] != ME:
            if ev[3][0] == 'new' or ev[3][0] == 'call' and not mentions(ev[3], attr(ev[1], 'invalid')) \
                    and mname(ev[3]) == 'set' and not ev[3][2]:
                self.cleared(i, st, ev[1], node)
            elif contains(ev[3], lambda t: t == attr(ev[1], 'invalid')):
                for x in (ev[3][2] if ev[3][0] in ('op', 'call') else ()):
                    self.add(st, 'told', ev[1], x)

    def finished(self, i, st, tag, node):
        acc = st.obs.pop(('acc', tag), None)
        st.obs.pop(('live', tag), None)
        fs = self.facts(st)
        if tag == 'clients':
            if acc is None:
                new = {('none', 'none', 'none')}
            else:
                new = set((k, c, w) for c, k, w in acc)
        else:
            if acc is None:
                # an empty container: everything holds for it
                new = set((k, c, tag) for k in ('told', 'free', 'not told')
                          for c in ['ALL'] + [e for q, e in st.obs.items()
                                              if q == ('todo', 'clients')])
                new.add(('reserved', 'own', tag))
            else:
                new = set((k, c, w) for c, k, w in acc)
        st.obs['facts'] = fs | new

    def assumed(self, i, st, a, yes, node):
        if a[0] in ('is', '==') and len(a) == 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if yes and st.obs.get(('todo', 'clients')) == x and (
                        self.own(st, y) or y == S):
                    self.add(st, 'own', x, 'own')
                if yes and x[0] == 'attr' and x[2] == 's' and y == S and \
                        st.obs.get(('todo', 'clients')) == x[1]:
                    self.add(st, 'own', x[1], 'own')
        elif a[0] == 'in' and not yes:
            c = self.client(st, a[2], 'invalid')
            if c is not None:
                self.add(st, 'not told', c, a[1])
            c = self.client(st, a[2], 'unused_oids')
            if c is not None:
                self.add(st, 'free', c, a[1])
        elif a[0] == 'truth' and a[1][0] in ('call', 'op'):
            v = a[1]
            n = mname(v) if v[0] == 'call' else v[1]
            if n in ('intersection', 'BitAnd') and not yes or n == 'isdisjoint' and yes:
                for x in v[2]:
                    c = self.client(st, x, 'unused_oids')
                    if c is not None:
                        for y in v[2]:
                            if y != x:
                                self.add(st, 'free', c, y)

    def cleared(self, i, st, c, node):
        pass

    def is_storage(self, ev, *names):
        return ev[0] in ('call', 'called', 'failed') and ev[2] == STORAGE and mname(ev) in names

    def sent(self, ev):
        """what is sent by this call to the connection"""
        if mname(ev) in SENDS and ev[0] in ('call', 'called', 'failed'):
            if ev[2] == S:
                return ev[3]
            if ev[2] is None and ev[3] and ev[3][0] == S:
                return ev[3][1:]
        return None
