"""All paths of every request of StorageServer are followed with the facts known about
the clients' lists of invalidations.  What comes from storage.load(oid) is sent only
where that oid is known not to be in the list of the client of this connection, with
no addition to the list in between.  A list is emptied only after it has been sent
and the send has returned normally, with no addition in between; when it is sent,
everything from storage.sync() has been added to the list of every client.  The
function that the server gives to storage.end adds all oids it is given to the list of
every client, and an oid from storage.new_oid() is sent only when it is known to be in
no client's list."""
from ..engine import NONE, const, contains, mentions
from .common import attr, covers, mname
from .server import CLIENTS, ME, S, SERVER, STORAGE, ServerObs

COPIES = ('list', 'tuple', 'sorted', 'set', 'frozenset', 'copy', 'join', 'join_bytes')


def base(t):
    while t[0] == 'old':
        t = t[1]
    return t


def loaded(t):
    t = base(t)
    return t[0] == 'call' and t[1] == 'durus.storage.Storage.load' and t[2][:1] == (STORAGE,)


def fresh_oid(t):
    t = base(t)
    return t[0] == 'call' and t[1] == 'durus.storage.Storage.new_oid' and t[2][:1] == (STORAGE,)


class Serve(ServerObs):
    def __init__(self):
        ServerObs.__init__(self)
        self.ends = set()

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        n = qual.rpartition('.')[2]
        if n in COPIES and len(args) <= 1 and (args or recv is not None):
            a = args[0] if args else recv
            if a[0] == 'attr' and a[2] == 'invalid':
                st = st.copy()
                v = ('call', 'builtins.' + n if n != 'join' else '.join', (a,), i.site(node, cx))
                i.fresh(st, v)
                st.heap[(v, '#copy')] = a
                return [(st, v)]
        return ServerObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def mine(self, st, c):
        return c == 'ALL' or c == 'own' or not isinstance(c, str) and self.own(st, c)

    def drop(self, st, who, *kinds):
        st.obs['facts'] = frozenset(
            f for f in self.facts(st) if not (f[0] in kinds and (
                f[1] == who or f[1] in ('ALL', 'OTHERS') or
                self.mine(st, f[1]) and self.maybe(st, who))))

    def maybe(self, st, c):
        """may c be the client of this connection?"""
        if any(st.facts.get(('is',) + p) is False for p in ((attr(c, 's'), S), (S, attr(c, 's')))):
            return False
        return not any(a[0] in ('is', '==') and v is False and (
            a[1] == c and self.own(st, a[2]) or a[2] == c and self.own(st, a[1]))
            for a, v in st.facts.items() if len(a) == 3)

    def clear_of(self, st, oid):
        """is this oid known not to be in the list of the client served?"""
        return any(k == 'not told' and self.mine(st, c) and (
            w == oid or oid[0] in ('elem', 'key', 'val') and covers(st, w, oid[1]))
            for k, c, w in self.facts(st))

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        c = self.client(st, ev[1], 'invalid') if k == 'mut' else (
            ev[1] if k == 'set' and ev[2] == 'invalid' else None)
        if c is not None and (k == 'set' and mentions(ev[3], attr(c, 'invalid')) or
                              k == 'mut' and ev[2] in ('update', 'add', '__ior__')):
            self.drop(st, c, 'not told', 'sent')
            self.stale(st, c)
        elif c is not None and k == 'mut' and ev[2] in (
                'remove', 'discard', 'pop', 'difference_update', '__isub__', '__iand__',
                'intersection_update'):
            self.cleared(i, st, c, node)
        ServerObs.on(self, i, st, ev, node)
        if k == 'called' and self.is_storage(ev, 'sync'):
            b['sync'] = True
            st.heap[(ME, '#sync')] = ev[-1]
        args = self.sent(ev)
        if args is None:
            if self.is_storage(ev, 'end') and k == 'call':
                self.n += 1
                h = dict(ev[4]).get('handle_invalidations', ev[3][0] if ev[3] else NONE)
                self.ends.add((h, getattr(node, 'lineno', None)))
            return
        if k == 'call':
            self.n += 1
            for x in self.parts(st, args):
                if loaded(x) and not self.clear_of(st, base(x)[2][1]):
                    self.report(i, node, 'a record may be sent of an oid that the client must '
                                'first invalidate')
                elif x[0] == 'attr' and x[2] == 'invalid' and self.mine(st, x[1]):
                    if not b.get('sync'):
                        self.report(i, node, 'a client is sent its invalidations without those '
                                    'of the storage')
                    elif not self.holds(st, 'told', 'ALL', st.heap.get((ME, '#sync'), NONE)):
                        self.report(i, node, 'a client is sent its invalidations before those of '
                                    'the storage are in every list')
                elif fresh_oid(x) and not self.holds(st, 'not told', 'ALL', x):
                    self.report(i, node, 'an oid that a client must still invalidate may be given '
                                'to a new object')
        elif k == 'called':
            for x in self.parts(st, args, lists=True):
                if x[0] == 'attr' and x[2] == 'invalid':
                    self.add(st, 'sent', 'own' if self.mine(st, x[1]) else x[1], 'list')

    def stale(self, st, c):
        """copies that were made of this list are no longer complete"""
        for q in list(st.heap):
            v = None
            if q[1] == '#copy':
                v = st.heap[q]
            elif q[1] == '[]' and q[0][0] == 'new' and st.heap[q]:
                v = next((x[1] for x in st.heap[q][1] if isinstance(x, tuple) and
                          x[0] == 'all' and self.client(st, x[1], 'invalid')), None)
            if v is not None and (v[1] == c or self.mine(st, v[1]) and self.maybe(st, c)):
                st.heap[(q[0], '#stale')] = const(True)

    def parts(self, st, args, lists=False):
        """what the sent values are made of; with lists, only whole lists count"""
        out, todo, seen = [], list(args), set()
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if x[0] in ('attr',) or loaded(x) or fresh_oid(x):
                out.append(x)
                continue
            if lists and x[0] == 'call' and mname(x) == 'len':
                continue
            if lists and st.heap.get((x, '#stale')):
                continue
            if x[0] == 'new':
                c = st.heap.get((x, '[]'))
                for v in c[1] if c else ():
                    if isinstance(v, tuple) and v:
                        todo.append(v[1] if v[0] == 'all' else v)
            elif x[0] == 'call':
                todo.extend(x[2])
            elif x[0] == 'op':
                todo.extend(y for y in x[2] if isinstance(y, tuple))
            elif x[0] in ('old', 'item', 'slice', 'tuple', 'elem'):
                todo.extend(y for y in x[1:] if isinstance(y, tuple))
        return out

    def cleared(self, i, st, c, node):
        self.n += 1
        if not any(f[0] == 'sent' and (f[1] == c or self.mine(st, f[1]) and self.mine(st, c))
                   for f in self.facts(st)):
            self.report(i, node, 'invalidations are forgotten that have not been sent to the client')


def decide(check):
    p = check.p
    ends = set()
    for name, m in check.methods(SERVER):
        if not name.startswith('handle_') or len(m.node.args.args) != 2:
            continue
        o = Serve()
        check.run('serve', o, m.qual, args={m.node.args.args[1].arg: S})
        check.oblige('serve', o.n)
        ends |= o.ends
    told = set()
    for h, line in ends:
        f = p.funcs.get(h[2]) if h[0] == 'bm' else None
        if h == NONE:
            check.finding('told', p.need_func(SERVER + '.handle_C'), line,
                          'the storage is not asked for invalidations of the clients')
        if f is None or f.qual in told:
            continue
        told.add(f.qual)
        a = f.node.args.args[1].arg
        o = Serve()

        def then(i, outs):
            for out in outs:
                check.oblige('told')
                if out.kind != 'x' and not o.holds(out.st, 'told', 'ALL', ('sym', a, None)):
                    check.finding('told', f, None, 'oids that the storage reports as changed are '
                                  'not among the invalidations of every client')
        check.run('told', o, f.qual, then=then, args={a: ('sym', a, None)})
