"""All paths of the commit request of StorageServer are followed, with the storage
and the connection made to fail as they may.  Between reading the request and the
answer they must pass through one begin, a store for each record and one end of the
storage; before that end every other client's reserved oids are compared with the
stored ones; success is answered only when the end was normal, refusal only when it
raised ConflictError, and at the answer each other client (of a loop over all
clients, with what happens in each iteration) has the stored oids among its
invalidations.  Oids are recorded as reserved for a client before they are sent to
it, and the reservation ends with the commit that uses them."""
from ..engine import NONE, const, contains, mentions
from .common import attr, covers, mname
from .server import CONFLICT, CLIENTS, ME, S, SERVER, STORAGE, ServerObs

OKAY, INVALID = 'STATUS_OKAY', 'STATUS_INVALID'


class Commit(ServerObs):
    def __init__(self, p, okay, invalid):
        ServerObs.__init__(self)
        self.p, self.okay, self.invalid = p, okay, invalid

    def raises(self, i, st, ev, node):
        if self.is_storage(ev, 'end'):
            return (CONFLICT, 'builtins.OSError')
        if self.is_storage(ev, 'begin', 'store') or self.sent(ev) is not None:
            return ('builtins.OSError',)
        return ()

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        ServerObs.on(self, i, st, ev, node)
        if k == 'mut' and ev[3] and ev[1][0] == 'new':
            for x in ev[3]:
                if x[0] != 'c':
                    b['moved'] = True
                    st.heap[(x, ('#in', ev[1]))] = const(True)
                    if b.get('wait') and st.heap.get((ME, '#wait')) == x:
                        b.pop('wait')
                        st.heap.pop((ME, '#wait'))
                        self.into(st, ev[1])
        elif k == 'mut' and ev[2] in ('__isub__', 'difference_update') and ev[3]:
            c = self.client(st, ev[1], 'unused_oids')
            if c is not None and self.own(st, c):
                self.add(st, 'used', 'own', ev[3][0])
        elif k == 'set' and ev[2] == 'unused_oids' and ev[3][0] in ('op', 'call'):
            for x in ev[3][2]:
                self.add(st, 'used', 'own', x)
        elif k == 'call':
            if self.is_storage(ev, 'begin'):
                self.n += 1
                if b.get('begun'):
                    self.report(i, node, 'a second transaction is begun for one request')
                b['begun'] = True
            elif self.is_storage(ev, 'store'):
                self.n += 1
                if not b.get('begun') or b.get('ended'):
                    self.report(i, node, 'a record is stored outside of a transaction')
                b['moved'] = True
                self.waiting(i, st, node)
                oid = ev[3][0] if ev[3] else NONE
                base = oid
                while base[0] in ('item', 'old'):
                    base = base[1]
                known = [k[1][1] for k in st.heap if k[0] == oid and isinstance(k[1], tuple)]
                if known:
                    self.into(st, known[0])
                elif base[0] in ('key', 'elem', 'val'):
                    self.into(st, base[1])
                else:
                    b['wait'] = True
                    st.heap[(ME, '#wait')] = oid
            elif self.is_storage(ev, 'end'):
                self.n += 1
                self.waiting(i, st, node)
                if not b.get('begun'):
                    self.report(i, node, 'a transaction is ended that was not begun')
                t = b.get('head')
                if t is not None and t[0] == '<' and t[2] and not contains(t, lambda x: x == ('deep',)):
                    self.report(i, node, 'the transaction is ended before all records are stored')
                if not all(self.holds(st, 'free', 'OTHERS', w) for w in self.put(st)):
                    self.report(i, node, 'a record may be stored under an oid that is reserved for '
                                'another client')
            elif self.sent(ev) is not None and b.get('begun'):
                self.answer(i, st, self.sent(ev), node)
        elif k == 'called' and self.is_storage(ev, 'end'):
            b['ended'] = True
        elif k == 'failed' and self.is_storage(ev, 'end'):
            b['failed'] = ev[-1][1]

    def assumed(self, i, st, a, yes, node):
        ServerObs.assumed(self, i, st, a, yes, node)
        b = st.obs
        if a[0] == '<' and a[2][0] == 'call' and mname(a[2]) == 'len' and \
                a[1][0] != 'c' and not b.get('ended'):
            if b.get('begun') and b.get('head') and not b.get('moved'):
                self.report(i, node, 'a record of the request is skipped')
            self.waiting(i, st, node)
            b['head'] = ('<', 0, yes)
            b.pop('moved', None)
            # what was compared for a single record is not asked about later
            for f in [f for f in st.facts if f[0] == 'in' and f[1][0] in ('item', 'old', 'slice')
                      or f[0] == '<' and f != a]:
                del st.facts[f]

    def into(self, st, c):
        st.obs[('into', c)] = True

    def put(self, st):
        return [k[1] for k in st.obs if isinstance(k, tuple) and k[0] == 'into']

    def waiting(self, i, st, node):
        if st.obs.pop('wait', None):
            st.heap.pop((ME, '#wait'), None)
            self.into(st, ('sym', 'nowhere', None))

    def answer(self, i, st, args, node):
        b = st.obs
        self.n += 1
        st1 = [x for x in args if x in (self.okay, self.invalid)]
        if b.get('ended'):
            if self.invalid in st1:
                self.report(i, node, 'a commit is refused that the storage has accepted')
            if not all(self.holds(st, 'told', 'OTHERS', w) for w in self.put(st)):
                self.report(i, node, 'the other clients do not have the stored oids among their '
                            'invalidations when the answer is sent')
            if not all(any(f[0] == 'used' and covers(st, f[2], w) for f in self.facts(st))
                       for w in self.put(st)):
                self.report(i, node, 'oids that a commit has used remain reserved')
        elif b.get('failed'):
            if not self.p.is_subclass(b['failed'], CONFLICT):
                self.report(i, node, 'an answer is sent though the storage failed')
            elif self.okay in st1:
                self.report(i, node, 'success is reported for a commit with a conflict')
        else:
            self.report(i, node, 'an answer is sent before the storage has ended the transaction')


class Reserve(ServerObs):
    """oids are recorded before they are handed out"""
    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        ServerObs.on(self, i, st, ev, node)
        if self.is_storage(ev, 'new_oid') and k == 'called':
            self.n += 1
            b['oid'] = True
        elif k in ('mut', 'set') and ev[1 if k == 'mut' else 3][0] in ('attr', 'op'):
            c = self.client(st, ev[1], 'unused_oids') if k == 'mut' else (
                ev[1] if ev[2] == 'unused_oids' else None)
            if c is not None and self.own(st, c):
                if k == 'mut' and ev[2] in ('update', 'add', '__ior__') or k == 'set':
                    for x in ev[3] if k == 'mut' else ev[3][2]:
                        self.add(st, 'reserved', 'own', x)
        elif k == 'call' and self.sent(ev) is not None:
            self.n += 1
            if b.get('oid') and not any(f[0] == 'reserved' for f in self.facts(st)):
                self.report(i, node, 'oids are sent to a client without being recorded as '
                            'reserved for it')


def decide(check):
    p = check.p
    f = p.need_func(SERVER + '.handle_C')
    o = Commit(p, const(b'O'), const(b'I'))

    def then(i, outs):
        for out in outs:
            b = out.st.obs
            check.oblige('commit')
            if out.kind != 'x' and b.get('begun') and not b.get('ended'):
                x = b.get('failed')
                if x is None:
                    check.finding('commit', f, None, 'a commit request may leave the transaction '
                                  'without an end')
                elif not p.is_subclass(x, CONFLICT):
                    check.finding('commit', f, None, 'the failure of a commit is hidden from the '
                                  'client')
    check.run('commit', o, f.qual, then=then, args={'s': S})
    check.oblige('commit', o.n)
    for n in ('handle_N', 'handle_M'):
        f = p.funcs.get(SERVER + '.' + n)
        if f is not None:
            o = Reserve()
            check.run('reserve', o, f.qual, args={'s': S})
            check.oblige('reserve', o.n)
