"""Connection.abort(), commit() without changes and pack() are followed over
all paths.  On each path that returns, sync() of the storage has been
called; every oid of its result and of the pending invalidations is gone
through in a loop in which the object that the cache holds for it, if any,
is made a ghost; the pending invalidations are emptied, and not before they
have been gone through; the transaction number is advanced once.  abort()
also makes each changed object a ghost before the changed objects are
forgotten, and pack() does all of this before it packs the storage."""
from ..engine import NONE, mentions
from .common import ConnObs, At, covers, cached_of, mname, strip, parts, PO


class Sync(ConnObs):
    """who: which of abort, commit, pack is analysed"""

    def __init__(self, who):
        ConnObs.__init__(self)
        self.who = who
        self.count = 0

    def elem_type(self, v):
        return ConnObs.elem_type(self, v)

    def tags(self, st, it):
        b = st.obs
        out = set()
        if covers(st, it, self.CHANGED):
            out.add('changed')
        res = b.get('result')
        pending = covers(st, it, self.INVALID)
        if pending:
            out.add('pending')
        if res is not None and (covers(st, it, res) or pending and b.get('merged')):
            out.add('result')
        return frozenset(out)

    def source(self, i, st, it):
        return self.tags(st, it) or None

    def missed(self, i, st, tag, elem, node):
        st.obs[('bad', tag)] = True
        st.obs['badline'] = (node.lineno, i.pos[-1].func.qual if i.pos else '?')

    def finished(self, i, st, tag, node):
        if not st.obs.get(('bad', tag)):
            for t in tag:
                st.obs[('done', t)] = True

    def on(self, i, st, ev, node):
        ConnObs.on(self, i, st, ev, node)
        k = ev[0]
        b = st.obs
        if k == 'called' and self.is_storage(ev, 'sync'):
            b['result'] = ev[5]
            b.pop(('done', 'result'), None)
            b.pop('merged', None)
            self.count += 1
        elif k == 'called' and self.is_storage(ev, 'begin'):
            b['begun'] = True
        elif k == 'call' and self.is_storage(ev, 'pack', 'get_packer') and self.who == 'pack':
            b['packed'] = True
            self.settled(i, st, node, 'the storage is packed')
        if k == 'mut' and ev[1] == self.INVALID:
            if ev[2] in ('update', '__ior__') and b.get('result') is not None and any(
                    covers(st, a, b['result']) for a in ev[3]):
                b['merged'] = True
            if ev[2] == 'add' and b.get('result') is not None:
                for t, e in list(b.items()):
                    if t[0] == 'todo' and 'result' in t[1] and e in ev[3]:
                        b['merged'] = True
                        self.done_with(st, t[1])
            if ev[2] in ('clear', 'difference_update', 'discard', 'remove'):
                self.emptied(i, st, node)
        if k == 'set' and ev[1] == self.SELF and ev[2] == 'invalid_oids':
            self.emptied(i, st, node)
        if (k == 'mut' and ev[1] == self.CHANGED and ev[2] in ('clear', 'pop', 'popitem', '__delitem__')) or (
                k == 'set' and ev[1] == self.SELF and ev[2] == 'changed'):
            b['forgot'] = True
        if k == 'set' and ev[1] == self.SELF and ev[2] == 'transaction_serial':
            b['advanced'] = min(2, b.get('advanced', 0) + 1)
        # what is done with the element in hand
        v = None
        if k in ('call', 'enter') and mname(ev) == '_p_set_status_ghost':
            v = ev[2]
        elif k in ('set', 'rawset') and ev[2] == '_p_status' and ev[3] == ('c', 'int', -1):
            v = ev[1]
        if v is not None:
            self.count += 1
            for t, e in list(b.items()):
                if t[0] != 'todo':
                    continue
                if 'changed' in t[1] and any(mentions(v, x) for x in parts(e)):
                    self.done_with(st, t[1])
                elif any(cached_of(v, x) for x in parts(e)):
                    self.done_with(st, t[1])
        if k == 'assume':
            a, yes = ev[1], ev[2]
            if a == ('truth', self.CHANGED) and not yes:
                b['forgot'] = True
            if a == ('truth', self.INVALID) and not yes:
                b['emptied'] = True
            for t, e in list(b.items()):
                if t[0] != 'todo' or 'changed' in t[1]:
                    continue
                for x in parts(e):
                    none = a[0] == 'is' and yes and NONE in a[1:] and any(
                        cached_of(y, x) for y in a[1:])
                    absent = a[0] == 'in' and not yes and a[1] == x and mentions(a[2], CACHE)
                    if none or absent:
                        self.done_with(st, t[1])
            # a ghost already
            if a[0] == 'truth' and yes and a[1][0] == 'call' and mname(a[1]) == '_p_is_ghost':
                for t, e in list(b.items()):
                    if t[0] == 'todo' and any(cached_of(a[1][2][0], x) for x in parts(e)):
                        self.done_with(st, t[1])

    def emptied(self, i, st, node):
        b = st.obs
        b['emptied'] = True
        if not b.get(('done', 'pending')) and not any(
                t[0] == 'todo' and 'pending' in t[1] for t in b):
            # held in another container by now?
            if not any(covers(st, x, self.INVALID) for x in st.env.values() if isinstance(x, tuple)):
                self.report(i, node, 'pending invalidations are dropped without unloading '
                            'the cached objects')

    def settled(self, i, st, node, what):
        b = st.obs
        if b.get('result') is None:
            self.report(i, node, '%s without synchronising with the storage' % what)
        else:
            if not b.get(('done', 'result')):
                self.report(i, node, '%s with objects that the storage says are out of date '
                            'still loaded' % what)
            if not b.get(('done', 'pending')):
                self.report(i, node, '%s with pending invalidations not carried out' % what)
            elif not b.get('emptied'):
                self.report(i, node, '%s with the pending invalidations still listed' % what)
        if self.who != 'commit':
            if not b.get(('done', 'changed')):
                self.report(i, node, '%s with changed objects still loaded' % what)
            if not b.get('forgot'):
                self.report(i, node, '%s with the changed objects still listed' % what)
        if b.get('advanced') != 1:
            self.report(i, node, '%s with the transaction number not advanced exactly once' % what)


CACHE = ('attr', ConnObs.SELF, 'cache', 0)


def decide(check):
    p = check.p
    for who in ('abort', 'commit', 'pack'):
        f = p.need_func('durus.connection.Connection.' + who)
        o = Sync(who)

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind not in 'nr' or out.st.obs.get('begun'):
                        continue
                    if who == 'pack':
                        if not out.st.obs.get('packed'):
                            o.report(i, f.node, 'pack returns without packing the storage')
                    else:
                        o.settled(i, out.st, f.node, '%s returns' % who)
        check.run(who, o, f.qual, then=then)
        check.oblige(who, o.count)
