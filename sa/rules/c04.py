"""Connection.commit() is followed over all paths, with every storage call,
serialization and conflict check allowed to raise.  On a path that returns
having begun a storage transaction, each changed object was handed to the
object writer, each object the writer produced was stored, under its own
oid and with the record made from its own state, between one begin() and
one end() (or is one the path has stored already), was marked saved, and
is held by the changed objects or put in the cache; the set of changed
objects is emptied and the transaction number advanced after end() and
only then.  With no changes, the connection synchronises instead.  Of the
object writer, the rules of C09 hold: it produces the given object and every
new object found, each with the record of its own state."""
from . import c09
from ..engine import NONE, contains, mentions
from .common import ConnObs, mname, strip, attr, parts, PO


class Commit(ConnObs):
    count = 0

    def source(self, i, st, it):
        if strip(it) == self.CHANGED:
            return 'changed'
        if it[0] == 'call' and mname(it) == 'gen_new_objects':
            return 'produced'
        return None

    def elem_type(self, v):
        if v[0] == 'elem' and v[1][0] == 'call' and mname(v[1]) == 'gen_new_objects':
            return PO
        return ConnObs.elem_type(self, v)

    def missed(self, i, st, tag, elem, node):
        if not st.obs.get('begun') or st.obs.get('failed'):
            return      # not the loop that stores
        if tag == 'changed':
            self.report(i, node, 'a changed object is passed over without being given to '
                        'the object writer')
        elif not st.obs.get('stored'):
            self.report(i, node, 'an object produced for the commit is passed over '
                        'without being stored')
        elif not st.obs.get('saved'):
            self.report(i, node, 'a stored object is not marked as saved')
        elif not st.obs.get('held'):
            self.report(i, node, 'a new object is stored but not put in the cache')

    def clear(self, st):
        for k in ('stored', 'saved', 'held'):
            st.obs.pop(k, None)

    def started(self, i, st, tag, elem, node):
        if tag == 'produced':
            self.clear(st)
            self.count += 1

    def done_elem(self, st):
        if st.obs.get('stored') and st.obs.get('saved') and st.obs.get('held'):
            self.done_with(st, 'produced')

    def on(self, i, st, ev, node):
        ConnObs.on(self, i, st, ev, node)
        k = ev[0]
        if k == 'called' and ev[2] == self.STORAGE:
            n = mname(ev)
            if n == 'begin':
                if st.obs.get('begun'):
                    self.report(i, node, 'begin() is called twice')
                st.obs['begun'] = True
            elif n == 'end':
                if not st.obs.get('begun') or st.obs.get('ended'):
                    self.report(i, node, 'end() without begin()')
                if not st.obs.get(('through', 'changed')):
                    self.report(i, node, 'end() before all changed objects are stored')
                if (not ev[3] or ev[3][0] == NONE) and not any(v != NONE for k2, v in ev[4]):
                    self.report(i, node, 'end() is not given the conflict check')
                st.obs['ended'] = True
            elif n == 'sync':
                st.obs['synced'] = True
        elif k == 'failed':
            st.obs['failed'] = True
        if k == 'call' and ev[2] == self.STORAGE and mname(ev) == 'store':
            self.count += 1
            if not st.obs.get('begun') or st.obs.get('ended'):
                self.report(i, node, 'an object is stored outside begin() and end()')
            e = st.obs.get(('todo', 'produced'))
            if e is not None and len(ev[3]) >= 2:
                oid, record = ev[3][:2]
                mine = contains(record, lambda t: t[0] == 'call' and len(t) == 4
                                and str(t[1]).endswith('get_state') and e in t[2])
                if oid != attr(e, '_p_oid'):
                    if contains(oid, lambda t: t[0] in ('elem', 'key', 'val', 'new', 'item')) \
                            and not mentions(oid, e):
                        self.report(i, node, 'an object is stored under an oid that is not its own')
                elif not mine and contains(record, lambda t: t[0] == 'call'):
                    self.report(i, node, 'the record stored for an object is not made from '
                                'its state')
                st.obs['stored'] = True
                # held by the changed objects, or put in the cache
                if st.facts.get(('in', attr(e, '_p_oid'), self.CHANGED)) is not False:
                    st.obs['held'] = True
                self.done_elem(st)
        if k == 'call' and mname(ev) == 'gen_new_objects' and ev[3]:
            e = st.obs.get(('todo', 'changed'))
            if e is not None and ev[3][0] in parts(e):
                self.done_with(st, 'changed')
        e = st.obs.get(('todo', 'produced'))
        if e is not None:
            if k in ('call', 'enter') and ev[2] == e and mname(ev) == '_p_set_status_saved' or \
                    k in ('rawset', 'set') and ev[1] == e and ev[2] == '_p_status':
                st.obs['saved'] = True
                self.done_elem(st)
            if k == 'call' and mname(ev) == '__setitem__' and e in ev[3]:
                st.obs['held'] = True
                self.done_elem(st)
            if k == 'assume' and ev[1][0] == 'in' and ev[1][1] == attr(e, '_p_oid') and ev[2] \
                    and ev[1][2][0] == 'new':
                # stored already
                self.done_with(st, 'produced')
        if k == 'mut' and ev[1] == self.CHANGED and ev[2] in (
                'clear', 'pop', 'popitem', '__delitem__') or \
                k == 'set' and ev[1] == self.SELF and ev[2] == 'changed':
            if st.obs.get('begun') and not st.obs.get('ended'):
                self.report(i, node, 'changed objects are forgotten before end() has succeeded')
            if not st.obs.get('begun') and st.facts.get(('truth', self.CHANGED)) is not False:
                self.report(i, node, 'changed objects are forgotten without being stored')
            if k == 'set' or ev[2] == 'clear':
                st.obs['cleared'] = True
        if k == 'set' and ev[1] == self.SELF and ev[2] == 'transaction_serial':
            if st.obs.get('begun') and not st.obs.get('ended'):
                self.report(i, node, 'the transaction advances before end() has succeeded')
            st.obs['advanced'] = st.obs.get('advanced', 0) + 1 if not st.obs.get('advanced') else 2

    def raises(self, i, st, ev, node):
        if ev[0] == 'call':
            n = mname(ev)
            if ev[2] == self.STORAGE and n in ('begin', 'store', 'end', 'sync', 'new_oid'):
                return ('durus.error.WriteConflictError', 'builtins.OSError') if n == 'end' \
                    else ('builtins.OSError',)
            if n in ('get_state',):
                return ('builtins.Exception',)
        return ()


def decide(check):
    p = check.p
    f = p.need_func('durus.connection.Connection.commit')
    o = Commit()
    seen = []

    def then(i, outs):
        i.pos.append(type('P', (), {'func': f})())
        for out in outs:
            b = out.st.obs
            if out.kind in 'nr':
                seen.append(bool(b.get('begun')))
                if b.get('begun'):
                    if not b.get('ended'):
                        o.report(i, f.node, 'commit returns without ending the storage transaction')
                    if not b.get(('through', 'changed')):
                        o.report(i, f.node, 'commit returns without going through the changed objects')
                    if not b.get('cleared'):
                        o.report(i, f.node, 'commit returns with the changed objects still listed')
                else:
                    if out.st.facts.get(('truth', o.CHANGED)) is not False:
                        o.report(i, f.node, 'commit returns without storing the changed objects')
                    elif not b.get('synced'):
                        o.report(i, f.node, 'commit without changes does not synchronise')
                if b.get('advanced') != 1:
                    o.report(i, f.node, 'the transaction number is not advanced exactly once by '
                             'a commit that succeeds')
            elif b.get('advanced') and not b.get('ended'):
                o.report(i, f.node, 'the transaction advances in a commit that fails')
        i.pos.pop()
    outs = check.run('commit', o, f.qual, then=then)
    check.oblige('commit', o.count)
    if outs is not None:
        check.need(True in seen, 'no path of commit stores anything')
    c09.reference(check, 'reference')
    c09.state(check, 'record')
    c09.new_objects(check, 'new objects')

