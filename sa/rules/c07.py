"""The function that Connection.commit() gives to the storage's end() is
followed over all paths with an arbitrary sequence of oids: for each, either
the cache holds nothing, or the object was accessed or changed in this
transaction (a conflict: it is put among the pending invalidations and the
function raises WriteConflictError), or it is known to be neither and is
unloaded.  Connection.get_stored_pickle() loads a record only if the oid is known not
to be pending, and after a ReadConflictError of the storage loads again only
after the result of sync() has been handled in the same way (raising
ReadConflictError).  commit() begins a transaction only with no invalidation
pending; loading the state of an object never lets a missing key out except as
ReadConflictError.  note_access() records the current transaction in the
object, and note_change() lists the object.  ClientStorage.end() hands every
oid sent by the server to the check before it sends a record, and reports an out
of date record or commit as a conflict."""
import time
from ..engine import NONE, mentions, Interp, Limit
from ..model import ModelError
from .common import At, Invalidations, ConnObs, covers, mname, attr
from ..rule import Obs

CONN = 'durus.connection.Connection.'
READ, WRITE = 'durus.error.ReadConflictError', 'durus.error.WriteConflictError'


class Commit(ConnObs):
    """finds what is given to end()"""
    def __init__(self):
        ConnObs.__init__(self)
        self.given = []
        self.begins = 0

    def on(self, i, st, ev, node):
        if ev[0] == 'call' and self.is_storage(ev, 'begin'):
            self.begins += 1
            if st.facts.get(('truth', self.INVALID)) is not False:
                self.report(i, node, 'a commit begins with invalidations that may be pending')
        if ev[0] == 'call' and self.is_storage(ev, 'end'):
            vals = list(ev[3]) + [v for k, v in ev[4]]
            for v in vals:
                if v != NONE and not any(v == g for g, s in self.given):
                    self.given.append((v, st))
                    return


class Load(Invalidations):
    """loads of records in get_stored_pickle and its callers"""
    keys = True

    def on(self, i, st, ev, node):
        Invalidations.on(self, i, st, ev, node)
        b = st.obs
        k = ev[0]
        if k == 'called' and self.is_storage(ev, 'sync'):
            b['result'] = ev[5]
        if k == 'failed' and self.is_storage(ev, 'load') and ev[4][1] == READ:
            b['refused'] = ev[3][0]
        if k == 'call' and self.is_storage(ev, 'load'):
            self.count += 1
            oid = ev[3][0]
            if b.get('refused') is not None:
                if b.get('result') is None or not b.get(('handled', b['result'])):
                    self.report(i, node, 'a record is loaded again without handling what others '
                                'have changed')
                if b.get('conflict'):
                    self.report(i, node, 'a record is loaded in spite of a conflict')
            elif st.facts.get(('in', oid, self.INVALID)) is not False:
                self.report(i, node, 'a record may be loaded for an oid with a pending invalidation')

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and self.is_storage(ev, 'load'):
            return (READ, 'durus.error.DurusKeyError', 'builtins.KeyError')
        return ()


def client_end(check):
    p = check.p
    f = p.need_func('durus.client_storage.ClientStorage.end')

    handler = ('sym', f.node.args.args[1].arg, None)

    class End(Obs):
        opaque_names = ('durus.utils.read', 'durus.utils.write', 'durus.utils.write_all',
                        'durus.utils.read_int4', 'durus.utils.write_int4',
                        'durus.utils.write_int4_str', 'durus.utils.read_int4_str',
                        'durus.utils.int4_to_str', 'durus.utils.join_bytes',
                        'durus.utils.as_bytes', 'durus.serialize.split_oids')
        count = 0

        def on(self, i, st, ev, node):
            b = st.obs
            k = ev[0]
            n = mname(ev) if k in ('call', 'called', 'failed') else ''
            if k == 'called' and n in ('read', 'read_int4') and 'n' not in b:
                b['n'] = ev[5]
            elif k == 'called' and n == 'read' and 'packed' not in b and b.get('n') and \
                    any(mentions(a, b['n']) for a in ev[3]):
                b['packed'] = ev[5]
            if k == 'call' and ev[1] == '()' and ev[2] == handler and (
                    b.get('packed') is None or any(mentions(a, b['packed']) for a in ev[3])
                    or any(a[0] == 'deep' for a in ev[3])):
                b['checked'] = True
                self.count += 1
            if k == 'failed' and ev[4][1] == WRITE:
                b['conflict'] = True
            if k == 'call' and n in ('write_int4_str',):
                if b.get('n') is not None and not b.get('checked'):
                    zero = False
                    for a, v in st.facts.items():
                        if mentions(a, b['n']):
                            if a[0] == 'truth' and not v or a[0] == '==' and v and ('c', 'int', 0) in a[1:]:
                                zero = True
                    if not zero:
                        self.report(i, node, 'records are sent before the oids changed by others '
                                    'are checked for conflicts')

        def raises(self, i, st, ev, node):
            if ev[0] == 'call' and ev[1] == '()' and ev[2] == handler:
                return (WRITE,)
            return ()
    o = End()

    def then(i, outs):
        with At(i, f):
            for out in outs:
                if out.st.obs.get('conflict') and out.kind != 'x':
                    o.report(i, f.node, 'a conflict does not reach the caller of end()')
    check.run('client', o, f.qual, then=then)
    check.oblige('client', max(o.count, 1))
    # a refused record or commit
    for name, cls in (('load', READ), ('end', WRITE)):
        f = p.need_func('durus.client_storage.ClientStorage.' + name)
        o = Refused()

        def then(i, outs, f=f, o=o, cls=cls):
            with At(i, f):
                for out in outs:
                    if out.st.obs.get('refused') and not (
                            out.kind == 'x' and out.val.kind == 'exc'
                            and p.is_subclass(out.val.val[1], cls)):
                        o.report(i, f.node, 'the server refuses because of a change by others, '
                                 'and that is not raised as %s' % cls.rpartition('.')[2])
        check.run('client', o, f.qual, then=then)
        check.oblige('client', 1)


class Refused(Obs):
    """follows the case that the server answers with STATUS_INVALID"""
    opaque_names = ('durus.utils.read', 'durus.utils.write', 'durus.utils.write_all',
                    'durus.utils.read_int4', 'durus.utils.write_int4',
                    'durus.utils.write_int4_str', 'durus.utils.read_int4_str',
                    'durus.utils.int4_to_str', 'durus.utils.join_bytes', 'durus.utils.as_bytes',
                    'durus.serialize.split_oids')

    def on(self, i, st, ev, node):
        if ev[0] == 'assume' and ev[2] and ev[1][0] in ('==', 'is') and ('c', 'bytes', b'I') in ev[1][1:]:
            st.obs['refused'] = True


def decide(check):
    p = check.p
    # commit
    c = Commit()
    f = p.need_func(CONN + 'commit')
    check.run('commit', c, f.qual)
    check.oblige('commit', c.begins)
    check.need(c.given or check.undecided or c.reports, 'commit gives nothing to end()')
    for v, st0 in c.given:
        oids = ('sym', 'oids', 'list')
        o = Invalidations([oids])
        i = Interp(p, o)
        i.entry_name = CONN + 'commit'
        i.deadline = time.time() + 150
        st = st0.copy()
        st.obs = {}
        try:
            outs = i.run_value(v, st, [oids])
        except Limit as e:
            check.undecided.append('commit: %s' % e)
            continue
        g = p.funcs.get(v[1]) if v[0] in ('fn',) else None
        if g is None and v[0] == 'bm':
            g = next((p.funcs[x] for x in v if isinstance(x, str) and x in p.funcs), None)
        g = g or f
        with At(i, g):
            settle(i, o, g, outs, oids, WRITE)
        check.absorb('conflict', i, o, 'what end() is given', len(outs))
        check.oblige('conflict', max(1, o.count))
    # loads
    f = p.need_func(CONN + 'get_stored_pickle')
    o = Load()

    def then(i, outs):
        with At(i, f):
            for out in outs:
                b = out.st.obs
                if b.get('conflict') and not (out.kind == 'x' and out.val.kind == 'exc' and p.is_subclass(
                        out.val.val[1], 'durus.error.ReadConflictError')):
                    o.report(i, f.node, 'a read conflict is not raised as ReadConflictError')
                if b.get('conflict not marked'):
                    o.report(i, f.node, 'an object in conflict is not marked as out of date')
                if b.get('refused') and out.kind in 'nr' and b.get('result') is None:
                    o.report(i, f.node, 'a record refused as out of date is returned')
    arg = ('sym', f.node.args.args[1].arg, 'bytes')

    def given(i, st, me):
        st.facts[('is', arg, NONE)] = False
    check.run('load', o, f.qual, args={arg[1]: arg}, setup=given, then=then)
    check.oblige('load', o.count)
    f = p.need_func(CONN + 'load_state')
    o2 = Load()

    def then2(i, outs):
        with At(i, f):
            for out in outs:
                if out.kind == 'x' and out.val.kind == 'exc' and key_error(p, out.val.val[1]):
                    o2.report(i, f.node, 'loading an object that was removed raises KeyError')
    check.run('load', o2, f.qual, then=then2)
    check.oblige('load', o2.count)
    # access and change
    for name, what in (('note_access', access), ('note_change', change)):
        f = p.need_func(CONN + name)
        o3 = ConnObs()
        obj = ('sym', 'obj', 'durus.persistent.PersistentObject')
        arg = f.node.args.args[1].arg

        def then3(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind in 'nr':
                        what(i, o3, f, out, obj)
        seen = Seen()
        o3 = seen
        check.run(name, o3, f.qual, args={arg: obj}, then=then3)
        check.oblige(name)
    client_end(check)


class Seen(ConnObs):
    def on(self, i, st, ev, node):
        if ev[0] in ('rawset', 'set') and ev[2] == '_p_serial' and ev[1][0] == 'sym' and ev[1][1] == 'obj':
            st.obs['serial'] = ev[3]
        if ev[0] == 'mut' and ev[1] == self.CHANGED and ev[2] in ('__setitem__', 'setdefault'):
            st.obs['listed'] = tuple(ev[3])


def access(i, o, f, out, obj):
    if out.st.obs.get('serial') != Invalidations.SERIAL:
        o.report(i, f.node, 'an access is not recorded as one of this transaction')


def change(i, o, f, out, obj):
    b = out.st.obs.get('listed')
    fact = out.st.facts.get(('in', attr(obj, '_p_oid'), o.CHANGED))
    if b is None and fact is not True or b is not None and (
            len(b) < 2 or b[0] != attr(obj, '_p_oid') or b[1] != obj):
        o.report(i, f.node, 'a changed object is not listed under its oid')


def key_error(p, cls):
    return cls in ('builtins.KeyError', 'builtins.LookupError') or (
        cls in p.classes and 'builtins.KeyError' in bases(p, cls))


def bases(p, cls):
    out = set()
    c = p.classes.get(cls)
    if c is not None:
        for b in c.mro:
            out.add(b)
        for b in getattr(c, 'bases', ()):
            out.add(b)
    return out


def settle(i, o, f, outs, oids, want):
    p = i.p
    for out in outs:
        b = out.st.obs
        if out.kind == 'x':
            cls = out.val.val[1] if out.val.kind == 'exc' else None
            if not b.get('conflict'):
                if cls in p.classes and p.is_subclass(cls, 'durus.error.ConflictError'):
                    o.report(i, f.node, 'a conflict is raised though no object in use was changed')
            else:
                if not (cls in p.classes and p.is_subclass(cls, want)):
                    o.report(i, f.node, 'a conflict is not raised as %s' % want.rpartition('.')[2])
                if b.get('conflict not marked'):
                    o.report(i, f.node, 'an object in conflict is not marked as out of date')
            continue
        if b.get('conflict'):
            o.report(i, f.node, 'a conflict does not make the commit fail')
        if not b.get(('handled', oids)):
            o.report(i, f.node, 'the oids changed by others are not all checked')
