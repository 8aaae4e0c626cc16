"""Connection.commit() is followed over all paths, with every storage call,
serialization and conflict check allowed to raise.  On each path that fails
after the object writer was used, every object that can have been given an
oid on that path (what the writer produced and, of a writer that was not
exhausted, what it has found) is in a container whose loop resets each
element (no oid, no connection, unsaved, out of the cache), only objects
known not to be among the changed ones are reset, the changed objects stay
listed, and the failure is passed on.  The object writer lists every object
that it gives an oid (a rule of C09)."""
from . import c09
from ..engine import NONE, contains, mentions
from .common import ConnObs, mname, strip, attr, parts, PO

KINDS = frozenset(['oid', 'connection', 'status', 'cache'])
WORDS = {'oid': 'clearing its oid', 'connection': 'clearing its connection',
         'status': 'marking it unsaved', 'cache': 'taking it out of the cache'}


class Failing(ConnObs):
    count = 0

    def __init__(self, bases=None):
        ConnObs.__init__(self)
        self.bases = bases
        self.found_bases = set()
        self.cache_only = set()

    def elem_type(self, v):
        if v[0] == 'elem' and v[1][0] == 'call' and mname(v[1]) == 'gen_new_objects':
            return PO
        return ConnObs.elem_type(self, v)

    def raises(self, i, st, ev, node):
        if ev[0] == 'call':
            n = mname(ev)
            if ev[2] == self.STORAGE and n in ('begin', 'store', 'end', 'new_oid'):
                return ('durus.error.WriteConflictError', 'builtins.OSError') if n == 'end' \
                    else ('builtins.OSError',)
            if n == 'get_state':
                return ('builtins.Exception', 'builtins.KeyboardInterrupt')
        return ()

    def base(self, it):
        return strip(it)

    def produced_over(self, st, w):
        """the object produced last is done with: is it remembered?"""
        b = st.obs
        e = b.pop('produced', None)
        if e is None or b.get('failed'):
            return
        if not b.pop(('kept', e), None):
            b[('lost', w)] = True

    def on(self, i, st, ev, node):
        k = ev[0]
        b = st.obs
        if k == 'failed':
            b['failed'] = True
        if k == 'next':
            self.round_over(i, st, node)
            b['round'] = (self.base(ev[1]), ev[2], frozenset())
            it = ev[1]
            if it[0] == 'call' and mname(it) == 'gen_new_objects':
                self.count += 1
                b[('open', it[2][0])] = True
                self.produced_over(st, it[2][0])
                b['produced'] = ev[2]
        elif k == 'done':
            r = b.get('round')
            if r is not None and r[0] == self.base(ev[1]):
                self.round_over(i, st, node)
            it = ev[1]
            if it[0] == 'call' and mname(it) == 'gen_new_objects':
                self.produced_over(st, it[2][0])
                b.pop(('open', it[2][0]), None)
            if not b.get(('bad', self.base(it))):
                b[('went', self.base(it))] = True
        elif k in ('set', 'rawset') and ev[2] == '_p_oid' and ev[3] == NONE:
            self.kind(st, 'oid', ev[1])
        elif k in ('set', 'rawset') and ev[2] == '_p_connection' and ev[3] == NONE:
            self.kind(st, 'connection', ev[1])
        elif k in ('set', 'rawset') and ev[2] == '_p_status' and ev[3] == ('c', 'int', 1):
            self.kind(st, 'status', ev[1])
        elif k == 'call' and mname(ev) == '_p_set_status_unsaved':
            self.kind(st, 'status', ev[2])
        elif k == 'call' and mname(ev) in ('__delitem__', 'pop', 'discard', 'remove') and ev[2] is not None \
                and mentions(ev[2], attr(self.SELF, 'cache')):
            r = b.get('round')
            if r is not None:
                b['round'] = (r[0], r[1], r[2] | frozenset(['cache']))
        if k == 'assume' and ev[2] and b.get('produced') is not None:
            if self.is_old(b['produced'], ev[1]):
                b[('kept', b['produced'])] = True
        if k == 'call' and mname(ev) == 'get_state' and ev[2] is not None:
            b[('open', ev[2])] = True
        if k == 'mut' and self.bases is not None and self.base(ev[1]) in self.bases \
                and ev[2] in ('__setitem__', 'append', 'add', 'setdefault', 'insert', 'update', 'extend'):
            self.kept(i, st, ev, node)

    def kept(self, i, st, ev, node):
        b = st.obs
        r = b.get('round')
        if ev[2] in ('__setitem__', 'setdefault') and len(ev[3]) == 2 and (
                r is not None and any(mentions(ev[3][1], x) for x in parts(r[1]))
                and not any(mentions(ev[3][0], x) for x in parts(r[1]))
                and contains(ev[3][0], lambda t: t[0] in ('elem', 'key', 'val', 'item'))):
            return      # in the place of another one
        if r is not None and any(mentions(a, x) for a in ev[3] for x in parts(r[1])):
            b['round'] = (r[0], r[1], r[2] | frozenset(['kept']))
        for a in ev[3]:
            if contains(a, lambda t: t[0] == 'attr' and t[2] == 'objects_found'):
                for t in found_in(a):
                    b[('went', t)] = True
                    b.pop(('lost', t[1]), None)
        e = b.get('produced')
        if e is not None and any(mentions(a, e) for a in ev[3]) and not b.get('failed'):
            b[('kept', e)] = True
            if not self.is_new(st, e):
                self.report(i, node, 'an object that may be stored already is reset when '
                            'the commit fails')

    def is_old(self, e, a):
        """does the condition say e is not new, or remembered already?"""
        oid = attr(e, '_p_oid')
        if a[0] == 'in' and a[1] in (oid, e):
            return a[2] == self.CHANGED or self.bases is None or strip(a[2]) in self.bases
        return a[0] in ('is', '==') and e in a[1:] and NONE not in a[1:]

    def is_new(self, st, e):
        oid = attr(e, '_p_oid')
        for a, v in st.facts.items():
            if a[0] == 'in' and a[1] == oid and v is False and a[2] == self.CHANGED:
                return True
            if a[0] == 'is' and v is False and (e == a[1] or e == a[2]) and NONE not in a[1:]:
                return True     # is not the changed object
            if a[0] == '==' and v is False and e in a[1:]:
                return True
        return False

    def kind(self, st, name, obj):
        r = st.obs.get('round')
        if r is not None and any(obj == x or mentions(obj, x) for x in parts(r[1])):
            st.obs['round'] = (r[0], r[1], r[2] | frozenset([name]))

    def round_over(self, i, st, node):
        r = st.obs.pop('round', None)
        if r is None:
            return
        base, elem, kinds = r
        if base[0] == 'attr' and base[2] == 'objects_found' and self.bases is not None:
            if not kinds:
                st.obs[('bad', base)] = True
            else:
                st.obs.pop(('lost', base[1]), None)
        kinds = kinds - frozenset(['kept'])
        if not kinds or not st.obs.get('failed'):
            return
        if 'oid' in kinds or 'connection' in kinds:
            missing = KINDS - kinds
            for m in sorted(missing):
                self.report(i, node, 'a new object is restored after a failed commit '
                            'without %s' % WORDS[m])
            if missing:
                st.obs[('bad', base)] = True
            self.found_bases.add(base)


def decide(check):
    p = check.p
    f = p.need_func('durus.connection.Connection.commit')
    first = Failing()
    check.run('restore', first, f.qual)
    o = Failing(first.found_bases)
    used = [0]

    def then(i, outs):
        i.pos.append(type('P', (), {'func': f})())
        for out in outs:
            b = out.st.obs
            if not b.get('failed'):
                continue
            opened = [k[1] for k in b if isinstance(k, tuple) and k[0] == 'open']
            went = [k[1] for k in b if isinstance(k, tuple) and k[0] == 'went']
            lost = any(isinstance(k, tuple) and k[0] == 'lost' and k[1] not in opened
                       for k in b)
            reset = [w for w in went if w in o.bases]
            used[0] += 1
            if out.kind != 'x':
                o.report(i, f.node, 'commit goes on after a failure')
                continue
            if opened or any(w[0] == 'call' and mname(w) == 'gen_new_objects' for w in went):
                if not reset:
                    o.report(i, f.node, 'a failed commit leaves new objects with the oids they '
                             'were given, so that they are never stored')
                elif lost:
                    o.report(i, f.node, 'a failed commit does not restore the new objects it '
                             'had stored')
            for w in opened:
                found = attr(w, 'objects_found')
                if found not in went:
                    o.report(i, f.node, 'a failed commit does not restore the new objects found '
                             'but not yet stored')
        i.pos.pop()
    outs = check.run('restore', o, f.qual, then=then)
    check.oblige('restore', used[0])
    if outs is not None and not check.findings:
        check.need(used[0] > 0, 'no path of commit fails after using the object writer')
    c09.reference(check, 'reference')


def found_in(v):
    out = []
    if isinstance(v, tuple):
        if v[0] == 'attr' and v[2] == 'objects_found':
            out.append(v)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                out += found_in(x)
    elif isinstance(v, frozenset):
        for x in v:
            out += found_in(x)
    return out
