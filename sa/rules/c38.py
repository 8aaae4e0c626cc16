"""The functions that search or count the records of a storage (gen_referring_oid_record,
gen_oid_class, get_census, get_reference_index, gen_every_instance, touch_every_reference)
are followed over all paths.  The loop over gen_oid_record() is gone through to its end; in
the round of each record the path has either selected it or learnt, from a test of this
record, that it is not asked for, and what is selected has passed the test.  A reference is
looked for among the whole oids of the record.  Each record counts once, each reference is
entered under its oid with the oid of the record it is in, and each object whose class or
state has one of the words is marked as changed."""
from ..engine import NONE, const, contains, mentions
from .common import Tagged, At, mname, strip

U, C, S = 'durus.storage.', 'durus.connection.', 'durus.serialize.'


class Search(Tagged):
    opaque_prefixes = Tagged.opaque_prefixes + (S, C + 'Connection.', U + 'Storage.')
    opaque_names = ('durus.utils.as_bytes',)

    def __init__(self, kind, wanted):
        Tagged.__init__(self)
        self.kind, self.wanted, self.n = kind, wanted, 0

    def source(self, i, st, it):
        x = strip(it)
        if x[0] == 'call' and mname(x) in ('gen_oid_record', 'gen_oid_class'):
            return 'records'
        if x[0] == 'call' and mname(x) == 'split_oids':
            return 'refs'
        if self.kind == 'touch' and 'record' in st.obs and not self.of_record(st, x) \
                and x[0] in ('new', 'sym'):
            return 'words'
        return None

    def has(self, v):
        """is v one of, or all of, what is asked for?"""
        return mentions(v, self.wanted)

    def started(self, i, st, tag, elem, node):
        b = st.obs
        self.n += 1
        if tag == 'records':
            self.left(i, st, 'refs', node)
            self.left(i, st, 'words', node)
            b['record'] = elem
            b['hit'] = b['miss'] = b['given'] = 0
            b.pop('round', None)
            b.pop('word', None)
        if tag == 'words' and b.get('word') != elem:
            b['word'] = elem
            b.pop('round', None)

    def finished(self, i, st, tag, node):
        if tag == 'refs' and self.kind == 'index':
            self.done_with(st, 'records')
        if tag == 'refs' and self.kind == 'referring':
            st.obs['miss'] = 1
        if tag == 'records':
            self.left(i, st, 'refs', node)
        if tag == 'words':
            st.obs['miss'] = 1

    def missed(self, i, st, tag, elem, node):
        b = st.obs
        if tag == 'words':
            known = set(b.get('round', ())) | set(
                (self.in_state(a[2]), yes) for a, yes in st.facts.items()
                if a[0] == 'in' and self.of_record(st, a[2]))
            if not any(yes for _, yes in known) and len(known) < 2:
                self.report(i, node, 'a word is not looked for in both the class and the state')
            return
        if tag == 'refs':
            if self.kind == 'index':
                self.report(i, node, 'a reference is left out')
            elif self.kind == 'referring' and not st.obs.get('miss'):
                self.report(i, node, 'a reference is not compared')
            return
        if b.get('given'):
            return
        if self.kind in ('census', 'index'):
            if not (self.kind == 'index' and b.get('miss')):
                self.report(i, node, 'a record is left out')
        elif b.get('hit'):
            self.report(i, node, 'a record that is asked for is left out')
        elif not b.get('miss') and st.facts.get(('truth', self.wanted)) is not False:
            self.report(i, node, 'a record is left out without a test')

    def oids(self, v):
        """the whole oids of the record, all of them"""
        x = strip(v)
        while x[0] == 'call' and mname(x) in ('set', 'list', 'tuple', 'frozenset', 'sorted', 'iter') \
                and len(x[2]) == 1:
            x = strip(x[2][0])
        return x[0] == 'call' and mname(x) == 'split_oids'

    def in_state(self, v):
        return contains(v, lambda t: t[0] == 'call' and mname(t) == 'get_state_pickle')

    def of_record(self, st, v):
        e = st.obs.get('record')
        return e is not None and mentions(v, e)

    def on(self, i, st, ev, node):
        Tagged.on(self, i, st, ev, node)
        k = ev[0]
        b = st.obs
        if k == 'assume':
            a, yes = ev[1], ev[2]
            test = None
            if self.kind in ('index', 'referring') and a[0] == 'truth' and not yes and \
                    a[1][0] == 'item' and self.of_record(st, a[1]):
                b['miss'] = 1                    # it has no references
            if self.kind == 'referring':
                if a[0] == 'in' and a[1] == self.wanted and self.of_record(st, a[2]):
                    test = True
                    if not self.oids(a[2]):
                        self.report(i, node, 'the oid is looked for among the bytes of the references')
                elif a[0] == '==' and self.wanted in a[1:] and self.of_record(st, a):
                    b['miss'] = 1                # one by one
                    test = None if not yes else True
                elif a[0] == 'truth' and a[1][0] == 'call' and self.of_record(st, a[1]) and \
                        contains(a[1], lambda t: t == self.wanted):
                    test = True
            elif self.kind == 'class':
                if a[0] == 'in' and a[2] == self.wanted and self.of_record(st, a[1]):
                    test = True
                elif a == ('truth', self.wanted) and not yes:
                    b['all'] = True
                elif a[0] == 'is' and yes and set(a[1:]) == {self.wanted, NONE}:
                    b['all'] = True
            elif self.kind == 'instance':
                if a[0] == 'truth' and a[1][0] == 'call' and mname(a[1]) in ('issubclass', 'isinstance') \
                        and self.has(a[1]) and self.of_record(st, a[1]) or \
                        a[0] in ('isinst', 'issub') and self.of_record(st, a[1]):
                    test = True
            elif self.kind == 'touch' and a[0] == 'in' and self.of_record(st, a[2]) and \
                    not self.of_record(st, a[1]):
                if yes:
                    b['hit'] = 1
                b['round'] = b.get('round', frozenset()) | {(self.in_state(a[2]), yes)}
            if test:
                b['hit' if yes else 'miss'] = 1
        if k == 'yield' and self.kind in ('referring', 'class', 'instance'):
            self.give(i, st, ev[1], node)
        if self.kind == 'touch' and k in ('call', 'enter') and mname(ev) in (
                '_p_note_change', 'note_change'):
            self.give(i, st, ev[2] if mname(ev) == '_p_note_change' else ev[3], node)
        if self.kind == 'census' and k == 'mut' and ev[2] == '__setitem__' and b.get('record') and \
                self.of_record(st, ev[3][0]):
            self.n += 1
            b['given'] = b.get('given', 0) + 1
            if b['given'] > 1:
                self.report(i, node, 'a record counts twice')
            if not self.counts(ev[1], ev[3]):
                self.report(i, node, 'a record does not count one')
            self.done_with(st, 'records')
        if self.kind == 'index' and k == 'mut' and ev[2] in ('append', 'add') and ev[3]:
            e = b.get(('todo', 'refs'))
            if e is not None:
                self.n += 1
                rec = b['record']
                if contains(ev[1], lambda t: t == e):
                    if ev[3][0] not in (('item', rec, const(0)), rec[1][0] if rec[0] == 'tuple' else None) \
                            and not (ev[3][0][0] == 'item' and self.of_record(st, ev[3][0])
                                     and ev[3][0][2] == const(0)):
                        self.report(i, node, 'what is entered is not the oid of the record')
                    self.done_with(st, 'refs')
                elif ev[3][0] == e:
                    self.report(i, node, 'the index is not by the oid that is referred to')

    def counts(self, d, two):
        """is it the old number, or none, and one?"""
        v = two[1]
        one = const(1)
        if v == one:
            return True
        if v[0] == 'op' and v[1] == 'Add' and one in v[2]:
            o = v[2][0] if v[2][1] == one else v[2][1]
            if o[0] == 'call' and mname(o) in ('get', 'setdefault'):
                return const(0) in o[2] and two[0] in o[2]
            return o[0] in ('item', 'val', 'call') and mentions(o, two[0]) or o == const(0)
        return False

    def give(self, i, st, v, node):
        b = st.obs
        if b.get('record') is None:
            return
        self.n += 1
        v = tuple(v) if isinstance(v, tuple) and v and isinstance(v[0], tuple) else (v,)
        rec = b['record']
        mine = any(self.of_record(st, x) for x in v)
        if not mine:
            self.report(i, node, 'what is given is not what was found')
        x = v[0]
        oid = ('item', rec, const(0))
        if x == ('tuple', (rec,)) or x == rec:
            pass
        elif self.kind in ('referring', 'class') and x[0] == 'tuple' and len(x[1]) == 2:
            ok = x[1][0] == oid or x[1][0][0] == 'item' and contains(
                x[1][0], lambda t: t[0] == 'call' and mname(t) == 'unpack_record') and x[1][0][2] == const(0)
            if not ok or self.kind == 'referring' and x[1][1] != ('item', rec, const(1)) or \
                    self.kind == 'class' and not contains(x[1][1], lambda t: t[0] == 'call' and mname(t)
                                                          == 'extract_class_name'):
                self.report(i, node, 'what is given is not what was found')
        elif self.kind in ('instance', 'touch') and mine:
            if not contains(x, lambda t: t == oid) and not contains(
                    x, lambda t: t[0] == 'call' and mname(t) == 'unpack_record'):
                self.report(i, node, 'what is given is not what was found')
        b['given'] = min(2, b.get('given', 0) + 1)
        if self.kind != 'touch' and b['given'] > 1:
            self.report(i, node, 'a record is given twice')
        if not b.get('hit') and not b.get('all'):
            self.report(i, node, 'a record is given that is not asked for')
        self.done_with(st, 'records')


ENTRIES = [(U + 'gen_referring_oid_record', 'referring', 1), (U + 'gen_oid_class', 'class', 'vararg'),
           (U + 'get_census', 'census', 0), (U + 'get_reference_index', 'index', 0),
           (C + 'gen_every_instance', 'instance', 'vararg'), (C + 'touch_every_reference', 'touch', 'vararg')]


def decide(check):
    p = check.p
    for q, kind, w in ENTRIES:
        f = p.need_func(q)
        a = f.node.args
        if w == 'vararg':
            name, t = (a.vararg.arg, 'tuple') if a.vararg else (a.args[-1].arg, None)
        else:
            name, t = a.args[w].arg, None
        o = Search(kind, ('sym', name, t))

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind in 'nr':
                        if not out.st.obs.get(('through', 'records')):
                            o.report(i, f.node, 'not every record is gone through')
                        o.left(i, out.st, 'records', f.node)
        check.run(kind, o, f.qual, then=then)
        check.oblige(kind, o.n)
