"""Every __setstate__, __getstate__, _p_gen_data_slots and _p_set_status_ghost of a class
derived from PersistentObject, and the methods of ComputedAttribute, are followed over
all paths.  Where a state is set, the path has emptied the instance dictionary (or knows
that there is none) and deleted every slot that _p_gen_data_slots names before anything
is set, and has then set every item of the state (or knows that it is None or empty);
where an object is made a ghost the same holds and the status is GHOST.  The state that is
given holds the whole instance dictionary and every named slot with its value, and is made
without changing the object.  _p_gen_data_slots goes through every class of the object and
every name in its __slots__, also a lone string, and leaves out only PersistentBase,
__weakref__, __dict__ and slots without a value; names of private slots are mangled.
ComputedAttribute gives None, needs no record to be loaded, forgets its value and notes the
change when invalidated, and calls `compute` only, and at most once, where no value is
remembered; what it returns is then remembered without noting a change."""
from ..engine import NONE, const, contains, mentions
from .common import Tagged, At, attr, mname, strip, covers

P = 'durus.persistent.'
PO = P + 'PersistentObject'
GHOST, SAVED = const(-1), const(0)
GET, SET, DEL = ('builtins.object.__%s__' % x for x in ('getattribute', 'setattr', 'delattr'))
SKIP = ('__weakref__', '__dict__')


class State(Tagged):
    """what is removed, set and copied"""
    opaque_prefixes = Tagged.opaque_prefixes + ('durus.connection.',)

    def __init__(self, cls, hidden=(), by_dict=False, state=None):
        Tagged.__init__(self)
        self.me = ('sym', 'self', cls)
        self.hidden = set(hidden) | {'_p_gen_data_slots', '_hasattribute'}
        self.by_dict = by_dict
        self.state = state
        self.n = 0

    def opaque(self, qual):
        return Tagged.opaque(self, qual) or qual.rpartition('.')[2] in self.hidden

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and ev[1] in ('()', 'compute') or mname(ev) == 'compute':
            return ('builtins.KeyError',)
        return ()

    def dict_of(self, v):
        return v == attr(self.me, '__dict__') or v[0] == 'call' and v[1] == GET and \
            v[2][1:] == (const('__dict__'),)

    def slots(self, st, it):
        it = strip(it)
        if it[0] == 'call' and mname(it) == '_p_gen_data_slots':
            return True
        c = st.heap.get((it, '[]')) if it[0] == 'new' else None
        return c is not None and any(v[0] == 'all' and self.slots(st, v[1]) for v in c[1]
                                     if isinstance(v, tuple) and v)

    def source(self, i, st, it):
        if self.slots(st, it):
            return 'slots'
        if self.state is not None and strip(it) == self.state:
            return 'state'
        if self.dict_of(strip(it)):
            return 'dict'
        return None

    def missed(self, i, st, tag, elem, node):
        st.obs[('bad', tag)] = True

    def finished(self, i, st, tag, node):
        if not st.obs.get(('bad', tag)):
            st.obs[('done', tag)] = True
            if tag == 'dict':
                st.obs['cleared'] = True

    def on(self, i, st, ev, node):
        Tagged.on(self, i, st, ev, node)
        k = ev[0]
        b = st.obs
        if k == 'assume':
            a, yes = ev[1], ev[2]
            if a[0] == 'truth' and not yes and a[1][0] == 'call' and len(a[1][2]) > 1 and \
                    mname(a[1]) in ('_hasattribute', 'hasattr'):
                if a[1][2][1] == const('__dict__'):
                    b['cleared'] = b['copied'] = True
                if a[1][2][1] == const('value'):
                    b['gone'] = True
            if a[0] == 'truth' and not yes and self.dict_of(a[1]):
                b['cleared'] = b['copied'] = True
            for t, e in list(b.items()):
                if a[0] == 'in' and yes and t in (('todo', 'dict'), ('todo', 'slots')) and \
                        self.state is not None and strip(a[2]) == self.state and a[1] == e:
                    self.done_with(st, t[1])        # it is set, or will be
            if self.state is not None:
                if a[0] == 'truth' and not yes and a[1] == self.state or \
                        a[0] == 'is' and yes and set(a[1:]) == {self.state, NONE}:
                    b[('done', 'state')] = True
        if k == 'mut' and self.dict_of(ev[1]):
            if ev[2] == 'clear':
                self.n += 1
                b['cleared'] = True
                b.pop(('done', 'state'), None)      # what was set is lost
            elif ev[2] in ('pop', '__delitem__') and ev[3]:
                self.kept(st, ev[3][0])
                for t, e in list(b.items()):
                    if t == ('todo', 'dict') and ev[3][0] in (e,) + tuple(
                            e[1] if e[0] == 'tuple' else ()):
                        self.done_with(st, 'dict')
            elif ev[2] in ('update', '__ior__', '__setitem__'):
                if ev[2] != '__setitem__' and ev[3] and self.nothing(st, ev[3][0]):
                    return
                b['touched'] = True
                if ev[2] != '__setitem__' and ev[3] and self.state is not None and \
                        strip(ev[3][0]) == self.state:
                    self.n += 1
                    if self.by_dict:
                        b[('done', 'state')] = True
                elif ev[2] == '__setitem__' and self.by_dict:
                    self.item(st, ev[3])
        if k == 'call' and ev[1] == DEL and len(ev[3]) > 1:
            self.n += 1
            self.kept(st, ev[3][1])
            if ev[3][1] == const('value'):
                b['gone'] = True
            for t, e in list(b.items()):
                if t == ('todo', 'slots') and ev[3][1] == e:
                    self.done_with(st, 'slots')
        if k == 'call' and ev[1] == SET and len(ev[3]) > 2 and ev[3][0] == self.me:
            if ev[3][1] == const('__dict__'):
                self.whole(i, st, ev[3][2], node)
            elif ev[3][1][0] != 'c' or not str(ev[3][1][2]).startswith('_p_'):
                self.item(st, ev[3][1:])
                b['touched'] = True
        if k in ('set', 'rawset') and ev[1] == self.me:
            if ev[2] == '__dict__':
                self.whole(i, st, ev[3], node)
            elif ev[2] == 'value':
                b['value'] = ev[3]
                b['noted'] = b.get('noted') or k == 'set'
        if k in ('call', 'enter') and mname(ev) in ('_p_note_change', 'note_change'):
            b['noted'] = True
        if k in ('call', 'enter') and mname(ev) in ('load_state', 'load', 'get_stored_pickle'):
            b['record'] = True
        if k == 'collect':
            two = ev[2:] if len(ev) > 3 else ev[2][1] if ev[2][0] == 'tuple' \
                else (b.get(('todo', 'slots')), ev[2])      # of a dict comprehension
            k, ev = 'mut', ('mut', ev[1], '__setitem__', tuple(two))
        if k == 'mut' and not self.dict_of(ev[1]):
            if ev[2] in ('update', '__ior__') and b.get('into') in ev[3]:
                b['into'] = ev[1]
            if ev[2] in ('update', '__ior__') and any(self.dict_of(strip(x)) for x in ev[3]):
                b[('copied', ev[1])] = True
            elif ev[2] in ('__setitem__', 'setdefault') and len(ev[3]) == 2:
                e = b.get(('todo', 'slots'))
                if e is not None and ev[3][0] == e and ev[3][1][0] == 'call' and \
                        ev[3][1][1] == GET and ev[3][1][2][1:] == (e,):
                    self.n += 1
                    self.done_with(st, 'slots')
                    b['into'] = ev[1]
        if k == 'called' and ev[-1] is not None and ev[2] is None and 'compute' in str(ev[1]) or \
                k == 'called' and ev[2] == ('sym', 'compute', None):
            b['computed'] = min(2, b.get('computed', 0) + 1)
            b['result'] = ev[-1]

    def nothing(self, st, v):
        if v == NONE:
            return True
        c = st.heap.get((v, '[]')) if v[0] == 'new' else None
        return v[0] in ('dict', 'tuple', 'list') and not v[1] or c is not None and not c[1]

    def whole(self, i, st, v, node):
        b = st.obs
        b['cleared'] = True
        if self.nothing(st, v):
            return
        b['touched'] = True
        if self.state is not None and strip(v) == self.state and self.by_dict:
            b[('done', 'state')] = True

    def kept(self, st, name):
        """an attribute is removed: was it one that was just set?"""
        if self.state is not None and not any(
                a[0] == 'in' and not yes and a[1] == name and strip(a[2]) == self.state or
                a[0] == 'is' and yes and set(a[1:]) == {self.state, NONE} or
                a == ('truth', self.state) and not yes for a, yes in st.facts.items()):
            st.obs.pop(('done', 'state'), None)

    def item(self, st, two):
        e = st.obs.get(('todo', 'state'))
        if e is not None and e[0] == 'tuple' and tuple(two) == e[1]:
            self.n += 1
            self.done_with(st, 'state')
        elif e is not None and two[0] == e and mentions(two[1], self.state):
            self.done_with(st, 'state')


class Names(Tagged):
    """what _p_gen_data_slots goes through"""

    def __init__(self, cls):
        Tagged.__init__(self)
        self.me = ('sym', 'self', cls)
        self.n = 0

    def opaque(self, qual):
        return Tagged.opaque(self, qual) or qual.rpartition('.')[2] == '_hasattribute'

    def is_slots(self, st, v):
        e = st.obs.get(('todo', 'classes'))
        if e is None:
            e = st.obs.get('class')
        if e is None or not mentions(v, e):
            return False
        if v[0] == 'call':
            return mname(v) in ('get', 'getattr', '__getitem__') and const('__slots__') in v[2]
        return v[0] == 'attr' and v[2] == '__slots__' or v[0] == 'item' and v[2] == const('__slots__')

    def source(self, i, st, it):
        x = strip(it)
        if x[0] == 'attr' and x[2] == '__mro__' or x[0] == 'call' and mname(x) in ('getmro', 'mro'):
            return 'classes'
        if st.obs.get(('holds', x)):
            return 'classes'
        if self.is_slots(st, x):
            return 'slots'
        return None

    def started(self, i, st, tag, elem, node):
        self.n += 1
        if tag == 'classes':
            self.left(i, st, 'slots', node)
            st.obs['class'] = elem
            st.obs.pop('lone', None)
        elif not any(a[0] in ('isinst', 'is', '==') and contains(a, lambda t: self.is_slots(st, t)) for a in st.facts) and not st.obs.get('lone'):
            self.report(i, node, 'a lone string in __slots__ is taken for a sequence of names')

    def finished(self, i, st, tag, node):
        if tag == 'slots':
            self.done_with(st, 'classes')
        else:
            self.left(i, st, 'slots', node)

    def missed(self, i, st, tag, elem, node):
        if any(contains(a, lambda t: t == ('deep',)) for a in st.facts):
            return                  # terms too deep to tell
        self.report(i, node, 'the slots of a class are left out' if tag == 'classes' else
                    'a slot is left out')

    def on(self, i, st, ev, node):
        Tagged.on(self, i, st, ev, node)
        k = ev[0]
        b = st.obs
        if k == 'assume':
            a, yes = ev[1], ev[2]
            c = b.get(('todo', 'classes'))
            if a[0] == 'isinst' and yes and self.is_slots(st, a[1]) and 'str' in str(a[2:]):
                b['lone'] = True
                self.done_with(st, 'classes')
                b[('todo', 'slots')] = a[1]
            if c is not None and a[0] in ('is', '==') and yes and c in a[1:]:
                o = a[2] if a[1] == c else a[1]
                if o[0] == 'cls' and o[1] in (P + 'PersistentBase', 'builtins.object') or \
                        o[0] != 'cls' and 'builtins.object' in str(o)[:60]:
                    self.done_with(st, 'classes')
            if c is not None and not yes and (
                    a[0] == 'in' and a[1] == const('__slots__') and mentions(a[2], c) or
                    a[0] == 'truth' and self.is_slots(st, a[1])):
                self.done_with(st, 'classes')
            e = b.get(('todo', 'slots'))
            if e is not None:
                if a[0] == '==' and yes and any(const(s) in a[1:] for s in SKIP) and mentions(a, e):
                    self.done_with(st, 'slots')
                elif a[0] == 'in' and yes and mentions(a[1], e) and not contains(
                        a[2], lambda t: t[0] == 'c' and isinstance(t[2], str) and t[2] not in SKIP):
                    self.done_with(st, 'slots')
                elif a[0] == 'truth' and not yes and a[1][0] == 'call' and \
                        mname(a[1]) in ('_hasattribute', 'hasattr') and mentions(a[1], e):
                    self.named(i, st, a[1][2][-1], e, node)
                    self.done_with(st, 'slots')
        v = None
        c = b.get(('todo', 'classes'))
        if c is not None and (k == 'collect' and ev[2] == c or
                              k == 'mut' and ev[2] == 'append' and ev[3] == (c,)):
            b[('holds', ev[1])] = True
            self.done_with(st, 'classes')
        if k == 'yield':
            v = ev[1]
        elif k == 'mut' and ev[2] in ('append', 'add') and ev[3]:
            v = ev[3][0]
        e = b.get(('todo', 'slots'))
        if v is not None and e is not None and mentions(v, e):
            self.n += 1
            self.named(i, st, v, e, node)
            self.done_with(st, 'slots')

    def named(self, i, st, v, e, node):
        """is v the name of the attribute for the slot e?"""
        def about(a):
            return contains(a, lambda t: t == e) and not (
                a[0] in ('==', 'in') and any(s in repr(a) for s in SKIP)) and \
                'hasattr' not in repr(a)[:60] and not a[0] == 'isinst'
        tests = [(a, yes) for a, yes in st.facts.items() if about(a)]
        if v == e:
            prefix = any(not yes for a, yes in st.facts.items() if '__name__' in repr(a))
            if not tests and not prefix:
                self.report(i, node, 'the name of a private slot is not mangled')
            if tests and all(yes for a, yes in tests if 'startswith' in repr(a)[:60]) and any(
                    'startswith' in repr(a)[:60] for a, yes in tests) and not any(
                    yes for a, yes in tests if 'endswith' in repr(a)[:60]) and any(
                    'endswith' in repr(a)[:60] for a, yes in tests) and not prefix:
                self.report(i, node, 'the name of a private slot is not mangled')
        elif not contains(v, lambda t: t[0] == 'attr' and t[2] == '__name__'):
            self.report(i, node, 'a slot is looked for under another name')


def defining(p, name):
    for q, f in p.funcs.items():
        c, _, n = q.rpartition('.')
        if n == name and c in p.classes and p.is_subclass(c, PO):
            yield c, f


def decide(check):
    p = check.p
    p.need_func(PO + '.__setstate__')

    def derived(c, base):
        return p.is_subclass(c, P + base)

    for c, f in defining(p, '__setstate__'):
        state = ('sym', f.node.args.args[1].arg, None)
        o = State(c, by_dict=derived(c, 'Persistent'), state=state)

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind not in 'nr':
                        continue
                    b = out.st.obs
                    removed(o, i, f, b)
                    if not b.get(('done', 'state')):
                        o.report(i, f.node, 'not every attribute in the state is set')
        check.run('setstate', o, f.qual, cls=c, then=then)
        check.oblige('setstate', o.n)
    for c, f in defining(p, '_p_set_status_ghost'):
        for c in sorted(x for x in p.classes if x in (c, P + 'Persistent', P + 'ComputedAttribute')):
            o = State(c, by_dict=derived(c, 'Persistent'))

            def then(i, outs):
                with At(i, f):
                    for out in outs:
                        if out.kind not in 'nr':
                            continue
                        removed(o, i, f, out.st.obs)
                        if out.st.obs.get('touched'):
                            o.report(i, f.node, 'a ghost has attributes')
                        if out.st.heap.get((o.me, '_p_status')) != GHOST:
                            o.report(i, f.node, 'the status is not set to ghost')
            check.run('ghost', o, f.qual, cls=c, then=then)
            check.oblige('ghost', o.n)
    for c, f in defining(p, '__getstate__'):
        o = State(c, hidden=('_p_load_state',), by_dict=derived(c, 'Persistent'))

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind in 'nr':
                        o.n += 1
                        given(o, i, f, c, out, derived)
        check.run('getstate', o, f.qual, cls=c, then=then)
        check.oblige('getstate', o.n)
    for c, f in defining(p, '_p_gen_data_slots'):
        o = Names(c)

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind in 'nr' and not out.st.obs.get(('through', 'classes')):
                        o.report(i, f.node, 'not every class of the object is gone through')
                    elif out.kind in 'nr':
                        o.left(i, out.st, 'classes', f.node)
                        o.left(i, out.st, 'slots', f.node)
        check.run('names', o, f.qual, cls=c, then=then)
        check.oblige('names', o.n)
    computed(check, p)


def removed(o, i, f, b):
    if not b.get('cleared'):
        o.report(i, f.node, 'the old instance dictionary is kept')
    if not o.by_dict and not b.get(('done', 'slots')):
        o.report(i, f.node, 'values of old slots are kept')


def given(o, i, f, c, out, derived):
    b, v = out.st.obs, out.val
    if b.get('touched'):
        o.report(i, f.node, 'the object is changed while its state is taken')
    if derived(c, 'ComputedAttribute'):
        if v not in (None, NONE):
            o.report(i, f.node, 'a computed value is stored')
        return
    v = NONE if v is None else v
    if o.by_dict:
        if not o.dict_of(strip(v)) and not copy_of(o, out.st, v):
            o.report(i, f.node, 'the state is not the instance dictionary')
        return
    if not copy_of(o, out.st, v) and not b.get('copied'):
        o.report(i, f.node, 'the instance dictionary is not in the state')
    if not b.get(('done', 'slots')):
        o.report(i, f.node, 'a slot is not in the state')
    elif b.get('into', v) != v:
        o.report(i, f.node, 'the slots are not in the state that is returned')


def copy_of(o, st, v):
    if st.obs.get(('copied', v)) or v[0] == 'call' and o.dict_of(strip(v)):
        return True
    c = st.heap.get((v, '[]')) if v[0] == 'new' else None
    return c is not None and any(contains(x, o.dict_of) for x in c[1] if isinstance(x, tuple)
                                 and x and x[0] == 'all')


def computed(check, p):
    c = P + 'ComputedAttribute'
    if c not in p.classes:
        return

    def run(name, end, hidden=(), **kw):
        f = p.need_func(c + '.' + name)
        o = State(c, hidden=hidden)

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    o.n += 1
                    if out.kind in 'nr':
                        end(o, i, f, out)
                    elif name == 'get' and 'value' in out.st.obs:
                        o.report(i, f.node, 'a value is remembered although it could not be computed')
        check.run('computed', o, f.qual, cls=c, then=then, **kw)
        check.oblige('computed', o.n)

    def loaded(o, i, f, out):
        if out.st.obs.get('record'):
            o.report(i, f.node, 'loading needs a record')
        if out.st.heap.get((o.me, '_p_status')) != SAVED:
            o.report(i, f.node, 'the status is not set to saved')

    def invalid(o, i, f, out):
        b = out.st.obs
        if not b.get('gone') and not b.get(('done', 'slots')):
            o.report(i, f.node, 'the value is not forgotten')
        if not b.get('noted'):
            o.report(i, f.node, 'the change is not noted')

    def get(o, i, f, out):
        b = out.st.obs
        n = b.get('computed', 0)
        if b.get('noted'):
            o.report(i, f.node, 'computing a value notes a change')
        if n == 2:
            o.report(i, f.node, 'the value is computed twice')
        if n and not b.get('gone') and (not out.st.facts or any(
                mname(a[1]) == '_hasattribute' for a in out.st.facts
                if a[0] == 'truth' and a[1][0] == 'call')):
            o.report(i, f.node, 'the value is computed although it is remembered')
        if n == 1:
            if out.st.heap.get((o.me, 'value')) != b['result'] and b.get('value') != b['result']:
                o.report(i, f.node, 'the computed value is not remembered')
            if out.val != b['result']:
                o.report(i, f.node, 'the computed value is not returned')
        elif not n and out.val != attr(o.me, 'value') and not (
                out.val and out.val[0] == 'call' and out.val[1] == GET):
            o.report(i, f.node, 'the remembered value is not returned')
    run('_p_load_state', loaded)
    run('invalidate', invalid, hidden=('_p_note_change',))
    run('get', get)
