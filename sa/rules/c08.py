"""Every path of the function that resolves references (persistent_load, also as
bound by Cache.get_instance and ObjectReader) returns the object that the cache
holds for the oid, or, only when there is none of that class, a new object that
has the oid, the connection and the ghost status and is already registered under
the oid.  Connection.get(), get_crawler() and load_state() replace the state only
of objects that are new or known to be ghosts, and mark them saved before
they are returned.  commit() registers every new object before it stores it.
Cache.shrink() unloads an object only if it is known to be saved and not of the
current transaction, and releases no object of the current transaction;
note_access() keeps the object.  The weak dictionary of the cache is checked
method by method: get() returns a value exactly if it is alive and not deleted;
entries leave it only when dead or deleted."""
import time
from ..engine import NONE, mentions, Interp, Limit, contains, const
from ..model import ModelError
from .common import At, ConnObs, mname, attr, cached_of, strip
from ..rule import Obs

CONN = 'durus.connection.Connection.'
OD = 'durus.connection.ObjectDictionary.'
CACHE = 'durus.connection.Cache.'


class Resolve(Obs):
    """A function that turns (oid, class) into an object"""
    opaque_prefixes = Obs.opaque_prefixes + (OD, 'durus.persistent.')

    def __init__(self, objects, connection, oid, klass):
        Obs.__init__(self)
        self.objects, self.connection, self.oid, self.klass = objects, connection, oid, klass

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k in ('rawset', 'set'):
            b[('attr', ev[1], ev[2])] = ev[3]
        if k in ('call', 'enter') and ev[2] is not None and mname(ev) == '_p_set_status_ghost':
            b[('attr', ev[2], '_p_status')] = const(-1)
        if k == 'mut' and ev[1] == self.objects and ev[2] == '__setitem__':
            self.register(i, st, ev[3], node)
        if k == 'call' and ev[2] == self.objects and mname(ev) in ('__setitem__', 'setdefault'):
            self.register(i, st, ev[3], node)

    def register(self, i, st, args, node):
        st.obs[('reg', args[0])] = args[1]
        if args[0] != self.oid:
            self.report(i, node, 'the object is registered under another oid')

    def same(self, v):
        return cached_of(v, self.oid) and v[2][0] == self.objects

    def check(self, i, f, outs):
        n = 0
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                st, v = o.st, o.val or NONE
                n += 1
                if v is None or v == NONE:
                    self.report(i, f.node, 'a reference may resolve to nothing')
                elif self.same(v):
                    if st.facts.get(('is', v, NONE)) is not False and \
                            st.facts.get(('truth', v)) is not True:
                        self.report(i, f.node, 'a reference may resolve to nothing')
                elif v[0] in ('new', 'call'):
                    known = [x for a, x in st.facts.items() if x is True and a[0] == 'is'
                             and a[2] == NONE and self.same(a[1])]
                    other = [x for a, x in st.facts.items() if x is False and a[0] in ('is', '==')
                             and any(y[0] == 'classof' and self.same(y[1]) for y in a[1:])]
                    if not known and not other:
                        self.report(i, f.node, 'a new object is made though the cache may hold '
                                    'one for the oid')
                    for name, want in (('_p_oid', self.oid), ('_p_connection', self.connection),
                                       ('_p_status', const(-1))):
                        if st.obs.get(('attr', v, name)) != want:
                            self.report(i, f.node, 'a new object is returned without its %s' % name)
                    if st.obs.get(('reg', self.oid)) != v:
                        self.report(i, f.node, 'a new object is returned without being registered')
                else:
                    self.report(i, f.node, 'what a reference resolves to is neither the object of '
                                'the cache nor a new one')
        return n


def resolve(check):
    p = check.p
    rule = 'resolve'
    oc = ('sym', 'oid_class', None)
    oid, klass = ('item', oc, const(0)), ('item', oc, const(1))
    C = ('sym', 'connection', 'durus.connection.Connection')

    f = p.need_func('durus.serialize.persistent_load')
    names = [a.arg for a in f.node.args.args]
    check.need(len(names) == 3, 'persistent_load() has other parameters')
    objs = ('sym', names[1], None)
    o = Resolve(objs, ('sym', names[0], 'durus.connection.Connection'), oid, klass)

    def then(i, outs):
        check.oblige(rule, o.check(i, f, outs))
    check.run(rule, o, f.qual, then=then, args={
        names[0]: ('sym', names[0], 'durus.connection.Connection'), names[2]: oc})

    f2 = p.need_func(CACHE + 'get_instance')
    me = ('sym', 'self', 'durus.connection.Cache')
    names2 = [a.arg for a in f2.node.args.args][1:]
    check.need(len(names2) == 3, 'get_instance() has other parameters')
    args = [('sym', 'oid', None), ('sym', 'klass', None),
            ('sym', 'connection', 'durus.connection.Connection')]
    o2 = Resolve(attr(me, 'objects'), args[2], args[0], args[1])

    def then2(i, outs):
        check.oblige(rule, o2.check(i, f2, outs))
    check.run(rule, o2, f2.qual, then=then2, args=dict(zip(names2, args)))

    # what the unpickler is given
    f3 = p.need_func('durus.serialize.ObjectReader.get_state')
    me = ('sym', 'self', 'durus.serialize.ObjectReader')
    conn = attr(me, 'connection')

    class Loader(Resolve):
        found = None

        def on(self, i, st, ev, node):
            if ev[0] in ('set', 'rawset') and ev[2] == 'persistent_load':
                if not any(ev[3] == g for g, s in self.given):
                    self.given.append((ev[3], st.copy()))
            else:
                Resolve.on(self, i, st, ev, node)
    o3 = Loader(attr(attr(conn, 'cache'), 'objects'), conn, oid, klass)
    o3.given = []
    i3 = Interp(p, o3)
    i3.deadline = time.time() + 60
    outs = i3.run(f3.qual)
    check.absorb(rule, i3, o3, f3.qual, len(outs))
    if not o3.given:
        check.finding(rule, f3, None, 'references in loaded state are not resolved')
    for g, s in o3.given:
        o4 = Resolve(o3.objects, conn, oid, klass)
        i4 = Interp(p, o4)
        i4.frames = i3.frames
        i4.deadline = time.time() + 60
        s.obs = {}
        outs = i4.run_value(g, s, [oc])
        check.oblige(rule, o4.check(i4, f3, outs))
        check.absorb(rule, i4, o4, f3.qual + ' persistent_load', len(outs))


class State(ConnObs):
    """what may have its state replaced"""
    opaque_names = ('durus.utils.loads',)
    count = 0

    def made(self, st, v):
        """a new object, known not to be cached before"""
        if v[0] == 'call' and mname(v) in ('get_instance', 'persistent_load'):
            return True
        return False

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k == 'call' and mname(ev) in ('get_instance',):
            # called (self.cache, oid, class, connection)
            oid = ev[3][0]
            if not any(yes and a[0] == 'is' and a[2] == NONE and cached_of(a[1], oid)
                       for a, yes in st.facts.items()):
                self.report(i, node, 'an object is made, or one in use taken for new, without '
                            'looking for it in the cache')
        if k == 'assume' and ev[1][0] == 'truth' and ev[1][1][0] == 'call' \
                and mname(ev[1][1]) == '_p_is_ghost' and ev[2]:
            b[('ghost', ev[1][1][2][0])] = True
        if k in ('call', 'enter') and mname(ev) == '__setstate__':
            self.count += 1
            v = ev[2]
            if v is None and ev[3]:
                v = ev[3][0]
            if not self.made(st, v) and not b.get(('ghost', v)) and \
                    st.facts.get(('truth', mk_ghost(st, v))) is not True:
                self.report(i, node, 'the state of an object that may be loaded is replaced')
            b[('loaded', v)] = True
        if k in ('call', 'enter') and mname(ev) == '_p_set_status_saved':
            b.pop(('loaded', ev[2]), None)
        if k == 'yield':
            self.handed_out(i, st, ev[1], node)

    def handed_out(self, i, st, v, node):
        if st.obs.get(('loaded', v)):
            self.report(i, node, 'an object with loaded state is handed out as a ghost')


def mk_ghost(st, v):
    for a in st.facts:
        if a[0] == 'truth' and a[1][0] == 'call' and mname(a[1]) == '_p_is_ghost' \
                and a[1][2] and a[1][2][0] == v:
            return a[1]
    return None


def loading(check):
    p = check.p
    rule = 'load'
    for name in ('get', 'get_crawler', 'load_state'):
        f = p.need_func(CONN + name)
        o = State()

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    if out.kind == 'x':
                        continue
                    if any(k[0] == 'loaded' for k in out.st.obs):
                        o.report(i, f.node, 'an object with loaded state is left a ghost')
                    v = out.val or NONE
                    if name == 'get' and v is not None and v != NONE:
                        oid = out.st.env and None
                        if not (o.made(out.st, v) or v[0] == 'call' and mname(v) == 'get'):
                            o.report(i, f.node, 'get() returns something other than the object '
                                     'of the cache or a new one')
        check.run(rule, o, f.qual, then=then)
        check.oblige(rule, o.count)
        if name == 'load_state' and not o.count:
            check.finding(rule, f, None, 'load_state() loads no state')


class New(ConnObs):
    """commit() registers new objects"""
    count = 0

    def on(self, i, st, ev, node):
        b = st.obs
        if ev[0] in ('call', 'enter') and mname(ev) == '__setitem__' and ev[2] is not None \
                and ev[2] in (attr(self.SELF, 'cache'), attr(attr(self.SELF, 'cache'), 'objects')):
            b[('reg', ev[3][0])] = True
        if ev[0] == 'mut' and ev[2] == '__setitem__' and mentions(ev[1], attr(self.SELF, 'cache')):
            b[('reg', ev[3][0])] = True
        if ev[0] == 'call' and self.is_storage(ev, 'store'):
            self.count += 1
            oid = ev[3][0]
            if not b.get(('reg', oid)) and st.facts.get(('in', oid, self.CHANGED)) is not True:
                self.report(i, node, 'a new object may be stored without being registered in '
                            'the cache')


class Shrink(Obs):
    opaque_prefixes = Obs.opaque_prefixes + (OD, 'durus.connection.ReferenceContainer.',
                                             'durus.persistent.')
    ME = ('sym', 'self', 'durus.connection.Cache')
    count = 0

    def serial_checked(self, st, oid):
        """is the cached object of oid known not to be current?"""
        for a, v in st.facts.items():
            if v is False and a[0] == '==':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == 'attr' and x[2] == '_p_serial' and cached_of(x[1], oid) and \
                            contains(y, lambda t: t[0] == 'attr' and t[2] == 'transaction_serial'):
                        return True
        return False

    def guarded(self, st, v):
        oid = v[2][1] if v[0] == 'call' and len(v[2]) >= 2 and mname(v) == 'get' else None
        if oid is None:
            return False
        if self.serial_checked(st, oid):
            return True
        # the oid came from a list of checked ones
        return st.obs.get('good') and not st.obs.get('bad') and \
            contains(oid, lambda t: t[0] == 'new')

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k == 'mut' and ev[1][0] == 'new' and ev[2] in ('append', 'add', 'appendleft', 'insert',
                                                         '__setitem__') and ev[3]:
            found = any(self.serial_checked(st, x) for a in ev[3]
                        for x in (a[1] if a[0] == 'tuple' else (a,)))
            if found:
                b['good'] = True
            else:
                b['bad'] = True
        elif k in ('call', 'enter') and mname(ev) == '_p_set_status_ghost':
            self.count += 1
            v = ev[2]
            if not any(x and a[0] == 'truth' and a[1][0] == 'call' and mname(a[1]) == '_p_is_saved'
                       and a[1][2] and a[1][2][0] == v for a, x in st.facts.items()):
                self.report(i, node, 'the cache may unload an object that is not saved')
            if not self.guarded(st, v):
                self.report(i, node, 'the cache may unload an object used in the current transaction')
        elif k == 'call' and mname(ev) == 'discard' and 'ReferenceContainer' in ev[1]:
            self.count += 1
            if not self.guarded(st, ev[3][0]):
                self.report(i, node, 'the cache may release an object used in the current transaction')
        elif k == 'mut' and mentions(ev[1], attr(self.ME, 'recent_objects')) and not any(
                self.guarded(st, a) or a[0] == 'call' and a[1] == 'builtins.id' and
                self.guarded(st, a[2][0]) for a in ev[3]):
            self.report(i, node, 'the cache may release an object used in the current transaction')
        elif k in ('call', 'mut') and mname(ev) in ('__delitem__', 'pop', 'clear', 'popitem') and \
                ev[1 if k == 'mut' else 2] == attr(self.ME, 'objects'):
            self.report(i, node, 'shrinking the cache removes an object from it')


def weak_dict(check):
    p = check.p
    rule = 'weak dictionary'
    me = ('sym', 'self', 'durus.connection.ObjectDictionary')
    mapping, dead = attr(me, 'mapping'), attr(me, 'dead')

    def is_entry(v, key):
        return v[0] == 'call' and mname(v) in ('get', '__getitem__') and v[2][:2] == (mapping, key) \
            or v == ('item', mapping, key)

    class O(Obs):
        count = 0

        def on(self, i, st, ev, node):
            b = st.obs
            k = ev[0]
            if k == 'drain' and ev[1] == dead:
                b['popped', ev[2]] = True
                self.count += 1
            if k == 'next' and strip(ev[1]) == dead:
                b['isdead', ev[2]] = True
                self.count += 1
            if k == 'assume' and ev[1][0] == 'in' and ev[1][2] == mapping and not ev[2]:
                b.pop(('popped', ev[1][1]), None)
            if k != 'mut':
                return
            if ev[1] == mapping:
                self.count += 1
                if ev[2] == '__setitem__':
                    key, v = ev[3]
                    b['entry', key] = v
                elif ev[2] in ('pop', '__delitem__'):
                    key = ev[3][0] if ev[3] else None
                    if key[0] == 'sym' and self.f == '__setitem__':
                        pass
                    elif b.pop(('popped', key), None) is None and \
                            not b.get(('isdead', key)) and \
                            st.facts.get(('in', key, dead)) is not True and self.f != '__delitem__':
                        self.report(i, node, 'an entry that may be alive is dropped')
                    b['removed', key] = True
                else:
                    self.report(i, node, 'entries that may be alive are dropped')
            elif ev[1] == dead:
                self.count += 1
                if ev[2] == 'add':
                    b['killed', ev[3][0]] = True
                elif ev[2] in ('discard', 'remove'):
                    b['revived', ev[3][0]] = True
                    if b.get(('isdead', ev[3][0])) and not b.get(('removed', ev[3][0])):
                        b['popped', ev[3][0]] = True
                elif ev[2] in ('pop',):
                    pass
                elif ev[2] in ('clear', '__isub__', 'difference_update'):
                    b['forgot'] = True
                elif ev[2] in ('update', '__ior__'):
                    self.report(i, node, 'entries that may be alive are declared dead')

    for name, f in check.roots('durus.connection.ObjectDictionary'):
        if name == '__init__':
            continue
        o = O()
        o.f = name
        params = [a.arg for a in f.node.args.args]

        def then(i, outs, f=f, name=name, o=o, params=params):
            key = ('sym', params[1], None) if len(params) > 1 else None
            with At(i, f):
                for out in outs:
                    st, b = out.st, out.st.obs
                    if out.kind == 'x':
                        continue
                    for x in b:
                        if x[0] == 'popped':
                            o.report(i, f.node, 'a dead entry is forgotten but left in the mapping')
                        if x[0] == 'revived' and ('entry', x[1]) not in b and \
                                ('removed', x[1]) not in b and x[1][0] not in ('old', 'elem'):
                            o.report(i, f.node, 'a dead entry is taken for a live one')
                    if b.get('forgot'):
                        o.report(i, f.node, 'a dead entry is forgotten but left in the mapping')
                    if name == '__setitem__':
                        o.count += 1
                        v = b.get(('entry', key))
                        value = ('sym', params[2], None)
                        if v is None:
                            o.report(i, f.node, 'the object is not registered')
                        elif not (mentions(v, value) and v[0] in ('call', 'new') and any(
                                mentions(v, x) for x in (attr(me, 'callback'),)) and mentions(v, key)):
                            o.report(i, f.node, 'the entry is no weak reference that tells its key '
                                     'when the object dies')
                        if ('revived', key) not in b:
                            o.report(i, f.node, 'a registered object may be taken for a deleted one')
                    elif name == '__delitem__':
                        o.count += 1
                        if ('killed', key) not in b and ('removed', key) not in b:
                            o.report(i, f.node, 'a deleted object stays registered')
                    elif any(x[0] == 'killed' for x in b):
                        o.report(i, f.node, 'an entry that may be alive is declared dead')
                    if name == 'get':
                        o.count += 1
                        default = ('sym', params[2], None) if len(params) > 2 else NONE
                        v = out.val or NONE
                        F = st.facts
                        gone = any(x and a[0] == 'is' and a[2] == NONE and
                                   contains(a[1], lambda t: is_entry(t, key))
                                   or x is False and a[0] == 'truth' and
                                   contains(a[1], lambda t: is_entry(t, key)) and a[1][0] != 'call'
                                   for a, x in F.items()) or \
                            F.get(('in', key, dead)) is True or F.get(('in', key, mapping)) is False
                        if v == default:
                            if not gone:
                                o.report(i, f.node, 'a live entry may be denied')
                        elif v[0] == 'call' and v[1] == '()' and is_entry(v[2][0], key):
                            if F.get(('in', key, dead)) is not False:
                                o.report(i, f.node, 'a deleted entry may be returned')
                            if F.get(('is', v, NONE)) is not False and default != NONE and \
                                    F.get(('truth', v)) is not True:
                                o.report(i, f.node, 'a dead entry may be returned')
                        else:
                            o.report(i, f.node, 'what get() returns is not the live entry')
        check.run(rule, o, f.qual, then=then)
        check.oblige(rule, o.count)

    # the callback of dying objects
    f = p.need_func(OD + '__init__')
    o = O()
    o.f = '__init__'
    i = Interp(p, o)
    i.deadline = time.time() + 60
    outs = i.run(f.qual)
    check.absorb(rule, i, o, f.qual, len(outs))
    for out in outs:
        cb = out.st.heap.get((me, 'callback'))
        if cb is None:
            check.finding(rule, f, None, 'no callback for dying objects')
            continue
        r = ('sym', 'keyed_ref', None)

        class CB(Obs):
            def on(self, i, st, ev, node):
                if ev[0] == 'mut' and (ev[1][0] == 'attr' and ev[1][2] == 'dead' or
                                       ev[1] == out.st.heap.get((me, 'dead'))):
                    if ev[2] == 'add' and ev[3] == (attr(r, 'key'),):
                        st.obs['killed'] = True
                    else:
                        self.report(i, node, 'the death of an object is recorded for another key')
                elif ev[0] == 'mut' and ev[1][0] == 'attr' and ev[1][2] == 'mapping':
                    self.report(i, node, 'an entry is removed while the mapping may be iterated')
        o2 = CB()
        i2 = Interp(p, o2)
        i2.frames = i.frames
        i2.deadline = time.time() + 60
        outs2 = i2.run_value(cb, out.st, [r])
        with At(i2, f):
            for x in outs2:
                check.oblige(rule)
                if x.kind == 'x' or x.st.obs.get('killed'):
                    continue
                # only if the dictionary itself is gone
                if not any(v is True and a[0] == 'is' and NONE in a[1:] or v is False and
                           a[0] == 'truth' for a, v in x.st.facts.items()):
                    o2.report(i2, f.node, 'the death of an object may go unnoticed')
        check.absorb(rule, i2, o2, f.qual + ' callback', len(outs2))


def decide(check):
    p = check.p
    resolve(check)
    loading(check)
    weak_dict(check)

    n = New()
    check.run('commit', n, CONN + 'commit')
    check.oblige('commit', n.count)

    s = Shrink()
    check.run('shrink', s, CACHE + 'shrink')
    check.oblige('shrink', s.count)

    # objects in use are kept
    rule = 'keep'
    f = p.need_func(CONN + 'note_access')
    obj = ('sym', f.node.args.args[1].arg, None)

    class Keep(ConnObs):
        def on(self, i, st, ev, node):
            if ev[0] == 'call' and mname(ev) == 'add' and 'ReferenceContainer' in ev[1] and \
                    ev[3] and ev[3][0] == obj:
                st.obs['kept'] = True
            elif ev[0] == 'mut' and ev[3] and obj in ev[3]:
                st.obs['kept'] = True
    k = Keep()

    def then(i, outs):
        with At(i, f):
            for out in outs:
                check.oblige(rule)
                if out.kind != 'x' and not out.st.obs.get('kept'):
                    k.report(i, f.node, 'an object in use is not kept in memory')
    check.run(rule, k, f.qual, then=then)

    # the container of recent objects
    rule = 'recent objects'
    me = ('sym', 'self', 'durus.connection.ReferenceContainer')
    f = p.need_func('durus.connection.ReferenceContainer.add')
    x = ('sym', f.node.args.args[1].arg, None)

    class Add(Obs):
        def on(self, i, st, ev, node):
            if ev[0] == 'mut' and mentions(ev[1], me) and ev[2] in ('__setitem__', 'add', 'append') \
                    and ev[3][-1] == x and (len(ev[3]) == 1 or mentions(ev[3][0], x)):
                st.obs['held'] = True
    a = Add()

    def then2(i, outs):
        with At(i, f):
            for out in outs:
                check.oblige(rule)
                if out.kind != 'x' and not out.st.obs.get('held'):
                    a.report(i, f.node, 'the object is not held')
    check.run(rule, a, f.qual, then=then2)

    # the cache keeps objects through its dictionary
    rule = 'cache'
    me = ('sym', 'self', 'durus.connection.Cache')
    objects = attr(me, 'objects')
    for name in ('__setitem__', '__delitem__', 'get'):
        f = p.need_func(CACHE + name)
        key = ('sym', f.node.args.args[1].arg, None)

        class C(Obs):
            opaque_prefixes = Obs.opaque_prefixes + (OD, 'durus.connection.ReferenceContainer.')

            def on(self, i, st, ev, node):
                if ev[0] == 'call' and ev[2] == objects or ev[0] == 'mut' and ev[1] == objects:
                    args = ev[3]
                    n = mname(ev) if ev[0] == 'call' else ev[2]
                    if args and args[0] == key:
                        st.obs[n] = args
        c = C()

        def then3(i, outs, f=f, name=name, c=c, key=key):
            with At(i, f):
                for out in outs:
                    check.oblige(rule)
                    if out.kind == 'x':
                        continue
                    if name == '__setitem__' and '__setitem__' not in out.st.obs:
                        c.report(i, f.node, 'the object is not registered')
                    if name == '__delitem__' and not out.st.obs.keys() & {'__delitem__', 'pop'} and not \
                            any(x and a[0] == 'is' and a[2] == NONE and cached_of(a[1], key) or
                                a[0] == 'in' and x is False and a[1] == key
                                for a, x in out.st.facts.items()):
                        c.report(i, f.node, 'a deleted object stays registered')
                    if name == 'get' and not cached_of(out.val, key) and not (
                            out.val == NONE and any(x and a[0] == 'is' and cached_of(a[1], key)
                                                    for a, x in out.st.facts.items())):
                        c.report(i, f.node, 'what get() returns is not what the dictionary holds')
        check.run(rule, c, f.qual, then=then3)
