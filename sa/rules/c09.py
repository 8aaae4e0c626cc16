"""ObjectWriter._persistent_id() is followed over all paths: it gives an object
without an oid the connection's next oid, the connection and exactly one place in the
list of objects found, refuses an object of another connection, and adds
the oid to the references of the current record.  get_state() pickles the class and then the
state of its object, with an empty pickler memo and an empty buffer, cuts the
buffer at the position reached between the two, and returns the references
collected since the previous record without the object's own.  gen_new_objects()
yields the object and then every object found, also those found meanwhile.
The pickler is bound to _persistent_id().  ObjectReader takes the class and the
state from the same places."""
import time
from ..engine import NONE, mentions, Interp, contains, const
from .common import At, mname, attr, covers, fact
from ..rule import Obs

W = 'durus.serialize.ObjectWriter.'
ME = ('sym', 'self', 'durus.serialize.ObjectWriter')
CONN, REFS, FOUND = attr(ME, 'connection'), attr(ME, 'refs'), attr(ME, 'objects_found')


class Ref(Obs):
    def __init__(self, obj):
        Obs.__init__(self)
        self.obj = obj

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k in ('set', 'rawset') and ev[1] == self.obj:
            if ev[2] == '_p_oid':
                b['given'] = True
                if not (ev[3][0] == 'call' and mname(ev[3]) == 'new_oid'):
                    self.report(i, node, 'the oid of a new object is not a new one')
                if st.facts.get(('is', attr(self.obj, '_p_oid'), NONE)) is not True:
                    self.report(i, node, 'an object that has an oid may be given another one')
            elif ev[2] == '_p_connection':
                b['connected'] = ev[3] == CONN
        if k == 'mut' and ev[1] == FOUND:
            if ev[2] == 'append' and ev[3] == (self.obj,):
                b['listed'] = b.get('listed', 0) + 1
            else:
                self.report(i, node, 'the list of new objects is changed otherwise')
        if k == 'mut' and ev[1] == REFS:
            now = st.heap.get((self.obj, '_p_oid'), attr(self.obj, '_p_oid'))
            if ev[2] == 'add' and ev[3] == (now,):
                b['ref'] = True
            else:
                self.report(i, node, 'the references are changed otherwise')

    def check(self, i, f, outs):
        n = 0
        with At(i, f):
            for o in outs:
                n += 1
                b, st = o.st.obs, o.st
                if b.get('given') and not b.get('connected'):
                    self.report(i, f.node, 'a new object gets an oid but not the connection')
                if b.get('given') and b.get('listed', 0) != 1 or \
                        not b.get('given') and b.get('listed'):
                    self.report(i, f.node, 'not exactly the objects that get an oid are listed as new')
                if o.kind == 'x':
                    continue
                if not b.get('given') and fact(
                        st, 'is', attr(self.obj, '_p_connection'), CONN) is not True:
                    self.report(i, f.node, 'a reference to an object of another connection is '
                                'accepted')
                if not b.get('ref'):
                    self.report(i, f.node, 'a reference is not recorded')
                v = o.val or NONE
                now = st.heap.get((self.obj, '_p_oid'), attr(self.obj, '_p_oid'))
                if v[0] != 'tuple' or len(v[1]) != 2 or v[1][0] != now or \
                        v[1][1][0] != 'classof' or v[1][1][1] != self.obj:
                    self.report(i, f.node, 'what is pickled for a reference is not the oid and '
                                'class of the object')
        return n


class State(Obs):
    """get_state()"""
    n = 0

    def __init__(self, obj):
        Obs.__init__(self)
        self.obj = obj

    def now(self, st, name):
        return st.heap.get((ME, name), attr(ME, name))

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k == 'new' and ev[1] == 'durus.serialize._PersistentPickler':
            b['memo'] = b['start'] = b['cut'] = True
        if k == 'called':
            n, r = mname(ev), ev[2]
            sio, pickler = self.now(st, 'sio'), self.now(st, 'pickler')
            if n == 'clear_memo' and r == pickler:
                b['memo'] = True
            elif r == sio and n == 'seek' and ev[3][:1] == (const(0),) and len(ev[3]) == 1:
                b['start'] = True
            elif r == sio and n == 'truncate' and (b.get('start') and not ev[3] or
                                                   ev[3][:1] == (const(0),)):
                b['cut'] = True
            elif r == sio and n == 'tell':
                b[('tell', ev[5])] = b.get('dumps', 0)
            elif r == sio and n == 'getvalue':
                b[('value', ev[5])] = b.get('dumps', 0)
            elif n == '__getstate__':
                b[('state', ev[5])] = True
                if r != self.obj:
                    self.report(i, node, 'the state of another object is asked for')
            elif n == 'dump' and r == pickler:
                self.n += 1
                d = b['dumps'] = b.get('dumps', 0) + 1
                refs = self.now(st, 'refs')     # _persistent_id() adds to them
                st.heap.pop((refs, '[]'), None)
                st.facts.pop(('truth', refs), None)
                x = ev[3][0]
                if d == 1:
                    if not b.get('memo'):
                        self.report(i, node, 'a record is pickled with the memo of earlier records')
                    if not (b.get('start') and b.get('cut')):
                        self.report(i, node, 'a record is pickled behind or over the bytes of an '
                                    'earlier one')
                    if x[0] != 'classof' or x[1] != self.obj:
                        self.report(i, node, 'a record does not begin with the class of its object')
                elif d == 2:
                    if not (x[0] == 'call' and mname(x) == '__getstate__' and x[2][0] == self.obj):
                        self.report(i, node, 'the second part of a record is not the state of its '
                                    'object')
                    if not b.get('clear'):
                        self.report(i, node, 'the references of a record include those of earlier '
                                    'records')
                elif d > 2:
                    self.report(i, node, 'a record has more than a class and a state')
        if k == 'iter' and b.get('dumps', 0) > 1 and covers(st, ev[1], self.now(st, 'refs')):
            b['through'] = True
        if k == 'set' and ev[1] == ME and ev[2] == 'refs':
            if ev[3][0] == 'new' and not (st.heap.get((ev[3], '[]')) or ('', ()))[1]:
                b['clear'] = True
        if k == 'mut' and ev[1] != self.now(st, 'refs') and ev[1][0] == 'call' and \
                b.get('dumps', 0) > 1 and covers(st, ev[1], self.now(st, 'refs')):
            # a copy of them
            if ev[2] in ('discard', 'remove') and ev[3] == (attr(self.obj, '_p_oid'),):
                b['self'] = True
            elif ev[2] != 'sort':
                self.report(i, node, 'references are added or removed that the state does not have')
        if k == 'mut' and ev[1] == self.now(st, 'refs'):
            if ev[2] == 'clear':
                b['clear'] = True
                if b.get('dumps', 0) > 1 and not b.get('kept'):
                    self.report(i, node, 'the references of a record are forgotten')
            elif ev[2] in ('discard', 'remove'):
                if ev[3] != (attr(self.obj, '_p_oid'),):
                    self.report(i, node, 'a reference is forgotten')
                elif b.get('dumps', 0) > 1:
                    b['self'] = True
            else:
                self.report(i, node, 'references are added or removed that the state does not have')

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                b, v = o.st.obs, o.val or NONE
                self.n += 1
                if b.get('dumps', 0) != 2:
                    self.report(i, f.node, 'a record is not made of a class and a state')
                    continue
                if v[0] != 'tuple' or len(v[1]) != 2:
                    self.report(i, f.node, 'get_state() does not return data and references')
                    continue
                data, refs = v[1]
                r = self.now(o.st, 'refs')
                if not mentions(refs, r) and not contains(refs, lambda t: t[0] == 'new' and any(
                        mentions(x, r) for x in (o.st.heap.get((t, '[]')) or ('', ()))[1])
                        or b.get('through')):
                    self.report(i, f.node, 'the references returned are not those found')
                if mentions(refs, r) and not b.get('self') and not contains(
                        refs, lambda t: t[0] in ('new', 'op')):
                    self.report(i, f.node, 'a record refers to its own object')
                # the data
                head = tail = None
                def look(t):
                    nonlocal head, tail
                    if t[0] == 'slice' and b.get(('value', t[1])) == 2:
                        if t[2] == NONE or t[2] == const(0):
                            head = t[3]
                        if t[3] == NONE:
                            tail = t[2]
                    return False
                contains(data, look)
                if contains(data, lambda t: t[0] == 'slice'):
                    if head is None or tail is None or head != tail:
                        self.report(i, f.node, 'the data of a record is not the whole of what was '
                                    'pickled')
                    elif b.get(('tell', head)) != 1:
                        self.report(i, f.node, 'the data of a record is not cut between class and '
                                    'state')


class Gen(Obs):
    n = 0

    def __init__(self, obj):
        Obs.__init__(self)
        self.obj = obj

    def on(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k == 'yield':
            self.n += 1
            v = ev[1]
            if v == self.obj:
                if b.get('first'):
                    self.report(i, node, 'the changed object is serialized twice')
                b['first'] = True
            else:
                if not b.get('first'):
                    self.report(i, node, 'objects are yielded before any reference is known')
                if b.get('todo') == v or v[0] in ('item', 'call') and v[0] and mentions(v, FOUND):
                    b['todo'] = None
                    b['some'] = True
        if k == 'iter' and ev[1] != FOUND and covers(st, ev[1], FOUND):
            self.report(i, node, 'objects found during the iteration are missed')
        if k in ('next', 'drain') and ev[1] == FOUND:
            if b.get('todo'):
                self.report(i, node, 'a new object is not yielded')
            b['todo'] = ev[2]
        if k == 'done' and ev[1] == FOUND:
            b['all'] = True
            if b.get('todo'):
                self.report(i, node, 'a new object is not yielded')
        if k == 'assume' and ev[1][0] in ('<', '<=', '==', 'truth') and mentions(ev[1], FOUND):
            b['all'] = True


def reference(check, rule):
    p = check.p
    f = p.need_func(W + '_persistent_id')
    obj = ('sym', f.node.args.args[1].arg, None)
    o = Ref(obj)
    check.run(rule, o, f.qual,
              then=lambda i, outs: check.oblige(rule, o.check(i, f, outs)))


def state(check, rule):
    p = check.p
    f2 = p.need_func(W + 'get_state')
    obj2 = ('sym', f2.node.args.args[1].arg, None)
    o2 = State(obj2)
    check.run(rule, o2, f2.qual, then=lambda i, outs: o2.check(i, f2, outs))
    check.oblige(rule, o2.n)


def new_objects(check, rule):
    p = check.p
    f3 = p.need_func(W + 'gen_new_objects')
    o3 = Gen(('sym', f3.node.args.args[1].arg, None))

    def then(i, outs):
        with At(i, f3):
            for out in outs:
                if out.kind == 'x':
                    continue
                if not out.st.obs.get('first'):
                    o3.report(i, f3.node, 'the changed object itself is not serialized')
                if not out.st.obs.get('all'):
                    o3.report(i, f3.node, 'new objects are not serialized')
    check.run(rule, o3, f3.qual, then=then)
    check.oblige(rule, o3.n)


def decide(check):
    p = check.p
    reference(check, 'reference')
    state(check, 'record')
    new_objects(check, 'new objects')

    # the pickler asks _persistent_id()
    rule = 'pickler'
    fi = p.need_func(W + '__init__')

    class Made(Obs):
        def __init__(self):
            Obs.__init__(self)
            self.made = []

        def on(self, i, st, ev, node):
            if ev[0] == 'set' and ev[2] == 'pickler' and ev[1] == ME and \
                    not any(ev[3] == v for v, s in self.made):
                self.made.append((ev[3], st.copy()))
    m = Made()
    i = Interp(p, m)
    i.deadline = time.time() + 60
    outs = i.run(fi.qual)
    check.absorb(rule, i, m, fi.qual, len(outs))
    if not m.made:
        check.finding(rule, fi, None, 'no pickler is made')
    for v, s in m.made:
        for out in outs:
            if out.kind != 'x' and out.st.heap.get((ME, 'pickler')) == v:
                s = out.st.copy()
        fn = s.heap.get((v, 'persistent_id'))
        if fn is None and v[0] == 'new':
            c = p.lookup(v[2], 'persistent_id')
            if c is not None and hasattr(c[1], 'qual'):
                fn = ('bm', v, c[1].qual)
        if fn is None:
            check.finding(rule, fi, None, 'the pickler is not told how to store references')
            continue
        x = ('sym', 'x', 'durus.persistent.PersistentObject')
        r = Ref(x)
        r.opaque_names = ('durus.persistent.PersistentBase._p_set_status_ghost',)
        i2 = Interp(p, r)
        i2.frames = i.frames
        i2.deadline = time.time() + 60
        s.obs = {}
        # the connection and the lists are those of the writer
        for name in ('connection', 'refs', 'objects_found'):
            s.heap.pop((ME, name), None)
        outs2 = i2.run_value(fn, s, [x])
        check.oblige(rule, r.check(i2, fi, outs2))
        check.absorb(rule, i2, r, 'persistent_id', len(outs2))

    # loading
    rule = 'loading'
    f4 = p.need_func('durus.serialize.ObjectReader.get_state')
    data = ('sym', f4.node.args.args[1].arg, None)

    class Load(Obs):
        n = 0

        def on(self, i, st, ev, node):
            b = st.obs
            if ev[0] == 'called':
                n, r = mname(ev), ev[2]
                if n == 'load' and r is not None and r[0] == 'new':
                    b['loads'] = b.get('loads', 0) + 1
                    self.n += 1
                    if b['loads'] == 1:
                        b['at'] = 'state'
                    elif b['loads'] == 2 and b.get('at') != 'state':
                        self.report(i, node, 'the state is loaded from another place than it was '
                                    'written to')
                elif n == 'tell' and b.get('at') == 'state':
                    b[('pos', ev[5])] = True
                elif n == 'seek' and b.get('loads'):
                    b['at'] = 'state' if b.get(('pos', ev[3][0])) else 'elsewhere'
                elif n == 'write' and b.get('loads'):
                    x = ev[3][0]
                    ok = b.get('at') == 'state' and x[0] == 'call' and x[1] == 'zlib.decompress' \
                        and x[2][0][0] == 'slice' and x[2][0][1] == data and x[2][0][3] == NONE \
                        and b.get(('pos', x[2][0][2]))
                    if not ok:
                        self.report(i, node, 'the state is not what was stored behind the class')
                    b['at'] = 'end'
                elif n == 'read' and b.get('loads') and b.get('at') != 'state':
                    self.report(i, node, 'the state is read from another place than it was '
                                'written to')
    o4 = Load()

    def then4(i, outs):
        with At(i, f4):
            for out in outs:
                v = out.val or NONE
                if out.kind != 'x' and v[0] == 'call' and mname(v) == 'load' and \
                        out.st.obs.get('loads') != 2:
                    o4.report(i, f4.node, 'what is returned is not the state')
    check.run(rule, o4, f4.qual, then=then4)
    check.oblige(rule, o4.n)
