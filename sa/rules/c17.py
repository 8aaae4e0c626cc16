"""get_packer() and the packer of FileStorage, FileStorage2 and SqliteStorage
are followed over all paths: every oid of the old storage is looked up in the
packed one after the last change to that, and is put in the storage's set of
removed oids exactly when it is not there.  sync() returns, on every path, a
copy of the whole set, and leaves the set empty.  FileStorage.new_oid(), which
gives oids of removed objects again, returns only oids it has seen not to be in
the set."""
from ..engine import NONE, const, contains, mentions
from .common import At, Tagged, attr, covers, mname, parts, strip
from .files import FileObs, storage_file, FS, FS2, SQL, RAW, SHELF, SHELFV
from . import packs
from .packs import Base

BULK = ('update', '__ior__', 'extend', '__iadd__')


def inv(me):
    return attr(me, 'invalid')


class Removed(Base):
    def __init__(self, cls):
        Base.__init__(self, cls)
        self.opaque_names = tuple(x for x in self.opaque_names
                                  if x not in (SHELF + '.__contains__',))

    def invalid(self, st):
        return st.heap.get((self.me, 'invalid'), inv(self.me))

    def is_old(self, st, it):
        s = strip(it)
        if self.less(st, it):
            return False
        if self.cls == FS:
            return s == SHELFV or s[0] == 'call' and s[1] in (
                SHELF + '.__iter__', SHELF + '.iterindex') and s[2] and s[2][0] == SHELFV
        if self.cls == FS2:
            return covers(st, it, attr(self.me, 'index'))
        return s[0] == 'call' and mname(s) in ('fetchall', 'execute') and mentions(
            s, attr(self.me, '_conn'))

    def source(self, i, st, it):
        if self.is_old(st, it):
            return ('old',)
        s = strip(it)
        if ('staged', s) in st.obs:
            return ('staged', s)
        if self.gone(st, it):
            return ('gone', s)
        return None

    def less(self, st, v):
        """is v, or what v is made of, what remains without the new?"""
        while ('less', v) not in st.obs:
            w = strip(v)
            if w == v:
                return False
            v = v[2][0]
        return True

    def gone(self, st, v):
        """the old ones that are not among the new"""
        if self.less(st, v):
            return True
        v = strip(v)
        return (
            v[0] == 'op' and v[1] in ('Sub', '-') or
            v[0] == 'call' and mname(v) == 'difference' and len(v[2]) == 2) and \
            self.old_all(st, v[2][0]) and not self.old_all(st, v[2][1])

    def started(self, i, st, tag, elem, node):
        self.n += 1
        for k in list(st.obs):
            if k[0] in ('absent', 'present', 'reported', 'kept in'):
                st.obs.pop(k)
        st.obs[('some', tag)] = True
        if tag[0] == 'gone':
            st.obs[('absent', tag)] = True

    def hand(self, st):
        return [(k[1], e) for k, e in st.obs.items() if k[0] == 'todo']

    def names(self, v, e):
        """is v the oid of element e?"""
        return any(mentions(v, x) for x in parts(e))

    def missed(self, i, st, tag, elem, node):
        b = st.obs
        absent, present = b.get(('absent', tag)), b.get(('present', tag))
        rep = b.get(('reported', tag))
        kept = b.get(('kept in', tag))
        staged = tag[0] == 'staged'
        if rep:
            b[('did', tag)] = True
            if rep == 'unsure' and not (staged and b.get(('fresh', tag[1]))):
                self.report(i, node, 'an object that the pack keeps may be reported as removed')
            return
        if kept:
            b[('into', tag)] = kept if ('into', tag) not in b else b[('into', tag)]
            return
        if present:
            return
        b[('bad', tag)] = True

    def finished(self, i, st, tag, node):
        b = st.obs
        b.pop(('through', tag), None)
        bad = b.pop(('bad', tag), None)
        c = b.pop(('into', tag), None)
        did = b.pop(('did', tag), None)
        some = b.pop(('some', tag), None)
        if bad:
            if did or c:
                # some others of this loop are reported: this one is missed
                self.report(i, node, 'an object that the pack removes may not be reported')
            return
        if c is not None:
            for x in c:
                b[('full', x)] = True
        elif did or some or True:
            if tag[0] in ('old', 'gone') or b.get(('full', tag[1])):
                if c is None:
                    b['reported'] = True

    def on(self, i, st, ev, node):
        Base.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'assume':
            a, yes = ev[1], ev[2]
            there = None
            if a[0] == 'is' and NONE in a[1:]:
                x = a[1] if a[2] == NONE else a[2]
                if x[0] == 'call' and mname(x) in ('get_position', 'get', 'get_value') and x[2] and \
                        len(x[2]) > 1 and x[2][0] != SHELFV:
                    there, what = not yes, x[2][1]
            elif a[0] == 'in' and a[2] != self.invalid(st) and a[2] != SHELFV and \
                    a[2] != attr(self.me, 'index') and a[2] != attr(self.me, 'pack_extra'):
                there, what = yes, a[1]
            if there is not None:
                for tag, e in self.hand(st):
                    if self.names(what, e):
                        b[('present' if there else 'absent', tag)] = True
        elif k == 'mut':
            c, op, args = ev[1], ev[2], ev[3]
            if c == self.invalid(st):
                if op == 'add' and args:
                    self.add(i, st, args[0], node)
                elif op in BULK and args:
                    self.bulk(i, st, args[0], node)
                elif op in ('clear', 'pop', 'difference_update', '__isub__', 'intersection_update'):
                    self.report(i, node, 'removed objects that were not reported yet are forgotten')
            elif c[0] in ('new', 'call') and op in ('difference_update', '__isub__') and args and \
                    self.old_all(st, c) and not self.old_all(st, args[0]):
                b[('less', c)] = True
            elif c[0] == 'new' and op in ('add', 'append', '__setitem__', 'appendleft') and args:
                self.stage(st, c, args[0] if op == '__setitem__' else args[-1])
        elif k == 'collect' and ev[1][0] == 'new':
            self.stage(st, ev[1], ev[2])
        elif k == 'set' and ev[1] == self.me and ev[2] == 'invalid':
            old = ev[4] or inv(self.me)
            if covers(st, ev[3], old):
                self.bulk(i, st, ev[3], node)
            else:
                self.report(i, node, 'removed objects that were not reported yet are forgotten')
        elif k == 'yield' or k == 'called' and ev[1] == SHELF + '.store':
            for x in list(b):
                if x[0] == 'fresh' or x[0] == 'absent':
                    b.pop(x)
        if k == 'set' and ev[1] == self.me and ev[2] in ('shelf', 'fp'):
            b['switched'] = True
        if k == 'call' and ev[1] == '.executemany':
            b['switched'] = True

    def add(self, i, st, v, node):
        b = st.obs
        for tag, e in self.hand(st):
            if self.names(v, e):
                if b.get(('present', tag)):
                    self.report(i, node, 'an object that the pack keeps is reported as removed')
                b[('reported', tag)] = 'sure' if b.get(('absent', tag)) else 'unsure'

    def stage(self, st, c, v):
        b = st.obs
        for tag, e in self.hand(st):
            if not self.names(v, e):
                continue
            if b.get(('present', tag)):
                b.pop(('fresh', c), None)
                b[('stale', c)] = True
            elif b.get(('absent', tag)) and not b.get(('stale', c)):
                b[('fresh', c)] = True
            else:
                b[('stale', c)] = True
                b.pop(('fresh', c), None)
            b[('staged', c)] = True
            b[('kept in', tag)] = (b.get(('kept in', tag)) or ()) + (c,)

    def bulk(self, i, st, v, node):
        """everything in v is reported"""
        b = st.obs
        cs = [k[1] for k in b if k[0] == 'full' and covers(st, v, k[1])]
        for c in cs:
            b['reported'] = True
            if not b.get(('fresh', c)):
                self.report(i, node, 'an object that the pack keeps may be reported as removed')
        if not cs and contains(v, lambda t: self.gone(st, t)):
            b['reported'] = True
        elif not cs and self.old_all(st, v):
            self.report(i, node, 'objects that the pack keeps are reported as removed')
        if not cs:
            s = strip(v)
            c = st.heap.get((s, '[]'))
            if s[0] == 'new' and c == ('exact', ()):
                b['reported'] = True

    def old_all(self, st, v, depth=0):
        if self.is_old(st, v):
            return True
        if v[0] == 'new' and depth < 4:
            c = st.heap.get((v, '[]'))
            return ('full', v) in st.obs or c is not None and any(
                x[0] == 'all' and self.old_all(st, x[1], depth + 1)
                for x in c[1] if isinstance(x, tuple) and x)
        return False

    def ended(self, i, f, out):
        b = out.st.obs
        if out.kind == 'x' or not b.get('switched'):
            return
        self.n += 1
        if not b.get('reported'):
            self.report(i, f.node, 'an object that the pack removes may not be reported')


class Sync(FileObs):
    def __init__(self, cls):
        FileObs.__init__(self)
        self.me = ('sym', 'self', cls)
        self.inv = inv(self.me)

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'mut' and ev[1] == self.inv and ev[2] == 'clear':
            b['emptied'] = 'cleared'
        elif k == 'set' and ev[1] == self.me and ev[2] == 'invalid':
            c = st.heap.get((ev[3], '[]'))
            if ev[3][0] == 'new' and c == ('exact', ()):
                b['emptied'] = 'replaced'
            else:
                b['other'] = True
        elif k == 'called' and b.get('emptied') == 'cleared' and (
                ev[2] == self.inv or self.inv in ev[3]):
            b['late'] = True
        elif k == 'assume' and ev[1] == ('truth', self.inv) and not ev[2]:
            b['emptied'] = b.get('emptied') or 'empty'
        e = b.get(('todo', 'inv'))
        if e is not None and (k == 'mut' and ev[2] in ('append', 'add') and ev[3] and ev[3][0] == e or
                              k == 'collect' and ev[2] == e):
            b[('to', ev[1])] = True
            b['got'] = True

    def source(self, i, st, it):
        return 'inv' if it == self.inv or covers(st, it, self.inv) else None

    def missed(self, i, st, tag, elem, node):
        if not st.obs.pop('got', None):
            st.obs['skipped'] = True

    def finished(self, i, st, tag, node):
        st.obs['all'] = not st.obs.get('skipped')

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                check.oblige('sync')
                b, v = o.st.obs, o.val or NONE
                if not b.get('emptied') or b.get('other'):
                    self.report(i, f.node, 'removed objects may be reported more than once')
                if v == self.inv and b.get('emptied') == 'replaced':
                    continue
                if b.get('all') and ('to', v) in b:
                    continue
                if v == self.inv or b.get('late') or not covers(o.st, v, self.inv) and not (
                        b.get('emptied') == 'empty' or b.get('all') and not any(k[0] == 'to' for k in b)):
                    self.report(i, f.node, 'removed objects may never be reported')


class NewOid(FileObs):
    opaque_names = FileObs.opaque_names + (SHELF + '.next_name',)

    def __init__(self, cls):
        FileObs.__init__(self)
        self.me = ('sym', 'self', cls)

    def on(self, i, st, ev, node):
        if ev[0] == 'assume' and ev[1][0] == 'in' and ev[1][2] == inv(self.me) and not ev[2]:
            st.obs[('free', ev[1][1])] = True

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                if o.kind == 'x' or o.val is None:
                    continue
                check.oblige('new oid')
                if ('free', o.val) not in o.st.obs:
                    self.report(i, f.node, 'the oid of a removed object that is still to be '
                                'reported can be given to a new one')


def decide(check):
    p = check.p
    for cls in (FS, FS2, SQL):
        packs.follow(check, 'pack', Removed(cls))
    for cls in (FS, FS2, SQL):
        f = p.need_func(cls + '.sync')
        o = Sync(cls)
        check.run('sync', o, f.qual, then=lambda i, outs: o.check(i, f, outs, check))
    f = p.need_func(FS + '.new_oid')
    o = NewOid(FS)
    check.run('new oid', o, f.qual, setup=storage_file,
              then=lambda i, outs: o.check(i, f, outs, check))
