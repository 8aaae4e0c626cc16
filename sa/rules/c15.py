"""get_packer() of FileStorage, FileStorage2 and SqliteStorage and the packer
that it returns are followed over all paths, with any number of commits at each
yield: commits are noted from the start, everything that was noted is carried
over with what it refers to, and nothing is yielded between the last look at
what was noted and the switch to the packed storage.  A pack starts only where
no other runs and nothing is pending.  On every path on which end() of a
storage succeeds while a pack runs, all stored oids are noted."""
from ..engine import NONE, const, contains, mentions
from .common import At, attr, covers, mname, parts, strip
from .files import FileObs, storage_file, FS, FS2, SQL, RAW, SHELF, pending
from . import packs
from .packs import Base

ENV = ('sym', 'committed oids', None)
ADDS = ('update', 'extend', '__ior__', '__iadd__')
FSREC = FS + '.gen_oid_record'


class Extra(Base):
    def extra(self, st):
        return st.heap.get((self.me, 'pack_extra'))

    def havoc_yield(self, i, st, value):
        b = st.obs
        x = self.extra(st)
        self.n += 1
        if x is None or x[0] != 'new':
            if not b.get('switched') and b.get('begun'):
                self.report(i, None, 'a commit made while the pack runs is not noted for it')
            return
        if b.get('switched'):
            return
        st.heap[(x, '[]')] = ('maybe', frozenset([('all', ENV)]))
        for a in list(st.facts):
            if contains(a, lambda t: t == x):
                st.facts.pop(a)
        b[('open', x)] = True
        b.pop(('through', ('extra', x)), None)
        for k in list(b):
            if k[0] == 'fresh':     # what was forgotten may have been stored again
                b.pop(k)

    def source(self, i, st, it):
        s = strip(it)
        if s[0] == 'new' and (('open', s) in st.obs or s == self.extra(st)):
            return ('extra', s)
        if covers(st, it, ENV):
            return ('extra', s)
        if ('list', s) in st.obs:
            return ('list', s)
        if s[0] == 'call' and mname(s) in ('split_oids', '_get_refs'):
            return ('refs', s)
        return None

    def started(self, i, st, tag, elem, node):
        st.obs[('did', tag)] = frozenset()
        self.n += 1

    def did(self, st, test, what):
        b = st.obs
        for k, e in list(b.items()):
            if k[0] == 'todo' and any(test(x) for x in parts(e)):
                b[('did', k[1])] = b.get(('did', k[1]), frozenset()) | {what}

    def oid(self, e):
        return parts(e)[-1]

    def missed(self, i, st, tag, elem, node):
        b = st.obs
        d = b.pop(('did', tag), frozenset())
        if tag[0] == 'refs':
            if 'pushed' not in d and 'known' not in d:
                b[('bad', tag)] = True
            return
        if tag[0] == 'list' and any(v and a[0] == 'in' and a[2][0] == 'new' and mentions(elem, a[1])
                                    or v and a[0] == 'in' and a[2][0] == 'new' and mentions(a[1], elem)
                                    for a, v in st.facts.items()):
            return
        if tag[0] == 'list' and 'known' in d:
            return
        if self.cls == FS:
            if 'stored' in d and ('seen' not in d or 'forgotten' in d):
                return
            if d == {'forgotten'}:
                b[('forgot', tag)] = True
                return
            b[('bad', tag)] = True
            return
        if 'kept' in d and 'refs' in d:
            return
        b[('bad', tag)] = True
        if 'kept' not in d:
            self.report(i, node, 'a record committed while the pack runs may be left out of the '
                        'packed storage' if tag[0] == 'extra' else
                        'a record that is referred to may be left out of the packed storage')
        else:
            self.report(i, node, 'what a packed record refers to may be left out of the packed '
                        'storage')

    def finished(self, i, st, tag, node):
        b = st.obs
        b.pop(('through', tag), None)
        if tag[0] == 'refs':
            if not b.pop(('bad', tag), None):
                self.did(st, lambda e: mentions(tag[1], e), 'refs')
            return
        if b.pop(('forgot', tag), None):
            b[('fresh', tag[1])] = True
            return
        if not b.pop(('bad', tag), None):
            b.pop(('open', tag[1]), None)
            b.pop(('filled', tag[1]), None)

    def written(self, i, st, raw, items, node):
        """FileStorage: a whole traversal is stored"""
        b = st.obs
        b['begun'] = True
        if items[0] == 'call' and items[1] == FSREC:
            self.traversal(i, st, items)

    def traversal(self, i, st, items):
        b = st.obs
        args = items[2]
        self.did(st, lambda e: any(mentions(a, e) for a in args), 'stored')
        seen = next((a for a in args if a[0] == 'new'), None)
        if seen is not None:
            for k in [k for k in b if k[0] == 'todo' and k[1][0] == 'extra']:
                if any(mentions(a, x) for a in args for x in parts(b[k])):
                    d = b.get(('did', k[1]), frozenset()) | {'seen'}
                    if ('fresh', k[1][1]) in b:
                        d |= {'forgotten'}
                    b[('did', k[1])] = d

    def on(self, i, st, ev, node):
        Base.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'iter' and ev[1][0] == 'call' and ev[1][1] == FSREC:
            self.traversal(i, st, ev[1])
        if k == 'call' and mname(ev) in ('discard', 'remove') and ev[3] and ev[2] is not None:
            self.did(st, lambda e: mentions(ev[3][0], e), 'forgotten')
        if k == 'assume' and ev[1][0] == 'in' and ev[2]:
            self.did(st, lambda e: mentions(ev[1][1], e) and ev[1][2][0] == 'new', 'known')
        if k == 'mut' and ev[1][0] == 'new':
            op, args = ev[2], ev[3]
            if op in ('append', 'appendleft', 'add', 'insert') and args:
                v = args[-1]
                self.push(st, ev[1], v)
            elif op in ADDS and args:
                self.push(st, ev[1], args[0])
            if op in ('add', '__setitem__') and args:
                if self.cls == SQL or op == '__setitem__':
                    self.did(st, lambda e: mentions(args[0], e) or args[0] == e, 'kept')
        if k == 'call' and mname(ev) == 'write' and self.is_raw(i, ev[2]) and ev[2] != RAW:
            b['begun'] = True
        if k == 'set' and ev[1] == self.me:
            if ev[2] == 'pack_extra':
                if ev[3] == NONE:
                    b['off'] = True
                elif ev[3][0] == 'new':
                    self.begin(i, st, ev, node)
            elif ev[2] in ('shelf', 'fp'):
                self.switch(i, st, node)
            elif ev[2] == 'index' and not mentions(ev[3], attr(self.me, 'index')):
                b['reset'] = True
        if k == 'mut' and ev[1] == attr(self.me, 'index') and ev[2] == 'clear':
            b['reset'] = True
        if k == 'call' and ev[1] == '.executemany' and self.cls == SQL:
            self.switch(i, st, node)
        if k == 'yield' and b.get('off') and not b.get('switched'):
            self.report(i, node, 'a commit made while the pack runs is not noted for it')

    def push(self, st, c, v):
        b = st.obs
        for k, e in list(b.items()):
            if k[0] != 'todo':
                continue
            if k[1][0] == 'refs':
                if mentions(v, e):
                    b[('list', c)] = True
                    b[('filled', c)] = True
                    b[('did', k[1])] = frozenset(['pushed'])
                continue
            if k[1][0] not in ('extra', 'list'):
                continue
            for x in parts(e):
                if contains(v, lambda t: t[0] == 'call' and mname(t) in ('split_oids', '_get_refs')
                            and mentions(t, x)):
                    b[('list', c)] = True
                    b[('filled', c)] = True
                    b[('did', k[1])] = b.get(('did', k[1]), frozenset()) | {'refs'}

    def begin(self, i, st, ev, node):
        """a pack starts"""
        b = st.obs
        if b.get('noting'):
            return
        b['noting'] = True
        self.n += 1
        if st.facts.get(('is', attr(self.me, 'pack_extra'), NONE)) is not True:
            self.report(i, node, 'a pack can start while another is running')
        if st.facts.get(('truth', pending(self.me))) is not False:
            self.report(i, node, 'a pack can start while a transaction is pending')

    def switch(self, i, st, node):
        b = st.obs
        if b.get('switched'):
            return
        b['switched'] = True
        self.n += 1
        if not b.get('noting'):
            self.report(i, node, 'a pack runs without noting the commits made meanwhile')
            return
        for k in list(b):
            if k[0] == 'open' and st.facts.get(('truth', k[1])) is not False:
                self.report(i, node, 'the pack ends while commits that were made meanwhile are '
                            'not in the packed storage')
            elif k[0] == 'filled' and st.facts.get(('truth', k[1])) is not False:
                self.report(i, node, 'the pack ends while records that are referred to are '
                            'not in the packed storage')

    def ended(self, i, f, out):
        b = out.st.obs
        if out.kind == 'x' or not b.get('noting'):
            return
        self.n += 1
        if not b.get('switched'):
            self.report(i, f.node, 'a pack can end without changing over')
        elif self.cls == FS2 and not b.get('reset'):
            self.report(i, f.node, 'after a pack, records are still looked for where they were in '
                        'the file before')
        if self.extra(out.st) != NONE:
            self.report(i, f.node, 'a pack is still taken for running when it is complete')


class Noting(FileObs):
    """end(), while a pack runs"""
    def __init__(self, cls):
        FileObs.__init__(self)
        self.cls = cls
        self.me = ('sym', 'self', cls)
        self.x = attr(self.me, 'pack_extra')
        self.n = 0

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == '.executemany' and len(args) == 2:
            return self.rows(i, st, args[1], node, cx)
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def source(self, i, st, it):
        if covers(st, it, pending(self.me)):
            return ('pending',)
        s = strip(it)
        return ('again', s) if s in st.obs.get('full', ()) and s != self.x else None

    def is_oid(self, v, e):
        if self.cls != SQL:
            return v == parts(e)[0] or v == e or v[0] == 'tuple' and v[1] and v[1][0] == parts(e)[0]
        return contains(v, lambda t: t[0] == 'call' and mname(t) == 'unpack_record'
                        and mentions(t, e))

    def started(self, i, st, tag, elem, node):
        st.obs['got', tag] = frozenset()
        st.obs['rounds', tag] = True

    def gets(self, i, st, c, v):
        for k, e in list(st.obs.items()):
            if k[0] == 'todo' and (self.is_oid(v, e) or k[1][0] == 'again' and (
                    v == e or v == parts(e)[0] or v == ('item', e, const(0)))):
                g = ('got', k[1])
                st.obs[g] = st.obs.get(g, frozenset()) | {c}

    def missed(self, i, st, tag, elem, node):
        b = st.obs
        g = b.pop(('got', tag), frozenset())
        a = ('all got', tag)
        b[a] = g if b.get(a) is None else b[a] & g

    def finished(self, i, st, tag, node):
        b = st.obs
        b.pop(('through', tag), None)
        if not b.pop(('rounds', tag), None):
            if 'full' not in b:
                b['empty'] = True
            return
        b['full'] = b.get('full', frozenset()) | (b.pop(('all got', tag), None) or frozenset())
        if self.x in b['full']:
            b['noted'] = True

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'mut':
            c, op, args = ev[1], ev[2], ev[3]
            if op in ('append', 'add', '__setitem__', 'setdefault', 'appendleft', 'insert') and args:
                self.gets(i, st, c, args[-1] if op in ('append', 'add', 'insert', 'appendleft') else args[0])
            if c == self.x and op in ADDS and args:
                self.n += 1
                s = strip(args[0])
                if s in b.get('full', ()) or b.get('empty') and s[0] == 'new' or \
                        self.cls != SQL and covers(st, args[0], pending(self.me)) or \
                        any(covers(st, args[0], y) for y in b.get('full', ())):
                    b['noted'] = True
            elif c == pending(self.me) and (op == 'clear' or op == '__delitem__') and not b.get('noted'):
                b['gone'] = True
        elif k == 'collect':
            self.gets(i, st, ev[1], ev[2])
        elif k == 'assume' and ev[1][0] == 'is' and NONE in ev[1][1:] and self.x in ev[1][1:]:
            b['packing'] = not ev[2]

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                b = o.st.obs
                if o.kind == 'x':
                    continue
                self.n += 1
                if b.get('packing') is False or b.get('noted') or b.get('empty'):
                    continue
                if o.st.facts.get(('truth', self.x)) is False and 'packing' not in b:
                    pass
                self.report(i, f.node, 'a commit made while a pack runs may not be noted for it')


class Traverse(Extra):
    """gen_oid_record() from a start: what it takes from its list of things to
    do it yields, with all references added to the list, unless it is known"""
    def source(self, i, st, it):
        s = strip(it)
        if s[0] == 'new' and st.obs.get('drained') == s:
            st.obs[('list', s)] = True
        return Extra.source(self, i, st, it)

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'drain' and ev[1][0] == 'new':
            b['drained'] = ev[1]
        if k == 'assume' and ev[1][0] == 'in' and ev[2]:
            if ev[1][2][0] == 'new' or ev[1][2] == ('sym', 'seen', None):
                self.did(st, lambda e: mentions(ev[1][1], e), 'known')
        if k == 'yield':
            self.did(st, lambda e: contains(ev[1], lambda t: t[0] == 'call' and mname(t) == 'load'
                                            and mentions(t, e)), 'kept')
        Extra.on(self, i, st, ev, node)

    def havoc_yield(self, i, st, value):
        pass

    def missed(self, i, st, tag, elem, node):
        if tag[0] == 'list':
            d = st.obs.get(('did', tag), ())
            if 'known' in d:
                st.obs.pop(('did', tag))
                return
            if 'kept' not in d or 'refs' not in d:
                self.report(i, node, 'a record that can be reached is left out of the pack'
                            if 'kept' not in d else
                            'what a record refers to may be left out of the pack')
                st.obs[('bad', tag)] = True
            return
        Extra.missed(self, i, st, tag, elem, node)

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                self.n += 1
                for k in o.st.obs:
                    if k[0] == 'filled' and o.st.facts.get(('truth', k[1])) is not False:
                        self.report(i, f.node, 'records that are referred to are left out of the pack')


def decide(check):
    p = check.p
    for cls in (FS, FS2, SQL):
        packs.follow(check, 'pack', Extra(cls))
    for cls in (FS, FS2, SQL):
        f = p.need_func(cls + '.end')
        o = Noting(cls)
        check.run('end of a transaction', o, f.qual, setup=storage_file,
                  then=lambda i, outs: o.check(i, f, outs))
        check.oblige('end of a transaction', o.n)
    for cls in (FS,):
        f = p.need_func(cls + '.gen_oid_record')
        t = Traverse(cls)
        t.opaque_names = tuple(x for x in t.opaque_names if x != f.qual)
        for seen in (NONE, ('sym', 'seen', None)):
            args = {'start_oid': ('sym', 'start', None)}
            if 'seen' in [a.arg for a in f.node.args.args]:
                args['seen'] = seen
            check.run('traversal', t, f.qual, args=args, setup=storage_file,
                      then=lambda i, outs: t.check(i, f, outs))
        check.oblige('traversal', t.n)
        if not t.n and not check.undecided:
            check.finding('traversal', f, None, 'the traversal yields nothing')
