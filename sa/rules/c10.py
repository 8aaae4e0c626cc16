"""The end() of FileStorage and FileStorage2 is followed over all paths down to
the operations on the file: a path that returns has gone through all pending
records, written each one where the index says it is, and flushed and fsynced
the file after its last write; the index is changed only when everything is on
stable storage, and it is changed.  For SqliteStorage, all records have been
handed to the database and its commit() called before end() returns.
What the packers rename to the storage's name has been flushed and fsynced
since its last write."""
from ..engine import NONE, const, contains, mentions, Out
from .common import At, attr, covers, mname, parts, strip
from .files import (FileObs, storage_file, FS, FS2, SQL, RAW, SHELFV, SHELF, FILE, FILEV,
                    pending, told)
from . import packs


class End(FileObs):
    def __init__(self, cls):
        FileObs.__init__(self)
        self.cls = cls
        self.me = ('sym', 'self', cls)
        self.n = 0

    quiet = False

    def source(self, i, st, it):
        if covers(st, it, pending(self.me)):
            return 'pending'
        for k in st.obs:
            if k[0] == 'staged' and covers(st, it, k[1]):
                return 'staged'
        return None

    def owner(self, v):
        """is v an attribute of the storage or of its shelf?"""
        return v[0] == 'attr' and v[1] in (self.me, SHELFV)

    def started(self, i, st, tag, elem, node):
        b = st.obs
        b[('some', tag)] = True
        b[('written', tag)] = False
        b['first'] = None
        b['indexed'] = None

    def record_of(self, elem):
        return parts(elem)[-1]

    def wrote(self, st, v):
        """v is written: the elements it comes from"""
        b = st.obs
        for tag in ('pending', 'staged'):
            e = b.get(('todo', tag))
            if e is not None and mentions(v, self.record_of(e)) and not (
                    v[0] == 'call' and mname(v).startswith('int')):
                b[('written', tag)] = True

    def before(self, i, st, n, raw, args, node):
        b = st.obs
        if n in ('write', 'writelines') and raw == RAW:
            if (('todo', 'pending') in b or ('todo', 'staged') in b) and b.get('first') is None:
                b['first'] = b.get(('pos', raw)) or ('?',)
            for a in args:
                self.wrote(st, a)

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'mut':
            c, op, args = ev[1], ev[2], ev[3]
            if op == '__setitem__' and len(args) == 2:
                for tag in ('pending', 'staged'):
                    e = b.get(('todo', tag))
                    if e is not None and mentions(args[0], parts(e)[0]) and (
                            told(st, RAW, args[1]) or args[1][0] in ('call', 'op')):
                        b['indexed'] = args[1]
                        b['any'] = True
                        if self.owner(c):
                            self.visible(i, st, node)
                        elif c[0] == 'new':
                            b[('index', c)] = True
                if self.owner(c) and c != pending(self.me) and b.get('any'):
                    self.visible(i, st, node)
            elif op in ('update', '__ior__') and self.owner(c) and args and \
                    b.get(('index', args[0])):
                self.visible(i, st, node)
            elif op in ('append', 'add', 'insert', 'appendleft') and c[0] == 'new':
                self.stage(st, c, args[-1])
        elif k == 'collect' and ev[1][0] == 'new':
            self.stage(st, ev[1], ev[2])

    def stage(self, st, c, v):
        """the element is put aside in c"""
        for tag in ('pending', 'staged'):
            e = st.obs.get(('todo', tag))
            if e is not None and mentions(v, self.record_of(e)) and (
                    self.cls == SQL or v[0] == 'tuple') and not (
                    v[0] == 'item' and v[1] == e):
                st.obs[('written', tag)] = st.obs.get(('written', tag)) or 'staged'
                st.obs[('staged', c)] = True

    def visible(self, i, st, node):
        st.obs['seen'] = True
        self.n += 1
        if st.obs.get(('dirty', RAW)):
            self.report(i, node, 'records can be loaded before they are on stable storage')

    def left(self, i, st, tag, node):
        b = st.obs
        if b.get(('todo', tag)) is not None:
            self.n += 1
            w = b.pop(('written', tag), None)
            if not w:
                b[('skip', tag)] = True
            else:
                b[('wrote', tag)] = w
                if w != 'staged':
                    self.indexed(i, b, node)
        b.pop('first', None)
        b.pop('indexed', None)
        FileObs.left(self, i, st, tag, node)

    def indexed(self, i, b, node):
        if self.quiet:
            return
        first, at = b.get('first'), b.get('indexed')
        if at is None:
            self.report(i, node, 'a record is written that cannot be found')
        elif first is not None and first != ('at', at):
            self.report(i, node, 'the index does not tell where the record begins')

    def finished(self, i, st, tag, node):
        """one loop over all"""
        b = st.obs
        some, skip, wrote = (b.pop((x, tag), None) for x in ('some', 'skip', 'wrote'))
        if wrote and skip and not self.quiet:
            self.report(i, node, 'a pending record may not be written')
        if not some or wrote and not skip:
            if wrote == 'staged':
                b['put aside'] = True
            else:
                b['complete'] = True

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                self.n += 1
                b = o.st.obs
                if not b.get(('through', 'pending')):
                    if o.st.facts.get(('truth', pending(self.me))) is False:
                        continue
                    self.report(i, f.node, 'a transaction can end without writing its records')
                    continue
                if not b.get('complete'):
                    self.report(i, f.node, 'a pending record may not be written')
                if b.get(('dirty', RAW)):
                    self.report(i, f.node, 'a transaction can end while its data is not on '
                                'stable storage')
                if b.get('any') and not b.get('seen'):
                    self.report(i, f.node, 'the records of a transaction cannot be loaded after it')


class SqlEnd(End):
    """rows given to executemany(), then commit()"""
    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == '.executemany' and len(args) == 2:
            return self.rows(i, st, args[1], node, cx)
        return End.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def on(self, i, st, ev, node):
        End.on(self, i, st, ev, node)
        b = st.obs
        if ev[0] == 'row' or ev[0] == 'called' and mname(ev) == 'execute' and len(ev[3]) == 2:
            b['uncommitted'] = True
            self.wrote(st, ev[1] if ev[0] == 'row' else ev[3][1])
        elif ev[0] == 'called' and mname(ev) == 'commit':
            b['uncommitted'] = False
        elif ev[0] == 'called' and mname(ev) == 'rollback':
            b['rolled back'] = True

    def indexed(self, i, b, node):
        pass

    def check(self, i, f, outs):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                self.n += 1
                b = o.st.obs
                if not b.get(('through', 'pending')):
                    if o.st.facts.get(('truth', pending(self.me))) is not False:
                        self.report(i, f.node, 'a transaction can end without storing its records')
                elif not b.get('complete'):
                    self.report(i, f.node, 'a pending record may not be stored in the database')
                elif b.get('uncommitted') or b.get('rolled back'):
                    self.report(i, f.node, 'a transaction can end without being committed to the '
                                'database')


def decide(check):
    p = check.p
    for cls in (FS, FS2, SQL):
        rule = 'end of a transaction'
        f = p.need_func(cls + '.end')
        o = (SqlEnd if cls == SQL else End)(cls)
        check.run(rule, o, f.qual, setup=storage_file,
                  then=lambda i, outs: o.check(i, f, outs))
        check.oblige(rule, o.n)

    rule = 'pack'
    for cls in (FS, FS2):
        packs.follow(check, rule, packs.Durable(cls))

    rule = 'new file'
    f = p.need_func(FS2 + '.create_from_records')

    class Create(FileObs):
        n = 0

        def on(self, i, st, ev, node):
            FileObs.on(self, i, st, ev, node)
            if ev[0] == 'set' and ev[2] == 'index' and ev[1] == ('sym', 'self', FS2):
                self.n += 1
                if st.obs.get(('dirty', RAW)):
                    self.report(i, node, 'records can be loaded before they are on stable storage')
    o2 = Create()

    def then(i, outs):
        with At(i, f):
            for out in outs:
                if out.kind != 'x':
                    o2.n += 1
                    if out.st.obs.get(('dirty', RAW)):
                        o2.report(i, f.node, 'a file can be complete while its data is not on '
                                  'stable storage')
    check.run(rule, o2, f.qual, setup=storage_file, then=then)
    check.oblige(rule, o2.n)
