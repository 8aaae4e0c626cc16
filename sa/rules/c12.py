"""Failures (an OSError or KeyboardInterrupt of any write, flush or fsync, of the database, or
of whatever yields the records) are injected into the end() of FileStorage,
FileStorage2 and SqliteStorage, and every path that they lead to is followed:
it must raise to the caller, the last thing done to the file must be to cut it
where the transaction began (rollback() for the database), and neither the
index nor the list kept for a running pack may have been changed.  begin()
leaves no pending records on any path, and where store() raises, the record is
not pending."""
from ..engine import NONE, const, Raise
from .common import At, attr, mname
from .files import (FileObs, storage_file, FS, FS2, SQL, MEM, RAW, SHELFV, pending)
from .c10 import End, SqlEnd

FAIL = ('builtins.OSError', 'builtins.KeyboardInterrupt')


def extra(me):
    return attr(me, 'pack_extra')


class Fails:
    def note(self, i, st, ev, node):
        b = st.obs
        k = ev[0]
        if k == 'failed':
            b['failed'] = True
        if k == 'caught' or k == 'raise':
            b['failed'] = True
        if k == 'mut' and ev[1] == extra(self.me):
            b['extra'] = True
        if k == 'set' and ev[1] == self.me and ev[2] == 'pack_extra' and ev[3] != NONE:
            b['extra'] = True

    def outcomes(self, i, f, outs):
        with At(i, f):
            for o in outs:
                b = o.st.obs
                self.n += 1
                if o.kind != 'x':
                    if b.get('failed'):
                        self.report(i, f.node, 'a failure is not reported to the caller')
                    continue
                if o.val.kind != 'exc':
                    continue
                if b.get('seen'):
                    self.report(i, f.node, 'records of a failed transaction can be found')
                if b.get('extra'):
                    self.report(i, f.node, 'a running pack is told of records of a failed '
                                'transaction')
                self.restored(i, f, b)


class FailEnd(Fails, End):
    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and not st.obs.get('failed'):
            n = mname(ev)
            if self.is_raw(i, ev[2]) and n in ('write', 'flush') or ev[1] == 'os.fsync':
                return FAIL
        return ()

    def on(self, i, st, ev, node):
        End.on(self, i, st, ev, node)
        self.note(i, st, ev, node)

    def visible(self, i, st, node):
        st.obs['seen'] = True

    quiet = True

    def before(self, i, st, n, raw, args, node):
        b = st.obs
        if raw != RAW:
            return
        if n == 'write':
            if 'start' not in b:
                s = b['start'] = b.get(('pos', raw)) or ('?',)
                b['at the end'] = s == 'end' or s[0] == 'at' and b.get(('told', raw, s[1])) == 'end'
            b['cut'] = False
        elif n == 'truncate':
            at = ('at', args[0]) if args and args[0] != NONE else b.get(('pos', raw))
            if b.get('start') is not None:
                if at != b['start']:
                    self.report(i, node, 'the file is not cut where the transaction began')
                b['cut'] = True
                b['start at'] = b['start']

    def restored(self, i, f, b):
        if b.get('start') is None:
            return
        if not b.get('cut'):
            self.report(i, f.node, 'a failed transaction leaves data in the file')
        elif not b.get('at the end'):
            self.report(i, f.node, 'the file is not cut at what was its end')


class FailSql(Fails, SqlEnd):
    quiet = True

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        r = SqlEnd.model(self, i, st, qual, recv, args, kwargs, node, cx)
        if qual == '.executemany':
            for s, v in list(r):
                x = s.copy()
                x.obs['failed'] = True
                r.append((x, Raise('exc', ('exc', 'sqlite3.OperationalError', ()))))
        return r

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and mname(ev) == 'commit':
            return ('sqlite3.OperationalError', 'builtins.KeyboardInterrupt')
        return ()

    def on(self, i, st, ev, node):
        SqlEnd.on(self, i, st, ev, node)
        self.note(i, st, ev, node)
        if ev[0] == 'row':
            st.obs['undone'] = False
            st.obs['stored'] = True
        elif ev[0] == 'called' and mname(ev) == 'rollback':
            st.obs['undone'] = True
        elif ev[0] == 'call' and mname(ev) == 'commit' and st.obs.get('failed'):
            self.report(i, node, 'part of a failed transaction is committed')

    def restored(self, i, f, b):
        if b.get('stored') and not b.get('undone'):
            self.report(i, f.node, 'a failed transaction is left open in the database')


class Begin(FileObs):
    """begin() and store()"""
    def __init__(self, cls, name):
        FileObs.__init__(self)
        self.me = ('sym', 'self', cls)
        self.pending = attr(self.me, name)
        self.name = name

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'mut' and ev[1] == st.heap.get((self.me, self.name), self.pending):
            op, args = ev[2], ev[3]
            if op == 'clear' or op == '__delitem__' and args and args[0] in (
                    ('slicer', NONE, NONE, NONE), ('slicer', const(0), NONE, NONE)):
                b['cleared'] = True
                b['kept'] = False
            elif op in ('append', '__setitem__', 'add', 'setdefault', 'update', 'insert', 'extend'):
                b['kept'] = True
            elif op in ('pop', '__delitem__', 'remove', 'discard'):
                b['kept'] = False
        if k == 'set' and ev[1] == self.me and ev[2] == self.name:
            b['cleared'] = True
            b['kept'] = False
            if ev[3][0] != 'new' and ev[3] != NONE or (st.heap.get((ev[3], '[]')) or ('', ()))[1]:
                b['cleared'] = False


def decide(check):
    p = check.p
    rule = 'failing transaction'
    for cls in (FS, FS2, SQL):
        f = p.need_func(cls + '.end')
        o = (FailSql if cls == SQL else FailEnd)(cls)
        check.run(rule, o, f.qual, setup=storage_file,
                  then=lambda i, outs: o.outcomes(i, f, outs))
        check.oblige(rule, o.n)
    for cls, name in ((FS, 'pending_records'), (FS2, 'pending_records'),
                      (SQL, 'pending_records'), (MEM, 'transaction')):
        rule = 'begin'
        f = p.need_func(cls + '.begin')
        o = Begin(cls, name)

        def then(i, outs):
            with At(i, f):
                for out in outs:
                    check.oblige(rule)
                    if not out.st.obs.get('cleared') and \
                            out.st.facts.get(('truth', o.pending)) is not False:
                        o.report(i, f.node, 'records of an earlier transaction remain pending')
        check.run(rule, o, f.qual, then=then)
        rule = 'store'
        f = p.need_func(cls + '.store')
        o = Begin(cls, name)

        def then2(i, outs):
            with At(i, f):
                for out in outs:
                    check.oblige(rule)
                    if out.kind == 'x' and out.st.obs.get('kept'):
                        o.report(i, f.node, 'a record that is refused stays pending')
                    if out.kind != 'x' and not out.st.obs.get('kept'):
                        o.report(i, f.node, 'a record that is accepted is not kept')
        check.run(rule, o, f.qual, setup=storage_file, then=then2)
