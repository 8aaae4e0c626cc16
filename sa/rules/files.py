"""What the rules about storage files share.

FileObs follows what a path does to each file, below the File class: raw
writes, seeks, truncations, flushes, fsyncs, locks and closes.  Per file it
keeps where the position is as far as known, and what has not been flushed
or forced to stable storage."""
from ..engine import NONE, const, contains, mentions
from .common import Tagged, attr, mname, strip
from ..rule import Obs

FS, FS2 = 'durus.file_storage.FileStorage', 'durus.file_storage2.FileStorage2'
SQL = 'durus.sqlite_storage.SqliteStorage'
MEM = 'durus.storage.MemoryStorage'
SHELF = 'durus.shelf.Shelf'
FILE = 'durus.file.File'

ERRORS = ('builtins.OSError',)


def storage_file(i, st, selfv):
    """short names for the parts of a storage"""
    cls = selfv[2] if selfv[0] == 'sym' else None
    f, raw = ('sym', 'file', FILE), ('sym', 'fp', 'pyfile')
    st.heap[(f, 'file')] = raw
    if cls == FS:
        sh = ('sym', 'shelf', SHELF)
        st.heap[(selfv, 'shelf')] = sh
        st.heap[(sh, 'file')] = f
    elif cls == FS2:
        st.heap[(selfv, 'fp')] = f
    elif cls == SHELF:
        st.heap[(selfv, 'file')] = f


FILEV, RAW, SHELFV = ('sym', 'file', FILE), ('sym', 'fp', 'pyfile'), ('sym', 'shelf', SHELF)


class FileObs(Tagged):
    opaque_prefixes = Obs.opaque_prefixes + ('durus.error.',)
    opaque_names = ('durus.utils.int8_to_str', 'durus.utils.str_to_int8',
                    'durus.utils.int4_to_str', 'durus.utils.str_to_int4',
                    'durus.serialize.pack_record', 'durus.serialize.unpack_record',
                    'durus.serialize.split_oids')

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == 'durus.utils.as_bytes' and len(args) == 1:
            return [(st, args[0])]
        if qual == '.tell' and self.is_raw(i, recv):
            pos = st.obs.get(('pos', recv))
            if pos is not None and pos[0] == 'at':
                return [(st, pos[1])]
        return None

    def is_raw(self, i, v):
        return v is not None and i.class_of(v) == 'pyfile'

    # what happens to a file: op(i, st, name, raw, args, result, node)
    def op(self, i, st, name, raw, args, result, node):
        pass

    def before(self, i, st, name, raw, args, node):
        pass

    def broken(self, i, st, name, raw, args, node):
        pass

    def on(self, i, st, ev, node):
        Tagged.on(self, i, st, ev, node)
        k = ev[0]
        if k in ('call', 'called', 'failed'):
            n, raw, args = mname(ev), ev[2], ev[3]
            if isinstance(ev[1], str) and ev[1] in ('os.fsync', 'os.fdatasync', 'fcntl.flock') and ev[3]:
                raw = self.raw_of(i, ev[3][0])
                n = 'fsync' if ev[1] != 'fcntl.flock' else 'flock'
                args = ev[3][1:]
            elif not self.is_raw(i, raw):
                return
            if k == 'call':
                self.before(i, st, n, raw, args, node)
            elif k == 'called':
                self.track(i, st, n, raw, args, ev[5])
                self.op(i, st, n, raw, args, ev[5], node)
            else:
                self.track(i, st, n, raw, args, None)
                self.broken(i, st, n, raw, args, node)

    def raw_of(self, i, v):
        if v[0] == 'call' and mname(v) == 'fileno' and v[2]:
            v = v[2][0]
        return v

    def track(self, i, st, n, raw, args, result):
        b = st.obs
        if n == 'seek':
            wh = args[1] if len(args) > 1 else const(0)
            if wh == const(2) and args[0] == const(0):
                t = b.get(('end', raw))
                b[('pos', raw)] = ('at', t) if t is not None else 'end'
            elif wh == const(0):
                b[('pos', raw)] = ('at', args[0])
            else:
                b[('pos', raw)] = None
        elif n == 'tell' and result is not None:
            b[('told', raw, result)] = b.get(('pos', raw)) or True
            if b.get(('pos', raw)) == 'end':
                b[('end', raw)] = result
            # only the latest few matter
            r = (b.get(('recent', raw)) or ())
            r = tuple(x for x in r if x != result) + (result,)
            for x in r[:-3]:
                b.pop(('told', raw, x), None)
            b[('recent', raw)] = r[-3:]
            b[('pos', raw)] = ('at', result)
        elif n in ('write', 'writelines'):
            b[('dirty', raw)] = b[('buffered', raw)] = True
            b[('pos', raw)] = None
            b.pop(('end', raw), None)
        elif n in ('read', 'readline', 'readinto'):
            b[('pos', raw)] = None
        elif n == 'truncate':
            b[('dirty', raw)] = True
            b.pop(('end', raw), None)
        elif n == 'flush':
            b[('buffered', raw)] = False
        elif n == 'fsync':
            if not b.get(('buffered', raw)):
                b[('dirty', raw)] = False

    def rows(self, i, st, it, node, cx):
        """what the database does with the rows it is given"""
        def body(st, elem):
            st = st.copy()
            i.emit(st, ('row', elem), node)
            from ..engine import Out
            return [Out('n', st)]
        from ..engine import NONE as N
        return [(o.st, o.val if o.kind == 'x' else N)
                for o in i.loop(st, it, body, node, cx)]


def told(st, raw, v):
    return ('told', raw, v) in st.obs


def pending(selfv):
    return attr(selfv, 'pending_records')


def item_of(v, tag_elem):
    """is v the record (or a part of it) in the element?"""
    return mentions(v, tag_elem)
