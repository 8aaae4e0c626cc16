"""Packing, as several rules see it.

PackObs follows get_packer() of a storage and then the steps of the packer it
returns.  Whole-file operations of Shelf (building one from a generator,
storing a transaction, opening one) count as single operations here; the rules
about transactions and opening decide what they do."""
import time
from ..engine import NONE, const, contains, mentions, Interp, Limit, Out
from .. import engine
from .common import At, attr, covers, mname, parts, strip
from .files import (FileObs, storage_file, FS, FS2, SQL, RAW, SHELFV, SHELF, FILE, FILEV)


engine.MAXDEPTH = 24     # the terms for what comes out of records are deep


class PackObs(FileObs):
    opaque_names = FileObs.opaque_names + (
        SHELF + '.generate_shelf', SHELF + '.store', SHELF + '.get_position',
        SHELF + '.__iter__', SHELF + '.iterindex', SHELF + '.__contains__',
        SHELF + '.get_value', SHELF + '.next_name',
        FS + '.gen_oid_record', FS + '.load', FS2 + '.load', FS2 + '._read_block',
        SQL + '.load', SQL + '._get_refs', 'durus.utils.TimeMeter')

    def __init__(self, cls):
        FileObs.__init__(self)
        self.cls = cls
        self.me = ('sym', 'self', cls)
        self.n = 0

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == SHELF:
            st = st.copy()
            v = ('new', i.site(node, cx), SHELF, 0)
            i.fresh(st, v)
            f = args[0] if args else kwargs.get('file', NONE)
            st.heap[(v, 'file')] = f
            i.emit(st, ('new', SHELF, v, (f,)), node)
            return [(st, v)]
        if qual == SHELF + '.store' and args and args[0][0] in ('gen', 'comp'):
            st = st.copy()
            res = []
            for s, v in self.rows(i, st, args[0], node, cx):
                if v == NONE:
                    ev = (qual, recv, tuple(args), ())
                    i.emit(s, ('call',) + ev, node)
                    v = ('call', qual, (recv,), 0)
                    i.emit(s, ('called',) + ev + (v,), node)
                res.append((s, v))
            return res
        if qual == '.executemany' and len(args) == 2:
            i.emit(st, ('call', '.executemany', recv, tuple(args), ()), node)
            return self.rows(i, st, args[1], node, cx)
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def raw_in(self, st, f):
        return st.heap.get((f, 'file'), attr(f, 'file'))

    def dirty(self, st, raw, yes=True):
        st.obs[('dirty', raw)] = yes
        if not yes:
            st.obs[('buffered', raw)] = False

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        k = ev[0]
        b = st.obs
        if k == 'called' and ev[1] == SHELF + '.store' and ev[2] is not None:
            f = st.heap.get((ev[2], 'file'))
            raw = self.raw_in(st, f) if f else None
            if raw is not None:
                self.written(i, st, raw, ev[3][0] if ev[3] else NONE, node)
                self.dirty(st, raw, False)
        if k in ('iter', 'next') and ev[1][0] == 'call' and ev[1][1] == SHELF + '.generate_shelf':
            f = next((x for x in ev[1][2] if i.class_of(x) == FILE), None)
            if f is not None:
                raw = self.raw_in(st, f)
                if k == 'iter':
                    self.written(i, st, raw, ev[1], node)
                self.dirty(st, raw)
        if k == 'done' and ev[1][0] == 'call' and ev[1][1] == SHELF + '.generate_shelf':
            b['generated'] = True
        if k == 'called' and ev[1] == 'builtins.open' and ev[3]:
            b[('path', ev[5])] = ev[3][0]
        if k == 'call' and ev[1] in ('os.rename', 'os.replace', 'shutil.move'):
            self.rename(i, st, ev[3][0], ev[3][1], node)
        elif k == 'call' and ev[1] in ('os.link', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2'):
            self.link(i, st, ev[3][0], ev[3][1], node)
        elif k == 'call' and ev[1] in ('os.unlink', 'os.remove'):
            self.unlink(i, st, ev[3][0], node)

    def written(self, i, st, raw, items, node):
        """a whole-file operation writes to raw"""

    def rename(self, i, st, src, dst, node):
        pass

    def link(self, i, st, src, dst, node):
        pass

    def unlink(self, i, st, name, node):
        pass

    def file_at(self, st, path):
        """the open file that has this path"""
        if path[0] == 'xm' and path[2] == 'name':
            return path[1]
        for k, v in st.obs.items():
            if k[0] == 'path' and v == path:
                return k[1]
        return None

    def same_path(self, st, a, b):
        def norm(x):
            if x[0] == 'xm' and x[2] == 'name':
                return st.obs.get(('path', x[1]), x)
            return x
        return norm(a) == norm(b)


OWN = ('xm', RAW, 'name')


def follow(check, rule, obs, at_end=None, seconds=200):
    """get_packer(), then the packer it returns"""
    f = check.p.need_func(obs.cls + '.get_packer')
    i = Interp(check.p, obs)
    i.deadline = time.time() + seconds
    n = None
    try:
        outs = i.run(f.qual, setup=storage_file)
        n = len(outs)
        for o in outs:
            if o.kind not in 'nr':
                continue
            v = o.val or NONE
            obs.returned(i, f, o.st, v)
            if v[0] in ('gen', 'comp'):
                ends = i.run_value(v, o.st) if v[0] == 'gen' else through(i, o.st, v)
                n += len(ends)
                with At(i, f):
                    for e in ends:
                        obs.ended(i, f, e)
    except Limit as e:
        check.undecided.append('%s: %s: %s' % (rule, f.qual, e))
    check.absorb(rule, i, obs, f.qual, n)
    check.oblige(rule, obs.n)


def through(i, st, v):
    import ast
    node = ast.Pass(lineno=0, col_offset=0)
    from ..engine import Ctx
    cx = Ctx(None, 0, None, 'durus', None, 0, ())
    return i.loop(st, v, lambda s, e: [Out('n', s)], node, cx)


class Base(PackObs):
    def returned(self, i, f, st, v):
        pass

    def ended(self, i, f, out):
        pass


class Durable(Base):
    """C10: what gets the storage's name is on stable storage"""
    def rename(self, i, st, src, dst, node):
        self.n += 1
        raw = self.file_at(st, src)
        if raw is None:
            bad = [k[1] for k, v in st.obs.items() if k[0] == 'dirty' and v]
        else:
            bad = st.obs.get(('dirty', raw))
        if bad:
            self.report(i, node, 'a packed file replaces the storage before it is on stable storage')
