"""get_packer() of FileStorage and FileStorage2 and the packer it returns are
followed over all paths down to the operations on files and names: nothing
writes, cuts, removes or moves the file that has the storage's name until one
os.rename() or os.replace() gives that name to another file, whose data has
been flushed and fsynced since it was last written, after the storage's file
got another name that is then left alone.  The first thing written to the other
file comes when it is known to be empty."""
from ..engine import NONE, const, contains, mentions
from .common import At, attr, fact
from .files import FS, FS2, RAW
from . import packs
from .packs import Base, OWN


class Names(Base):
    assert_raises = True

    def path(self, st, v):
        """the same term for all ways to say where a file is"""
        for _ in range(4):
            if v[0] == 'xm' and v[2] == 'name' and v != OWN:
                v2 = st.obs.get(('path', v[1]), v)
            elif v[0] == 'call' and v[1] in ('os.path.abspath', 'os.path.realpath', 'builtins.str',
                                             'os.fspath', 'os.path.normpath') and v[2]:
                v2 = v[2][0]
            else:
                break
            if v2 == v:
                break
            v = v2
        return v

    def own(self, st, v):
        return self.path(st, v) == OWN

    def renamed_own(self, st):
        return st.obs.get('switched')

    def rename(self, i, st, src, dst, node):
        b = st.obs
        self.n += 1
        s, d = self.path(st, src), self.path(st, dst)
        if s == OWN and not b.get('switched'):
            self.report(i, node, "the storage's file is moved away")
        if d == OWN:
            raw = self.file_at(st, src)
            if raw is None:
                raw = self.opened(st, s)
            dirty = b.get(('dirty', raw)) if raw is not None else any(
                v for k, v in b.items() if k[0] == 'dirty')
            if dirty:
                self.report(i, node, 'the file that gets the name of the storage is not on '
                            'stable storage')
            if raw is not None and not b.get(('begun', raw)):
                self.report(i, node, 'the file that gets the name of the storage was not written '
                            'by the pack')
            if not b.get('kept') and not b.get('switched'):
                self.report(i, node, 'the previous file is lost when the packed one gets its name')
            b['switched'] = True
        elif b.get('kept') and d == b['kept']:
            self.report(i, node, 'the name under which the previous file was kept is used again')

    def opened(self, st, path):
        for k, v in st.obs.items():
            if k[0] == 'path' and v == path:
                return k[1]
        return None

    def link(self, i, st, src, dst, node):
        self.n += 1
        s, d = self.path(st, src), self.path(st, dst)
        if d == OWN and not st.obs.get('switched'):
            self.report(i, node, "the storage's name is given to a copy that is not made at once")
        if s == OWN and d != OWN and not st.obs.get('switched'):
            st.obs['kept'] = d

    def unlink(self, i, st, name, node):
        self.n += 1
        n = self.path(st, name)
        if n == OWN:
            self.report(i, node, "the storage's file is removed")
        elif st.obs.get('kept') == n:
            self.report(i, node, 'the previous file is removed')
        elif not st.obs.get('switched'):
            raw = self.opened(st, n)
            if raw is not None and st.obs.get(('begun', raw)):
                self.report(i, node, 'the packed file is removed')

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        return Base.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def empty(self, st, raw):
        """is the file known to be empty?"""
        b = st.obs
        if b.get(('empty', raw)):
            return True
        return False

    def says_empty(self, st, raw, a, v):
        """does the condition say that the file is empty?"""
        b = st.obs
        if not contains(a, lambda t: t[0] in ('xm', 'attr') and t[2] == 'st_size' and (
                mentions(t, raw) or b.get(('path', raw)) and mentions(t, b[('path', raw)])) or
                t[0] == 'call' and t[1] == '.tell' and t[2] and t[2][0] == raw
                and b.get(('told', raw, t)) == 'end' or
                t[0] == 'call' and t[1] == 'os.path.getsize' and b.get(('path', raw)) and
                mentions(t, b[('path', raw)])):
            return False
        return a[0] == '==' and v and const(0) in a[1:] or \
            a[0] == '<' and a[1] == const(0) and not v or a[0] == 'truth' and not v

    def first(self, i, st, raw, node):
        b = st.obs
        if b.get(('begun', raw)) or raw is None:
            return
        b[('begun', raw)] = True
        self.n += 1
        if not self.empty(st, raw):
            self.report(i, node, 'a pack file left from an earlier pack is not emptied before use')

    def written(self, i, st, raw, items, node):
        if raw == RAW:
            self.harm(i, st, node)
        else:
            self.first(i, st, raw, node)

    def harm(self, i, st, node):
        if not st.obs.get('switched'):
            self.report(i, node, "the pack changes the storage's file in place")

    def before(self, i, st, n, raw, args, node):
        b = st.obs
        if n in ('write', 'writelines', 'truncate'):
            self.n += 1
            if raw == RAW:
                self.harm(i, st, node)
                return
        if n in ('write', 'writelines'):
            self.first(i, st, raw, node)
        elif n == 'truncate':
            if args and args[0] == const(0) or b.get(('pos', raw)) == ('at', const(0)):
                b[('empty', raw)] = True

    def on(self, i, st, ev, node):
        Base.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'assume':
            for x in list(b):
                if x[0] == 'begun' and not b[x] and self.says_empty(st, x[1], ev[1], ev[2]):
                    b[('empty', x[1])] = True
                elif x[0] == 'begun' and not b[x] and ev[1][0] == '==' and not ev[2] and \
                        const(0) in ev[1][1:] and contains(ev[1], lambda t: t == x[1]):
                    b[('left', x[1])] = True
        if k == 'called' and ev[1] == 'builtins.open' and ev[3]:
            raw = ev[5]
            mode = ev[3][1] if len(ev[3]) > 1 else dict(ev[4]).get('mode', const('r'))
            mode = mode[2] if mode[0] == 'c' else ''
            b[('pos', raw)] = ('at', const(0))
            b[('begun', raw)] = b.get(('begun', raw), False)
            if mode.startswith('w') or mode.startswith('x'):
                b[('empty', raw)] = True
                if self.own(st, ev[3][0]):
                    self.report(i, node, "the storage's file is emptied")
        if k == 'call' and ev[1] in ('shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2') \
                and len(ev[3]) > 1 and self.own(st, ev[3][1]):
            self.report(i, node, "the storage's name is not given to the packed file at once")

    def ended(self, i, f, out):
        b = out.st.obs
        if out.kind == 'x' and out.val.kind == 'exc':
            for k, v in b.items():
                if k[0] == 'begun' and not v and not b.get(('empty', k[1])) and b.get(('left', k[1])):
                    self.report(i, f.node, 'a pack file left from an earlier pack makes every '
                                'pack fail')


def decide(check):
    for cls in (FS, FS2):
        o = Names(cls)
        packs.follow(check, 'pack', o)
