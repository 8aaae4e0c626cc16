"""The constructors of Shelf (the file of a FileStorage) and FileStorage2 are
followed over all paths on a file that has something in it.  The file may be
truncated only on paths on which repair was asked for, only at a position that
was taken after the transaction before had been accepted and before anything of
this one was read, and never because of an exception that says nothing about
the file (KeyboardInterrupt and MemoryError are injected into the reads).
Nothing is ever written.  A path that caught an error while reading a
transaction and neither cuts the file nor finds that nothing was read must
raise, and puts none of that transaction into the index."""
from ..engine import NONE, const, contains
from .common import At
from .files import FS2, SHELF, RAW, FILEV
from .c11 import Reader, opening

OTHER = ('builtins.KeyboardInterrupt', 'builtins.MemoryError')


# where the transaction that is read next starts, as told after the one before was
# put into the index
START = ('sym', '#start', None)


def is_tell(v):
    return v == START or v[0] == 'old' and is_tell(v[1]) or v[0] == 'call' and v[1] == '.tell' or \
        v[0] == 'sym' and isinstance(v[1], tuple)


class Repair(Reader):
    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'assume':
            a, yes = ev[1], ev[2]
            if a[0] in ('truth', '==', 'is') and any(x == ('sym', 'repair', None) for x in a[1:]):
                if a[0] == 'truth' or ('c', 'bool', True) in a:
                    b['repair'] = yes
                elif ('c', 'bool', False) in a:
                    b['repair'] = not yes
            if a[0] == '==' and yes and const(0) in a[1:] and any(
                    x[0] == 'call' and x[1] == 'builtins.len' or x in [
                        v for k, v in b.items() if k[0] == 'end'] for x in a[1:]) and \
                    not b.get('reads'):
                b['empty'] = True
            if a[0] == '==' and yes and all(is_tell(x) for x in a[1:]) or \
                    a[0] == '<' and not yes and is_tell(a[2]) and (
                        a[1] == START or not b.get('accepted') and is_tell(a[1])):
                b.pop('bad', None)          # nothing of it was there
            if self.cls == FS2 and a[0] == '<' and yes and b.get('last') is not None and \
                    a[1] == ('call', 'builtins.len', (b['last'],), 0) and \
                    a[2][0] == 'c' and isinstance(a[2][2], int) and a[2][2] > 1:
                b['small'] = True
        elif k == 'caught':
            if b.get('reads'):
                b['bad'] = True
        elif k == 'failed' and b.get('other') is None and ev[-1] is not None:
            if any(x in str(ev[-1]) for x in OTHER):
                b['other'] = True
        Reader.on(self, i, st, ev, node)

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == '.tell':
            b = st.obs
            whole = self.cls == FS2 and b.get('ended')
            if (b.get('fresh') or whole and not b.get('bad')) and b.get(('pos', recv)) != 'end':
                st = st.copy()
                if not b.get('fresh'):
                    i.rename(st, START)
                    st.obs['accepted'] = st.obs['fresh'] = True
                st.obs[('pos', recv)] = ('at', START)
                return [(st, START)]
            if b.get(('pos', recv)) == ('at', START):
                return [(st, START)]
        return Reader.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and self.is_raw(i, ev[2]) and ev[1] == '.read' and not st.obs.get('other') \
                and st.obs.get('accepted'):
            return OTHER
        return ()

    def before(self, i, st, n, raw, args, node):
        b = st.obs
        if n == 'read' and b.pop('small', None) and not b.get('ended') and not b.get('bad'):
            self.report(i, node, 'a block that is too short to be a record is passed over')
        if n == 'read':
            b['reads'] = True
            b['fresh'] = False
        if n == 'truncate' and not b.get('empty'):
            self.cut(i, st, raw, args, node)
        elif n in ('write', 'writelines') and not b.get('empty'):
            self.n += 1
            self.report(i, node, 'an existing file is written to when it is opened')
        if n in ('read', 'seek'):
            for k in ('ended', 'whole', 'short', 'read'):
                b.pop(k, None)

    def op(self, i, st, n, raw, args, result, node):
        if n == 'read':
            st.obs['read'] = st.obs['last'] = result
        elif n == 'truncate':
            st.obs['cut'] = True
            st.obs.pop('bad', None)

    def cut(self, i, st, raw, args, node):
        b = st.obs
        self.n += 1
        if not b.get('repair'):
            self.report(i, node, 'a damaged file is cut though no repair was asked for')
        at = ('at', args[0]) if args and args[0] != NONE else b.get(('pos', raw))
        if b.get('accepted'):
            if at != ('at', START):
                self.report(i, node, 'the file is not cut where the malformed transaction starts')
            elif b.get('fresh'):
                self.report(i, node, 'the file is cut before the transaction there was read')
        elif at is None or at == 'end' or not is_tell(at[1]) or at == ('at', b.get(('end', raw))):
            self.report(i, node, 'the file is not cut where the malformed transaction starts')
        if b.get('other'):
            self.report(i, node, 'the file is cut because of an error that does not show that '
                        'it is damaged')

    def accept(self, i, st, node):
        b = st.obs
        self.n += 1
        if b.get('small') and not b.get('ended'):
            self.report(i, node, 'a block that is too short to be a record is passed over')
        if b.get('bad') or b.get('other'):
            self.report(i, node, 'records of a malformed transaction are put into the index')
        b['accepted'] = b['fresh'] = True
        i.rename(st, START)

    def check(self, i, f, outs, check):
        with At(i, f):
            for o in outs:
                check.oblige('opening')
                b = o.st.obs
                if o.kind != 'x' and b.get('bad'):
                    self.report(i, f.node, 'a file that ends in a malformed transaction can be '
                                'opened without being repaired')
                elif o.kind != 'x' and b.get('other'):
                    self.report(i, f.node, 'a file that could not be read whole can be opened')


def decide(check):
    p = check.p
    for cls in (SHELF, FS2):
        o = opening(check, 'opening', cls, Repair, then=lambda o, i, f, outs: o.check(i, f, outs, check))
        check.oblige('opening', o.n)
