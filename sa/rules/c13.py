"""Every method of File is followed over all paths, from the states in which
has_lock agrees with the lock held: whatever writes or truncates the raw file
does it with flock(LOCK_EX | LOCK_NB) held, only close() and release_lock() may
give the lock up, and has_lock says afterwards what is true.  Opening a
FileStorage or FileStorage2, of a name or of a File, locks it on every path
before anything is read from it, and no file is opened in a way that empties it.
Everything a storage does is followed once more with its file not yet locked
(every write has the lock), locked (it is kept) and opened read-only (nothing is
locked, written, truncated, renamed or packed)."""
from ..engine import NONE, TRUE, FALSE, const, Limit
from .common import At, attr, mname
from .files import FS, FS2, SHELF, FILE, FILEV, RAW, SHELFV, FileObs, storage_file
from .packs import PackObs

NT = ('==', const('nt'), ('ext', 'os.name'))


def flags(v):
    """the names combined with | in v"""
    out = set()
    if isinstance(v, tuple):
        if v[:1] == ('ext',):
            out.add(v[1].rpartition('.')[2])
        elif v[:1] != ('call',):
            for x in v:
                out |= flags(x)
    return out


class Lock(PackObs):
    def __init__(self, cls, start, pack=False):
        PackObs.__init__(self, cls)
        self.start = start                  # 'free', 'locked', 'readonly', 'new' (being opened)
        self.base = PackObs if pack else FileObs

    def opaque(self, qual):
        names = self.opaque_names if self.base is PackObs else FileObs.opaque_names
        return qual in names or qual.startswith(tuple(self.opaque_prefixes))

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        return self.base.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def setup(self, i, st, selfv):
        st.facts[NT] = False
        storage_file(i, st, selfv)
        if self.start == 'new':
            return
        st.heap[(FILEV, 'has_lock')] = TRUE if self.start == 'locked' else FALSE
        st.heap[(RAW, 'mode')] = const('rb' if self.start == 'readonly' else 'r+b')
        if self.start == 'locked':
            st.obs[('locked', RAW)] = True

    def track(self, i, st, n, raw, args, result):
        b = st.obs
        if n == 'flock' and result is not None:
            f = flags(args[0]) if args else set()
            b[('locked', raw)] = bool({'LOCK_EX', 'LOCK_NB'} <= f)
        elif n == 'close' and result is not None:
            b[('locked', raw)] = False
            b[('closed', raw)] = True

    def before(self, i, st, n, raw, args, node):
        b = st.obs
        if n in ('write', 'writelines', 'truncate'):
            self.n += 1
            if self.start == 'readonly':
                self.report(i, node, 'a file opened read-only is written to')
            elif not b.get(('locked', raw)):
                self.report(i, node, 'a file is %s without holding its lock' % (
                    'truncated' if n == 'truncate' else 'written to'))
        elif n == 'flock':
            self.n += 1
            f = flags(args[0]) if args else set()
            if self.start == 'readonly':
                self.report(i, node, 'a file opened read-only is locked')
            elif 'LOCK_UN' not in f and 'LOCK_EX' not in f:
                self.report(i, node, 'the lock is not exclusive')
            elif 'LOCK_UN' not in f and 'LOCK_NB' not in f:
                self.report(i, node, 'taking the lock waits instead of failing')
        elif n.startswith('read') and self.start == 'new':
            self.n += 1
            if not b.get(('locked', raw)) and not b.get('ro'):
                self.report(i, node, 'the file is read before it is locked')

    def on(self, i, st, ev, node):
        FileObs.on(self, i, st, ev, node)
        b, k = st.obs, ev[0]
        if k == 'call' and ev[1] in ('builtins.open', 'io.open', 'os.fdopen'):
            m = ev[3][1] if len(ev[3]) > 1 else dict(ev[4] or ()).get('mode', const('r'))
            m = m[2] if m[0] == 'c' and isinstance(m[2], str) else '?'
            self.n += 1
            if 'w' in m:
                self.report(i, node, 'a file is emptied by opening it, before it is locked')
            if (self.start == 'readonly' or b.get('ro')) and m not in ('r', 'rb', '?'):
                self.report(i, node, 'a file is opened for writing by a read-only storage')
        elif k == 'called' and ev[1] in ('builtins.open', 'io.open') and len(ev[3]) > 1:
            st.heap[(ev[5], 'mode')] = ev[3][1]
        if k == 'assume' and ev[2] and ev[1][0] == 'truth' and len(ev[1][1]) > 2 and \
                ev[1][1][2] == 'has_lock':
            f = ev[1][1][1]         # what File makes sure of
            b[('locked', st.heap.get((f, 'file'), attr(f, 'file')))] = True
        if k == 'call' and self.start == 'readonly' and self.cls != FILE and ev[1] in (
                'os.rename', 'os.replace', 'os.link', 'os.unlink', 'os.remove', 'os.truncate',
                'shutil.move'):
            self.report(i, node, 'a read-only storage changes the directory of its file')
        if k == 'set' and self.start == 'readonly' and ev[2] == 'pack_extra' and ev[3] != NONE:
            self.report(i, node, 'a pack of a read-only storage begins')

    # what is left behind
    def current(self, st):
        if self.cls == FILE:
            f = ('sym', 'self', FILE)
        elif self.cls == FS:
            sh = st.heap.get((self.me, 'shelf'), SHELFV)
            f = st.heap.get((sh, 'file'), attr(sh, 'file'))
        else:
            n = 'fp' if self.cls == FS2 else 'file'
            f = st.heap.get((self.me, n), attr(self.me, n))
        return f, st.heap.get((f, 'file'), attr(f, 'file'))

    def known(self, st, f):
        v = st.heap.get((f, 'has_lock'), attr(f, 'has_lock'))
        if v[0] == 'c':
            return bool(v[2])
        return st.facts.get(('truth', v))

    def check(self, i, f, outs, gives_up=False):
        with At(i, f):
            for o in outs:
                fl, raw = self.current(o.st)
                b = o.st.obs
                self.n += 1
                held = bool(b.get(('locked', raw)))
                says = self.known(o.st, fl)
                if b.get(('closed', raw)):
                    if says and o.kind != 'x':
                        self.report(i, f.node, 'a closed file is taken to be locked')
                    continue
                if says and not held:
                    self.report(i, f.node, 'a file is taken to be locked that is not')
                if says is False and held and o.kind != 'x':
                    self.report(i, f.node, 'a locked file is taken not to be')
                if o.kind != 'x' and self.start == 'locked' and not held and not gives_up:
                    self.report(i, f.node, 'the lock is lost')


class Opening(Lock):
    # these only read, and take the lock to write
    reading = ('durus.shelf.read_transaction_offsets', 'durus.shelf.OffsetMap',
               FS2 + '._build_index')

    def opaque(self, qual):
        return qual in self.reading or Lock.opaque(self, qual)

    def on(self, i, st, ev, node):
        if ev[0] == 'call' and ev[1] in self.reading:
            self.n += 1
            if not st.obs.get('ro') and not any(
                    k[0] == 'locked' and v for k, v in st.obs.items()):
                self.report(i, node, 'the file is read before it is locked')
        Lock.on(self, i, st, ev, node)

    def check(self, i, f, outs, gives_up=False):
        with At(i, f):
            for o in outs:
                if o.kind == 'x':
                    continue
                fl, raw = self.current(o.st)
                self.n += 1
                held = bool(o.st.obs.get(('locked', raw)))
                if o.st.obs.get('ro'):
                    if held:
                        self.report(i, f.node, 'a file opened read-only is locked')
                elif not held:
                    self.report(i, f.node, 'a storage can be opened for writing without its lock')

    def before(self, i, st, n, raw, args, node):
        if st.obs.get('ro') and n in ('write', 'writelines', 'truncate'):
            self.report(i, node, 'a file opened read-only is written to')
        Lock.before(self, i, st, n, raw, args, node)


def decide(check):
    p = check.p
    # File itself
    for name, f in check.roots(FILE):
        if name == '__init__':
            continue
        for start in ('free', 'locked', 'readonly'):
            o = Lock(FILE, start)
            me = ('sym', 'self', FILE)

            def setup(i, st, selfv):
                st.facts[NT] = False
                st.heap[(me, 'file')] = RAW
                st.heap[(me, 'has_lock')] = TRUE if start == 'locked' else FALSE
                st.heap[(RAW, 'mode')] = const('rb' if start == 'readonly' else 'r+b')
                if start == 'locked':
                    st.obs[('locked', RAW)] = True
            check.run('File', o, f.qual, setup=setup, then=lambda i, outs: o.check(
                i, f, outs, name in ('close', 'release_lock', '__exit__', '__del__')))
            check.oblige('File', o.n)
    # opening
    name = ('sym', 'name', 'str')
    for cls in (FS, FS2):
        f = p.need_func(cls + '.__init__')
        par = [a.arg for a in f.node.args.args]
        for given in (name, FILEV):
            for ro in (False, True):
                o = Opening(cls, 'new')

                def setup(i, st, selfv):
                    st.facts[NT] = False
                    st.facts[('hasattr', name, 'seek')] = False
                    st.facts[('hasattr', FILEV, 'seek')] = True
                    st.heap[(FILEV, 'file')] = RAW
                    st.heap[(FILEV, 'has_lock')] = FALSE
                    st.heap[(RAW, 'mode')] = const('rb' if ro else 'r+b')
                    if ro:
                        st.obs['ro'] = True
                check.run('opening', o, f.qual, setup=setup,
                          args={par[1]: given, 'readonly': TRUE if ro else FALSE},
                          then=lambda i, outs: o.check(i, f, outs))
                check.oblige('opening', o.n)
    # using
    for cls in (FS, FS2, SHELF):
        for mname_, f in check.roots(cls):
            if mname_ == '__init__' or 'classmethod' in f.deco or 'staticmethod' in f.deco:
                continue
            for start in ('free', 'locked', 'readonly'):
                if start == 'readonly' and mname_.startswith('_') and mname_ != '__iter__':
                    continue        # what only the others call
                o = Lock(cls, start, pack=True)
                check.run('using', o, f.qual, setup=o.setup, then=lambda i, outs: o.check(
                    i, f, outs, mname_ in ('close', 'release_lock')))
                check.oblige('using', o.n)
