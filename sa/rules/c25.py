"""Binding, connecting, closing and configuring are followed over all paths for every class
of socket address, with every system call failing.  Each changed umask must be undone
by the end of the path, whichever way it ends; a file is removed only where the path has
found it to be empty and has been refused a connection, or where its own socket is
closed; each outcome of a connect is compared with how the connect ended.  The classes
are checked to resolve every operation that the server calls on an address."""
import ast

from ..engine import contains, mentions
from ..model import Func
from ..rule import Obs

BASE = 'durus.storage_server.SocketAddress'
NONE = ('c', 'NoneType', None)
REFUSED = 'builtins.ConnectionRefusedError'
UNLINK = ('os.unlink', 'os.remove')
GONE = {'ENOENT', 'ENOTSOCK', 'ECONNREFUSED'}
# operation -> number of arguments
ALL = {'__str__': 0, 'set_connection_options': 1, 'close': 1}
MADE = {'get_address_family': 0, 'bind_socket': 1, 'get_connected_socket': 0,
        'get_listening_socket': 0}


class Paths(Obs):
    def __init__(self):
        Obs.__init__(self)
        self.calls = 0
        self.method = ''
        self.has_umask = False

    def raises(self, i, st, ev, node):
        if ev[0] != 'call' or ev[1] in ('os.umask', '.umask'):
            return ()
        if ev[1] == '.connect':
            return (REFUSED, 'builtins.OSError')
        if self.method == 'get_connected_socket' and ev[1] != 'socket.socket':
            return ()
        if ev[1].startswith(('pwd.', 'grp.')):
            return ('builtins.KeyError',)
        return ('builtins.OSError',)

    def own(self, i, v):
        return v[0] == 'attr' and v[1][0] == 'sym' and v[1][1] == 'self'

    def on(self, i, st, ev, node):
        k = ev[0]
        if 'impossible' in st.obs:
            return
        if k == 'call':
            self.calls += 1
            name = ev[1]
            if name == 'os.umask':
                x = ev[3][0] if ev[3] else None
                if st.obs.get('umask') and x == st.obs['umask']:
                    st.obs.pop('umask')
                else:
                    st.obs['pending'] = x
            elif name in UNLINK:
                self.unlink(i, st, ev, node)
            elif name == '.bind':
                st.obs.pop('chowned', None)
                if self.has_umask and st.obs.get('asked') is not True and 'umask' not in st.obs:
                    self.report(i, node, 'the socket is bound without the umask that was asked for')
            elif name == '.connect':
                st.obs['connect'] = None
                for key in [x for x in st.obs if isinstance(x, tuple) and x[0] == 'errno']:
                    st.obs.pop(key)
            elif name == 'os.chown' and len(ev[3]) >= 3:
                st.obs['chowned'] = (ev[3][1], ev[3][2])
        elif k == 'called':
            if ev[1] == 'os.umask' and 'pending' in st.obs:
                st.obs.pop('pending')
                if 'umask' not in st.obs:
                    st.obs['umask'] = ev[-1]
            elif ev[1] == '.connect':
                st.obs['connect'] = ('ok', ev[2])
            elif ev[1] == '.close' and ev[2] is not None:
                st.obs[('closed', ev[2])] = True
            elif ev[1] in UNLINK:
                st.obs['unlinked'] = True
        elif k == 'failed' and ev[1] == '.connect':
            exc = ev[-1]
            st.obs['connect'] = ('failed', exc[1])
        elif k == 'assume':
            a, truth = ev[1], ev[2]
            if a[0] == '==':
                for x in a[1:]:
                    if x[0] == 'ext' and x[1].startswith('errno.'):
                        st.obs[('errno', x[1][6:])] = truth
            if a[0] == 'is' and NONE in a[1:]:
                x = a[1] if a[2] == NONE else a[2]
                if self.own(i, x) and x[2] == 'umask':
                    st.obs['asked'] = truth
                elif self.own(i, x) and x[2] in ('owner', 'group'):
                    st.obs[('given', x[2])] = (x, not truth)
                elif truth and x[0] == 'call' and x[1] in ('os.umask', 'socket.socket'):
                    st.obs['impossible'] = True
            if a[0] == 'truth' and not truth and a[1][0] == 'call' and a[1][1] == 'socket.socket':
                st.obs['impossible'] = True
            if contains(a, lambda x: x[0] == 'attr' and x[2] == 'st_size' or
                        x[0] == 'call' and x[1] == 'os.path.getsize'):
                st.obs['empty'] = self.zero(a, truth)
            if contains(a, lambda x: x[0] == 'call' and x[1] == 'os.path.exists') and a[0] == 'truth':
                st.obs['exists'] = truth

    def zero(self, a, truth):
        zero = ('c', 'int', 0)
        if a[0] == '<':
            if a[1] == zero:
                return not truth
            if a[2] == ('c', 'int', 1):
                return truth
            return False
        if a[0] == '==':
            return truth and zero in a[1:]
        if a[0] == 'truth':
            return not truth
        return False

    def refused(self, st):
        """the last connect ended by a refusal; None if the path cannot be"""
        c = st.obs.get('connect')
        if not c or c[0] != 'failed':
            return False
        tests = {k[1]: v for k, v in st.obs.items() if isinstance(k, tuple) and k[0] == 'errno'}
        if c[1] == REFUSED:
            if tests.get('ECONNREFUSED') is False or \
                    any(v for k, v in tests.items() if k != 'ECONNREFUSED'):
                return None
            return True
        return bool(tests.get('ECONNREFUSED'))

    def unlink(self, i, st, ev, node):
        x = ev[3][0] if ev[3] else NONE
        if not self.own(i, x):
            self.report(i, node, 'a file is removed that is not the one of this address')
        if self.method == 'close':
            return
        c = st.obs.get('connect')
        if not c or c[0] != 'failed':
            self.report(i, node, 'a file is removed without having been refused a connection to it')
        if st.obs.get('empty') is not True:
            self.report(i, node, 'a file is removed that may not be empty')


def decide(check):
    p = check.p
    check.need(BASE in p.classes, 'no ' + BASE)
    classes = sorted(c for c in p.classes if c != BASE and p.is_subclass(c, BASE))
    check.need(len(classes) >= 2, 'no classes of addresses')
    made = constructed(check, p, classes)
    calls = 0
    for cls in classes:
        if cls not in made and any(c != cls and p.is_subclass(c, cls) for c in classes):
            continue
        ops = dict(ALL)
        if cls in made:
            ops.update(MADE)
        for name, n in sorted(ops.items()):
            check.oblige('operations')
            f = method(p, cls, name)
            if f is None:
                c = p.classes[cls]
                check.finding('operations', cls, getattr(c.node, 'lineno', 1),
                              'this kind of address has no ' + name, file=c.module.path)
                continue
            if not takes(f, n):
                check.finding('operations', f.qual, f.node.lineno,
                              'does not take the arguments that the server gives', file=f.module.path)
        for name in ('bind_socket', 'get_connected_socket', 'close', 'set_connection_options'):
            f = method(p, cls, name)
            if f is None:
                continue
            o = Paths()
            o.method = name
            init = method(p, cls, '__init__')
            o.has_umask = init is not None and any(a.arg == 'umask' for a in init.node.args.args +
                                                   init.node.args.kwonlyargs)

            def then(i, outs, o=o, f=f, name=name, cls=cls):
                ends(check, i, outs, o, f, name, cls)
            check.run(name, o, f.qual, then=then, cls=cls)
            check.oblige(name, o.calls)
            calls += o.calls
    check.need(calls >= 10, 'only %d calls of the operating system found' % calls)


def ends(check, i, outs, o, f, name, cls):
    for out in outs:
        st = out.st
        if out.kind == 'x' and out.val.kind == 'abandon' or 'impossible' in st.obs:
            continue
        check.oblige('ends')
        if 'umask' in st.obs:
            report(check, i, f, 'the umask of the process is not restored when %s' %
                     ('an exception is raised' if out.kind == 'x' else 'the method returns'))
        if name == 'get_connected_socket':
            connected(check, i, out, st, o, f)
        elif name == 'bind_socket' and out.kind in 'rn':
            for which, at in (('owner', 0), ('group', 1)):
                given = st.obs.get(('given', which))
                if given and given[1]:
                    ch = st.obs.get('chowned')
                    if ch is None or not mentions(ch[at], given[0]) and not joined(ch[at]):
                        report(check, i, f, 'the %s that was asked for is not given to the socket' % which)
        elif name == 'close' and out.kind in 'rn':
            s = ('sym', f.node.args.args[1].arg)
            if not any(k[0] == 'closed' and k[1][:2] == s for k in st.obs if isinstance(k, tuple)):
                report(check, i, f, 'the socket is not closed')
        elif name == 'set_connection_options' and out.kind in 'rn':
            pass


def connected(check, i, out, st, o, f):
    c = st.obs.get('connect')
    refused = o.refused(st)
    if refused is None:
        return
    if out.kind in 'rn':
        v = out.val if out.kind == 'r' and out.val is not None else NONE
        if v == NONE:
            gone = refused or any(k[0] == 'errno' and k[1] in GONE and x
                                  for k, x in st.obs.items() if isinstance(k, tuple))
            if not c or c[0] != 'failed' or not gone:
                report(check, i, f, 'no socket is returned though the connect was not refused')
        elif not c or c[0] != 'ok' or c[1] != v:
            report(check, i, f, 'a socket is returned that is not connected')
    elif out.kind == 'x' and refused:
        report(check, i, f, 'an exception is raised when the connect is refused')


def method(p, cls, name):
    r = p.lookup(cls, name)
    return r[1] if r and isinstance(r[1], Func) else None


def report(check, i, f, msg):
    check.finding('ends', f.qual, f.node.lineno, msg, file=f.module.path)


def joined(v):
    return v[0] == 'sym' and isinstance(v[1], tuple) and v[1][0] == 'phi'


def takes(f, n):
    a = f.node.args
    pos = len(a.posonlyargs) + len(a.args) - 1
    need = pos - len(a.defaults)
    return need <= n and (n <= pos or a.vararg is not None) and \
        all(d is not None for d in a.kw_defaults)


def constructed(check, p, classes):
    """the classes that SocketAddress.new() can give"""
    f = p.funcs.get(BASE + '.new')
    found = set()
    for n in ast.walk(f.node) if f is not None else ():
        if isinstance(n, ast.Name):
            for c in classes:
                if c.rpartition('.')[2] == n.id:
                    found.add(c)
    return found or {c for c in classes if method(p, c, 'bind_socket')}
