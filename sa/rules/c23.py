"""All paths of the serving loop are followed with each client's request, accepting a
connection and setting it up made to fail with several exceptions.  None of these
leaves the loop; before the next wait for requests a client that failed has been
removed from the sockets and from the clients, and its socket closed; a connection is
added to both or to none, after its options are set; the loop has no way out but an
exception.  In every request no exception but an ordinary one is raised, but by the
quit request after the storage is closed.  A packer is installed only where there is
none, advanced only while it is not exhausted and forgotten only after that."""
from ..engine import NONE, const, contains, mentions
from .common import attr, covers, mname
from .server import CLIENTS, HIDE, ME, SERVER, STORAGE, ServerObs
from ..rule import Obs

SOCKETS, PACKER = attr(ME, 'sockets'), attr(ME, 'packer')
FAILS = ('builtins.OSError', 'builtins.KeyError', 'builtins.AssertionError')
TALK = ('getpeername', 'shutdown', 'send', 'sendall', 'recv', 'recv_into', 'setsockopt', 'sendmsg')
REMOVE = ('remove', 'discard', 'pop', '__delitem__')
ADD = ('append', 'add', 'insert', 'extend', '__iadd__')


class Loop(Obs):
    opaque_names = (SERVER + '.handle', SERVER + '._find_client')
    opaque_prefixes = Obs.opaque_prefixes + HIDE + ('durus.systemd_socket.',) + ('durus.storage_server.InheritedSocket.',)

    def __init__(self):
        Obs.__init__(self)
        self.n = 0

    def ready(self, v):
        """a socket that select says is ready"""
        return v[0] == 'elem' and contains(v, lambda t: t[0] == 'call' and mname(t) == 'select')

    def request(self, ev):
        if ev[0] not in ('call', 'called', 'failed'):
            return None
        if ev[1] == SERVER + '.handle' or ev[1] == '()':
            return next((x for x in ev[3] if self.ready(x)), None)
        return None

    def raises(self, i, st, ev, node):
        if self.request(ev) is not None:
            return FAILS
        if self.is_accept(ev) or mname(ev) in ('set_connection_options', 'settimeout', 'setsockopt'):
            return ('builtins.OSError',)
        if self.talks(st, ev):
            return ('builtins.OSError',)
        if self.steps(st, ev) and len(ev[3]) < 2:
            return ('builtins.StopIteration',)
        return ()

    def talks(self, st, ev):
        """is a socket used in a way that fails when the other end has gone?"""
        return mname(ev) in TALK and ev[2] is not None and (
            ev[2] == st.heap.get((ME, '#bad')) or self.conn(ev[2]) or self.ready(ev[2]))

    def is_accept(self, ev):
        return ev[0] in ('call', 'called', 'failed') and mname(ev) == 'accept'

    def packer(self, st):
        return st.heap.get((ME, 'packer'), PACKER)

    def absent(self, st):
        """is it known that there is no packer?"""
        v = self.packer(st)
        return v == NONE or st.facts.get(('is', v, NONE)) is True

    def dry(self, st):
        v = st.heap.get((ME, '#step'))
        return st.obs.get('dry') or v is not None and any(
            st.facts.get((op,) + v[1]) for op in ('is', '=='))

    def steps(self, st, ev):
        return ev[0] in ('call', 'called', 'failed') and (
            mname(ev) == 'next' and self.packer(st) in ev[3] or
            mname(ev) == '__next__' and ev[2] == self.packer(st))

    def conn(self, v):
        """the connection that was accepted"""
        return contains(v, lambda t: t[0] == 'call' and mname(t) == 'accept')

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'failed' and self.request(ev) is not None:
            self.n += 1
            b['bad'] = True
            st.heap[(ME, '#bad')] = self.request(ev)
            for n in ('sockets', 'clients', 'closed', 'closing'):
                b.pop('un' + n, None)
        elif k == 'failed' and not b.get('bad') and (
                self.is_accept(ev) or self.talks(st, ev) or mname(ev) in (
                'set_connection_options', 'settimeout', 'setsockopt')):
            self.n += 1
            b['refused'] = True
        elif k == 'called' and mname(ev) in ('set_connection_options', 'settimeout') and \
                any(self.conn(x) for x in ev[3] + (ev[2] or NONE,)):
            b['options'] = True
        elif k == 'failed' and self.steps(st, ev):
            b['dry'] = True
        elif k == 'called' and self.steps(st, ev) and len(ev[3]) == 2:
            st.heap[(ME, '#step')] = ('tuple', (ev[-1], ev[3][1]))
        elif k == 'call' and self.steps(st, ev):
            st.heap.pop((ME, '#step'), None)
            self.n += 1
            if b.get('dry'):
                self.report(i, node, 'a packer may be advanced after it is exhausted')
        elif k == 'call' and mname(ev) == 'select':
            self.n += 1
            self.round(i, st, node)
        elif k == 'call' and mname(ev) == 'accept':
            for n in ('options', 'insockets', 'inclients', 'refused'):
                b.pop(n, None)
        elif k == 'call' and b.get('bad'):
            bad = st.heap.get((ME, '#bad'))
            if mname(ev) == 'close' and (ev[2] == bad or bad in ev[3]):
                b['unclosed'] = True
        elif k in ('mut', 'set'):
            self.changed(i, st, ev, node)

    def changed(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'set' and ev[1] == ME and ev[2] == 'packer':
            self.n += 1
            if ev[3] == NONE:
                if not self.dry(st) and not self.absent(st):
                    self.report(i, node, 'a pack in progress is forgotten')
                b.pop('dry', None)
            elif not self.absent(st):
                self.report(i, node, 'a pack may be started while another is in progress')
            return
        for n, a in (('sockets', SOCKETS), ('clients', CLIENTS)):
            if k == 'set' and ev[1] == ME and ev[2] == n:
                b['un' + n] = True
            if k != 'mut' or ev[1] != a:
                continue
            if ev[2] in ADD and any(self.about(st, x) for x in ev[3]):
                self.n += 1
                b['in' + n] = True
                if not b.get('options'):
                    self.report(i, node, 'a connection is served before its options are set')
            elif ev[2] in REMOVE and b.get('bad'):
                bad = st.heap.get((ME, '#bad'))
                x = ev[3][0] if ev[3] else NONE
                if n == 'sockets' and ev[2] in ('remove', 'discard') and not (
                        x == bad or self.same(st, x, bad)):
                    self.report(i, node, 'another connection is removed than the one that failed')
                elif n == 'clients' and x[0] == 'elem' and covers(st, x[1], CLIENTS) and not any(
                        st.facts.get((op,) + p) for op in ('is', '==')
                        for p in ((attr(x, 's'), bad), (bad, attr(x, 's')))):
                    self.report(i, node, 'another client is removed than the one that failed')
                b['un' + n] = True
            if b.get('refused'):
                b.pop('in' + n, None)

    def same(self, st, x, bad):
        return x[0] == 'attr' and x[2] == 's' and (
            x[1][0] == 'call' and bad in x[1][2] or any(
                st.facts.get((op,) + p) for op in ('is', '==') for p in ((x, bad), (bad, x))))

    def about(self, st, x):
        return self.conn(x) or x[0] == 'new' and any(
            q[0] == x and isinstance(v, tuple) and self.conn(v) for q, v in st.heap.items())

    def round(self, i, st, node):
        """the server waits for requests again"""
        b = st.obs
        if b.pop('bad', None):
            st.heap.pop((ME, '#bad'), None)
            for n, m in (('unsockets', 'stays among the sockets'), ('unclients', 'stays among the '
                         'clients'), ('unclosed', 'is not closed')):
                if not b.pop(n, None):
                    self.report(i, node, 'the connection of a client whose request failed ' + m)
        if bool(b.pop('insockets', None)) != bool(b.pop('inclients', None)):
            self.report(i, node, 'a connection is among the sockets or the clients but not both')
        b.pop('refused', None)
        b.pop('options', None)
        if b.get('dry'):
            self.report(i, node, 'an exhausted packer is kept')
            b.pop('dry')


class Pack(Loop):
    opaque_names = (SERVER + '._find_client', 'durus.serialize.extract_class_name')


def exc_class(out):
    return out.val.val[1] if out.kind == 'x' and out.val.kind == 'exc' else None


def decide(check):
    p = check.p
    f = p.need_func(SERVER + '.serve')
    o = Loop()

    def then(i, outs):
        for out in outs:
            check.oblige('loop')
            if out.kind != 'x':
                check.finding('loop', f, None, 'the server may stop without a quit request')
            elif exc_class(out) in FAILS and out.st.obs.get('bad'):
                check.finding('loop', f, None, 'a request that fails stops the server')
            elif exc_class(out) == 'builtins.OSError' and out.st.obs.get('refused'):
                check.finding('loop', f, None, 'a connection that fails stops the server')
            elif exc_class(out) == 'builtins.StopIteration':
                check.finding('loop', f, None, 'the end of a pack stops the server')
    check.run('loop', o, f.qual, then=then)
    check.oblige('loop', o.n)
    for name, m in check.methods(SERVER):
        if not name.startswith('handle_') and name != 'handle' or len(m.node.args.args) != 2:
            continue
        o = Pack()

        def then(i, outs, m=m):
            for out in outs:
                c = exc_class(out)
                if c is None or c not in ('builtins.SystemExit', 'builtins.BaseException',
                                          'builtins.KeyboardInterrupt', 'builtins.GeneratorExit'):
                    continue
                check.oblige('quit')
                if m.name != 'handle_Q':
                    check.finding('quit', m, None, 'a request other than quit stops the server')
        check.run('request', o, m.qual, then=then,
                  args={m.node.args.args[1].arg: ('sym', 's', 'socket')})
        check.oblige('request', o.n)
