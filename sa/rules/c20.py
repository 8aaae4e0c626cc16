"""Every ClientStorage operation and every handler of StorageServer is followed
over all paths (load, end and invalidation handling made to fail as they may),
which gives for each path the sequence of its writes to and reads from the
socket with symbolic lengths, the tests it makes of what it read, and how it
ends.  Each path of the client is then played against each path of the handlers
its requests select, as two processes with a queue each way: every read must get
exactly the bytes of whole writes, with equal symbolic lengths, loops must run
over the same oids with bodies that fit, nobody may wait for what is not sent,
nothing may be left unread, each status must be one the client tests for, and
the client must end in the way that belongs to what happened at the server.  The
records in a commit are cut out of it as the client put them in."""
TECHNIQUE = 'path-sensitive dataflow analysis and composition of the two sides of a protocol'

from ..engine import NONE, const, contains, mentions
from .common import At, attr, mname
from .files import FileObs
from . import wire

CLIENT = 'durus.client_storage.ClientStorage'
SERVER = 'durus.storage_server.StorageServer'
U = 'durus.utils.'
CONFLICT, READ, KEY = ('durus.error.ConflictError', 'durus.error.ReadConflictError',
                       'durus.error.DurusKeyError')
HIDE = ('durus.storage_server.SocketAddress.', 'durus.storage_server.HostPortAddress.',
        'durus.storage_server.Unix')


# ---- lengths: {symbol: factor}, with '' for the constant

def scale(p, n):
    return dict((k, v * n) for k, v in p.items() if v * n)


def add(*ps):
    r = {}
    for p in ps:
        for k, v in p.items():
            r[k] = r.get(k, 0) + v
    return dict((k, v) for k, v in r.items() if v)


def number(n):
    return {'': n} if n else {}


NUMBERS = ('join', 'split_oids', 'len', 'read', 'str_to_int4', 'str_to_int8', 'list', 'tuple',
           'sorted', 'set', 'frozenset', 'ord', 'int', 'divmod', 'from_bytes', 'bytes')


def is_oid(v):
    """does v stand for an oid?"""
    return v[0] == 'sym' and v[1] == 'oid' or v[0] == 'call' and mname(v) in ('new_oid',)


CUT = 'a record is not cut out of a request as the client put it in'


class Dialog:
    """one path of the client against paths of the server"""

    def __init__(self, rule):
        self.rule = rule

    def size(self, v, bind):
        """the number that v is"""
        if v in bind:
            return bind[v]
        if v[0] == 'c' and isinstance(v[2], int):
            return number(v[2])
        if v[0] == 'op' and len(v[2]) == 2:
            a, b = self.size(v[2][0], bind), self.size(v[2][1], bind)
            if v[1] == 'Add':
                return add(a, b)
            if v[1] == 'Sub':
                return add(a, scale(b, -1))
            for x, y in ((a, b), (b, a)):
                if v[1] == 'Mult' and set(x) <= {''}:
                    return scale(y, x.get('', 0))
            if v[1] == 'FloorDiv':
                return self.divided(a, b, v)
        if v[0] == 'call':
            n = mname(v)
            if n == 'len' and v[2]:
                return self.length(v[2][0], bind)
            if n in ('str_to_int4', 'ord', 'from_bytes') and v[2]:
                x = v[2][0]
                if x in bind:
                    return bind[x]
            if n == 'int' and len(v[2]) == 1:
                return self.size(v[2][0], bind)
        if v[0] == 'item' and v[1][0] == 'call' and mname(v[1]) == 'divmod' and v[2] == const(0):
            return self.divided(self.size(v[1][2][0], bind), self.size(v[1][2][1], bind), v)
        return {v: 1}

    def divided(self, a, b, v):
        if set(b) == {''} and b[''] and all(k % b[''] == 0 for k in a.values()):
            return dict((x, k // b['']) for x, k in a.items())
        return {v: 1}

    def length(self, v, bind):
        """the length of v"""
        if v[0] == 'c' and isinstance(v[2], (bytes, str)):
            return number(len(v[2]))
        if v[0] == 'call':
            n = mname(v)
            if n == 'int4_to_str':
                return number(4)
            if n == 'int8_to_str':
                return number(8)
            if n == 'chr':
                return number(1)
            if n in ('pack', 'to_bytes'):
                x = wire.form(v, v[2][0] if n == 'to_bytes' else v[2][-1])
                if x:
                    return number(x[0])
            if n == 'join' and v[2]:
                x = v[2][-1]
                if ('bytes', x) in bind:
                    return bind['bytes', x]
                if x[0] in ('list', 'tuple'):
                    return add(*[self.length(y, bind) for y in x[1]])
                return scale(self.count(x, bind), 8)
            if n in ('as_bytes', 'bytes', 'encode') and v[2]:
                return self.length(v[2][0], bind)
            if n in ('list', 'tuple', 'sorted', 'set', 'frozenset') and v[2]:
                return self.count(v[2][0], bind)
            if n == 'split_oids' and v[2]:
                return self.divided(self.length(v[2][0], bind), number(8), v)
        if ('len', v) in bind:
            return bind['len', v]
        w = v
        while v[0] == 'old':
            v = v[1]
        if is_oid(v) or v[0] == 'key' or v[0] == 'item' and v[1][0] == 'new':
            return number(8)
        return {('len', w): 1}

    def count(self, v, bind):
        if ('len', v) in bind:
            return bind['len', v]
        if v[0] == 'call' and mname(v) in ('list', 'tuple', 'sorted', 'iter') and v[2]:
            return self.count(v[2][0], bind)
        return {('len', v): 1}

    # a state: positions in the two traces, the two queues, what terms are bound to
    def play(self, c, s, known=()):
        """c, s: traces.  None if these paths never meet, else a message ('' if
        they fit)"""
        self.bind = {}
        self.known = {}         # number -> True if zero, False if not
        pos = [0, 0]
        queue = [[], []]        # what the client, the server has sent
        tr = (c, s)
        self.loops = []
        # what the paths know about their own numbers may come later
        while True:
            moved = False
            for w in (0, 1):
                while pos[w] < len(tr[w]):
                    t = tr[w][pos[w]]
                    if t[0] == 'w':
                        self.sent(queue[w], t, tr[w], pos[w])
                    elif t[0] == '=':
                        self.filled(t)
                    elif t[0] == '?':
                        r = self.test(t)
                        if r is False:
                            return None
                    elif t[0] == 'r':
                        r = self.received(queue[1 - w], t)
                        if r is None:
                            break
                        if r:
                            return r
                    elif t[0] in ('loop', 'left'):
                        break
                    pos[w] += 1
                    moved = True
            if all(pos[w] < len(tr[w]) and tr[w][pos[w]][0] == 'loop' for w in (0, 1)) and \
                    not queue[0] and not queue[1]:
                a, b = tr[0][pos[0]], tr[1][pos[1]]
                r = self.both(a, b)
                if r:
                    return r
                pos[0] += 1
                pos[1] += 1
                moved = True
            if not moved:
                break
        if pos[1] < len(tr[1]) and tr[1][pos[1]][0] == 'r' or queue[1] and pos[0] < len(tr[0]):
            if self.maybe(queue):
                return None
        if pos[0] < len(tr[0]):
            t = tr[0][pos[0]]
            if t[0] == 'r':
                return 'the client waits for what the server does not send'
            return 'the server does not answer each time that the client expects it'
        if pos[1] < len(tr[1]):
            t = tr[1][pos[1]]
            if t[0] == 'r':
                return 'the server waits for what the client does not send'
            return 'the client does not read every answer of the server'
        if any(self.zero(x[1]) is not True for x in queue[0]):
            return 'the server does not read all that the client sends'
        if any(self.zero(x[1]) is not True for x in queue[1]):
            return 'the client does not read all that the server sends'
        return ''

    def filled(self, t):
        """a list of known elements"""
        n, b = [], []
        for x in t[2]:
            if x[0] == 'all':
                n.append(self.count(x[1], self.bind))
                b.append(scale(n[-1], 8))
            else:
                n.append(number(1))
                b.append(add(*[self.length(y, self.bind) for y in x[1]]))
        self.bind['len', t[1]] = add(*n)
        self.bind['bytes', t[1]] = add(*b)

    def possible(self, trace):
        """do the tests of a path agree with each other?"""
        self.bind, self.known = {}, {}
        for t in trace:
            if t[0] == '=':
                self.filled(t)
            elif t[0] == 'r':
                self.bind['len', t[2]] = self.size(t[1], self.bind)
            elif t[0] == '?' and self.test(t) is False:
                return False
        return True

    def maybe(self, queue):
        return False

    def zero(self, p):
        if not p:
            return True
        if any(k == '' for k in p) and all(v > 0 for v in p.values()):
            return False
        if len(p) == 1:
            return self.known.get(list(p)[0])
        return None

    def sent(self, q, t, trace, at):
        for x in t[1]:
            n = self.length(x, self.bind)
            for y in trace:     # a list that is filled up to a number
                if y[0] == '?' and y[1][0] == '<' and not y[2] and y[1][1][0] == 'call' \
                        and mname(y[1][1]) == 'len':
                    k = ('len', y[1][1][2][0])
                    if k in n:
                        n = add(dict((a, b) for a, b in n.items() if a != k),
                                scale(self.size(y[1][2], self.bind), n[k]))
            if n:
                q.append((x, n))

    def received(self, q, t):
        n = self.size(t[1], self.bind)
        while q and self.zero(q[0][1]) is True:
            q.pop(0)
        if self.zero(n) is True:
            self.bind['len', t[2]] = {}
            return ''
        if not q:
            return None
        x, m = q[0]
        if n == m:
            q.pop(0)
            self.value(t[2], x, n)
            return ''
        # several writes for one read, or one for several
        if set(n) == {''} and set(m) == {''}:
            if m[''] > n[''] and x[0] == 'c':
                v = x[2].encode('latin1') if isinstance(x[2], str) else x[2]
                q[0] = (const(v[n['']:]), number(m[''] - n['']))
                self.value(t[2], const(v[:n['']]), n)
                return ''
            if m[''] < n['']:
                got, i = 0, 0
                while i < len(q) and set(q[i][1]) == {''} and got < n['']:
                    got += q[i][1]['']
                    i += 1
                if got == n['']:
                    del q[:i]
                    self.bind['len', t[2]] = n
                    return ''
        return 'what is read is not what the other side writes'

    def value(self, r, x, n):
        self.bind['len', r] = n
        self.bind['val', r] = x
        self.bind[r] = {('val', x): 1}
        if x[0] == 'call' and mname(x) in ('int4_to_str', 'chr', 'pack', 'to_bytes') and x[2]:
            a = [y for y in x[2] if not (y[0] == 'c' and isinstance(y[2], str))]
            self.bind[r] = self.size(a[0], self.bind) if a else {x: 1}
        if x[0] == 'c' and isinstance(x[2], bytes):
            self.bind[r] = {x: 1} if len(x[2]) != 4 else number(int.from_bytes(x[2], 'big'))
        elif x[0] == 'c' and isinstance(x[2], str):
            self.bind['val', r] = const(x[2].encode('latin1'))

    def test(self, t):
        """False if the test contradicts what is known"""
        a, yes = t[1], t[2]
        op = a[0]
        if op == 'truth':
            return self.is_zero(self.truth(a[1]), not yes)
        if op == '==':
            x, y = a[1], a[2]
            if x[0] != 'c':
                x, y = y, x
            if x[0] == 'c' and isinstance(x[2], (bytes, str)):
                v = self.bind.get(('val', y))
                if v is not None and v[0] == 'c':
                    w = x[2].encode('latin1') if isinstance(x[2], str) else x[2]
                    if yes and v[2] == w:
                        self.bind['tested', y] = True
                    return (v[2] == w) == yes
                if x[2] == b'' or x[2] == '':
                    return self.is_zero(self.length(y, self.bind), yes)
                return None
            if x == const(0):
                return self.is_zero(self.size(y, self.bind), yes)
            if yes and x[0] == 'c' and isinstance(x[2], int) and y[0] == 'call' and \
                    mname(y) == 'len' and y[2] and ('len', y[2][0]) not in self.bind:
                self.bind['len', y[2][0]] = number(x[2])
            return None
        if op == '<' and self.zero(self.size(a[1], self.bind)) is True:
            return self.is_zero(self.size(a[2], self.bind), not yes)
        if op == '<' and a[2] == const(1):
            return self.is_zero(self.size(a[1], self.bind), yes)
        if op == '<=' and a[2] == const(0):
            return self.is_zero(self.size(a[1], self.bind), yes)
        return None

    def truth(self, v):
        if ('val', v) in self.bind or v[0] == 'call' and mname(v) in ('join', 'split_oids') or \
                ('len', v) in self.bind and v not in self.bind:
            return self.length(v, self.bind)
        p = self.size(v, self.bind)
        return {('len', v): 1} if p == {v: 1} and v[0] in ('attr', 'new', 'sym', 'xm') else p

    def is_zero(self, p, yes):
        z = self.zero(p)
        if z is not None:
            return z == yes
        if len(p) == 1:
            self.known[list(p)[0]] = yes
        return None

    def both(self, a, b):
        """two loops that run at the same time"""
        xs = [self.over(y) for y in (a[1], b[1])]
        n = [self.times(y) for y in (a[1], b[1])]
        if xs[0] != xs[1] and (not any(self.numbers(y) for y in (a[1], b[1])) or n[0] != n[1]):
            return 'client and server do not go through the same oids'
        sub = Dialog(self.rule)
        n = 0
        for c in self.rule.client_loops[a[1]]:
            for s in self.rule.server_loops[b[1]]:
                r = sub.play(c, s)
                if r:
                    return r
                if r == '':
                    n += 1
                    r = sub.untested(c) or sub.marks(c, s)
                    if r:
                        return r
        return '' if n else 'client and server do not fit in a loop'

    def numbers(self, v):
        return v[0] == 'call' and mname(v) in ('range', 'xrange') and len(v[2]) == 1

    def times(self, v):
        """how often does a loop run?"""
        if self.numbers(v):
            return self.size(v[2][0], self.bind)
        while v[0] == 'call' and mname(v) in ('enumerate', 'list', 'iter', 'tuple') and v[2]:
            v = v[2][-1]
        if v[0] == 'call' and mname(v) == 'split_oids':
            return self.length(v, self.bind)
        return self.count(v, self.bind)

    def over(self, v):
        while v[0] == 'call' and mname(v) in ('split_oids', 'list', 'tuple', 'iter', 'join',
                                              'enumerate') and v[2] or v in self.src():
            v = v[2][-1] if v not in self.src() else self.bind['val', v]
        return v

    def src(self):
        return [k[1] for k in self.bind if isinstance(k, tuple) and len(k) == 2 and k[0] == 'val']

    def marks(self, c, s):
        """the errors of the server and those that the client raises"""
        if not any(t[0] == 'r' and t[1] == const(1) for t in c):
            return ''
        mine = [t[1] for t in c if t[0] == '!']
        theirs = [t[1] for t in s if t[0] == '!']
        if 'own' in mine:
            return ''
        for e in theirs:
            if not any(self.rule.sub(x, e) for x in mine):
                return 'the client does not raise what happened at the server (%s)' % e.rpartition('.')[2]
        if mine and not theirs:
            return 'the client raises an error though nothing went wrong at the server'
        return ''

    def untested(self, trace):
        """a status that the client does not tell apart from others"""
        for t in trace:
            if t[0] == 'r' and t[1] == const(1):
                r = t[2]
                if ('tested', r) not in self.bind:
                    return 'the server sends a status that the client does not know'
        return ''


class Side(FileObs):
    """the sequence of reads, writes and tests of a path is in st.obs['trace']"""
    opaque_prefixes = FileObs.opaque_prefixes + (U,)

    def __init__(self, cls):
        FileObs.__init__(self)
        self.cls = cls
        self.me = ('sym', 'self', cls)
        self.iters = {}
        self.n = 0
        self.io = None          # the loops in which something is sent or read

    def opaque(self, qual):
        return FileObs.opaque(self, qual) or qual.startswith(HIDE)

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == U + 'as_bytes' and len(args) == 1:
            return [(st, args[0])]
        if qual == U + 'iteritems' and len(args) == 1:
            return i.call_method(st, args[0], 'items', [], {}, node, cx)
        if qual in (U + 'str_to_int4', U + 'str_to_int8') and args and args[0][0] == 'slice':
            st = st.copy()
            v = ('call', 'a.field', (), i.site(node, cx))
            st.obs['cut'] = args[0]     # v becomes old in it
            i.fresh(st, v)
            st.heap[(v, '#cut')] = st.obs.pop('cut')
            return [(st, v)]
        if qual in (U + 'str_to_int4', U + 'int4_to_str', U + 'str_to_int8', U + 'int8_to_str',
                    'durus.serialize.split_oids') and args:
            return [(st, ('call', qual, tuple(args), 0))]
        if qual == U + 'read_int4' and args:
            return self.reads(i, st, const(4), node, cx, 'str_to_int4')
        if qual == U + 'read_int4_str' and args:
            r = []
            for s, n in self.reads(i, st, const(4), node, cx, 'str_to_int4'):
                r += self.reads(i, s, n, node, cx, None, 1)
            return r
        if qual == U + 'read' and len(args) == 2:
            return self.reads(i, st, args[1], node, cx)
        if qual == '.recv' and self.sock(i, recv) and args:
            out = self.reads(i, st, args[0], node, cx)
            for s, v in out:
                s.obs.setdefault('partial', v)
            return out
        if qual in (U + 'write', U + 'write_all', U + 'write_int4', U + 'write_int4_str',
                    '.sendall', '.send') and (recv is None or self.sock(i, recv)):
            x = list(args) if recv is not None else list(args[1:])
            if qual == U + 'write_int4':
                x = [('call', U + 'int4_to_str', (x[0],), 0)]
            elif qual == U + 'write_int4_str':
                x = [('call', U + 'int4_to_str', (('call', 'builtins.len', (x[0],), 0),), 0), x[0]]
            st = st.copy()
            self.put(st, ('w', tuple(z for y in x for z in self.flat(st, y))))
            if qual == '.send':
                v = ('call', qual, (recv,) + tuple(args), i.site(node, cx))
                i.fresh(st, v)
                st.obs.setdefault('partial', v)
                return [(st, v)]
            return [(st, NONE)]
        return FileObs.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def sock(self, i, v):
        return v is not None and i.class_of(v) == 'socket'

    def flat(self, st, v):
        """what is written, piece by piece"""
        if v[0] == 'op' and v[1] == 'Add':
            return [y for x in v[2] for y in self.flat(st, x)]
        if v[0] == 'op' and v[1] == 'Mod' and v[2][0][0] == 'c' and isinstance(v[2][0][2], (str, bytes)):
            f = v[2][0][2]
            f = f if isinstance(f, str) else f.decode('latin1')
            a = v[2][1]
            a = list(a[1]) if a[0] == 'tuple' else [a]
            p = f.split('%s')
            if len(p) == len(a) + 1 and '%' not in ''.join(p):
                out = []
                for j, x in enumerate(p):
                    out += [const(x)] if x else []
                    out += self.flat(st, a[j]) if j < len(a) else []
                return out
        if v[0] == 'call' and mname(v) == 'join' and v[2] and v[2][-1][0] in ('list', 'tuple'):
            return [y for x in v[2][-1][1] for y in self.flat(st, x)]
        if v[0] == 'call' and mname(v) == 'join' and v[2]:
            c = st.heap.get((v[2][-1], '[]'))
            if c and c[0] == 'exact' and v[2][-1][0] == 'new' and \
                    not any(x[0] == 'all' for x in c[1]):
                return [y for x in c[1] for y in self.flat(st, x)]
        if v[0] == 'call' and mname(v) == 'encode' and v[2]:
            return self.flat(st, v[2][0])
        return [v]

    def reads(self, i, st, n, node, cx, conv=None, k=0):
        st = st.copy()
        v = ('call', U + 'read', (('sym', 's', None), n), i.site(node, cx) + (k,))
        i.fresh(st, v)
        self.put(st, ('r', n, v))
        return [(st, ('call', U + conv, (v,), 0) if conv else v)]

    def put(self, st, t):
        self.n += 1
        tr = st.obs.get('trace', ())
        if len(tr) < 40 and not (t[0] == '!' and t in tr):
            st.obs['trace'] = tr + (t,)

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'iter' and (self.io is None or ev[1] in self.io):
            tr = b.get('trace', ())
            if self.io is not None:
                b['trace'] = tr = tr + (('loop', ev[1]),)
            b[('at', ev[1])] = len(tr)
        elif k in ('next', 'done'):
            at = b.get(('at', ev[1]))
            tr = b.get('trace', ())
            if at is not None and len(tr) > at:
                self.iters.setdefault(ev[1], set()).add(tr[at:])
                b['trace'] = tr[:at]
            if at is not None and k == 'done':
                b.pop(('at', ev[1]))
        elif k == 'call' and mname(ev) == 'join' and ev[3]:
            self.known(st, ev[3][-1])
        self.counted(st, ev)
        if k == 'called' and mname(ev) == 'load' and ev[5] is not None:
            st.facts[('is', ev[5], NONE)] = st.facts[('is', NONE, ev[5])] = False   # it raises
        elif k == 'assume':
            t = ('?', ev[1], ev[2])
            if 'partial' in b:
                part = b['partial']
                size = ('call', 'builtins.len', (part,), 0)
                if any(x in (part, size) or x[0] in ('slice', 'op') and contains(
                        x, lambda y: y == part) for x in ev[1][1:] if isinstance(x, tuple)):
                    b.pop('partial')
            if self.relevant(b.get('trace', ()), ev[1]) and t not in b.get('trace', ()):
                for x in ev[1][1:]:
                    if x[0] == 'call' and mname(x) == 'len' and x[2]:
                        self.known(st, x[2][0])
                self.put(st, t)
        elif k == 'raise' and ev[1][0] == 'exc':
            self.put(st, ('!', ev[1][1]))

    def counted(self, st, ev):
        """lists that get one element in each round of a loop over a range"""
        b, k = st.obs, ev[0]
        if k in ('iter', 'next', 'done'):
            it = ev[1]
            if it[0] != 'call' or mname(it) not in ('range', 'xrange') or len(it[2]) != 1:
                return
            if k == 'iter':
                b['range', it] = None
                return
            if ('range', it) not in b:
                return
            got = b['range', it]
            if got is not None:
                got = frozenset(c for c, n in got if n == 1)
                old = b.get(('grown', it))
                b['grown', it] = got if old is None else old & got
            if k == 'next':
                b['range', it] = ()
                return
            b.pop(('range', it))
            grown = b.pop(('grown', it), None)
            if grown is None:
                self.put(st, ('?', ('truth', it[2][0]), False))
            for c in sorted(grown or (), key=repr):
                self.put(st, ('?', ('<', ('call', 'builtins.len', (c,), 0), it[2][0]), False))
        elif k in ('collect', 'mut'):
            for x in list(b):
                if x[0] == 'range' and b[x] is not None:
                    d = dict(b[x])
                    one = k == 'collect' or ev[2] in ('append', 'add')
                    d[ev[1]] = min(9, d.get(ev[1], 0) + (1 if one else 9))
                    b[x] = tuple(sorted(d.items(), key=repr))

    def known(self, st, v):
        """a list of which all elements are known"""
        c = st.heap.get((v, '[]'))
        if c and c[0] == 'exact' and v[0] == 'new':
            t = ('=', v, tuple(x if x[0] == 'all' else ('one', tuple(self.flat(st, x)))
                               for x in c[1]))
            if t not in st.obs.get('trace', ()):
                self.put(st, t)

    def relevant(self, tr, a):
        if a[0] not in ('==', 'truth', '<', '<='):
            return False
        if a[0] == '<' and a[1][0] == 'call' and mname(a[1]) == 'len' and a[2][0] != 'c':
            return True
        return a[0] == 'truth' and a[1][0] in ('attr', 'new') or any(
            x[0] == 'item' or x[0] == 'call' and mname(x) in NUMBERS for x in a[1:]) and (
            a[0] == 'truth' or any(x[0] == 'c' for x in a[1:]))

    def setup(self, i, st, selfv):
        st.heap[(self.me, 's')] = ('sym', 's', 'socket')

    def follow(self, check, rule, f, **kw):
        """the paths of an entry, with those loops that send or read kept apart"""
        p = self.__class__(self.cls)
        if check.run(rule, p, f.qual, setup=p.setup, **kw) is None:
            return None
        self.io = set(k for k, v in p.iters.items() if any(t[0] in 'rw' for tr in v for t in tr))
        outs = check.run(rule, self, f.qual, setup=self.setup, **kw)
        for o in outs or ():
            if o.kind != 'x' and 'partial' in o.st.obs:
                check.finding(rule, f, None, 'the socket may take or give only a part of what is '
                              'sent or asked for here')
                break
        return outs


class ClientSide(Side):
    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and ev[1] == '()' and ev[2] == ('sym', 'handle_invalidations', None):
            return (CONFLICT,)
        return ()


    def on(self, i, st, ev, node):
        Side.on(self, i, st, ev, node)
        b = st.obs
        if ev[0] == 'failed' and ev[1] == '()':
            self.put(st, ('!', 'own'))
        elif ev[0] == 'mut' and ev[2] in ('append', 'extend') and ev[1][0] == 'new' and ev[3]:
            x = ev[3][0]
            x = x[1] if ev[2] == 'extend' and x[0] in ('list', 'tuple') else (x,)
            b['put'] = b.get('put', ()) + tuple(y for z in x for y in self.flat(st, z))
        elif ev[0] in ('iter', 'next', 'done'):
            self.record(i, st, b.pop('put', ()), node)

    def record(self, i, st, pieces, node):
        """what is added to a request for one object: length, oid, record"""
        self.n += 1
        if len(pieces) < 2 or pieces[0][0] != 'call' or mname(pieces[0]) not in (
                'int4_to_str', 'int8_to_str'):
            return
        d = Dialog(self)
        n = add(*[d.length(x, {}) for x in pieces[1:]])
        kinds = [x[1][0] if x[0] == 'old' else x[0] for x in pieces[1:]]
        if d.size(pieces[0][2][0], {}) != n or mname(pieces[0]) != 'int4_to_str' or \
                kinds == ['val', 'key']:
            self.report(i, node, 'a record is not put into a request with its length and oid')


class ServerSide(Side):
    opaque_prefixes = Side.opaque_prefixes + ('durus.storage.Storage.',)

    def setup(self, i, st, selfv):
        pass

    def on(self, i, st, ev, node):
        if ev[0] == 'raise':
            return
        Side.on(self, i, st, ev, node)
        if ev[0] == 'failed' and ev[-1] is not None and ev[-1][0] == 'exc':
            self.put(st, ('!', ev[-1][1]))
        if ev[0] == 'assume' and ev[1][0] == 'in' and ev[2] and ev[1][2][0] == 'attr' and \
                ev[1][2][2] == 'invalid':
            self.put(st, ('!', READ))
        if ev[0] == 'mut' and ev[2] in ('append', 'add', '__setitem__') and contains(
                ev[3], lambda t: t[0] == 'slice'):
            two = ev[3][-1]                 # pieces of the request are put aside
            if two[0] == 'tuple' and len(two[1]) == 2:
                self.stored(i, st, two[1], node)
            st.obs['kept'] = True
        if ev[0] == 'call' and mname(ev) == 'store' and len(ev[3]) == 2:
            self.stored(i, st, ev[3], node)

    def raises(self, i, st, ev, node):
        if ev[0] == 'call' and ev[2] == attr(self.me, 'storage'):
            return {'load': (KEY, READ), 'end': (CONFLICT,)}.get(mname(ev), ())
        return ()

    def stored(self, i, st, args, node):
        """the oid and the record as cut out of the request"""
        self.n += 1
        b = st.obs
        d = Dialog(self)
        oid, rec = cut(d, args[0]), cut(d, args[1])
        if oid is None or rec is None or oid[0] != rec[0] or rec[2] is None or oid[2] is None or \
                contains(args, lambda t: t == ('deep',)):
            b['prev'] = 'unknown'
            return
        ok = add(oid[2], scale(oid[1], -1)) == number(8) and rec[1] == oid[2]
        if b.get('kept'):
            if not ok:
                self.report(i, node, CUT)
            return
        start = add(oid[1], number(-4))
        n = add(rec[2], scale(oid[1], -1))          # should be what the length field says
        w = list(n)[0] if len(n) == 1 and list(n.values()) == [1] else None
        f = st.heap.get((w, '#cut'))
        f = f and cut(d, f)
        if f is None or f[0] != oid[0] or f[1] != start or f[2] != oid[1]:
            ok = False
        if ok and 'prev' not in b and start:
            ok = contains(args, lambda t: t[0] == 'sym' and isinstance(t[1], tuple))
        elif ok and isinstance(b.get('prev'), tuple) and dict(b['prev']) != start:
            ok = contains(args, lambda t: t[0] == 'sym' and isinstance(t[1], tuple))
        b['prev'] = tuple(sorted(rec[2].items(), key=repr)) if b.get('prev') is None else 'unknown'
        if not ok:
            self.report(i, node, CUT)


def cut(d, v):
    """(what, from, to) of a slice"""
    if v[0] != 'slice' or v[4] != NONE:
        return None
    lo = d.size(v[2], {}) if v[2] != NONE else {}
    hi = d.size(v[3], {}) if v[3] != NONE else None
    if v[1][0] == 'slice':
        c = cut(d, v[1])
        if c is None:
            return None
        return c[0], add(c[1], lo), add(c[1], hi) if hi is not None else c[2]
    return v[1], lo, hi


class Match:
    """all paths of an operation of the client against those of the handlers"""

    def __init__(self, check, server, client):
        self.check, self.p = check, check.p
        self.client_loops, self.server_loops = client.iters, server.iters

    def unrolled(self, c, s):
        """when the client leaves a loop in the middle, what the server does in it"""
        n = sum(1 for t in c if t[0] == 'loop'), sum(1 for t in s if t[0] == 'loop')
        if not c or n[0] < 1 or c[-1][0] != '!' or n[0] > n[1]:
            return [s]
        last = max(k for k, t in enumerate(c) if t[0] == 'loop')
        if not any(t[0] in 'rw' for t in c[last:]):
            return [s]
        at = [k for k, t in enumerate(s) if t[0] == 'loop'][n[0] - 1]
        return [s[:at + 1] + x + (('left',),) for x in self.server_loops[s[at][1]]]

    def sub(self, c, d):
        return self.p.is_subclass(c, d)


def trace_of(o, out):
    return out.st.obs.get('trace', ())


def requests(tr):
    """a trace, as one trace per request"""
    res, known = [], []
    for t in tr:
        if t[0] in '?=':
            known.append(t)
        c = t[1][0] if t[0] == 'w' and t[1] else None
        if c is not None and c[0] == 'c' and isinstance(c[2], (str, bytes)) and len(c[2]) >= 1:
            x = c[2] if isinstance(c[2], str) else c[2].decode('latin1')
            if x[0] in LETTERS:
                res.append((x[0], list(known)))
        if res:
            res[-1][1].append(t)
    return [(c, tuple(x)) for c, x in res]


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ.'


def decide(check):
    p = check.p
    wire.rules(check, 'wire')
    ops = []
    sent = set()
    for name, f in check.roots(CLIENT):
        o = ClientSide(CLIENT)
        outs = o.follow(check, 'client', f)
        check.oblige('client', o.n)
        if outs is None:
            continue
        paths = set()
        for out in outs:
            tr = trace_of(o, out)
            for c, t in requests(tr):
                sent.add(c)
                paths.add((c, t, out.kind == 'x'))
        if paths:
            ops.append((f, o, paths))
    handlers = {}
    for c in sorted(sent):
        f = p.funcs.get("%s.handle_%s" % (SERVER, c))
        if f is None:
            continue
        o = ServerSide(SERVER)
        outs = o.follow(check, 'server', f, args={'s': ('sym', 's', 'socket')})
        check.oblige('server', o.n)
        if outs is None:
            continue
        good = set()
        for out in outs:
            tr = trace_of(o, out)
            if out.kind == 'x':
                e = out.val.val[1] if out.val.kind == 'exc' and out.val.val and \
                    out.val.val[0] == 'exc' else None
                if e and any(p.is_subclass(e, x) for x in (KEY, READ, CONFLICT)):
                    check.finding('server', f, None, 'a client is not told of a missing object or '
                                  'a conflict, its connection is closed')
                continue
            good.add(tr)
        handlers[c] = (f, o, good)
    for f, o, paths in ops:
        for c in sorted(set(x[0] for x in paths)):
            mine = [x for x in paths if x[0] == c]
            if c not in handlers:
                if any(t[0] == 'r' for x in mine for t in x[1]):
                    check.finding('dialog', f, None, 'the server does not know a request that '
                                  'the client sends (%r)' % c)
                continue
            hf, ho, good = handlers[c]
            m = Match(check, ho, o)
            for _, t, failed in mine:
                met = 0
                for s in good:
                    for s in m.unrolled(t, s):
                        d = Dialog(m)
                        r = d.play(t, (('r', const(1), ('call', 'first', (), 0)),) + s)
                        check.oblige('dialog')
                        if r is None:
                            continue
                        met += 1
                        r = r or d.untested(t) or d.marks(t, s)
                        if r:
                            check.finding('dialog', f, None, r, detail='request %r, handled by '
                                          '%s' % (c, hf.qual))
                if not met and not failed and Dialog(m).possible(t):
                    check.finding('dialog', f, None, 'nothing that the server does leads to how '
                                  'the client goes on', detail=repr(t)[:500])
