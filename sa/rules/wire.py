"""Numbers as bytes and the reading and writing of a given number of bytes, which
the rules about the protocol and about files build on."""
import struct
from ..engine import NONE, const
from .common import mname
from ..rule import Obs

U = 'durus.utils.'
SOCK = ('sym', 'f', 'socket')


def form(v, arg):
    """(bytes, big endian, signed) of a conversion that gives v"""
    if v[0] == 'item' and v[2] == const(0):
        v = v[1]
    if v[0] != 'call' or arg not in v[2]:
        return None
    n, a = mname(v), [x[2] for x in v[2] if x[0] == 'c']
    if n in ('pack', 'unpack') and a and isinstance(a[0], (str, bytes)):
        f = a[0] if isinstance(a[0], str) else a[0].decode('latin1')
        try:
            return (struct.calcsize(f), f[:1] in '>!', f[-1:].islower())
        except struct.error:
            return None
    if n == 'to_bytes' and len(a) >= 2:
        return (a[0], a[1] == 'big', len(a) > 2 and a[2] is True)
    if n == 'from_bytes' and len(a) >= 1:
        return (None, a[-1] == 'big' or 'big' in a, True in a)
    return None


class Wire(Obs):
    """what is asked of the socket, and what the paths know about the rest"""
    def __init__(self, size):
        Obs.__init__(self)
        self.size, self.n = size, 0

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == U + 'as_bytes' and len(args) == 1:
            return [(st, args[0])]
        if qual == 'builtins.getattr' and args and args[0] == SOCK:
            return [(st, args[2] if len(args) > 2 else NONE)]
        if qual in ('.recv', '.send') and recv == SOCK and args:
            st = st.copy()
            self.n += 1
            v = ('call', 'a' + qual, (), i.site(node, cx))
            if st.obs.get('parts') == 'many':
                i.fresh(st, v)
                return [(st, v)]
            st.obs['asked'] = args[0]
            i.fresh(st, v)
            x = ((st.obs.pop('asked'), v),)
            st.obs['parts'] = x = st.obs.get('parts', ()) + x
            if len(x) > 2:
                st.obs['parts'] = 'many'
                st.obs.pop('last', None)
            return [(st, v)]
        return None

    def on(self, i, st, ev, node):
        if ev[0] == 'assume' and st.obs.get('parts') != 'many':
            st.obs['last'] = (ev[1], ev[2])
            for asked, n in st.obs.get('parts', ()):
                if nothing({ev[1]: ev[2]}, n):
                    st.obs['none'] = st.obs.get('none', ()) + (n,)
            self.n += 1


def rules(check, rule):
    from .c20 import Dialog, add, scale
    p = check.p
    v = ('sym', 'v', None)
    forms = {}
    for n, size in (('int4_to_str', 4), ('str_to_int4', 4), ('int8_to_str', 8), ('str_to_int8', 8)):
        f = p.funcs.get(U + n)
        if f is None:
            continue
        a = f.node.args.args
        outs = check.run(rule, Obs(), f.qual, args={a[0].arg: v})
        check.oblige(rule)
        for o in outs or ():
            if o.kind == 'r' and o.val is not None:
                x = form(o.val, v)
                forms[n] = x
                if x is not None and (x[0] not in (size, None) or not x[1] or x[2]):
                    check.finding(rule, f, None, 'not an unsigned number of %d bytes, most '
                                  'significant byte first' % size)
    d = Dialog(None)
    for n in ('read', 'write'):
        f = p.funcs.get(U + n)
        if f is None:
            continue
        names = [x.arg for x in f.node.args.args]
        o = Wire(d)
        arg = ('sym', names[1], None if n == 'read' else 'bytes')
        outs = check.run(rule, o, f.qual, args={names[0]: SOCK, names[1]: arg})
        check.oblige(rule, o.n)
        for out in outs or ():
            if out.kind == 'x':
                continue
            parts = out.st.obs.get('parts', ())
            last = out.st.obs.get('last')
            if not parts or parts == 'many':
                continue
            bad = None
            none = out.st.obs.get('none', ())
            if n == 'read':
                want = d.size(arg, {})
                for asked, part in parts:
                    x = asked
                    if x[0] == 'call' and mname(x) == 'min':
                        xs = [d.size(y, {}) for y in x[2]]
                    else:
                        xs = [d.size(x, {})]
                    if want not in xs and not any(plain(y) for y in (asked,)):
                        bad = 'more is read from a socket than was asked for'
                    want = add(want, scale(d.length(part, {}), -1))
                bad = bad or left(d, last, want)
            else:
                want = d.length(arg, {})
                for asked, part in parts:
                    while asked[0] == 'slice' and asked[2] in (NONE, const(0)) and \
                            asked[4] == NONE:       # the first part of it
                        asked = asked[1]
                    if not same(d.length(asked, {}), want, none) and not plain(asked) and \
                            not same(length(d, asked), want, none):
                        bad = 'what was not sent is not sent again'
                    want = add(want, scale(d.size(part, {}), -1))
                bad = bad or left(d, last, want, none)
            if bad:
                check.finding(rule, f, None, bad)


def nothing(facts, n):
    """is this count known to be zero on the path?"""
    return facts.get(('truth', n)) is False or facts.get(('<', const(0), n)) is False or \
        facts.get(('<', n, const(1))) is True or facts.get(('==', const(0), n)) is True or \
        facts.get(('==', n, const(0))) is True


def plain(v):
    """a number that the loop made unknown"""
    from ..engine import contains
    return contains(v, lambda t: t == ('deep',) or t[0] == 'sym' and isinstance(t[1], tuple))


def length(d, v):
    from .c20 import add, scale
    if v[0] == 'slice' and v[4] == NONE and v[3] == NONE:
        return add(length(d, v[1]), scale(d.size(v[2], {}), -1))
    return d.length(v, {})


def same(a, b, none):
    return all(a.get(t, 0) == b.get(t, 0) for t in set(a) | set(b) if t not in none)


def left(d, last, want, none=()):
    """does the last test say that nothing is left?"""
    from .c20 import add, scale
    if last is None:
        return 'it is not known that everything was transferred'
    a, yes = last
    if plain(a[1]) or len(a) > 2 and plain(a[2]):
        return None
    if a[0] == '<' and not yes:
        got = add(d.size(a[2], {}), scale(d.size(a[1], {}), -1))
    elif a[0] == '==' and yes:
        got = add(d.size(a[2], {}), scale(d.size(a[1], {}), -1))
        if same(got, scale(want, -1), none):
            got = want
    elif a[0] == 'truth' and not yes:
        got = length(d, a[1])
        if got == {('len', a[1]): 1}:
            got = d.size(a[1], {})
    else:
        return 'it is not known that everything was transferred'
    return None if same(got, want, none) else 'it is not known that everything was transferred'
