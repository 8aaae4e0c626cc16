"""All paths of PersistentBase.__getattribute__ and __setattr__, and of the methods of
PersistentObject that they and the container classes rely on, are followed with every
call that may fail failing.  At the raw access to an attribute whose name is not known
to be exempt the path must have loaded the state or know that it is loaded, and have
recorded the access (or know that there is no connection or the access is recorded) or
noted the change (or know that it is noted).  The exempt names are compared with the
fixed set, in the Python conditions and in load_triggering_name of the C extension,
whose paths, like those of pb_getattro and pb_setattro, are followed over clang's syntax
tree."""
import ast
from ..engine import NONE, const, contains
from ..rule import Obs
from .common import attr, mname

P = 'durus.persistent.'
PB, PO = P + 'PersistentBase', P + 'PersistentObject'
SELF, NAME = ('sym', 'self', PO), ('sym', 'name', None)
STATUS, CONN = attr(SELF, '_p_status'), attr(SELF, '_p_connection')
SERIAL, NOW = attr(SELF, '_p_serial'), attr(attr(SELF, '_p_connection'), 'transaction_serial')
UNSAVED, SAVED, GHOST = const(1), const(0), const(-1)
SPECIAL = frozenset(['__repr__', '__class__', '__setstate__'])
RAW = {'builtins.object.__getattribute__': 'read', 'builtins.object.__setattr__': 'change',
       'builtins.object.__delattr__': 'change'}


def consts(p, t):
    """the strings in a constant container"""
    if t[0] in ('tuple', 'list', 'set') and isinstance(t[1], tuple):
        els = t[1]
        if all(e[0] == 'c' for e in els):
            return frozenset(e[2] for e in els)
    if t[0] == 'c' and isinstance(t[2], (tuple, frozenset)):
        return frozenset(t[2])
    if t[0] == 'sym' and isinstance(t[1], tuple) and t[1][0] == 'global':
        t = t[1]
        tree = p.modules[t[1]].tree
        for n in ast.walk(tree):
            if isinstance(n, (ast.Dict, ast.Tuple, ast.List, ast.Set, ast.Call)) and \
                    (n.lineno, n.col_offset) == (t[2], t[3]):
                if isinstance(n, ast.Call):
                    if len(n.args) != 1 or not isinstance(n.args[0], (
                            ast.Dict, ast.Tuple, ast.List, ast.Set)):
                        return None
                    n = n.args[0]
                els = n.keys if isinstance(n, ast.Dict) else n.elts
                if all(isinstance(e, ast.Constant) for e in els):
                    return frozenset(e.value for e in els)
    return None


class Access(Obs):
    def __init__(self, p, opaque=()):
        Obs.__init__(self)
        self.p, self.n = p, 0
        self.hidden = opaque

    def opaque(self, qual):
        return Obs.opaque(self, qual) or qual.rpartition('.')[2] in self.hidden

    def raises(self, i, st, ev, node):
        if mname(ev) in ('_p_load_state', 'load_state', '_p_note_change', 'note_change',
                         'note_access', '__setstate__'):
            return ('builtins.KeyError',)
        return ()

    # what is known on a path
    def status(self, st, *values):
        """is the status known to be one of these?"""
        v = st.heap.get((SELF, '_p_status'), STATUS)
        if v in values:
            return True
        if v[0] == 'c':
            return False
        left = set((UNSAVED, SAVED, GHOST))
        for a, yes in st.facts.items():
            if a[0] in ('==', 'is') and v in a[1:]:
                c = a[2] if a[1] == v else a[1]
                left = left & {c} if yes else left - {c}
            elif a[0] == '<' and a[1] == v and a[2][0] == 'c':
                left = set(x for x in left if (x[2] < a[2][2]) == yes)
            elif a[0] == '<' and a[2] == v and a[1][0] == 'c':
                left = set(x for x in left if (a[1][2] < x[2]) == yes)
            elif a == ('truth', v):
                left = set(x for x in left if bool(x[2]) == yes)
            elif a[0] == 'in' and a[1] == v:
                s = consts(self.p, a[2])
                if s is not None:
                    left = set(x for x in left if (x[2] in s) == yes)
        return left <= set(values)

    def loaded(self, st):
        return st.obs.get('loaded') or self.status(st, UNSAVED, SAVED)

    def prefix(self, st):
        """is the name known to start, or not to start, with _p_? else None"""
        for a, yes in st.facts.items():
            if a[0] in ('==', 'is') and ('c', 'str', '_p_') in a[1:]:
                x = a[2] if a[1] == ('c', 'str', '_p_') else a[1]
                if x[0] == 'slice' and x[1] == NAME and x[2] in (NONE, const(0)) and x[3] == const(3):
                    return yes
            if a[0] == 'truth' and a[1][0] == 'call' and mname(a[1]) == 'startswith' and \
                    a[1][2][-1] == ('c', 'str', '_p_') and NAME in a[1][2]:
                return yes
        return None

    def special(self, st):
        """(names the name may be one of or None, names it is known not to be)"""
        some, none = None, set()
        for a, yes in st.facts.items():
            if a[0] == 'in' and a[1] == NAME:
                s = consts(self.p, a[2])
                if s is None:
                    continue
                if yes:
                    some = s if some is None else some & s
                else:
                    none |= s
            elif a[0] in ('==', 'is') and NAME in a[1:]:
                c = a[2] if a[1] == NAME else a[1]
                if c[0] == 'c':
                    if yes:
                        some = frozenset([c[2]])
                    else:
                        none.add(c[2])
        return some, none

    def exempt(self, st):
        some, none = self.special(st)
        return self.prefix(st) is True or some is not None and some - none <= SPECIAL

    def ordinary(self, st):
        some, none = self.special(st)
        return (self.prefix(st) is False or some is not None) and (
            SPECIAL <= none or some is not None and not (some & SPECIAL))

    def on(self, i, st, ev, node):
        b, k = st.obs, ev[0]
        if k == 'called':
            m = mname(ev)
            if m == '_p_load_state' and ev[2] == SELF or m == 'load_state' and SELF in ev[3]:
                b['loaded'] = True
            elif m == 'note_access' and SELF in ev[3] and ev[2] == CONN:
                b['noted'] = True
            elif m == '_p_note_change' and ev[2] == SELF or m == 'note_change' and SELF in ev[3] \
                    and ev[2] == CONN:
                b['changed'] = True
            elif m == '__setstate__' and SELF in ((ev[2],) + ev[3]):
                b['cleared'] = True
        elif k in ('set', 'rawset') and ev[1] == SELF and ev[2] == '_p_status':
            if ev[3] == GHOST:
                b.pop('loaded', None)
        elif k == 'call':
            m = mname(ev)
            if m in ('_p_load_state', 'load_state', 'note_access', '_p_note_change') and \
                    SELF in ((ev[2],) + ev[3]) and self.strict and not self.ordinary(st):
                self.n += 1
                self.report(i, node, 'access to an exempt name is treated like others')
            kind = RAW.get(ev[1])
            a = ev[3] if ev[2] is None else (ev[2],) + ev[3]
            if kind and a[:2] == (SELF, NAME):
                self.n += 1
                self.raw(i, st, kind, node)

    strict = True

    def raw(self, i, st, kind, node):
        b = st.obs
        if self.exempt(st):
            return
        if kind == 'change':
            if not b.get('changed') and not self.status(st, UNSAVED):
                self.report(i, node, 'an attribute may be changed without noting the change')
            return
        if not self.loaded(st):
            self.report(i, node, 'an attribute may be read of an object that is not loaded')
        if not b.get('noted') and st.facts.get(('is', CONN, NONE)) is not True and not any(
                st.facts.get((op,) + q) for op in ('==', 'is')
                for q in ((SERIAL, NOW), (NOW, SERIAL))):
            self.report(i, node, 'an attribute may be read without recording the access')


def python(check):
    p = check.p
    for q in (PB + '.__getattribute__', PB + '.__setattr__', PO + '.__delattr__'):
        f = p.funcs.get(q)
        if f is None:
            if q.endswith('__delattr__'):
                check.finding('python', p.need_func(PO + '.__repr__'), None,
                              'deleting an attribute does not note the change')
                continue
            f = p.need_func(q)
        o = Access(p, ('_p_load_state', '_p_note_change'))
        o.strict = not q.endswith('__delattr__')
        names = [x.arg for x in f.node.args.args]
        args = {names[1]: NAME}
        check.run('python', o, f.qual, args=args, selfv=SELF)
        check.oblige('python', o.n)
    state(check, '_p_note_change', ('_p_load_state',), changed)
    state(check, '_p_load_state', (), load)
    state(check, '_p_set_status_unsaved', ('_p_load_state',), unsaved)
    state(check, '_p_set_status_saved', (), saved)
    state(check, '_p_set_status_ghost', ('__setstate__',), ghost)
    f = p.need_func(PB + '.__new__')

    def made(i, outs):
        for out in outs:
            check.oblige('python')
            v = out.val
            if out.kind != 'r' or not isinstance(v, tuple):
                continue
            for n, x in (('_p_status', UNSAVED), ('_p_connection', NONE), ('_p_oid', NONE)):
                if out.st.heap.get((v, n), x) != x:
                    check.finding('python', f, None, 'a new object starts with a wrong ' + n)
    check.run('python', Access(p), f.qual, then=made)
    for q in (PO + '.__getstate__', P + 'Persistent.__getstate__'):
        f = p.funcs.get(q)
        if f is not None:
            o = State(p, ('_p_load_state',))
            check.run('state', o, f.qual, selfv=SELF)
            check.oblige('state', o.n)


class State(Access):
    """reading the whole state"""
    strict = False

    def model(self, i, st, qual, recv, args, kwargs, node, cx):
        if qual == 'builtins.object.__getattribute__' and args[:1] == [SELF] and \
                args[1:] == [('c', 'str', '__dict__')] and not self.loaded(st):
            self.report(i, node, 'the state may be taken of an object that is not loaded')
        return Access.model(self, i, st, qual, recv, args, kwargs, node, cx)

    def on(self, i, st, ev, node):
        Access.on(self, i, st, ev, node)
        if ev[0] == 'call' and ev[1] == 'builtins.object.__getattribute__' and ev[3][:1] == (SELF,) \
                and not self.loaded(st):
            self.report(i, node, 'the state may be taken of an object that is not loaded')


def state(check, name, hidden, rule):
    f = check.p.need_func(PO + '.' + name)
    o = Access(check.p, hidden)
    o.strict = False

    def then(i, outs):
        for out in outs:
            if out.kind in 'nr':
                check.oblige('state')
                why = rule(o, out.st, out.st.heap.get((SELF, '_p_status'), STATUS))
                if why:
                    check.finding('state', f, None, why)
    check.run('state', o, f.qual, then=then, selfv=SELF)


def changed(o, st, v):
    if v == STATUS and o.status(st, UNSAVED):
        return None
    if v != UNSAVED:
        return 'an object may not become unsaved when its change is noted'
    if not st.obs.get('changed'):
        return 'a change may not be registered with the connection'
    return loaded_first(o, st)


def loaded_first(o, st):
    left = dict(st.heap)
    st.heap.pop((SELF, '_p_status'), None)
    ok = o.loaded(st)
    st.heap.clear()
    st.heap.update(left)
    return None if ok else 'an object may become usable without loading its state'


def load(o, st, v):
    if v != SAVED:
        return 'an object is not marked as loaded after loading its state'
    return None if st.obs.get('loaded') else 'an object is marked as loaded without loading its state'


def unsaved(o, st, v):
    return 'an object does not become unsaved' if v != UNSAVED else loaded_first(o, st)


def saved(o, st, v):
    return 'an object does not become saved' if v != SAVED else None


def ghost(o, st, v):
    if v != GHOST:
        return 'an object does not become a ghost'
    return None if st.obs.get('cleared') else 'a ghost may keep its state'


# ---- the C extension

def truth(st, v):
    return st.conds.get(('nz', v))


def against(st, base, text, whole):
    """do the conditions of the path rule out a name (or a start of it)?"""
    def differs(at, lit, exact):
        t = text[at:]
        if exact and whole:
            return t != lit
        if exact:
            return not lit.startswith(t)
        if whole:
            return not t.startswith(lit)
        n = min(len(t), len(lit))
        return t[:n] != lit[:n]
    for (b, k), (is_, not_) in st.chars.items():
        if b != base:
            continue
        c = ord(text[k]) if k < len(text) else 0 if k == len(text) and whole else None
        if c is not None and (is_ is not None and is_ != c or c in not_):
            return True
    for key, yes in st.conds.items():
        if key[0] == 'str' and key[1] == base:
            _, _, at, lit, exact = key
            if yes and differs(at, lit, exact):
                return True
            t = text[at:]
            if not yes and (whole and (t == lit if exact else t.startswith(lit)) or
                            not whole and not exact and t.startswith(lit)):
                return True
    return False


def proves(st, base, text, whole):
    """do they show that it is this name, or starts so?"""
    n = 0
    while n < len(text) and st.chars.get((base, n), (None,))[0] == ord(text[n]):
        n += 1
    if n == len(text) and (not whole or st.chars.get((base, n), (None,))[0] == 0):
        return True
    return any(key[0] == 'str' and key[1] == base and yes and key[2] <= n and (
        text[key[2]:] == key[3] and key[4] if whole else key[3].startswith(text[key[2]:]))
        for key, yes in st.conds.items())


LOADS, NOTES, CHANGES = '_p_load_state', 'note_access', '_p_note_change'


def c_access(check, unit, cf, fname, kind):
    me, name = ('v', 'self', 0), ('v', 'name', 0)
    conn = ('v', 'field', ('mem', me, 'p_connection'))
    status = ('v', 'field', ('mem', me, 'p_status'))
    found = []

    def bases(st):
        return set(k[0] for k in st.chars) | set(k[1] for k in st.conds if k[0] == 'str')

    def exempt(st):
        return any(proves(st, b, '_p_', False) or any(proves(st, b, s, True) for s in SPECIAL)
                   for b in bases(st))

    def ordinary(st):
        bs = bases(st)
        return all(any(against(st, b, s, w) for b in bs)
                   for s, w in [('_p_', False)] + [(s, True) for s in SPECIAL])

    def unclear(st):
        return any(k[0] in ('nz', 'eq', 'lt') and 'strcmp' in repr(k) or
                   'CompareWith' in repr(k) or "'strncmp'" in repr(k) or "'memcmp'" in repr(k)
                   for k in st.conds)

    def eq(st, v, n):
        return st.conds.get(('eq', v, ('i', n)))

    class Paths(cf.Run):
        def external(self, st, fn, args, n):
            called = None
            if fn.startswith('PyObject_CallMethod') and len(args) >= 2:
                called = args[1][1] if args[1][0] == 's' else ''
                if called in (LOADS, NOTES, CHANGES) and not ordinary(st) and not unclear(st):
                    found.append((n, 'access to an exempt name is treated like others'))
            if fn in ('PyObject_GenericGetAttr', 'PyObject_GenericSetAttr',
                      '_PyObject_GenericGetAttrWithDict', '_PyObject_GenericSetAttrWithDict') and \
                    args[0] == me:
                check.oblige('C')
                self.raw(st, n)
            out = cf.Run.external(self, st, fn, args, n)
            for s, v in out:
                if called is not None and v != cf.NULL:
                    s.obs[called] = True
                    if called == NOTES or called == LOADS or called == CHANGES:
                        s.obs[called] = (args[0] == me) == (called != NOTES) or \
                            args[0] == conn and called == NOTES
            return out

        def raw(self, st, n):
            if st.exc:
                found.append((n, 'an attribute may be accessed after a failure'))
            if unclear(st) or exempt(st) or '' in st.obs:
                return
            g, o = status, st.obs
            if kind == 'change':
                if not o.get(CHANGES) and eq(st, g, 1) is not True:
                    found.append((n, 'an attribute may be changed without noting the change'))
                return
            if not o.get(LOADS) and not (eq(st, g, -1) is False or eq(st, g, 0) or eq(st, g, 1)):
                found.append((n, 'an attribute may be read of an object that is not loaded'))
            if not o.get(NOTES) and truth(st, conn) is not False and not any(
                    k[0] == 'eq' and y and (
                        conn in k and ('addr', '_Py_NoneStruct') in k or
                        ('v', 'field', ('mem', me, 'p_serial')) in k and
                        "'transaction_serial'" in repr(k)) for k, y in st.conds.items()):
                found.append((n, 'an attribute may be read without recording the access'))
    r = Paths(unit)
    r.nullable = (fname,) if kind == 'change' else ()
    r.function(fname, {0: me, 1: name})
    for n, msg in found:
        check.finding('C', fname, unit.line(n), msg, file='durus/_persistent.c')


def extension(check):
    from .. import cfront as cf
    p = check.p
    try:
        unit = cf.load(p)
        if unit is None:
            return
        m = p.modules['durus.persistent'].tree
        for n in m.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                    n.targets[0].id in ('UNSAVED', 'SAVED', 'GHOST'):
                check.oblige('C')
                v = ast.literal_eval(n.value)
                if unit.enums.get(n.targets[0].id, v) != v:
                    check.finding('C', 'enum status', 0, 'the status constants of the C and the '
                                  'Python implementation differ', file='durus/_persistent.c')
        for t, sl in unit.slots().items():
            if not str(sl.get('tp_name', '')).endswith('PersistentBase'):
                continue
            for slot, kind in (('tp_getattro', 'read'), ('tp_setattro', 'change')):
                fn = sl.get(slot)
                if fn not in unit.funcs:
                    check.finding('C', t, 0, 'PersistentBase does not define ' + slot,
                                  file='durus/_persistent.c')
                    continue
                c_access(check, unit, cf, fn, kind)
            fn = sl.get('tp_new')
            if fn in unit.funcs:
                r = cf.Run(unit)
                for st, v in r.function(fn):
                    check.oblige('C')
                    if v is not None and v[0] == 'v' and st.mem.get(
                            ('mem', v, 'p_status'), ('i', 1)) != ('i', 1):
                        check.finding('C', fn, 0, 'a new object is not unsaved',
                                      file='durus/_persistent.c')
    except cf.GiveUp as e:
        check.undecided.append('C: %s' % e)


def decide(check):
    python(check)
    extension(check)
