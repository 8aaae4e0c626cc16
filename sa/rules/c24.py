"""Interface conformance and classification.  The operations of every storage class are
resolved through its bases and compared with the interface: each must exist and accept
the calls of the interface and of every caller in the program (call sites resolved by
operation name on a storage), and no path may end in NotImplementedError.  On every
path of sync(), load(), new_oid(), get_packer(), bulk_load() and gen_oid_record() the
result is compared with what callers do with it (an oid and its record, in this order; an
iterator of pack steps or None; a record).  The header that each class recognises is
taken from the paths of has_format(), and every path of get_storage_class() whose tests
accept a file with such a header must return that class."""
import ast

from ..engine import NONE, mentions
from ..model import Func
from ..rule import Obs

STORAGE = 'durus.storage.Storage'
OPS = ('load', 'begin', 'store', 'end', 'sync', 'new_oid', 'close', 'get_packer', 'pack',
       'bulk_load', 'gen_oid_record')
# formats of other programs
FOREIGN = {'durus.sqlite_storage.SqliteStorage': b'SQLite format 3\0'}
MAIN = 'durus.__main__.'


class Yields(Obs):
    def __init__(self, opaque=()):
        Obs.__init__(self)
        self.opaque_names = tuple(opaque)
        self.yields = []

    def on(self, i, st, ev, node):
        if ev[0] == 'yield':
            self.yields.append((ev[1], st, getattr(node, 'lineno', None)))


def constant(v):
    return v[0] == 'c' and v != NONE


def accepts(fn, npos, keywords, method=True):
    """does a FunctionDef accept a call with these arguments? None or why not"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if method and pos and not any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                                  for d in fn.decorator_list):
        pos = pos[1:]
    if npos > len(pos) and not a.vararg:
        return 'takes %d arguments, not %d' % (len(pos), npos)
    given = set(pos[:npos])
    for k in keywords:
        if k in given:
            return '%s is given twice' % k
        if k not in pos and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'does not take %s' % k
        given.add(k)
    need = pos[:len(pos) - len(a.defaults)]
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for x in need:
        if x not in given:
            return 'needs %s' % x
    return None


def interface_calls(fn):
    """the calls that the signature in the interface allows"""
    a = fn.args
    pos = [x.arg for x in a.args][1:]
    need = len(pos) - len(a.defaults)
    out = [(need, ())]
    for k in range(need, len(pos)):
        out.append((need, tuple(pos[need:k + 1])))
        out.append((need, (pos[k],)))
    if len(pos) == need + 1:
        out.append((len(pos), ()))
    return out


def is_storage(n):
    """an expression that stands for a storage"""
    if isinstance(n, ast.Attribute):
        return n.attr == 'storage'
    if isinstance(n, ast.Name):
        return n.id == 'storage'
    if isinstance(n, ast.Call):
        f = n.func
        return isinstance(f, ast.Attribute) and f.attr == 'get_storage' or \
            isinstance(f, ast.Name) and f.id == 'get_storage'
    return False


def calls_of(p):
    """(operation, positional, keywords, function name, line, file)"""
    out = []
    for q, f in p.funcs.items():
        aliases = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and is_storage(n.value):
                aliases[n.targets[0].id] = True
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) or n.func.attr not in OPS:
                continue
            r = n.func.value
            if not (is_storage(r) or isinstance(r, ast.Name) and r.id in aliases):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            out.append((n.func.attr, len(n.args), tuple(k.arg for k in n.keywords), q, n.lineno, f.file))
    return out


def decide(check):
    p = check.p
    p.need_class(STORAGE)
    base = p.classes[STORAGE]
    classes = sorted(q for q in p.subclasses(STORAGE) if q != STORAGE)
    check.need(len(classes) >= 4, 'only %d storage classes' % len(classes))
    calls = calls_of(p)
    check.need(len(calls) >= 10, 'only %d calls of storage operations' % len(calls))

    for cls in classes:
        for op in OPS:
            r = p.lookup(cls, op)
            check.oblige('operations')
            if r is None or not isinstance(r[1], Func) or not isinstance(r[1].node, ast.FunctionDef):
                check.finding('operations', cls, p.classes[cls].node.lineno,
                              'the storage has no operation %s()' % op, file=p.classes[cls].module.path)
                continue
            f = r[1]
            b = base.body.get(op)
            shapes = [(n, k, 'the interface') for n, k in interface_calls(b.node)] \
                if isinstance(b, Func) and isinstance(b.node, ast.FunctionDef) else []
            shapes += [(n, k, '%s line %d' % (q, line)) for o, n, k, q, line, file in calls if o == op]
            for n, k, who in shapes:
                check.oblige('calls')
                why = accepts(f.node, n, k)
                if why:
                    check.finding('calls', f, f.node.lineno, '%s() %s, though %s calls it so' % (op, why, who),
                                  key='%s %s %s' % (op, n, k))
            judge(check, cls, op, f)

    formats(check, classes)


def judge(check, cls, op, f):
    p = check.p
    opaque = ['%s.%s' % (c, o) for c in p.classes for o in ('load', 'bulk_load')
              if (c == STORAGE or p.is_subclass(c, STORAGE)) and o != op]
    opaque += ['durus.serialize.unpack_record', 'durus.serialize.pack_record']
    if op in ('gen_oid_record', 'get_packer', 'pack'):
        # a base class implementation that is called with other arguments stays inside
        opaque += ['durus.shelf.iteritems', 'durus.utils.iteritems']
    if op in ('close', 'begin', 'store', 'end', 'pack'):
        quick_abstract(check, cls, op, f)
        return
    obs = Yields(opaque)

    def then(i, outs):
        for o in outs:
            check.oblige('results')
            if o.kind == 'x':
                if o.val.kind == 'exc' and o.val.val[1] == 'builtins.NotImplementedError':
                    check.finding('operations', f, f.node.lineno, '%s() is not implemented for every argument' % op,
                                  entry=cls)
                continue
            v = o.val if o.kind == 'r' else NONE
            if f.is_gen:
                continue
            msg = result(op, v)
            if msg:
                check.finding('results', f, f.node.lineno, msg, entry=cls)
    check.run('results', obs, f.qual, then=then, cls=cls)
    for v, st, line in obs.yields:
        check.oblige('results')
        msg = yielded(op, v, st)
        if msg:
            check.finding('results', f, line or f.node.lineno, msg, entry=cls)


def quick_abstract(check, cls, op, f):
    """paths that end in NotImplementedError, by the statements of the method"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Raise) and n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            if isinstance(e, ast.Name) and e.id == 'NotImplementedError':
                check.finding('operations', f, n.lineno, '%s() is not implemented' % op, entry=cls)


def result(op, v):
    if v is None or v == NONE:
        if op == 'get_packer':
            return None
        return '%s() may return None' % op
    if op == 'get_packer':
        if constant(v) or v[0] in ('tuple', 'new', 'cls', 'fn', 'bm') and not (
                v[0] == 'new' and str(v[2]).startswith('durus.')):
            return 'get_packer() returns something that is neither None nor an iterator of pack steps'
        if v[0] == 'call' and v[1] in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted'):
            return 'get_packer() returns a sequence, which the server cannot step through with next()'
    if op in ('sync', 'bulk_load', 'gen_oid_record') and constant(v) and v[1] not in ('str', 'bytes'):
        return '%s() returns something that is not a sequence' % op
    if op == 'load' and v[0] == 'tuple':
        return 'load() returns more than the record'
    if op == 'new_oid' and (v[0] == 'c' and v[1] in ('int', 'bool') or v[0] == 'op' and v[1] in ('Add', 'Sub')
                            and any(x[0] == 'c' and x[1] == 'int' for x in v[2])):
        return 'new_oid() returns a number'
    return None


def name(v):
    return v[1].rpartition('.')[2] if v[0] == 'call' else None


def is_record(v, op=None):
    """a term that is known to be a record"""
    if name(v) in ('load', 'pack_record'):
        return True
    return v[0] in ('elem', 'item') and v[0] == 'elem' and name(v[1]) == 'bulk_load'


def is_oid(v):
    """a term that is known to be an oid"""
    if name(v) in ('int8_to_str', 'new_oid'):
        return True
    return v[0] == 'item' and name(v[1]) == 'unpack_record' and v[2] == ('c', 'int', 0)


def yielded(op, v, st):
    while v[0] == 'old':
        v = v[1]
    if op == 'gen_oid_record':
        if v[0] == 'tuple':
            if len(v[1]) != 2:
                return 'gen_oid_record() yields %d values, not an oid and a record' % len(v[1])
            a, b = v[1]
            if is_record(a) or is_oid(b):
                return 'gen_oid_record() yields a record where the oid is expected'
            if name(b) == 'load' and b[2] and b[2][-1] != a:
                return 'gen_oid_record() yields the record of another oid'
            if name(b) == 'pack_record' and b[2] and b[2][0] != a:
                return 'gen_oid_record() yields the record of another oid'
        elif constant(v) or v == NONE or is_record(v) or is_oid(v):
            return 'gen_oid_record() yields something that is not an oid and a record'
    elif op == 'bulk_load':
        if v[0] == 'tuple' or constant(v) or v == NONE:
            return 'bulk_load() yields something that is not a record'
        if name(v) == 'load' and v[2]:
            o = v[2][-1]
            if o[0] == 'elem' and o[1] != ('sym', 'oids', None) and mentions(o[1], ('sym', 'oids', None)) and \
                    any(reorders(x) for x in terms(o[1])):
                return 'bulk_load() loads records in another order than asked for'
    return None


def terms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from terms(x)


def reorders(x):
    return bool(x) and x[0] == 'call' and len(x) > 1 and x[1] in (
        'builtins.sorted', 'builtins.reversed', 'builtins.set', 'builtins.frozenset')


# ---- formats
class Reads(Obs):
    pass


def text(v):
    """the value of a constant"""
    return v[2] if v[0] == 'c' else None


def raw(v):
    v = text(v)
    if isinstance(v, str):
        return v.encode('latin-1', 'replace')
    return v if isinstance(v, bytes) else None


def headers(check, cls):
    """the first bytes of the files that has_format() of a class accepts"""
    r = check.p.lookup(cls, 'has_format')
    if r is None or not isinstance(r[1], Func):
        return None
    found, other = set(), []

    def then(i, outs):
        for o in outs:
            if o.kind == 'r' and o.val == ('c', 'bool', True) or o.kind == 'r' and o.val[0] != 'c':
                eq = [a for a, t in o.st.facts.items() if a[0] == '==' and t and
                      any(raw(x) is not None for x in a[1:])]
                if eq:
                    for a in eq:
                        x, y = (a[1], a[2]) if raw(a[1]) is not None else (a[2], a[1])
                        found.add(raw(x))
                else:
                    other.append(o)
            elif o.kind == 'x' and o.val.kind == 'exc' and o.val.val[1] == 'durus.utils.ShortRead':
                check.finding('formats', r[1], r[1].node.lineno,
                              'has_format() of a file that is too short raises ShortRead')
    check.run('formats', Reads(), r[1].qual, then=then, cls=cls)
    if other and found:
        check.finding('formats', r[1], r[1].node.lineno,
                      'has_format() accepts a file whose header was not compared')
    return found


def content(v):
    """is this what was read from the beginning of the file? the number of bytes or None"""
    if v[0] == 'call' and v[1] in ('.read', 'durus.utils.read') and v[2] and v[2][-1][0] == 'c' \
            and isinstance(v[2][-1][2], int):
        return v[2][-1][2]
    return None


def test(atom, magic):
    """the truth of a test of the content of a file that starts with magic, or None"""
    if atom[0] == 'truth' and atom[1][0] == 'call' and atom[1][1] == '.startswith' and len(atom[1][2]) == 2:
        n, lit = content(atom[1][2][0]), atom[1][2][1]
        lits = lit[1] if lit[0] == 'tuple' else (lit,)
        if n is None:
            return None
        rs = [prefix(raw(x), magic, n) for x in lits]
        return True if True in rs else None if None in rs else False
    if atom[0] == '==':
        for a, b in (atom[1:], atom[:0:-1]):
            lit = raw(b)
            if lit is None:
                continue
            if content(a) is not None:
                n = content(a)
                if len(lit) != n:
                    return None if len(magic) < n else False
                return prefix(lit, magic, n)
            if a[0] == 'slice' and content(a[1]) is not None:
                lo, hi = (text(x) if x[0] == 'c' else 'x' for x in a[2:4])
                if lo in (None, 0) and isinstance(hi, int) and hi >= 0:
                    n = min(hi, content(a[1]))
                    if len(lit) != n:
                        return None if len(magic) < n else False
                    return prefix(lit, magic, n)
    return None


def prefix(lit, magic, n):
    if lit is None:
        return None
    if len(lit) > n:
        return False
    k = min(len(lit), len(magic))
    if lit[:k] != magic[:k]:
        return False
    return True if len(lit) <= len(magic) else None


def formats(check, classes):
    p = check.p
    magic = {}
    for cls in classes:
        h = headers(check, cls)
        if h is None:
            h = {FOREIGN[cls]} if cls in FOREIGN else None
        if h:
            check.oblige('formats')
            magic[cls] = h
    q = MAIN + 'get_storage_class'
    f = p.funcs.get(q)
    if f is None:
        check.undecided.append('no get_storage_class')
        return
    outs = check.run('formats', Reads(), q)
    if outs is None:
        return
    for cls, ms in sorted(magic.items()):
        for m in sorted(ms):
            seen = 0
            for o in outs:
                facts = [(a, t) for a, t in o.st.facts.items()]
                if any(a[0] == 'truth' and a[1][0] == 'call' and a[1][1].endswith('.exists') and not t
                       for a, t in facts):
                    continue
                verdicts = [(test(a, m), t) for a, t in facts]
                if any(v is not None and v != t for v, t in verdicts):
                    continue
                seen += 1
                check.oblige('formats')
                if o.kind == 'x':
                    if o.val.kind == 'exc' and o.val.val[1] in ('builtins.ValueError',) and \
                            any(v is not None for v, t in verdicts):
                        check.finding('formats', f, f.node.lineno, 'a file of %s is not recognised' % cls)
                elif o.kind == 'r' and o.val[0] == 'cls':
                    if o.val[1] != cls and not p.is_subclass(o.val[1], cls):
                        check.finding('formats', f, f.node.lineno, 'a file of %s is opened with %s'
                                      % (cls, o.val[1]))
                elif o.val == NONE:
                    check.finding('formats', f, f.node.lineno, 'there is no class for a file of %s' % cls)
    # a file that does not exist, and the arguments of the constructors
    made = {o.val[1] for o in outs if o.kind == 'r' and o.val[0] == 'cls'}
    kws = set()
    for qq, g in p.funcs.items():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'get_storage' and \
                    not any(k.arg is None for k in n.keywords):
                kws |= {k.arg for k in n.keywords}
    gs = p.funcs.get(MAIN + 'get_storage')
    own = {a.arg for a in gs.node.args.args + gs.node.args.kwonlyargs} if gs is not None else set()
    for cls in sorted(made):
        r = p.lookup(cls, '__init__')
        if r is None or not isinstance(r[1], Func):
            continue
        check.oblige('constructors')
        why = accepts(r[1].node, 1, tuple(sorted(kws - own)))
        if why:
            check.finding('constructors', r[1], r[1].node.lineno,
                          '%s %s, though it is opened with %s' % (cls, why, ', '.join(sorted(kws - own))))
