"""The C extension, as clang parses it, is followed over all paths of every function
that a type or method table names, with every call of the Python API that can fail
failing.  The references that the path owns are counted for each object: none is left
over or missing at the return, none is released that is not owned, no null or released
pointer is followed or given away, no call is made while an exception is set, and
failure is returned exactly when one is set.  Deallocation releases, clearing empties
and traversal visits every object field of the structure."""
TECHNIQUE = "ownership and exception-state analysis of all paths over clang's syntax tree"

from .common import attr

FILE = 'durus/_persistent.c'
FREE = ('PyObject_GC_Del', 'PyObject_Free', 'PyObject_Del')
STATIC = ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct')


def called(n):
    f = n['inner'][0]
    while f['kind'] != 'MemberExpr' and len(f.get('inner', ())) == 1:
        f = f['inner'][0]
    return f.get('name')


def decide(check):
    from .. import cfront as cf
    p = check.p
    try:
        unit = cf.load(p)
    except cf.GiveUp as e:
        check.undecided.append('C: %s' % e)
        return
    if unit is None:
        return
    slots = {}
    for t, sl in unit.slots().items():
        for slot, fn in sl.items():
            slots.setdefault(fn, slot)
    for fn in unit.entries():
        check.functions.add(FILE + ':' + fn)
        try:
            function(check, cf, unit, fn, slots.get(fn))
        except cf.GiveUp as e:
            check.undecided.append('C: %s: %s' % (fn, e))


def function(check, cf, unit, fn, slot):
    f = unit.funcs[fn]
    rule = {'tp_dealloc': 'dealloc', 'tp_clear': 'clear', 'tp_traverse': 'traverse'}.get(slot, 'paths')
    params = [x for x in f['inner'] if x['kind'] == 'ParmVarDecl']
    me = ('v', 'self', 0)
    ret = f['type']['qualType'].partition('(')[0].strip()

    def say(line, msg):
        check.finding(rule, fn, line, msg, file=FILE)

    class Paths(cf.Run):
        def external(self, st, name, args, n):
            if name == '*' and len(args) == 2 and slot == 'tp_traverse':
                st.obs[('visit', args[0])] = True
            frees = args and args[0] == me and (name in FREE or name == '*' and called(n) == 'tp_free')
            if frees and st.obs.get('freed'):
                self.report(n, 'the memory of an object is released twice')
            out = cf.Run.external(self, st, name, args, n)
            if frees:
                for s, v in out:
                    s.obs['freed'] = True
                    s.dead = s.dead | {me}
            return out
    r = Paths(unit, owner=slot == 'tp_dealloc')
    r.owner_term = me
    r.nullable = (fn,) if slot in ('tp_setattro', 'tp_new') else ()
    outs = r.function(fn, {0: me})
    check.paths += len(outs)
    check.events += r.steps
    check.oblige(rule, r.calls)
    for line, msg in r.reports:
        say(line, msg)
    end = unit.line(f)
    fields = []
    if params:
        fields = [x['name'] for x in unit.fields(params[0]['type']['qualType']) or ()
                  if x['type'].get('qualType') in cf.PY]
    for st, v in outs:
        check.oblige(rule)
        refs = dict(st.refs)
        if ret == 'PyObject *' and v is not None:
            null = v == cf.NULL or r.nz(st, v) is False
            if v[0] == 'v' and not null:
                refs[v] = refs.get(v, 0) - 1
            if v in st.dead:
                say(end, 'an object is returned after its last reference was released')
            if null and not st.exc:
                say(end, 'failure is returned without an exception')
            elif not null and st.exc and (v[0] == 'addr' or r.nz(st, v)):
                say(end, 'success is returned with an exception set')
        elif ret == 'int' and slot in ('tp_setattro', 'tp_init') and v is not None and v[0] == 'i':
            if (v[1] < 0) != st.exc:
                say(end, 'success is returned with an exception set' if st.exc else
                    'failure is returned without an exception')
        for t, c in refs.items():
            if c > 0 and not (t[1] == 'field' and r.nz(st, t) is False):
                say(end, 'a reference may be leaked')
            elif c < 0:
                say(end, 'a reference may be released or given away without being owned')
        for x in fields:
            t = ('v', 'field', ('mem', me, x))
            if r.nz(st, t) is False:
                continue
            if slot == 'tp_dealloc' and t not in st.refs:
                say(end, 'a field is not released with its object: ' + x)
            elif slot == 'tp_clear' and st.mem.get(('mem', me, x)) != cf.NULL:
                say(end, 'a field is not cleared for the garbage collector: ' + x)
            elif slot == 'tp_traverse' and v == ('i', 0) and not st.obs.get(('visit', t)):
                say(end, 'a field is not shown to the garbage collector: ' + x)
        if slot == 'tp_dealloc' and not st.obs.get('freed'):
            say(end, 'the memory of an object is not released')
