"""Path analysis of a C extension module, over clang's syntax tree.

The tree of one source file is taken from clang (after the preprocessor); functions
without loops that repeat are followed over all of their paths, functions of the same
file are inlined, and calls of the Python C API split into success and failure
according to their conventions.  For every value that is an object the references that
the path owns are counted."""
import json
import os
import subprocess
import sysconfig

NULL = ('i', 0)
BORROWED = {'PyModule_GetDict', 'PyDict_GetItem', 'PyDict_GetItemString', 'PyDict_GetItemWithError',
            'PyList_GetItem', 'PyTuple_GetItem', 'PyWeakref_GetObject', 'PySys_GetObject',
            'PyImport_AddModule', 'Py_TYPE', 'PyList_GET_ITEM', 'PyTuple_GET_ITEM', '_PyType_Lookup',
            'PyCell_GET', 'PySequence_Fast_GET_ITEM'}
# these may be called with an exception set, and do not fail
QUIET = {'Py_INCREF', 'Py_DECREF', 'Py_XINCREF', 'Py_XDECREF', 'Py_NewRef', 'Py_XNewRef',
         '_Py_NewRef', '_Py_XNewRef', 'PyErr_Clear', 'PyErr_SetString', 'PyErr_Format',
         'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_Occurred', 'PyErr_NoMemory', 'PyErr_ExceptionMatches',
         'PyErr_Fetch', 'PyErr_Restore', 'PyErr_BadInternalCall', 'PyErr_BadArgument', 'PyObject_GC_Del',
         'PyObject_GC_UnTrack', 'PyObject_GC_Track', 'Py_IS_TYPE', 'Py_TYPE', 'PyObject_TypeCheck',
         'PyType_IsSubtype', 'PyType_HasFeature', 'PyType_FastSubclass', 'Py_REFCNT', 'Py_SIZE', 'Py_Is',
         'Py_IsNone', 'Py_IsTrue', 'Py_IsFalse', 'memcpy', 'strcmp', 'strncmp', 'memcmp', 'strlen',
         '_PyTrash_begin', '_PyTrash_end', '_PyTrash_cond', 'PyThreadState_GetUnchecked',
         '_PyThreadState_UncheckedGet', 'PyObject_Free', 'PyUnicode_Check', 'PyLong_Check',
         'PyTuple_Check', 'PyDict_Check', 'PyType_Check', 'PyUnicode_CheckExact', 'PyThreadState_Get',
         '__builtin_expect', '_Py_IsImmortal', '__assert_fail', 'PyErr_WriteUnraisable'}
NEVER_NEGATIVE = ('PyObject_TypeCheck', 'PyObject_GC_', 'PyType_IsSubtype', 'PyType_HasFeature',
                  'PyType_FastSubclass', 'PyCallable_Check', 'PyObject_CheckBuffer', 'PyIter_Check')
ERR_SET = {'PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_NoMemory',
           'PyErr_BadInternalCall', 'PyErr_BadArgument', 'PyErr_Restore'}
# arguments (by position) that may be NULL
NULL_OK = {'PyObject_CallMethod': {2}, 'PyObject_GenericSetAttr': {2}, 'PyObject_SetAttr': {2},
           'PyObject_CallFunction': {1}, 'PyObject_Call': {2}, 'PyObject_CallObject': {1},
           'PyType_GenericNew': {1, 2}, 'Py_XDECREF': {0}, 'Py_XINCREF': {0}, 'Py_XNewRef': {0},
           '_Py_XNewRef': {0}, 'PyErr_Restore': {0, 1, 2}, 'memcpy': set(),
           'PyObject_CallMethodObjArgs': set(range(2, 12)), 'PyObject_CallFunctionObjArgs': set(range(1, 12)),
           'PyObject_Vectorcall': {3}, 'PyObject_VectorcallMethod': {3}, '_PyTrash_end': {0},
           '_PyTrash_begin': {0}}


class GiveUp(Exception):
    pass


class Unit:
    """the functions and tables of one source file"""
    def __init__(self, path):
        inc = []
        for v in (sysconfig.get_path('include'), '/usr/include/python3.12'):
            if v and os.path.exists(os.path.join(v, 'Python.h')):
                inc = ['-I' + v]
                break
        r = subprocess.run(['clang', '-fsyntax-only', '-w'] + inc + [
            '-Xclang', '-ast-dump=json', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise GiveUp('clang: ' + r.stderr.decode('utf8', 'replace')[-300:])
        self.path = path
        tree = json.loads(r.stdout)
        self.funcs, self.vars, self.enums, self.records, self.decls = {}, {}, {}, {}, {}
        self.types = {}
        line, file = [0], [None]

        def locate(n):
            """clang leaves out a line or file that is the same as before"""
            for k, v in n.items():
                if k in ('inner', 'type', 'referencedDecl', 'decl', 'ownedTagDecl'):
                    continue
                if isinstance(v, dict):
                    if 'offset' in v:
                        if 'file' in v:
                            file[0] = v['file']
                        if 'line' in v:
                            line[0] = v['line']
                        v['line'], v['file'] = line[0], file[0]
                    else:
                        locate(v)
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    locate(c)
        locate(tree)
        for d in tree['inner']:
            k = d.get('kind')
            if 'id' in d:
                self.decls[d['id']] = d
            if k == 'RecordDecl' and d.get('completeDefinition'):
                self.records[d['id']] = [x for x in d.get('inner', ()) if x['kind'] == 'FieldDecl']
                if d.get('name'):
                    self.records['struct ' + d['name']] = self.records[d['id']]
            elif k == 'TypedefDecl':
                self.types[d['name']] = d
            here = self.place(d)[0] == path
            if not here:
                continue
            if k == 'FunctionDecl' and any(x['kind'] == 'CompoundStmt' for x in d.get('inner', ())):
                self.funcs[d['name']] = d
            elif k == 'VarDecl':
                self.vars[d['name']] = d
            elif k == 'EnumDecl':
                n = 0
                for x in d.get('inner', ()):
                    if x['kind'] == 'EnumConstantDecl':
                        v = self.constant(x)
                        n = v if v is not None else n
                        self.enums[x['name']] = n
                        n += 1

    def constant(self, n):
        """the value of a constant expression inside a node, or None"""
        for x in n.get('inner', ()):
            k = x.get('kind')
            if k == 'ConstantExpr' and 'value' in x or k in ('IntegerLiteral', 'CharacterLiteral'):
                return int(x['value'])
            if k == 'DeclRefExpr' and x['referencedDecl']['name'] in self.enums:
                return self.enums[x['referencedDecl']['name']]
            v = self.constant(x)
            if v is not None:
                return -v if k == 'UnaryOperator' and x.get('opcode') == '-' else v
        return None

    def place(self, n):
        for v in (n.get('loc') or {}, (n.get('range') or {}).get('begin') or {}):
            v = v.get('expansionLoc', v)
            if 'line' in v:
                return v.get('file'), v['line']
        return None, 0

    def line(self, n):
        v = (n.get('range') or {}).get('begin') or n.get('loc') or {}
        v = v.get('expansionLoc', v)
        return v.get('line', 0)

    def fields(self, typename):
        """the fields of a structure, by the name of its type"""
        t = typename.replace('const ', '').replace('*', '').strip()
        d = self.types.get(t)
        if d is not None:
            def find(n):
                o = n.get('ownedTagDecl') or n.get('decl')
                if o and o.get('id') in self.records:
                    return self.records[o['id']]
                for c in n.get('inner', ()):
                    r = find(c)
                    if r is not None:
                        return r
                return None
            return find(d)
        return self.records.get(t)

    def slots(self):
        """{type variable: {slot name: function name or string}}"""
        fs = self.records.get('struct _typeobject') or []
        out = {}
        for n, d in self.vars.items():
            if d.get('type', {}).get('qualType') not in ('PyTypeObject', 'struct _typeobject'):
                continue
            lists = [x for x in d.get('inner', ()) if x['kind'] == 'InitListExpr']
            if not lists:
                continue
            sl = {}
            for f, x in zip(fs, lists[0].get('inner', ())):
                y = x
                while y.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr') \
                        and y.get('inner'):
                    y = y['inner'][-1]
                if y.get('kind') == 'UnaryOperator' and y.get('opcode') == '&':
                    y = y['inner'][0]
                if y.get('kind') == 'DeclRefExpr':
                    sl[f['name']] = y['referencedDecl']['name']
                elif y.get('kind') == 'StringLiteral':
                    sl[f['name']] = json.loads(y['value'])
            out[n] = sl
        return out

    def entries(self):
        """functions whose address is put into a table"""
        out = set()

        def walk(n):
            if n.get('kind') == 'DeclRefExpr':
                r = n['referencedDecl']
                if r['kind'] == 'FunctionDecl' and r['name'] in self.funcs:
                    out.add(r['name'])
            for c in n.get('inner', ()):
                if isinstance(c, dict):
                    walk(c)
        for d in self.vars.values():
            walk(d)
        return sorted(out)


class CState:
    __slots__ = ('env', 'mem', 'refs', 'exc', 'chars', 'conds', 'dead', 'obs', 'made')

    def __init__(self):
        self.env, self.mem, self.refs, self.chars, self.conds, self.obs = {}, {}, {}, {}, {}, {}
        self.exc, self.dead, self.made = False, frozenset(), frozenset()

    def copy(self):
        s = CState()
        s.env, s.mem, s.refs, s.chars = dict(self.env), dict(self.mem), dict(self.refs), dict(self.chars)
        s.conds, s.obs = dict(self.conds), dict(self.obs)
        s.exc, s.dead, s.made = self.exc, self.dead, self.made
        return s


PY = ('PyObject *', 'struct _object *', 'PyObject *const')


def is_py(node):
    t = node.get('type', {})
    return t.get('qualType') in PY or t.get('desugaredQualType') in PY


class Run:
    """all paths of one function"""
    def __init__(self, unit, on_call=None, owner=False, limit=20000):
        self.u, self.on_call, self.owner = unit, on_call, owner
        self.limit, self.steps, self.n, self.depth = limit, 0, 0, 0
        self.reports = []       # (line, message)
        self.calls = 0
        self.stack = []

    def report(self, node, msg):
        r = (self.u.line(node) if node else 0, msg)
        if r not in self.reports:
            self.reports.append(r)

    def fresh(self, what):
        self.n += 1
        return ('v', what, self.n)

    def function(self, name, args=None):
        f = self.u.funcs[name]
        st = CState()
        ps = [x for x in f['inner'] if x['kind'] == 'ParmVarDecl']
        for k, x in enumerate(ps):
            v = (args or {}).get(k) or ('v', x.get('name'), 0)
            st.env[x['id']] = v
            if '*' in x['type'].get('qualType', '') and not (
                    k == len(ps) - 1 and name in self.nullable):
                st.conds[('nz', v)] = True
        body = next(x for x in f['inner'] if x['kind'] == 'CompoundStmt')
        self.stack = [name]
        return [(s, v if k == 'return' else None) for s, k, v in self.stmt(st, body)]

    nullable = ()

    # ---- statements: lists of (state, kind, value)
    def stmt(self, st, n):
        self.steps += 1
        if self.steps > self.limit:
            raise GiveUp('too many steps')
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(st, n)
        return [(s, 'next', None) for s, v in self.expr(st, n)]

    def s_CompoundStmt(self, st, n):
        return self.seq(st, n.get('inner', []), 0)

    def labelled(self, n, target):
        if n.get('kind') == 'LabelStmt' and n.get('declId') == target:
            return True
        return any(self.labelled(c, target) for c in n.get('inner', ()) if isinstance(c, dict)) \
            if n.get('kind') in ('CompoundStmt', 'LabelStmt', 'IfStmt') else False

    def seq(self, st, items, at):
        out, todo = [], [(st, at)]
        while todo:
            s, j = todo.pop()
            if j >= len(items):
                out.append((s, 'next', None))
                continue
            for s2, k, v in self.stmt(s, items[j]):
                if k == 'next':
                    todo.append((s2, j + 1))
                elif k == 'goto':
                    t = next((x for x in range(len(items)) if self.labelled(items[x], v)), None)
                    if t is None:
                        out.append((s2, k, v))
                    elif t <= j:
                        raise GiveUp('a loop')
                    else:
                        todo.append((s2, t))
                else:
                    out.append((s2, k, v))
        return out

    def s_LabelStmt(self, st, n):
        return self.seq(st, n['inner'], 0)

    def s_GotoStmt(self, st, n):
        return [(st, 'goto', n.get('targetLabelDeclId'))]

    def s_NullStmt(self, st, n):
        return [(st, 'next', None)]

    def s_DeclStmt(self, st, n):
        pend = [st]
        for d in n.get('inner', ()):
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in pend:
                if d.get('inner') and 'init' in d:
                    for s2, v in self.expr(s, d['inner'][-1]):
                        s2 = s2.copy()
                        s2.env[d['id']] = v
                        nxt.append(s2)
                else:
                    s = s.copy()
                    s.env[d['id']] = ('v', 'undefined', d['id'])
                    nxt.append(s)
            pend = nxt
        return [(s, 'next', None) for s in pend]

    def s_IfStmt(self, st, n):
        out = []
        parts = n['inner']
        for s, yes in self.test(st, parts[0]):
            if yes:
                out.extend(self.stmt(s, parts[1]))
            elif n.get('hasElse'):
                out.extend(self.stmt(s, parts[2]))
            else:
                out.append((s, 'next', None))
        return out

    def s_DoStmt(self, st, n):
        body, cond = n['inner'][0], n['inner'][1]
        out = []
        for s, k, v in self.stmt(st, body):
            if k in ('next', 'continue'):
                for s2, yes in self.test(s, cond):
                    if yes:
                        raise GiveUp('a loop')
                    out.append((s2, 'next', None))
            elif k == 'break':
                out.append((s, 'next', None))
            else:
                out.append((s, k, v))
        return out

    def loop(self, st, init, cond, step, body):
        pend = [st]
        if init:
            pend = [s for s0 in pend for s, k, v in self.stmt(s0, init)]
        out = []
        for _ in range(8):
            nxt = []
            for s0 in pend:
                for s, yes in (self.test(s0, cond) if cond else [(s0, True)]):
                    if not yes:
                        out.append((s, 'next', None))
                        continue
                    for s2, k, v in self.stmt(s, body):
                        if k in ('next', 'continue'):
                            nxt.extend([s3 for s3, v3 in self.expr(s2, step)] if step else [s2])
                        elif k == 'break':
                            out.append((s2, 'next', None))
                        else:
                            out.append((s2, k, v))
            pend = nxt
            if not pend:
                return out
        raise GiveUp('a loop')

    def s_WhileStmt(self, st, n):
        return self.loop(st, None, n['inner'][0], None, n['inner'][1])

    def s_ForStmt(self, st, n):
        i = [x if x and x.get('kind') else None for x in n['inner']]
        return self.loop(st, i[0], i[2], i[3], i[4])

    def s_BreakStmt(self, st, n):
        return [(st, 'break', None)]

    def s_ContinueStmt(self, st, n):
        return [(st, 'continue', None)]

    def s_SwitchStmt(self, st, n):
        cond, body = n['inner'][0], n['inner'][1]
        items = []      # (case value or 'default' or None, statement)

        def flat(x):
            if x['kind'] == 'CaseStmt':
                items.append((self.u.constant({'inner': [x['inner'][0]]}), None))
                flat(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt':
                items.append(('default', None))
                flat(x['inner'][-1])
            else:
                items.append((None, x))
        for x in body.get('inner', ()):
            flat(x)
        out = []
        for s, v in self.expr(st, cond):
            rest = [s]
            starts = []
            for j, (c, x) in enumerate(items):
                if c is None or c == 'default':
                    continue
                nxt = []
                for s1 in rest:
                    for s2, yes in self.decide(s1, ('cmp', '==', v, ('i', c))):
                        (starts.append((s2, j)) if yes else nxt.append(s2))
                rest = nxt
            d = next((j for j, (c, x) in enumerate(items) if c == 'default'), len(items))
            starts.extend((s1, d) for s1 in rest)
            for s1, j in starts:
                for s2, k, v2 in self.seq(s1, [x for c, x in items[j:] if x is not None], 0):
                    out.append((s2, 'next' if k == 'break' else k, v2))
        return out

    def s_ReturnStmt(self, st, n):
        if not n.get('inner'):
            return [(st, 'return', None)]
        return [(s, 'return', v) for s, v in self.expr(st, n['inner'][0])]

    # ---- conditions
    def test(self, st, n):
        out = []
        for s, v in self.expr(st, n):
            out.extend(self.decide(s, v))
        return out

    def split(self, st, key):
        if key in st.conds:
            return [(st, st.conds[key])]
        a, b = st.copy(), st.copy()
        a.conds[key], b.conds[key] = True, False
        return [(a, True), (b, False)]

    def nz(self, st, v):
        """known truth of a value, or None"""
        if v[0] == 'i':
            return v[1] != 0
        if v[0] in ('s', 'addr', 'ref', 'cs'):
            return True
        return st.conds.get(('nz', v))

    def decide(self, st, v):
        if v[0] == 'not':
            return [(s, not y) for s, y in self.decide(st, v[1])]
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if op == '!=':
                return [(s, not y) for s, y in self.decide(st, ('cmp', '==', a, b))]
            if op in ('>', '<='):
                r = self.decide(st, ('cmp', '<', b, a))
                return r if op == '>' else [(s, not y) for s, y in r]
            if op == '>=':
                return [(s, not y) for s, y in self.decide(st, ('cmp', '<', a, b))]
            if a[0] == 'i' and b[0] == 'i':
                return [(st, a[1] == b[1] if op == '==' else a[1] < b[1])]
            if op == '==':
                if a == b:
                    return [(st, True)]
                for x, y in ((a, b), (b, a)):
                    if y == NULL and x[0] != 'char' and x[0] != 'strcmp':
                        return [(s, not r) for s, r in self.decide(st, x)]
                    if x[0] == 'char' and y[0] == 'i':
                        return self.char(st, x, y[1])
                    if x[0] == 'strcmp' and y == NULL:
                        return [(s, not r) for s, r in self.decide(st, x)]
                for x in (a, b):
                    if x == NULL:
                        continue
                if a[0] in ('addr', 's') and b[0] in ('addr', 's'):
                    return [(st, False)]
                if a[0] == 'v' and b[0] == 'addr' and b[1] in NEWISH and a in st.made:
                    return [(st, False)]
                if b[0] == 'i':
                    # a value is equal to one constant only
                    for k, y in st.conds.items():
                        if k[0] == 'eq' and k[1] == a and y and k[2] != b:
                            return [(st, False)]
                key = ('eq', a, b) if b[0] == 'i' or repr(a) <= repr(b) else ('eq', b, a)
                return self.split(st, key)
            return self.split(st, ('lt', a, b))
        if v[0] == 'strcmp':
            out = []
            base, off, lit, whole = v[1:]
            key = ('str', base, off, lit, whole)
            return [(s, not eq) for s, eq in self.split(st, key)]
        if v[0] == 'char':
            return [(s, not y) for s, y in self.char(st, v, 0)]
        t = self.nz(st, v)
        if t is not None:
            return [(st, t)]
        return self.split(st, ('nz', v))

    def char(self, st, c, code):
        """is this character of a string the given one?"""
        key = (c[1], c[2])
        k = st.chars.get(key, (None, frozenset()))
        if k[0] is not None:
            return [(st, k[0] == code)]
        if code in k[1]:
            return [(st, False)]
        a, b = st.copy(), st.copy()
        a.chars[key] = (code, frozenset())
        b.chars[key] = (None, k[1] | {code})
        return [(a, True), (b, False)]

    # ---- expressions: lists of (state, value)
    def expr(self, st, n):
        self.steps += 1
        if self.steps > self.limit:
            raise GiveUp('too many steps')
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise GiveUp('a ' + n['kind'])
        return m(st, n)

    def e_ParenExpr(self, st, n):
        return self.expr(st, n['inner'][-1])
    e_ConstantExpr = e_CStyleCastExpr = e_ParenExpr

    def e_ImplicitCastExpr(self, st, n):
        if n.get('castKind') == 'LValueToRValue':
            return [(s, self.read(s, lv, n)) for s, lv in self.lvalue(st, n['inner'][0])]
        if n.get('castKind') in ('FunctionToPointerDecay', 'ArrayToPointerDecay'):
            x = n['inner'][0]
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr':
                return [(st, ('addr', x['referencedDecl']['name']))]
            if x['kind'] in ('StringLiteral', 'PredefinedExpr'):
                return self.e_StringLiteral(st, x)
            return [(s, ('ref', lv)) for s, lv in self.lvalue(st, x)]
        return self.expr(st, n['inner'][-1])

    def e_IntegerLiteral(self, st, n):
        return [(st, ('i', int(n['value'])))]

    def e_CharacterLiteral(self, st, n):
        return [(st, ('i', int(n['value'])))]

    def e_StringLiteral(self, st, n):
        try:
            return [(st, ('s', json.loads(n['value'])))]
        except (KeyError, ValueError):
            return [(st, ('s', n.get('value', '')))]
    e_PredefinedExpr = e_StringLiteral

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return [(st, ('v', 'size', 0))]
    e_OffsetOfExpr = e_UnaryExprOrTypeTraitExpr

    def e_ImplicitValueInitExpr(self, st, n):
        return [(st, NULL)]

    def e_InitListExpr(self, st, n):
        return [(st, self.fresh('list'))]

    def e_StmtExpr(self, st, n):
        out = []
        body = n['inner'][0]
        items = body.get('inner', [])
        pend = [(st, 'next', None)]
        if len(items) > 1:
            pend = self.seq(st, items[:-1], 0)
        for s, k, v in pend:
            if k != 'next':
                raise GiveUp('a jump out of an expression')
            if items and not items[-1]['kind'].endswith('Stmt'):
                out.extend(self.expr(s, items[-1]))
            else:
                out.append((s, NULL))
        return out

    def e_DeclRefExpr(self, st, n):
        r = n['referencedDecl']
        if r['kind'] == 'EnumConstantDecl':
            return [(st, ('i', self.u.enums[r['name']]) if r['name'] in self.u.enums
                     else ('v', r['name'], 0))]
        if r['kind'] == 'FunctionDecl':
            return [(st, ('addr', r['name']))]
        return [(s, self.read(s, lv, n)) for s, lv in self.lvalue(st, n)]

    def e_MemberExpr(self, st, n):
        return [(s, self.read(s, lv, n)) for s, lv in self.lvalue(st, n)]
    e_ArraySubscriptExpr = e_MemberExpr

    def e_ConditionalOperator(self, st, n):
        out = []
        for s, yes in self.test(st, n['inner'][0]):
            out.extend(self.expr(s, n['inner'][1 if yes else 2]))
        return out

    def e_UnaryOperator(self, st, n):
        op, x = n['opcode'], n['inner'][0]
        if op == '&':
            y = x
            while y['kind'] in ('ParenExpr',):
                y = y['inner'][0]
            if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['kind'] == 'FunctionDecl':
                return [(st, ('addr', y['referencedDecl']['name']))]
            out = []
            for s, lv in self.lvalue(st, x):
                if lv[0] == 'global':
                    out.append((s, ('addr', lv[1])))
                else:
                    out.append((s, ('ref', lv)))
            return out
        if op == '!':
            return [(s, ('not', v)) for s, v in self.expr(st, x)]
        if op == '*':
            return [(s, self.read(s, lv, n)) for s, lv in self.lvalue(st, n)]
        if op in ('++', '--'):
            out = []
            for s, lv in self.lvalue(st, x):
                old = self.read(s, lv, n)
                d = 1 if op == '++' else -1
                if old[0] == 'i':
                    new = ('i', old[1] + d)
                elif old[0] == 'cs':
                    new = ('cs', old[1], old[2] + d)
                else:
                    new = self.fresh('count')
                s = s.copy()
                self.write(s, lv, new, n)
                out.append((s, old if n.get('isPostfix') else new))
            return out
        if op == '-':
            return [(s, ('i', -v[1]) if v[0] == 'i' else self.fresh('neg')) for s, v in self.expr(st, x)]
        if op in ('+', '__extension__'):
            return self.expr(st, x)
        return [(s, self.fresh(op)) for s, v in self.expr(st, x)]

    def e_CompoundAssignOperator(self, st, n):
        out = []
        op = n['opcode'][:-1]
        for s, lv in self.lvalue(st, n['inner'][0]):
            for s2, v in self.expr(s, n['inner'][1]):
                s2 = s2.copy()
                new = self.arith(op, self.read(s2, lv, n), v)
                self.write(s2, lv, new, n)
                out.append((s2, new))
        return out

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i' and op in '+-*':
            return ('i', a[1] + b[1] if op == '+' else a[1] - b[1] if op == '-' else a[1] * b[1])
        if a[0] == 'cs' and b[0] == 'i' and op in '+-':
            return ('cs', a[1], a[2] + (b[1] if op == '+' else -b[1]))
        return ('v', 'op', (op, a, b))

    def e_BinaryOperator(self, st, n):
        op, (a, b) = n['opcode'], n['inner']
        if op == '=':
            out = []
            for s, v in self.expr(st, b):
                for s2, lv in self.lvalue(s, a):
                    s2 = s2.copy()
                    self.write(s2, lv, v, n, a)
                    out.append((s2, v))
            return out
        if op in ('&&', '||'):
            out = []
            for s, yes in self.test(st, a):
                if yes == (op == '||'):
                    out.append((s, ('i', 1 if yes else 0)))
                else:
                    out.extend((s2, ('i', 1 if y else 0)) for s2, y in self.test(s, b))
            return out
        if op == ',':
            return [r for s, v in self.expr(st, a) for r in self.expr(s, b)]
        out = []
        for s, x in self.expr(st, a):
            for s2, y in self.expr(s, b):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    out.append((s2, ('cmp', op, x, y)))
                else:
                    out.append((s2, self.arith(op, x, y)))
        return out

    # ---- places
    def lvalue(self, st, n):
        k = n['kind']
        if k in ('ParenExpr',) or k in ('ImplicitCastExpr', 'CStyleCastExpr') and \
                n.get('castKind') != 'LValueToRValue':
            return self.lvalue(st, n['inner'][-1])
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] in ('ParmVarDecl', 'VarDecl') and r['id'] in st.env:
                return [(st, ('var', r['id']))]
            return [(st, ('global', r['name']))]
        if k == 'MemberExpr':
            out = []
            if n.get('isArrow'):
                for s, v in self.expr(st, n['inner'][0]):
                    self.deref(s, v, n)
                    out.append((s, v[1] + (n['name'],) if v[0] == 'ref' and v[1][0] == 'mem'
                                else ('mem', v, n['name'])))
            else:
                for s, lv in self.lvalue(st, n['inner'][0]):
                    out.append((s, ('mem', lv, n['name'])))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for s, v in self.expr(st, n['inner'][0]):
                self.deref(s, v, n)
                if v[0] == 'ref':
                    out.append((s, v[1]))
                elif v[0] == 'cs':
                    out.append((s, ('ch', v[1], v[2])))
                else:
                    out.append((s, ('mem', v, '*')))
            return out
        if k == 'UnaryOperator':
            return [(s, ('temp', v)) for s, v in self.expr(st, n)]
        if k == 'ArraySubscriptExpr':
            out = []
            for s, v in self.expr(st, n['inner'][0]):
                for s2, j in self.expr(s, n['inner'][1]):
                    self.deref(s2, v, n)
                    if v[0] == 'cs' and j[0] == 'i':
                        out.append((s2, ('ch', v[1], v[2] + j[1])))
                    else:
                        out.append((s2, ('mem', v, ('[]', j))))
            return out
        return [(s, ('temp', v)) for s, v in self.expr(st, n)]

    def read(self, st, lv, n):
        if lv[0] == 'var':
            return st.env[lv[1]]
        if lv[0] == 'ch':
            c = st.chars.get((lv[1], lv[2]))
            return ('i', c[0]) if c and c[0] is not None else ('char', lv[1], lv[2])
        if lv[0] == 'temp':
            return lv[1]
        if lv[0] == 'global':
            return ('v', 'global', lv[1])
        if lv in st.mem:
            return st.mem[lv]
        base = lv[1]
        if base in st.made and is_py(n):
            return NULL         # a new object is zeroed
        v = ('v', 'field', lv)
        if self.owner and is_py(n) and base == self.owner_term and v not in st.refs:
            st.refs[v] = 1
        return v

    owner_term = None

    def write(self, st, lv, v, n, target=None):
        if lv[0] == 'var':
            st.env[lv[1]] = v
            return
        if lv[0] in ('ch', 'temp', 'global'):
            return
        py = target is not None and is_py(target) or lv in st.obs.get('pyfields', ())
        if py and lv[0] == 'mem' and lv[1][0] == 'v':
            old = self.read(st, lv, {'type': {'qualType': 'PyObject *'}})
            if not (self.owner and lv[1] == self.owner_term):
                self.count(st, old, 1)      # the field's reference is now the path's
            self.count(st, v, -1)
        st.mem[lv] = v

    # ---- references
    def counted(self, v):
        return v[0] == 'v'

    def count(self, st, v, d):
        if self.counted(v) and self.nz(st, v) is not False:
            st.refs[v] = st.refs.get(v, 0) + d

    def deref(self, st, v, n):
        if v == NULL or self.nz(st, v) is False:
            self.report(n, 'a null pointer may be followed')
        elif v[0] == 'v' and v[1] == 'field' and self.nz(st, v) is None:
            self.report(n, 'a field that may be null is followed')
        elif v in st.dead:
            self.report(n, 'an object is used after its last reference was released')

    # ---- calls
    def e_CallExpr(self, st, n):
        f = n['inner'][0]
        out = []
        for s, fv in self.expr(st, f):
            pend = [(s, [])]
            for a in n['inner'][1:]:
                pend = [(s3, vs + [v]) for s2, vs in pend for s3, v in self.expr(s2, a)]
            name = fv[1] if fv[0] == 'addr' else None
            for s2, vs in pend:
                self.calls += 1
                if name in self.u.funcs and name not in self.stack:
                    out.extend(self.inline(s2, name, vs))
                else:
                    out.extend(self.external(s2.copy(), name or '*', vs, n))
        return out

    def inline(self, st, name, args):
        f = self.u.funcs[name]
        st = st.copy()
        for x, v in zip([x for x in f['inner'] if x['kind'] == 'ParmVarDecl'], args):
            st.env[x['id']] = v
        body = next(x for x in f['inner'] if x['kind'] == 'CompoundStmt')
        self.stack.append(name)
        try:
            return [(s, v if v is not None else NULL) for s, k, v in self.stmt(st, body)]
        finally:
            self.stack.pop()

    def external(self, st, name, args, n):
        t = n.get('type', {}).get('qualType', '')
        if name == '__builtin_expect':
            return [(st, args[0])]
        # null and dead arguments
        ok = NULL_OK.get(name, ())
        for k, a in enumerate(args):
            if a in st.dead and name != 'PyObject_GC_Del':
                self.report(n, 'an object is used after its last reference was released')
            an = n['inner'][1 + k]
            if k in ok or not ('*' in an.get('type', {}).get('qualType', '')):
                continue
            if name.startswith(('Py', '_Py')) and (a == NULL or self.nz(st, a) is False) and is_py(an):
                self.report(n, 'null may be given to ' + name)
            elif name.startswith(('Py', '_Py')) and a[0] == 'v' and a[1] == 'field' and \
                    self.nz(st, a) is None and is_py(an):
                self.report(n, 'a field that may be null is given to ' + name)
        if st.exc and name not in QUIET and name.startswith(('Py', '_Py')):
            self.report(n, name + ' may be called while an exception is set')
        if self.on_call:
            self.on_call(self, st, name, args, n)
        res = self.api(st, name, args, n, t)
        return res

    def fail(self, st, v, exc=True):
        st = st.copy()
        st.exc = st.exc or exc
        return (st, v)

    def api(self, st, name, args, n, t):
        if name in ('Py_INCREF', 'Py_XINCREF'):
            self.count(st, args[0], 1)
            return [(st, NULL)]
        if name in ('Py_NewRef', '_Py_NewRef', 'Py_XNewRef', '_Py_XNewRef'):
            self.count(st, args[0], 1)
            return [(st, args[0])]
        if name in ('Py_DECREF', 'Py_XDECREF'):
            return self.release(st, args[0], n, name == 'Py_XDECREF')
        if name == 'PyErr_Clear':
            st.exc = False
            return [(st, NULL)]
        if name == 'PyErr_Occurred':
            return [(st, ('addr', 'exception') if st.exc else NULL)]
        if name in ERR_SET:
            st.exc = True
            return [(st, NULL)]
        if name == '_PyTrash_begin':
            return [(st, NULL)]
        if name == 'memcpy' and len(args) == 3 and args[0][0] == 'ref' and args[1][0] == 'ref':
            v = self.read(st, args[1][1], n)
            lv = args[0][1]
            if lv[0] == 'mem' and lv[1][0] == 'v':
                self.write(st, lv, v, n, {'type': {'qualType': 'PyObject *'}})
            else:
                self.write(st, lv, v, n)
            return [(st, args[0])]
        if name in ('strcmp', 'strncmp', 'memcmp') and len(args) >= 2:
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                if x[0] == 'cs' and y[0] == 's':
                    lit, whole = y[1], name == 'strcmp'
                    if not whole:
                        if args[2][0] != 'i':
                            break
                        whole = args[2][1] > len(lit) and name == 'strncmp'
                        lit = lit[:args[2][1]]
                    return [(st, ('strcmp', x[1], x[2], lit, whole))]
            return [(st, ('v', name, tuple(args)))]
        if name in ('PyArg_UnpackTuple', 'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords'):
            good = st.copy()
            lo = hi = 0
            if name == 'PyArg_UnpackTuple' and args[2][0] == 'i':
                lo = args[2][1]
            else:
                lo = 0
            k = 0
            outs = [good]
            for a in args:
                if a[0] == 'ref':
                    k += 1
                    nxt = []
                    for g in outs:
                        if k > lo and name == 'PyArg_UnpackTuple':
                            nxt.append(g.copy())
                        v = self.fresh('arg')
                        g = g.copy()
                        g.conds[('nz', v)] = True
                        self.write(g, a[1], v, n)
                        nxt.append(g)
                    outs = nxt
            return [(g, ('i', 1)) for g in outs] + [self.fail(st, NULL)]
        if t in PY:
            if name in BORROWED:
                v = ('v', name, tuple(args))
                good = st.copy()
                good.conds[('nz', v)] = True
                if name == 'Py_TYPE':
                    return [(good, v)]
                return [(good, v), self.fail(st, NULL, name.endswith('WithError'))]
            if name.startswith(('Py', '_Py')):
                v = self.fresh(name)
                good = st.copy()
                good.conds[('nz', v)] = True
                good.refs[v] = 1
                good.made = good.made | {v}
                return [(good, v), self.fail(st, NULL)]
            return [(st, ('v', name, tuple(args)))]
        if 'char *' in t:
            v = ('cs', self.fresh(name), 0)
            return [(st.copy(), v), self.fail(st, NULL)]
        if t == 'int' and name.startswith(('PyObject_', 'PyDict_', 'PyType_Ready', 'PyList_', 'PySet_',
                                           'PyModule_', 'PySequence_', 'PyMapping_')) and \
                not name.startswith(NEVER_NEGATIVE):
            if name in ('PyObject_IsInstance', 'PyObject_IsTrue', 'PyObject_IsSubclass',
                        'PyObject_RichCompareBool', 'PySequence_Contains', 'PyDict_Contains',
                        'PyObject_HasAttrWithError', 'PyObject_Not'):
                return [(st.copy(), ('i', 1)), (st.copy(), ('i', 0)), self.fail(st, ('i', -1))]
            if name in ('PyObject_HasAttr', 'PyObject_HasAttrString'):
                return [(st.copy(), ('i', 1)), (st.copy(), ('i', 0))]
            good = st.copy()
            if name == 'PyModule_AddObject' and len(args) == 3:
                self.count(good, args[2], -1)
            return [(good, ('i', 0)), self.fail(st, ('i', -1))]
        return [(st, ('v', name, tuple(args)))]

    def release(self, st, v, n, x):
        out = []
        for s, yes in self.decide(st, v):
            if not yes:
                if not x:
                    self.report(n, 'a null reference may be released')
                out.append((s, NULL))
                continue
            s = s.copy()
            if self.counted(v):
                c = s.refs.get(v, 0)
                s.refs[v] = c - 1
                if c - 1 < 0:
                    self.report(n, 'a reference is released that the function does not own')
                elif c - 1 == 0 and v in s.made:
                    s.dead = s.dead | {v}
            out.append((s, NULL))
        return out


NEWISH = ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct')


def load(p):
    """the extension of a program model, or None"""
    path = os.path.join(p.repo, 'durus', '_persistent.c')
    return Unit(path) if os.path.exists(path) else None
