"""Every method of the persistent containers is followed over all of its
paths, with every call that may run foreign code allowed to raise.  An
in-place change of a built-in container that is the state of a persistent
object obliges the path to note the change of that object before it leaves
the method, normally or by an exception (a change by a list or dict method
that either happens or raises obliges only if it happens).  Assigning or
deleting an attribute of a persistent object counts as noting it."""
from ..engine import mentions, NONE
from ..model import Func, ModelError
from ..rule import Obs

PB = 'durus.persistent.PersistentObject'
CONTAINERS = {
    'durus.persistent_dict.PersistentDict': dict,
    'durus.persistent_list.PersistentList': list,
    'durus.persistent_set.PersistentSet': set,
    'durus.btree.BTree': dict,
    'durus.btree.BNode': None,
}
BNODE_API = {'insert_item', 'delete', 'search', 'split_child', 'get_position',
             'get_min_item', 'get_max_item', 'get_count', 'get_node_count',
             'get_level', 'is_leaf', 'is_full', 'iter_from',
             'iter_backward_from', '__iter__', '__reversed__', '__len__'}
EXTRA_API = {'has_key', 'iteritems', 'iterkeys', 'itervalues', 'add',
             'get_min_item', 'get_max_item', 'items_backward', 'items_from',
             'items_backward_from', 'items_range', 'get_depth', 'get_node_count',
             'set_bnode_minimum_degree', '__getslice__', '__setslice__',
             '__delslice__', '__bool__', '__nonzero__', '__radd__',
             'note_change_of_bnode_containing_key', '__reversed__'}
SKIP = {'__init__', '__setstate__', '__getstate__', '__new__', '__setattr__',
        '__getattribute__', '__delattr__', '__class__', '__reduce__',
        '__reduce_ex__', '__repr__'}
BNODE_OPAQUE = {'insert_item', 'delete', 'search', 'get_position', 'get_min_item',
                'get_max_item', 'get_count', 'get_node_count', 'get_level',
                'iter_from', 'iter_backward_from', '__iter__', '__reversed__'}
# in-place operations that may raise when only part of them is done
PARTIAL = {'update', 'extend', '__iadd__', '__ior__', '__iand__', '__isub__',
           '__ixor__', '__imul__', 'sort', 'difference_update',
           'intersection_update', 'symmetric_difference_update'}
SAFE_CALLS = {'builtins.len', 'builtins.isinstance', 'builtins.range',
              'builtins.enumerate', 'builtins.type', 'builtins.id'}


def api(cls, builtin):
    names = set()
    if builtin is None:
        return set(BNODE_API)
    names |= set(n for n in dir(builtin) if n not in dir(object))
    names |= set(['__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__contains__'])
    return (names | EXTRA_API) - SKIP


class Changes(Obs):
    opaque_names = set('durus.btree.BNode.' + n for n in BNODE_OPAQUE)

    def opaque(self, qual):
        if Obs.opaque(self, qual):
            return True
        name = qual.rpartition('.')[2]
        return name.startswith('_p_') or name in ('__setstate__', '__getstate__')

    def persistent(self, i, v):
        cls = i.class_of(v)
        return cls in i.p.classes and i.p.is_subclass(cls, PB)

    def owner(self, i, st, c):
        for _ in range(8):
            if c[0] == 'attr':
                if self.persistent(i, c[1]):
                    return c[1]
                c = c[1]
            elif c[0] in ('item', 'elem', 'val', 'slice') and isinstance(c[1], tuple):
                c = c[1]
                if self.persistent(i, c):
                    return None
            else:
                return None
        return None

    def on(self, i, st, ev, node):
        k = ev[0]
        if k == 'mut':
            o = self.owner(i, st, ev[1])
            if o is not None and o[0] != 'new' and ('noted', o) not in st.obs:
                st.obs[('changed', o)] = (node.lineno, i.pos[-1].func.qual if i.pos else '?')
                self.count += 1
            elif o is not None:
                self.count += 1
        elif k in ('call', 'enter') and ev[1].endswith('._p_note_change'):
            self.noted(st, ev[2])
        elif k == 'call' and ev[1] == '._p_note_change':
            self.noted(st, ev[2])
        elif k in ('set', 'del') and not ev[2].startswith('_p_') and self.persistent(i, ev[1]):
            self.noted(st, ev[1])
        elif k == 'rawset' and not ev[2].startswith('_p_') and self.persistent(i, ev[1]):
            if ev[1][0] != 'new' and ('noted', ev[1]) not in st.obs:
                st.obs[('changed', ev[1])] = (node.lineno, i.pos[-1].func.qual)

    count = 0

    def noted(self, st, o):
        if o is None:
            return
        st.obs[('noted', o)] = True
        st.obs.pop(('changed', o), None)

    def raises(self, i, st, ev, node):
        if ev[0] == 'mut':
            if ev[2] in PARTIAL:
                self.on(i, st, ev, node)
                return ('builtins.Exception',)
            # positions in lists are in range
            return () if i.class_of(ev[1]) == 'list' else ('builtins.Exception',)
        if ev[0] == 'call':
            if ev[1] in SAFE_CALLS or '._p_' in ev[1]:
                return ()
            return ('builtins.Exception',)
        if ev[0] == 'next':
            return ('builtins.Exception',) if ev[1][0] in ('sym', 'call', 'item') else ()
        return ()


def decide(check):
    p = check.p
    n = 0
    for cls, builtin in CONTAINERS.items():
        c = p.need_class(cls)
        check.need(p.is_subclass(cls, PB), '%s is not persistent' % cls)
        names = api(cls, builtin)
        for name, f in sorted(c.body.items()):
            if not isinstance(f, Func) or name not in names:
                continue
            o = Changes()
            o.count = 0

            def then(i, outs, o=o, f=f):
                for out in outs:
                    for k, v in out.st.obs.items():
                        if k[0] == 'changed':
                            class N:
                                lineno = v[0]
                            i.pos.append(type('P', (), {'func': p.funcs.get(v[1], f)})())
                            how = 'returns' if out.kind in 'nr' else 'leaves by an exception'
                            o.report(i, N, 'the state of %s is changed in place here and %s %s '
                                     'without noting the change' % (show(k[1]), f.qual, how),
                                     key='unnoted change in %s' % f.qual)
                            i.pos.pop()
            check.run('change-noted', o, f.qual, then=then)
            n += o.count
            check.oblige('change-noted', o.count)
    check.need(n >= 40, 'only %d in-place changes of container state found' % n)


def show(v):
    if v[0] == 'sym':
        return str(v[1])
    if v[0] == 'attr':
        return '%s.%s' % (show(v[1]), v[2])
    if v[0] == 'item':
        return '%s[...]' % show(v[1])
    return v[0]
