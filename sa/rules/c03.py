"""Every method of PersistentDict, PersistentList and PersistentSet, and the loading of
state by the persistent base classes, is followed over all of its paths.  What is
assigned to the attribute with the contents must be made on that path (a constructor,
copy, slice, display or operator result) or be what that container already had: a
parameter, an attribute or element of something else, or a module constant would be
shared.  The contents may not be returned, yielded or put into another container, and a
container made by copy.copy() must be given contents of its own before it is returned."""
import ast

from ..model import Func
from ..rule import Obs

PB = 'durus.persistent.PersistentObject'
CLASSES = ('durus.persistent_dict.PersistentDict', 'durus.persistent_list.PersistentList',
           'durus.persistent_set.PersistentSet')
LOADERS = ('durus.persistent.PersistentObject', 'durus.persistent.Persistent')
COPIES = ('copy.copy',)
STATE = {'__getstate__', '__reduce__', '__reduce_ex__'}
KEEPS = {'append', 'add', 'insert', '__setitem__', 'setdefault', 'appendleft'}


def strip(v):
    while v[0] == 'old':
        v = v[1]
    return v


def internal_names(p, c):
    """the attributes with the contents: those that __init__ assigns"""
    names = set()
    f = c.body.get('__init__')
    if isinstance(f, Func):
        me = f.node.args.args[0].arg if f.node.args.args else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                    isinstance(n.value, ast.Name) and n.value.id == me:
                names.add(n.attr)
    s = c.body.get('__slots__')
    if isinstance(s, ast.AST):
        for n in ast.walk(s):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.add(n.value)
    return {n for n in names if not n.startswith('_p_')}


class Sharing(Obs):
    def __init__(self, names, classes):
        Obs.__init__(self)
        self.names, self.classes = names, classes
        self.n = 0

    def container(self, i, v):
        v = strip(v)
        if v[0] == 'sym' and isinstance(v[1], str):
            return True
        cls = i.class_of(v)
        return any(cls in i.p.classes and i.p.is_subclass(cls, c) for c in self.classes) or \
            v[0] == 'call' and v[1] in COPIES

    def inside(self, i, v):
        """v is the contents of a container, or is reached through what shows them"""
        v = strip(v)
        if v[0] == 'attr' and v[2] in self.names:
            return self.container(i, v[1])
        if v[0] == 'attr':
            return self.inside(i, v[1])
        if v[0] in ('tuple', 'list'):
            return any(isinstance(x, tuple) and self.inside(i, x) for x in v[1])
        return False

    def foreign(self, i, v, owner, name):
        """why v is an object that something else may have, else None"""
        v = strip(v)
        if v[0] == 'sym':
            if isinstance(v[1], tuple):
                return 'a constant of the module'
            return 'an argument' if v[1] != 'kwargs' else None
        if v[0] == 'star':
            return 'an argument'
        if v[0] == 'attr':
            if strip(v[1]) == strip(owner) and v[2] == name:
                return None
            return 'the attribute %s of an object' % v[2]
        if v[0] in ('item', 'elem', 'val'):
            return 'an element of something'
        return None

    def on(self, i, st, ev, node):
        k = ev[0]
        if k in ('set', 'rawset'):
            owner, name, v = ev[1], ev[2], ev[3]
            if name == '__dict__' or name in self.names and self.container(i, owner):
                self.n += 1
                why = self.foreign(i, v, owner, name)
                w = strip(v)
                if why is None and w[0] == 'new':
                    had = st.obs.get(('holds', w))
                    if had is not None and had != (strip(owner), name):
                        why = 'the contents of another container'
                    st.obs[('holds', w)] = (strip(owner), name)
                if why:
                    self.report(i, node, 'the contents of a container become %s, which is then shared'
                                % why, key='shared in ' + (i.pos[0].func.qual if i.pos else '?'))
                st.obs[('own', strip(owner))] = True
                st.obs.pop(('alias', strip(owner)), None)
        elif k == 'call' and ev[1].endswith('.__setstate__') and ev[3]:
            x = strip(ev[3][0])
            if x[0] == 'call' and x[1].endswith('.__getstate__') and ev[2] is not None:
                st.obs[('alias', strip(ev[2]))] = node
        elif k == 'mut' and ev[2] in KEEPS and self.inside(i, ev[1]) and \
                not (ev[3] and isinstance(ev[3][0], tuple) and ev[3][0][0] in ('slice', 'slicer')):
            for x in ev[3] or ():
                if isinstance(x, tuple) and self.inside(i, x):
                    self.report(i, node, 'the contents of a container are put into something else')
        elif k == 'yield':
            if self.inside(i, ev[1]):
                self.report(i, node, 'the contents of a container are given to the caller')


def decide(check):
    p = check.p
    total = 0
    for cls in CLASSES + LOADERS:
        c = p.need_class(cls)
        check.need(p.is_subclass(cls, PB), '%s is not persistent' % cls)
        names = internal_names(p, c) if cls in CLASSES else {'__dict__'}
        check.need(names, '%s has no contents' % cls)
        for name, f in check.roots(cls):
            hidden = name.startswith('_') and not name.endswith('__')
            if cls in LOADERS and name != '__setstate__':
                continue
            o = Sharing(names, CLASSES)
            if cls in CLASSES:
                o.opaque_names = {PB + '.__setstate__', PB + '.__getstate__'}

            def then(i, outs, o=o, f=f, name=name, hidden=hidden):
                for out in outs:
                    for key, node in out.st.obs.items():
                        if key[0] == 'alias':
                            o.report(i, node, 'the contents of another container are taken with its state')
                    if out.kind != 'r' or out.val is None or hidden or name in STATE:
                        continue
                    v = strip(out.val)
                    if o.inside(i, v):
                        o.report(i, f.node, 'the contents of a container are given to the caller')
                    if v[0] == 'call' and v[1] in COPIES and v[2] and o.container(i, v[2][0]) \
                            and ('own', v) not in out.st.obs:
                        o.report(i, f.node, 'a copy is returned that has the contents of the original')
            check.run('own', o, f.qual, then=then)
            check.oblige('own', max(o.n, 1))
            total += o.n
    check.need(total >= 10, 'only %d assignments of contents found' % total)
