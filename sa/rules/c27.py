"""Abstract interpretation of the methods of BTree nodes over symbolic lists: on every
path of splitting, inserting, deleting and growing, the in-order contents of the node
(items and subtrees as intervals of what the nodes held at first) is compared with the
contents before, in a normal form: nothing may be lost, duplicated or moved, but for the
one item that is inserted or deleted.  The counts, the number of children, the bounds on
the number of items and the preconditions of the recursive calls are compared as linear
expressions, and a truth test of a node is reported."""
TECHNIQUE = 'abstract interpretation over symbolic sequences'

from .. import btreesem as bt

BNODE = 'durus.btree.BNode'
BTREE = 'durus.btree.BTree'
KEY = ('arg', 'key')
ITEM = ('arg', 'item')


class Calls:
    """the contracts of the recursive methods"""

    def __init__(self):
        self.need = True
        self.n = 0

    def table(self, skip=()):
        t = {'get_position': self.get_position, 'delete': self.delete,
             'insert_item': self.insert_item, 'get_min_item': self.end('min'),
             'get_max_item': self.end('max'), 'search': self.search}
        return {k: v for k, v in t.items() if k not in skip}

    def get_position(self, it, st, i, args, n):
        items = st.nodes[i]['items']
        k = ('.pos', i, st.lists[items[1]], args)
        if k not in st.env:
            p = bt.sym(('p', st.new()))
            st.env[k] = p
            st.assume(p)
            st.assume(bt.sub(bt.length(st.lists[items[1]]), p))
            st.log += (('pos', i, args[0], p),)
        return [(st, st.env[k])]

    def search(self, it, st, i, args, n):
        return [(st, ('unk', 'search%d' % st.new()))]

    def end(self, which):
        def f(it, st, i, args, n):
            try:
                return [(st, (which, i, tuple(bt.canon(st, bt.inorder(st, i)))))]
            except bt.Bad as e:
                it.report(n, str(e))
                return []
        return f

    def change(self, it, st, i, what, arg, n, least):
        out = []
        for x in it.lazy(st, i):
            try:
                pre = tuple(bt.canon(x, bt.inorder(x, i)))
            except bt.Bad as e:
                it.report(n, str(e))
                continue
            d = x.nodes[i]
            if any(p[0] == 'opq' for p in x.lists[d['items'][1]]):
                raise bt.GiveUp('two changes of one node')
            m = bt.sym(('o', x.new()))
            x.assume(m)
            if bt.is_num(least):
                x.assume(bt.sub(m, least))
            for kind in ('items', 'nodes'):
                l = d[kind]
                if l[0] == 'list':
                    m = m if kind == 'items' else bt.add(m, bt.ONE)
                    x.lists[l[1]] = (('opq', i, kind, m, (what, arg, pre)),)
            out.append((x, pre))
        return out

    def delete(self, it, st, i, args, n):
        self.n += 1
        size = bt.length(st.lists[st.nodes[i]['items'][1]])
        if self.need and st.decide(bt.sub(size, bt.T)) is not True:
            it.report(n, 'an item is deleted from a child that may not have enough items')
        out = []
        k = args[0]
        for x, pre in self.change(it, st.copy(), i, 'delete', k, n, bt.sub(bt.T, bt.ONE)):
            x.set(i, '_count', bt.sub(x.nodes[i]['_count'], bt.ONE))
            out.append((x, ('c', None)))
            if not there(x, k, pre):
                out.append((st, ('raise', 'KeyError', n.lineno)))
        return out

    def insert_item(self, it, st, i, args, n):
        self.n += 1
        size = bt.length(st.lists[st.nodes[i]['items'][1]])
        if self.need and st.decide(bt.sub(bt.sub(bt.mul(bt.T, 2), bt.num(2)), size)) is not True:
            it.report(n, 'an item is inserted into a node that may be full')
        out = []
        for x, pre in self.change(it, st.copy(), i, 'insert', args[0], n, bt.ONE):
            c = x.nodes[i]['_count']
            if bt.is_num(c):
                x.set(i, '_count', bt.add(c, bt.sym(('D', args[0]))))
            out.append((x, ('c', None)))
        return out


def there(st, key, pre):
    """the key is known to be in these contents"""
    if key[0] == 'key' and key[1][0] in ('max', 'min'):
        return True
    return any(covers(st, pre, v) for v in equal_items(st, key))


def equal_items(st, key):
    """the items whose key is known to be the key"""
    out = []
    for a, t in st.atoms.items():
        if a[0] == 'eq' and t and key in a[1:]:
            o = a[1] if a[2] == key else a[2]
            if o[0] == 'key':
                out.append(o[1])
    return out


def covers(st, toks, v):
    """the item is in these contents"""
    if v[0] != 'item':
        return ('el', v) in toks
    x = bt.item_tokens(st, v)[0]
    for y in toks:
        if y[:2] == x[:2] and st.holds(bt.sub(x[2], y[2])) and st.holds(bt.sub(y[3], x[3])):
            return True
        if y[0] == 'sub' and covers(st, y[3], v):
            return True
    return False


def instead(st, toks, v, new):
    """the contents with something else in place of an item"""
    x = bt.item_tokens(st, v)[0]
    out = []
    for y in toks:
        if y[:2] == x[:2] and y[0] != 'el' and st.holds(bt.sub(x[2], y[2])) and st.holds(bt.sub(y[3], x[3])):
            out += [y[:2] + (y[2], x[2])] + new + [y[:2] + (x[3], y[3])]
        else:
            out.append(y)
    return bt.canon(st, out)


def unwrapped(st, toks, op, arg):
    out, pres = [], []
    for x in toks:
        if x[0] == 'sub' and x[1] == op and x[2] == arg:
            pres.append(x[3])
            out += x[3]
        else:
            out.append(x)
    return bt.canon(st, out), pres


def looked(it, st):
    """the cases of a state in which it is not known whether a changed node is a leaf"""
    todo, out = [st], []
    while todo:
        s = todo.pop()
        for i, d in s.nodes.items():
            if d.get('nodes') == 'lazy' and d['group'] not in s.leaf and not \
                    (d['items'] == ('list', ('i', i)) and len(s.lists[('i', i)]) == 1):
                todo += it.lazy(s, i)
                break
        else:
            out.append(s)
    return out


class Case:
    def __init__(self, check, name, qual, fn, it):
        self.check, self.name, self.fn, self.it = check, name, fn, it
        self.qual = qual

    def say(self, line, msg):
        f = self.check.p.funcs.get(self.qual)
        self.check.finding(self.name, self.qual, line or self.fn.lineno, msg,
                           file=f.module.path if f is not None else None)

    def run(self, st, args, judge):
        try:
            outs = self.it.call_function(st, self.fn, args)
            for s, k, v in [(y, k, v) for x, k, v in outs for y in looked(self.it, x)]:
                self.check.oblige(self.name)
                self.check.paths += 1
                line = v[2] if k == 'x' else None
                s.settle()
                try:
                    judge(self, s, k, v, line)
                except bt.Bad as e:
                    self.say(line, str(e))
                except bt.GiveUp as e:
                    self.it.given.add(str(e))
        except bt.GiveUp as e:
            self.check.undecided.append('%s: %s' % (self.qual, e))
        except RecursionError:
            self.check.undecided.append('%s: too deep' % self.qual)
        for e in sorted(self.it.given):
            self.check.undecided.append('%s: %s' % (self.qual, e))
        for (line, msg), m in self.it.reports.items():
            self.say(line, m)
        self.check.events += self.it.steps


def tree_ok(case, st, root, line, sizes=True):
    """counts and sizes of the nodes of the tree as it is now"""
    seen, todo = set(), [(root, True)]
    while todo:
        i, top = todo.pop()
        if i in seen:
            case.say(line, 'a node is in two places of the tree')
            continue
        seen.add(i)
        d = st.nodes[i]
        toks = bt.canon(st, bt.inorder(st, i))
        n = bt.counted(st, bt.measure(st, toks))
        c = bt.counted(st, d['_count'])
        case.check.oblige('counts')
        if c is not None and not st.zero(bt.sub(c, n)):
            case.say(line, 'the count of a node is not the number of items in it')
        items = st.lists[d['items'][1]]
        if top and d['nodes'][0] == 'list' and not st.holds(bt.sub(bt.length(items), bt.ONE)):
            case.say(line, 'an inner node may be left without an item')
        if sizes and not top and not any(x[0] == 'opq' for x in items):
            size = bt.length(items)
            if not st.holds(bt.sub(size, bt.sub(bt.T, bt.ONE))):
                case.say(line, 'a node may be left with too few items')
            if not st.holds(bt.sub(bt.sub(bt.mul(bt.T, 2), bt.ONE), size)):
                case.say(line, 'a node may be left with too many items')
        if d['nodes'][0] == 'list':
            for x in st.lists[d['nodes'][1]]:
                if x[0] == 'el' and x[1][0] == 'node':
                    todo.append((x[1][1], False))
                elif x[0] == 'seg':
                    for (par, idx), c in st.kids.items():
                        if par == x[1] and st.holds(bt.sub(idx, x[3])) and \
                                st.holds(bt.sub(bt.sub(x[4], idx), bt.ONE)):
                            todo.append((c, False))


def same(case, st, a, b, line, what):
    if a != b:
        case.say(line, 'items or children are lost, duplicated or moved when %s' % what)
        return False
    return True


def position(st, i, key):
    for x in st.log:
        if x[:3] == ('pos', i, key):
            return x[3]
    return None


def judge_delete(me):
    def judge(case, st, k, v, line):
        a = bt.canon(st, bt.inorder(st, me))
        b = bt.canon(st, bt.first(st, me))
        if k == 'x':
            if v[1] != 'KeyError':
                case.say(line, '%s may be raised' % v[1])
                return
            same(case, st, a, b, line, 'the key is not found')
            if any(covers(st, b, x) for x in equal_items(st, KEY)):
                case.say(line, 'an item that is there is not found')
            tree_ok(case, st, me, line)
            return
        found = [x for x in equal_items(st, KEY) if covers(st, b, x)]
        un, pres = unwrapped(st, a, 'delete', KEY)
        if len(pres) == 1:
            if same(case, st, un, b, line, 'an item is deleted from a child'):
                p = position(st, me, KEY)
                c = st.kids.get((me, p)) if p is not None else None
                if found:
                    if not any(covers(st, pres[0], x) for x in found):
                        case.say(line, 'an item is deleted from a child that does not have it')
                elif c is None or not any(x[1] == c for x in pres[0] if x[0] in ('lin', 'leaf', 'whole')):
                    case.say(line, 'a key is deleted from a child where it does not belong')
        elif pres:
            case.say(line, 'an item is deleted twice')
        elif not any(a == instead(st, b, x, []) for x in found):
            case.say(line, 'items or children are lost, duplicated or moved when an item is deleted')
        tree_ok(case, st, me, line)
    return judge


def judge_insert(me):
    def judge(case, st, k, v, line):
        a = bt.canon(st, bt.inorder(st, me))
        b = bt.canon(st, bt.first(st, me))
        if k == 'x':
            case.say(line, '%s may be raised' % v[1])
            return
        un, pres = unwrapped(st, a, 'insert', ITEM)
        key = ('key', ITEM)
        found = [x for x in equal_items(st, key) if covers(st, b, x)]
        p = position(st, me, key)
        if len(pres) == 1:
            if same(case, st, un, b, line, 'an item is inserted into a child') and p is not None:
                where(case, st, me, key, p, pres[0], found, line)
        elif pres:
            case.say(line, 'an item is inserted twice')
        else:
            ok = any(a == instead(st, b, x, [('el', ITEM)]) for x in found)
            if not ok and p is not None and not found and b and b[0][0] in ('leaf', 'whole') or not b:
                n = bt.subst_n(st, me)
                ok = a == bt.canon(st, [('leaf', me, bt.ZERO, p), ('el', ITEM), ('leaf', me, p, n)])
            if not ok:
                case.say(line, 'items or children are lost, duplicated or moved when an item is inserted')
        tree_ok(case, st, me, line)
    return judge


def differs(st, key, item):
    """the item is known to have another key"""
    k = ('key', item)
    return any(not t and a[0] == 'eq' and set(a[1:]) == {key, k} or
               t and a[0] == 'lt' and set(a[1:]) == {key, k} for a, t in st.atoms.items())


def where(case, st, me, key, p, pre, found, line):
    """the item goes to the child where it belongs"""
    if found:
        case.say(line, 'an item is inserted though its key is there')
        return
    c = st.kids.get((me, p))
    if c is None:
        case.say(line, 'an item is inserted into a child where it does not belong')
        return
    whole = bt.canon(st, bt.first(st, c))
    if list(pre) == whole:
        if not st.zero(bt.sub(p, bt.subst_n(st, me))) and not differs(st, key, ('item', me, p)):
            case.say(line, 'an item is inserted into a child though its key may be in the node')
        return
    # a part of the child that was split
    if not any(x[1] == c for x in pre if x[0] in ('lin', 'leaf')):
        case.say(line, 'an item is inserted into a child where it does not belong')
        return
    lo = min((x for x in pre), key=lambda x: 0)
    left = st.zero(lo[2])
    for a, t in st.atoms.items():
        if a[0] == 'lt':
            x, y = a[1], a[2]
            other = y if x == key else x if y == key else None
            if other is None or other[0] != 'key' or other[1][0] != 'item' or other[1][1] != c:
                continue
            # key < other, or other < key
            goes_left = t if x == key else not t
            sep = other[1]
            if covers(st, pre, sep):
                continue
            if not differs(st, key, sep):
                case.say(line, 'an item is inserted though its key may divide the child')
                return
            if goes_left != left:
                case.say(line, 'an item is inserted on the wrong side of the item that divides a child')
            return
    case.say(line, 'an item is inserted into a part of a child without comparing it')


def decide(check):
    p = check.p
    p.need_class(BNODE)
    p.need_class(BTREE)
    calls = Calls()

    def begin(cls, name):
        r = p.lookup(cls, name)
        if r is None or not hasattr(r[1], 'node'):
            return None, None
        check.functions.add(r[1].qual)
        it = bt.Interp(p, BNODE, calls.table())
        return Case(check, name, r[1].qual, r[1].node, it), it

    # delete
    case, it = begin(BNODE, 'delete')
    check.need(case is not None, 'no BNode.delete')
    st = bt.State()
    me = st.node()
    case.run(st, [('node', me), KEY], judge_delete(me))

    # insert_item
    case, it = begin(BNODE, 'insert_item')
    check.need(case is not None, 'no BNode.insert_item')
    st = bt.State()
    me = st.node()
    st.assume(bt.sub(bt.sub(bt.mul(bt.T, 2), bt.num(2)), bt.sym(('n', me))))
    case.run(st, [('node', me), ITEM], judge_insert(me))

    # split_child
    case, it = begin(BNODE, 'split_child')
    if case is not None:
        st = bt.State()
        me = st.node()
        st.leaf[('own', me)] = False
        n = bt.sym(('n', me))
        st.assume(bt.sub(bt.sub(bt.mul(bt.T, 2), bt.num(2)), n))
        for st in it.lazy(st, me):
            pos = bt.sym(('p', st.new()))
            st.assume(pos)
            st.assume(bt.sub(n, pos))
            child = it.at(st, st.nodes[me]['nodes'], pos)
            size = st.nodes[child[1]]['n0']
            st.assume(bt.sub(size, bt.sub(bt.mul(bt.T, 2), bt.ONE)))
            args = {'position': pos, 'child': child}
            names = [a.arg for a in case.fn.args.args[1:]]
            if not all(x in args for x in names):
                check.undecided.append('the arguments of split_child')
                continue

            def judge(case, st, k, v, line, me=me):
                if k == 'x':
                    case.say(line, '%s may be raised' % v[1])
                    return
                same(case, st, bt.canon(st, bt.inorder(st, me)), bt.canon(st, bt.first(st, me)),
                     line, 'a child is split')
                tree_ok(case, st, me, line)
            case.run(st, [('node', me)] + [args[x] for x in names], judge)

    # get_min_item, get_max_item
    for name, which in (('get_min_item', 'min'), ('get_max_item', 'max')):
        case, it = begin(BNODE, name)
        if case is None:
            continue
        st = bt.State()
        me = st.node()
        st.assume(bt.sub(bt.sym(('n', me)), bt.ONE))

        def judge(case, st, k, v, line, me=me, which=which):
            if k == 'x':
                case.say(line, '%s may be raised' % v[1])
                return
            n = bt.subst_n(st, me)
            at = bt.ZERO if which == 'min' else n
            want = [('item', me, at if which == 'min' else bt.sub(n, bt.ONE))] \
                if st.leaf.get(('own', me)) else \
                [(which, c) for (par, idx), c in st.kids.items() if par == me and st.zero(bt.sub(idx, at))]
            if (v[:2] if v[0] in ('min', 'max') else v) not in want:
                case.say(line, 'this is not the %s item of the node' % which)
        case.run(st, [('node', me)], judge)

    # BTree.add and BTree.__delitem__
    for name in ('add', '__delitem__'):
        case, it = begin(BTREE, name)
        if case is None:
            continue
        st = bt.State()
        me = st.node()
        st.root = ('node', me)
        st.assume(bt.sub(bt.sub(bt.mul(bt.T, 2), bt.ONE), bt.sym(('n', me))))

        def judge(case, st, k, v, line, me=me, name=name):
            b = bt.canon(st, bt.first(st, me))
            if k == 'x':
                if v[1] != 'KeyError' or name == 'add':
                    case.say(line, '%s may be raised' % v[1])
                return
            if st.root[0] != 'node':
                raise bt.Bad('the root is not a node')
            a = bt.canon(st, bt.inorder(st, st.root[1]))
            op, arg = ('insert', ('tup', (KEY, ('arg', 'value')))) if name == 'add' else ('delete', KEY)
            un, pres = unwrapped(st, a, op, arg)
            if len(pres) != 1:
                case.say(line, 'the item is not %sed once' % op if op == 'insert' else
                         'the item is not deleted once')
            elif same(case, st, un, b, line, 'the root is changed'):
                if list(pres[0]) != b:
                    case.say(line, 'a part of the tree is left out')
            tree_ok(case, st, st.root[1], line)
        calls.need = name == 'add'
        args = [KEY] + ([('arg', 'value')] if name == 'add' else [])
        case.run(st, [('tree',)] + args, judge)
        calls.need = True

    check.oblige('calls', calls.n)
    check.need(check.undecided or calls.n >= 5, 'only %d recursive calls found' % calls.n)
