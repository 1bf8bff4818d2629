"""The names of handlers: a tree of dotted names that always agrees with what was registered and removed."""
from harness.common import log, config, HI, field

CASES = ['names', 'history', 'deep', 'objects', 'projection', 'anonymous', 'rejected']
BOUNDS = ('any name of up to 4 characters over {a, b, 1, ., space, _}; histories of 4 additions, removals and records over 7 dotted '
          'names of depth up to 3; projections of up to 2 paths; 80 handlers without names')
OUTSIDE = 'concurrent changes of the tree; names longer than 4 characters in the symbolic case'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'names': ['accepted', 'refused'], 'history': ['taken', 'removed', 'missing']}


class H:
    def __init__(self, journal=None):
        self.journal = journal

    def __call__(self, item):
        if self.journal is not None:
            self.journal.append(self)


class Empty(H):
    """A handler that counts as false."""
    def __len__(self):
        return 0


def valid(name):
    parts = name.split('.')
    return all(p.isidentifier() for p in parts)


def names(sx):
    """Every possible name: accepted iff each part is an identifier, and then it works."""
    journal = []
    h = Empty(journal)
    name = sx.str('name', 4 if sx.thorough else 3, alphabet='ab1. _', minlen=1)
    ok = True
    current = 0
    for ch in name:
        if ch == '.':
            if current == 0:
                ok = False
            current = 0
        elif ch == ' ':
            ok = False
        elif ch == '1':
            if current == 0:
                ok = False
            current += 1
        else:
            current += 1
    if current == 0:
        ok = False
    if name == '.':
        return
    try:
        config.add_handlers({name: h})
        accepted = True
    except KeyError:
        accepted = False
    sx.check(accepted == ok, 'a name is accepted iff all its parts are identifiers', name)
    log('text')
    sx.check(len(journal) == (1 if accepted else 0), 'a registered handler works, a refused one does not')
    tree = config.get_handlers()
    sx.check(len(tree) == (1 if accepted else 0), 'a refused name leaves nothing behind')
    if not accepted:
        sx.mark('refused')
        return
    sx.mark('accepted')
    sx.check(tree[name] is h and tree.get(name) is h, 'the handler is found by its name')
    config.delete_handlers(name)
    sx.check(len(config.get_handlers()) == 0, 'a removed handler is gone')
    config.add_handlers({name: h})
    sx.check(config.get_handlers()[name] is h, 'the name is free again after the removal')


NAMES = ['a', 'a.b', 'a.b.c', 'a.c', 'b', 'b.a', 'ab']


def agree(sx, model, journal):
    tree = config.get_handlers()
    journal.clear()
    log('text')
    sx.check(sorted(map(id, journal)) == sorted(map(id, model.values())), 'a record goes exactly to the registered handlers',
             (len(journal), sorted(model)))
    sx.check(len(tree) == len(model), 'the size is the number of registered handlers', (len(tree), sorted(model)))
    for n in NAMES:
        sx.check(tree.get(n) is model.get(n), 'a name gives its handler and nothing else', n)
        below = any(m == n or m.startswith(n + '.') for m in model)
        sx.check((n in tree) == below, 'a name is in the tree iff a handler is registered at it or below it', (n, sorted(model)))
    sx.check(sorted(map(id, tree)) == sorted(map(id, model.values())), 'iteration gives every handler once')
    depth = {id(h): n.count('.') for n, h in model.items()}
    order = [depth[id(h)] for h in tree if id(h) in depth]
    sx.check(order == sorted(order), 'handlers higher in the tree come first', order)


def history(sx):
    journal, model = [], {}
    for i in range(4):
        op = sx.choice('op%d' % i, ['add', 'remove'] if i else ['add'])
        name = sx.choice('name%d' % i, NAMES if i < 2 or sx.thorough else NAMES[:4])
        if op == 'add':
            h = H(journal)
            try:
                config.add_handlers({name: h})
                sx.check(name not in model, 'a taken name is refused', name)
                model[name] = h
            except NameError:
                sx.check(name in model, 'a free name is accepted', (name, sorted(model)))
                sx.mark('taken')
        else:
            try:
                config.delete_handlers(name)
                sx.check(name in model, 'removing a name without a handler is an error', name)
                model.pop(name, None)
                sx.mark('removed')
            except KeyError:
                sx.check(name not in model, 'a registered handler can be removed', name)
                sx.mark('missing')
        if i >= 2:
            agree(sx, model, journal)


def deep(sx):
    """Removing one handler of a chain of four names leaves the others."""
    journal, model = [], {}
    chain = ['a', 'a.b', 'a.b.c', 'a.b.c.d']
    for n in chain:
        if sx.flag('has ' + n):
            model[n] = H(journal)
            config.add_handlers({n: model[n]})
    order = sx.choice('order', [1, -1])
    for n in list(model)[::order]:
        if sx.flag('remove ' + n):
            config.delete_handlers(n)
            del model[n]
            agree(sx, model, journal)
    agree(sx, model, journal)


def objects(sx):
    """Handlers given and removed as objects, by keyword, by dictionary, several at once."""
    journal = []
    hs = [H(journal) for _ in range(3)]
    how = sx.choice('how', ['anonymous', 'keywords', 'dict', 'mixed'])
    if how == 'anonymous':
        config.add_handlers(*hs)
    elif how == 'keywords':
        config.add_handlers(a=hs[0], b=hs[1], c=hs[2])
    elif how == 'dict':
        config.add_handlers({'a': hs[0], 'b': hs[1]}, {'c': hs[2]})
    else:
        config.add_handlers(hs[0], {'b': hs[1]}, c=hs[2])
    sx.check(len(config.get_handlers()) == 3, 'all the handlers are registered')
    child = None
    if how != 'anonymous' and sx.flag('child'):
        child = H(journal)
        config.add_handlers({'b.child': child} if how != 'mixed' else {'c.child': child})
    again = sx.choice('again', [None, 0, 1])
    if again is not None:
        try:
            config.add_handlers(hs[again])
            sx.check(False, 'the same handler without a name is not registered twice')
        except ValueError:
            pass
    gone = []
    for i in sx.choice('remove', [(), (0,), (1,), (2, 0), (0, 1, 2)]):
        config.delete_handlers(hs[i])
        gone.append(i)
        try:
            config.delete_handlers(hs[i])
            sx.check(False, 'removing a handler that is not registered is an error')
        except ValueError:
            pass
    log('text')
    want = [id(hs[i]) for i in range(3) if i not in gone] + ([id(child)] if child else [])
    sx.check(sorted(map(id, journal)) == sorted(want), 'a record goes exactly to the registered handlers')
    sx.check(len(config.get_handlers()) == len(want), 'the size is the number of registered handlers')
    for i in gone:
        config.add_handlers(hs[i])
    sx.check(len(config.get_handlers()) == 3 + (child is not None), 'a removed handler can be registered again')


def projection(sx):
    """The part of the tree a decorator chose follows later changes of that part and of nothing else."""
    journal, model = [], {}
    for n in ('a', 'a.b', 'b.a', 'ab'):
        model[n] = H(journal)
        config.add_handlers({n: model[n]})
    paths = sx.choice('paths', [('a',), ('a.b',), ('b',), ('a', 'b'), ('a', 'a.b'), ('a.b', 'a'), ('a.b', 'b.a'), ('ab', 'b'), ('c',), ('b.c', 'c.b')])
    f = log('text', handlers=list(paths))(lambda: 5)
    sub = config.get_handlers(*paths)
    for i in range(3 if sx.thorough else 2):
        op = sx.choice('op%d' % i, ['nothing', 'a.c', 'a.b.c', 'b.c', 'c', 'c.b', 'ab', 'a', 'a.b', 'b.a'])
        if op in model:
            config.delete_handlers(op)
            del model[op]
        elif op != 'nothing':
            model[op] = H(journal)
            config.add_handlers({op: model[op]})
    journal.clear()
    f()
    want = [id(h) for n, h in model.items() if any(n == p or n.startswith(p + '.') for p in paths)]
    sx.check(sorted(map(id, journal)) == sorted(want), 'a decorator uses the chosen branches as they are now', (len(journal), len(want)))
    sx.check(sorted(map(id, sub)) == sorted(want), 'the chosen branches can be listed')
    journal.clear()
    log('text')
    sx.check(sorted(map(id, journal)) == sorted(id(h) for h in model.values()), 'choosing branches does not change the whole tree')


def anonymous(sx):
    """Handlers without names never clash."""
    from polog.core.utils.pony_names_generator import PonyNamesGenerator
    taken = sorted(n.replace(' ', '_') for n in PonyNamesGenerator.new_names_portion())
    journal = []
    first = sx.choice('order', ['names first', 'anonymous first'])
    some = taken if sx.flag('all') else taken[:40]
    free = [H(journal) for _ in range(80)]
    clashes = 0
    if first == 'names first':
        for n in some:
            config.add_handlers({n: H()})
        config.add_handlers(*free)
    else:
        config.add_handlers(*free[:40])
        for n in some:
            try:
                config.add_handlers({n: H()})
            except NameError:
                clashes += 1
        config.add_handlers(*free[40:])
    sx.check(len(config.get_handlers()) == 80 + len(some) - clashes, 'every handler without a name gets a free one')
    log('text')
    sx.check(len(journal) == 80, 'every handler works')
    own = [H(journal) for _ in range(3)]
    journal.clear()
    log('text', handlers=own + taken[:2])(lambda: 5)()
    sx.check(sorted(map(id, journal)) == sorted(map(id, own)) or first != 'names first', 'own handlers of a decorator work next to named ones', len(journal))


def rejected(sx):
    """What is not a handler is refused and leaves the tree as it was."""
    h = H()
    config.add_handlers(good=h)
    bad = sx.choice('bad', [5, None, 'text', lambda: 1, lambda a, b: 1, lambda *, a: 1, [h]])
    how = sx.choice('how', ['keyword', 'dict', 'positional', 'key'])
    try:
        if how == 'keyword':
            config.add_handlers(bad=bad)
        elif how == 'dict':
            config.add_handlers({'x.y': bad})
        elif how == 'positional':
            config.add_handlers(bad)
        else:
            config.add_handlers({5: h})
        sx.check(False, 'what is not a handler is refused', how)
    except (ValueError, KeyError, TypeError):
        pass
    tree = config.get_handlers()
    sx.check(len(tree) == 1 and tree['good'] is h and 'x' not in tree and 'bad' not in tree, 'the tree is as it was')
