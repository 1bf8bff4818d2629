"""Registries: changes of them in one thread disturb neither records nor changes in the others."""
import itertools

from symx import conc
conc.install()

from polog import log, config, flog, field
from polog.core.stores.levels import Levels
from polog.core.stores.handlers import global_handlers
from polog.data_structures.trees.named_tree.tree import NamedTree
from polog.core.stores.fields import in_place_fields, engine_fields

CASES = ['levels', 'names', 'tree', 'anonymous', 'records', 'branch', 'fields', 'functions']
YIELD_IN = ['polog.config', 'polog.core.stores.levels', 'polog.core.stores.registering_functions', 'polog.data_structures', 'polog.core.utils.pony_names_generator']
YIELD_NOT = ['name', 'parent', 'printer', 'walker', 'lock', 'data']
BOUNDS = ('2 threads: changes and lookups of a tree of names, registrations of two level names with the numbers 1..3, additions and removals over the names a, a.b, c and of handlers without names, one record of a call or a manual one during an addition or removal of a handler or a '
          'field, decorating of functions and classes; every schedule with at most 2 forced switches (1 for the tree of names used directly; one more in the thorough tier) at any statement of the registries that touches a changing attribute, between two rounds of their loops, in handlers and extractors and at any operation of a lock')
OUTSIDE = 'more forced switches and threads; switches inside of built-in operations; the moment of garbage collection; local names of handlers given to a decorator'
ASSUMPTIONS = ['locks and threads are stand-ins with the documented meaning', 'pool_size=0']
MARKS = {c: ['done'] for c in CASES}


def orders(first, second):
    """All the ways to put two sequences one into another."""
    n = len(first) + len(second)
    for places in itertools.combinations(range(n), len(first)):
        a, b = iter(first), iter(second)
        yield [(0, next(a)) if i in places else (1, next(b)) for i in range(n)]


class Handler:
    """A handler that counts what it gets; another thread can run while it works."""
    def __init__(self, name):
        self.name = name
        self.got = []

    def __call__(self, item):
        conc.point('handler')
        self.got.append(item['message'])


def extractor(name):
    """An extra field; another thread can run while it is taken."""
    def get(item):
        conc.point('extractor')
        return name
    return field(get)


def attempt(function, *errors):
    """Does an operation go through?"""
    try:
        function()
        return True
    except errors:
        return False


def run(sx, functions, preemptions=2, **kw):
    return conc.run(sx, functions, preemptions=preemptions + 1 if sx.thorough else preemptions, **kw)


def levels(sx):
    start = [('aa', 1)] + ([('bb', 1)] if sx.bool('two') else [])
    plans = [[(sx.choice('name0', ['aa', 'bb']), 2)], [('aa', sx.choice('n1', [1, 2, 3]))]]
    if sx.thorough:
        plans[1].append((sx.choice('name2', ['aa', 'bb']), sx.choice('n2', [1, 2])))

    def register(name, number, group):
        config.levels(**{'%s%d' % (name, group): number + 10 * group})

    def seen(group):
        known = [n for n in ('aa', 'bb') if '%s%d' % (n, group) in Levels.get_all_names()]
        means = {n: Levels.get('%s%d' % (n, group)) - 10 * group for n in known}
        shown = []
        for number in (1, 2, 3):
            text = Levels.get_level_name(number + 10 * group)
            shown.append(None if text == str(number + 10 * group) else text[:2])
        return means, shown

    def worker(i):
        def work():
            for name, number in plans[i]:
                register(name, number, 1)
        return work

    for name, number in start:
        register(name, number, 1)
    run(sx, [worker(0), worker(1)])
    result = seen(1)
    for name, number in result[0].items():
        text = Levels.get_level_name(number + 10)
        sx.check(text == str(number + 10) or Levels.get(text) == number + 10, 'a number is never shown under a name that means another one', text)
    group, same = 1, False
    for order in orders(*plans):
        group += 1
        for name, number in start:
            register(name, number, group)
        for _, (name, number) in order:
            register(name, number, group)
        same = same or seen(group) == result
    sx.check(same, 'concurrent registrations of levels are like registrations one after another', (start, plans, result))


NAMES = ['a', 'a.b', 'c']


def names(sx):
    start = {n: Handler('old ' + n) for n in NAMES[:2] if sx.bool('has ' + n)}
    for n, h in start.items():
        config.add_handlers({n: h})
    plans = [[(sx.choice('add%d%d' % (i, j), [True, False]), sx.choice('name%d%d' % (i, j), NAMES[:3 - i]), Handler('new %d%d' % (i, j))) for j in range(1 + (i if sx.thorough else 0))] for i in range(2)]
    results = [[], []]

    def do(plan):
        add, name, handler = plan
        if add:
            return attempt(lambda: config.add_handlers({name: handler}), NameError)
        return attempt(lambda: config.delete_handlers(name), KeyError)

    def worker(i):
        def work():
            for plan in plans[i]:
                results[i].append(do(plan))
        return work

    run(sx, [worker(0), worker(1)])
    tree = config.get_handlers()
    final = {n: tree.get(n) for n in NAMES if tree.get(n) is not None}
    same = False
    for order in orders(*plans):
        state, got = dict(start), [[], []]
        for who, (add, name, handler) in order:
            ok = (name not in state) == add
            got[who].append(ok)
            if ok and add:
                state[name] = handler
            elif ok:
                del state[name]
        same = same or (got == results and state == final)
    sx.check(same, 'concurrent additions and removals of handlers are like ones one after another', (list(start), [[p[:2] for p in q] for q in plans], results, {n: h.name for n, h in final.items()}))
    sx.check(len(tree) == len(final), 'the size of the registry is right after concurrent changes', len(tree))
    log('text')
    for h in list(start.values()) + [p[2] for q in plans for p in q]:
        sx.check(len(h.got) == (1 if h in final.values() else 0), 'after concurrent changes exactly the registered handlers get a record', h.name)


def tree(sx):
    """The tree of names used directly."""
    shared = NamedTree()
    start = {n: 'old ' + n for n in ['a.b', 'c'] if sx.bool('has ' + n)}
    for n, v in start.items():
        shared[n] = v
    plans = [(sx.choice('what%d' % i, ['set', 'delete', 'get', 'size'][:4 if i else 2]), sx.choice('name%d' % i, ['a.b', 'a.d', 'a']), 'new %d' % i) for i in range(2)]
    results = [None, None]

    def do(what, name, value):
        if what == 'set':
            shared[name] = value
            return True
        if what == 'get':
            return shared.get(name)
        if what == 'size':
            return len(shared)
        return attempt(lambda: shared.__delitem__(name), KeyError)

    def worker(i):
        def work():
            results[i] = do(*plans[i])
        return work

    run(sx, [worker(0), worker(1)], preemptions=1)
    final = {n: shared.get(n) for n in ['a', 'a.b', 'a.d', 'c'] if shared.get(n) is not None}
    same = False
    for order in ([0, 1], [1, 0]):
        state, got = dict(start), [None, None]
        for who in order:
            what, name, value = plans[who]
            if what == 'set':
                state[name], got[who] = value, True
            elif what == 'get':
                got[who] = state.get(name)
            elif what == 'size':
                got[who] = len(state)
            else:
                got[who] = state.pop(name, None) is not None
        same = same or (got == results and state == final)
    sx.check(same, 'concurrent changes of a tree of names are like ones one after another', (start, plans, results, final))
    sx.check(sorted(shared) == sorted(final.values()), 'a walk finds what is in the tree after concurrent changes')


def anonymous(sx):
    config.add_handlers(Handler('first'))
    one = Handler('one')
    other = one if sx.bool('same') else Handler('two')
    mode = sx.choice('mode', ['add', 'remove'])
    if mode == 'remove':
        config.add_handlers(one)
        if other is not one:
            config.add_handlers(other)
    results = []
    if mode == 'add':
        workers = [lambda h=h: results.append(attempt(lambda: config.add_handlers(h), ValueError)) for h in (one, other)]
    else:
        workers = [lambda h=h: results.append(attempt(lambda: config.delete_handlers(h), ValueError)) for h in (one, other)]
    run(sx, workers)
    sx.check(sorted(results) == ([False, True] if one is other else [True, True]), 'a handler without a name is added and removed once in concurrent changes', results)
    found = [sum(1 for h in config.get_handlers() if h is x) for x in (one, other)]
    sx.check(found == ([1, 1] if mode == 'add' else [0, 0]), 'concurrent changes of handlers without names all take effect', found)


def records(sx):
    handlers = {n: Handler(n) for n in ['a', 'b', 'b.c']}
    for n, h in handlers.items():
        config.add_handlers({n: h})
    new = Handler('new')
    change = sx.choice('change', ['add', 'add below', 'remove', 'remove below', 'anonymous'])
    source = sx.choice('source', ['manual', 'function'])

    @log(message='text')
    def function():
        return 5

    def writer():
        if source == 'manual':
            log('text')
        else:
            function()

    def changer():
        if change == 'add':
            config.add_handlers(d=new)
        elif change == 'add below':
            config.add_handlers({'a.d': new})
        elif change == 'remove':
            config.delete_handlers('b')
        elif change == 'remove below':
            config.delete_handlers('b.c')
        else:
            config.add_handlers(new)

    run(sx, [writer, changer])
    gone = {'remove': 'b', 'remove below': 'b.c'}.get(change)
    for n, h in handlers.items():
        if n == gone:
            sx.check(len(h.got) <= 1, 'a handler never gets a record twice', n)
        else:
            sx.check(h.got == ['text'], 'a handler that stays registered gets every record exactly once, whatever is registered or removed meanwhile', (n, h.got))
    sx.check(len(new.got) <= 1, 'a handler never gets a record twice', 'new')
    log('second')
    for n, h in handlers.items():
        sx.check(h.got.count('second') == (0 if n == gone else 1), 'a change of handlers is in force for the next records', n)
    sx.check(new.got.count('second') == (0 if gone else 1), 'a change of handlers is in force for the next records', 'new')


def branch(sx):
    handlers = {n: Handler(n) for n in ['a', 'a.b', 'c']}
    for n, h in handlers.items():
        config.add_handlers({n: h})
    new = Handler('new')
    change = sx.choice('change', ['add', 'remove', 'outside'])
    when = sx.choice('when', ['decorate', 'call'])
    functions = []

    def decorate():
        functions.append(log(message='text', handlers=['a'])(lambda: 5))

    def changer():
        if change == 'add':
            config.add_handlers({'a.d': new})
        elif change == 'outside':
            config.add_handlers(d=new)
        else:
            config.delete_handlers('a.b')

    if when == 'call':
        decorate()
        run(sx, [lambda: functions[0](), changer])
    else:
        run(sx, [decorate, changer])
        functions[0]()
    sx.check(handlers['a'].got == ['text'], 'a handler of the chosen branch that stays registered gets every record exactly once', handlers['a'].got)
    sx.check(handlers['c'].got == [], 'no other handler gets the record')
    sx.check(len(handlers['a.b'].got) == 1 if change != 'remove' else len(handlers['a.b'].got) <= (1 if when == 'call' else 0), 'a handler of the chosen branch gets the record while it is registered', handlers['a.b'].got)
    sx.check(len(new.got) == 0 if change != 'add' else (len(new.got) == 1 if when == 'decorate' else len(new.got) <= 1), 'a handler that is added to the chosen branch gets the records', new.got)


def fields(sx):
    config.add_handlers(h=(sink := Sink()))
    kind = sx.choice('kind', ['place', 'engine'])
    add, delete, get = (config.add_fields, config.delete_fields, config.get_in_place_fields) if kind == 'place' else (config.add_engine_fields, config.delete_engine_fields, config.get_engine_fields)
    add(one=extractor('one'), two=extractor('two'))
    source = sx.choice('source', ['manual', 'function', 'local'])
    change = sx.choice('change', ['add', 'remove', 'replace'])

    def writer():
        if source == 'manual':
            log('text')
        elif source == 'function':
            log(message='text')(lambda: 5)()
        else:
            log(message='text', **{'extra_fields' if kind == 'place' else 'extra_engine_fields': [{'local': extractor('local')}, ...]})(lambda: 5)()

    def changer():
        if change == 'add':
            add(three=extractor('three'))
        elif change == 'remove':
            delete('two')
        else:
            add(two=extractor('changed'))

    run(sx, [writer, changer])
    sx.check(len(sink.items) == 1, 'a record is made exactly once, whatever fields are registered or removed meanwhile', len(sink.items))
    item = sink.items[0]
    sx.check(item['one'] == 'one', 'a field that stays registered is in every record')
    sx.check(item.get('two') in {'add': ['two'], 'remove': ['two', None], 'replace': ['two', 'changed']}[change], 'a field has a value of the extractor registered for it', item.get('two'))
    sx.check(item.get('three') in (['three', None] if change == 'add' else [None]), 'only registered fields are in a record')
    sx.check(item.get('local') == ('local' if source == 'local' else None), 'fields of a source are in its records')
    log('second')
    item = sink.items[1]
    sx.check((item.get('two'), item.get('three')) == {'add': ('two', 'three'), 'remove': (None, None), 'replace': ('changed', None)}[change], 'a change of fields is in force for the next records')
    sx.check(set(get()) == {'add': {'one', 'two', 'three'}, 'remove': {'one'}, 'replace': {'one', 'two'}}[change], 'exactly the registered fields are listed')


class Sink:
    def __init__(self):
        self.items = []

    def __call__(self, item):
        self.items.append(item)


def functions(sx):
    config.add_handlers(h=(sink := Sink()))
    plan = [sx.choice('kind%d' % i, ['function', 'class', 'twice'] if sx.thorough else ['function', 'class']) for i in range(2)]
    base, shared = sx.choice('functions', [('plain', True), ('decorated', True), ('plain', False)])

    def original(*args):
        return 5

    def another(*args):
        return 6

    first = log(message='base')(original) if base == 'decorated' else original
    targets = [first, first if shared else another]
    made = {}

    def worker(i):
        def work():
            f = targets[i]
            name = 'text%d' % i
            if plan[i] == 'function':
                made[i] = log(message=name)(f)
            elif plan[i] == 'twice':
                made[i] = log(message=name)(log(message='inner')(f))
            else:
                cls = type('C', (), {'method': f})
                made[i] = log(message=name)(cls)().method
        return work

    run(sx, [worker(0), worker(1)])
    for i in range(2):
        before = len(sink.items)
        result = made[i]()
        sx.check(result == (6 if targets[i] is another else 5), 'a function decorated in one of several threads gives its result')
        sx.check(len(sink.items) == before + 1, 'a function decorated in several threads at once is recorded once a call', (plan, base, shared, len(sink.items) - before))
