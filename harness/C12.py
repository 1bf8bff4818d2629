"""Of several logging decorators exactly one works: the outermost, and a method's own before its class's."""
from harness.common import log, config, sink, unlog, run_coroutine, HI

CASES = ['stack', 'versions', 'classes', 'methods', 'inherit', 'kinds', 'attributes', 'twice']
BOUNDS = ('up to 4 decorators on a function or coroutine in every mix; trees of decorated versions of one function (4 derivations); classes with 3 '
          'methods, own decorators, lists of methods, inheritance of depth 3 with any class decorated or not; any levels; 12 kinds of attributes of a class and 7 built-in bases')
OUTSIDE = 'third-party decorators in between; attributes of wrapped callables (cache_info() and the like); callables that are not hashable'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'classes': ['own', 'by class', 'unlogged'], 'inherit': ['inherited', 'replaced']}


def stack(sx):
    s = sink()
    n = 4 if sx.thorough else 3
    levels = [sx.int('level%d' % i, 0, HI) for i in range(n)]
    is_async = sx.flag('async')
    calls = []

    def body(x):
        calls.append(x)
        return x

    async def coroutine(x):
        return body(x)
    f = coroutine if is_async else body
    last = None
    for i in range(n):
        how = sx.choice('layer%d' % i, ['none', 'bare', 'text', 'suppress'])
        if how == 'bare':
            f = log(f)
        elif how == 'text':
            f = log('layer %d' % i, level=levels[i])(f)
        elif how == 'suppress':
            f = log('layer %d' % i, level=levels[i]).suppress()(f)
        if how != 'none':
            last = (i, how)
    x = sx.int('x', -HI, HI)
    got = run_coroutine(f(x)) if is_async else f(x)
    sx.check(got == x and len(calls) == 1 and calls[0] == x, 'the function is called once with its arguments')
    if last is None:
        sx.check(s.count() == 0, 'no decorator, no record')
        return
    if sx.check(s.count() == 1, 'one call, one record, however many decorators', s.count()):
        i, how = last
        if how == 'bare':
            sx.check('message' not in s.items[0] and s.items[0]['level'] == 1, 'the outermost decorator works')
        else:
            sx.check(s.items[0].get('message') == 'layer %d' % i and s.items[0]['level'] == levels[i], 'the outermost decorator works')


def versions(sx):
    """Decorated versions are made from one another; each has exactly its own decorator."""
    s = sink()
    versions = [(lambda: 5, None)]
    for i in range(4):
        source = sx.choice('source%d' % i, list(range(len(versions))))
        kind = 'log' if i != 2 else sx.choice('kind', ['log', 'none'])
        if kind == 'log':
            versions.append((log('version %d' % i)(versions[source][0]), 'version %d' % i))
    for f, text in versions:
        s.items.clear()
        sx.check(f() == 5, 'every version works')
        got = [i['message'] for i in s.items]
        sx.check(got == ([] if text is None else [text]), 'every version has exactly its own decorator', (got, text))


def classes(sx):
    s = sink()
    own = sx.choice('own', ['no', 'log', 'log text', 'unlog', 'unlog part', 'log over unlog'])
    listed = sx.choice('listed', ['all', 'a', 'b', 'a and b', 'none of them'])
    level = sx.int('level', 0, HI)
    decorate = {'no': lambda f: f, 'log': lambda f: log(f), 'log text': lambda f: log('own', level=level)(f), 'unlog': lambda f: unlog(f),
                'unlog part': lambda f: unlog(full=False)(f), 'log over unlog': lambda f: log(unlog(f))}[own]
    static = sx.choice('kind', ['plain', 'static', 'class', 'coroutine'])
    x = sx.int('x', -HI, HI)

    class Thing:
        attribute = 7

        def __init__(self):
            self.made = True

        class Inner:
            pass

        if static == 'plain':
            @decorate
            def a(self, x):
                log('manual')
                return x
        elif static == 'coroutine':
            @decorate
            async def a(self, x):
                log('manual')
                return x
        elif static == 'static':
            @staticmethod
            @decorate
            def a(x):
                log('manual')
                return x
        else:
            @classmethod
            @decorate
            def a(cls, x):
                log('manual')
                return x

        def b(self, x):
            return x

        def c(self, x):
            return x

        @property
        def p(self):
            return 9
    inner = Thing.Inner
    kw = {'all': {}, 'a': {'methods': ('a',)}, 'b': {'methods': ['b']}, 'a and b': {'methods': ('a', 'b')}, 'none of them': {'methods': ('c',)}}[listed]
    same = log('by class', **kw)(Thing)
    sx.check(same is Thing, 'a decorated class is the same class')
    sx.check(Thing.Inner is inner and Thing.attribute == 7 and Thing().p == 9 and Thing().made is True, 'what is not a method stays as it was')
    sx.check(s.count() == 0, 'attributes, properties and special methods are not recorded', s.count())
    chosen = {'all': 'abc', 'a': 'a', 'b': 'b', 'a and b': 'ab', 'none of them': 'c'}[listed]
    for name in 'abc':
        s.items.clear()
        got = getattr(Thing(), name)(x)
        if name == 'a' and static == 'coroutine':
            got = run_coroutine(got)
        sx.check(got == x, 'a method works as before')
        texts = [i.get('message') for i in s.items]
        if name == 'a':
            manual = ['manual'] if own not in ('unlog', 'log over unlog') else []
            if own in ('unlog', 'unlog part', 'log over unlog'):
                want = manual
                sx.mark('unlogged')
            elif own == 'no':
                want = manual + (['by class'] if name in chosen else [])
                sx.mark('by class')
            else:
                want = manual + (['own'] if own == 'log text' else [None])
                sx.mark('own')
        else:
            want = ['by class'] if name in chosen else []
        sx.check(texts == want, 'a method is recorded by its own decorator, else by the decorator of the class if it is chosen', (name, own, listed, texts))


def methods(sx):
    """Which methods a class decorator takes."""
    s = sink()
    names = ['plain', '_private', '__mangled', 'with__inside', '__special__']
    name = sx.choice('name', names)
    listed = sx.flag('listed')
    Thing = type('Thing', (), {n: (lambda self, n=n: n) for n in names})
    Thing = log('by class', **({'methods': (name,)} if listed else {}))(Thing)
    for n in names:
        s.items.clear()
        sx.check(getattr(Thing(), n)() == n, 'a method works as before')
        if listed:
            want = n == name
        elif n == '__mangled':
            continue
        else:
            want = n != '__special__'
        sx.check(s.count() == (1 if want else 0), 'exactly the chosen methods are recorded', (n, s.count()))


def inherit(sx):
    s = sink()
    how = [sx.choice('class%d' % i, ['no', 'log', 'log list', 'unlog'] if i < 2 else ['no', 'log']) for i in range(3)]
    if 'unlog' in how and any(h.startswith('log') for h in how[how.index('unlog'):]):
        return  # unlog forbids the function itself; decorating it again is covered by the stacks
    override = sx.choice('override', ['no', 'child', 'child calls parent'])
    again = sx.flag('sibling')

    class A:
        def m(self):
            return 1

        def other(self):
            return 2

    def derive(base, i):
        if override != 'no' and i == 1:
            class D(base):
                def m(self):
                    return super().m() if override == 'child calls parent' else 1
        else:
            class D(base):
                pass
        return D
    made = []
    current = A
    for i in range(3):
        if i:
            current = derive(current, i)
        if how[i] == 'log':
            current = log('class %d' % i)(current)
        elif how[i] == 'log list':
            current = log('class %d' % i, methods=('m',))(current)
        elif how[i] == 'unlog':
            current = unlog(current)
        made.append(current)
    if again:
        made.append(log('class 3')(derive(made[0], 3)))
        if 'unlog' in how:
            # unlog forbids the function itself, which the sibling shares
            return
    for n, cls in enumerate(made):
        s.items.clear()
        sx.check(cls().m() == 1, 'a method works as before')
        texts = [i['message'] for i in s.items]

        def records(k):
            """What a call of the method found for class k records (in order)."""
            if k == 3:
                return ['class 3'], False
            if override != 'no' and k >= 1:
                inner = records(0)[0] if override == 'child calls parent' else []
                top = range(k, 0, -1)
            else:
                inner = []
                top = range(k, -1, -1)
            for j in top:
                if how[j] == 'unlog':
                    return [], True
                if how[j] != 'no':
                    return inner + ['class %d' % j], False
            return inner, False
        want = records(n)[0]
        sx.check(texts == want, 'a method is recorded once, by the nearest decorated class', (n, how, override, texts, want))
        sx.mark('inherited' if n and how[min(n, 2)] == 'no' else 'replaced')


def kinds(sx):
    """Things that can be decorated besides plain functions."""
    import functools
    s = sink()
    kind = sx.choice('kind', ['lambda', 'builtin', 'partial', 'callable object', 'bound method', 'class as function'])
    x = sx.int('x', 0, HI)

    class Callable:
        def __call__(self, v):
            return v

        def method(self, v):
            return v
    f = {'lambda': lambda v: v, 'builtin': abs, 'partial': functools.partial(lambda a, v: v, 1), 'callable object': Callable(),
         'bound method': Callable().method, 'class as function': functools.partial(dict, a=1)}[kind]
    g = log('text')(f)
    if kind == 'class as function':
        sx.check(g(b=2) == {'a': 1, 'b': 2}, 'it works as before')
    else:
        sx.check(g(x) == x, 'it works as before')
    sx.check([i['message'] for i in s.items] == ['text'], 'one call, one record', s.count())
    s.items.clear()
    g = log('again')(g)
    g(b=2) if kind == 'class as function' else g(x)
    sx.check([i['message'] for i in s.items] == ['again'], 'only the outermost decorator works', s.count())


class Plain:
    """A callable object: as an attribute of a class it does not get self."""
    def __call__(self, *args):
        return args


class Raising:
    """A descriptor that only instances may use."""
    def __get__(self, obj, cls):
        if obj is None:
            raise RuntimeError('only for instances')
        return 5


class Shared:
    """A descriptor that gives a callable made for the instance."""
    def __get__(self, obj, cls):
        return lambda *args: (obj is None, args)


def make_attribute(kind):
    import functools
    import operator
    return {'object': Plain, 'partial': lambda: functools.partial(lambda *a: a, 1), 'builtin': lambda: max, 'getter': lambda: operator.itemgetter(0),
            'raising': Raising, 'shared': Shared, 'partial method': lambda: functools.partialmethod(lambda self, *a: a, 1), 'static partial': lambda: staticmethod(functools.partial(lambda *a: a, 1)),
            'static getter': lambda: staticmethod(operator.itemgetter(0)), 'dispatch': lambda: dispatcher(functools), 'cached': lambda: functools.lru_cache(lambda self, *a: a),
            'number': lambda: 5}[kind]()


def dispatcher(functools):
    def general(self, x):
        return 'other'
    result = functools.singledispatchmethod(general)
    result.register(tuple, lambda self, x: 'tuple')
    return result


ATTRIBUTES = ['object', 'partial', 'builtin', 'getter', 'raising', 'shared', 'partial method', 'static partial', 'static getter', 'dispatch', 'cached', 'number']


def attributes(sx):
    """A decorator of a class leaves everything that is not a method as it was."""
    s = sink()
    kind = sx.choice('kind', ATTRIBUTES)
    base = sx.choice('base', [object, dict, list, Exception, str, set, int])
    how = sx.choice('how', ['log', 'log text', 'list', 'unlog', 'unlog part', 'child'])
    if kind == 'cached' and base in (dict, list, set):
        return  # the cache itself needs hashable objects

    def make():
        class Thing(base):
            thing = make_attribute(kind)

            def method(self):
                return 7
        return Thing
    plain, decorated = make(), make()
    if how == 'log':
        decorated = log(decorated)
    elif how == 'log text':
        decorated = log('by class')(decorated)
    elif how == 'list':
        decorated = log(methods=['method'])(decorated)
    elif how == 'unlog':
        decorated = unlog(decorated)
    elif how == 'unlog part':
        decorated = unlog(full=False)(decorated)
    else:
        @log
        class Child(decorated):
            pass
        decorated = Child
    argument = ((3, 4),)

    obj = plain().thing
    got, want = decorated().thing, obj
    if callable(obj):
        got, want = got(*argument), obj(*argument)
    sx.check(got == want, 'an attribute of an instance works as before', (kind, how))
    s.items.clear()
    sx.check(decorated().method() == 7, 'a method works as before')
    sx.check(s.count() == (0 if how.startswith('unlog') else 1), 'the methods are recorded', s.count())
    value = decorated()
    sx.check(isinstance(value, base) and type(value) is decorated, 'objects of the class are made as before')
    if base is dict:
        value['a'] = 5
        sx.check(value.get('a') == 5 and list(value.items()) == [('a', 5)], 'inherited methods work as before')
    elif base is list:
        value.append(5)
        sx.check(value.index(5) == 0, 'inherited methods work as before')


def twice(sx):
    """A class under two decorators: each method is recorded once, its own decorator before those of the class."""
    s = sink()
    own = sx.choice('own', ['no', 'log', 'log text', 'two'])
    decorate = {'no': lambda f: f, 'log': lambda f: log(f), 'log text': lambda f: log('own')(f), 'two': lambda f: log('own')(log('lower')(f))}[own]
    x = sx.int('x', -HI, HI)

    class Thing:
        @decorate
        def a(self, v):
            return v

        def b(self, v):
            return v
    lists = [sx.choice('first', [None, ('a',), ('b',), ('a', 'b')]), sx.choice('second', [None, ('a',), ('b',), ('a', 'b')])]
    if sx.flag('child'):
        first = log('first', **({} if lists[0] is None else {'methods': lists[0]}))(Thing)

        @log('second', **({} if lists[1] is None else {'methods': lists[1]}))
        class Child(first):
            pass
        Thing = Child
    else:
        for text, chosen in zip(('first', 'second'), lists):
            Thing = log(text, **({} if chosen is None else {'methods': chosen}))(Thing)
    for name in 'ab':
        s.items.clear()
        sx.check(getattr(Thing(), name)(x) == x, 'a method works as before')
        texts = [i.get('message') for i in s.items]
        if name == 'a' and own != 'no':
            sx.check(texts == [None if own == 'log' else 'own'], 'the own decorator of a method has priority over those of classes', (own, lists, texts))
        elif lists[1] is None or name in lists[1]:
            sx.check(texts == ['second'], 'of the decorators of a class the outermost works', (lists, texts))
        else:
            sx.check(len(texts) <= 1, 'one call, one record', (lists, texts))
