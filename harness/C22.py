"""Signatures: what is accepted where a callable of a given shape is needed."""
import functools

from harness.common import log, config, field, sink, HI
from polog import file_writer
from polog.handlers.smtp.sender import SMTP_sender
from polog.core.utils.signature_matcher import SignatureMatcher

CASES = ['shapes', 'places', 'kinds', 'defaults', 'matcher', 'notcallable', 'builtin', 'wrapped']
BOUNDS = ('all signatures with 0 to 3 required positional parameters, 0 to 2 defaulted (0 to all of them positional-only), *args, 0 to 1 required and 0 to 1 defaulted keyword-only parameters, **kwargs; 8 kinds '
          'of callables; 9 places where a callable is given; patterns of the matcher of the same size; default values of any equality')
OUTSIDE = 'callables with a hand-made __signature__'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'shapes': ['accepted', 'refused'], 'matcher': ['matched', 'not matched']}


class Equal:
    """A default value that is equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class NoEqual:
    """A default value that cannot be compared."""

    def __eq__(self, other):
        raise RuntimeError('not comparable')

    __ne__ = __eq__
    __hash__ = None


class Shape:
    """The parameters of a callable."""

    def __init__(self, sx, name='', positional=3, defaulted=2, small=False):
        self.positional = sx.choice(name + 'positional', range(positional + 1))
        self.defaulted = sx.choice(name + 'defaulted', range(defaulted + 1))
        self.only = sx.choice(name + 'positional only', range(self.positional + self.defaulted + 1)) if not small else 0
        self.args = sx.flag(name + 'args')
        self.named = sx.flag(name + 'named') if not small else False
        self.named_defaulted = sx.flag(name + 'named defaulted')
        self.kwargs = sx.flag(name + 'kwargs')

    def text(self, first=()):
        parts = ['p%d' % i for i in range(self.positional)] + ['d%d=D' % i for i in range(self.defaulted)]
        if self.only:
            parts.insert(self.only, '/')
        parts = list(first) + parts
        if self.args:
            parts.append('*args')
        elif self.named or self.named_defaulted:
            parts.append('*')
        if self.named:
            parts.append('n')
        if self.named_defaulted:
            parts.append('m=D')
        if self.kwargs:
            parts.append('**kwargs')
        return ', '.join(parts)

    def one(self):
        """Exactly one required positional argument and nothing else."""
        return self.positional == 1 and not (self.defaulted or self.args or self.named or self.named_defaulted or self.kwargs)


def build(text, default=None, called=None):
    called = [] if called is None else called
    space = {'D': default, 'called': called}
    exec('def function(%s):\n    called.append(1)\n    return True' % text, space)
    return space['function']


def attempt(call):
    """Accepted or refused; other exceptions go on."""
    try:
        call()
        return True
    except ValueError:
        return False


def shapes(sx):
    """Every shape as a handler."""
    shape = Shape(sx)
    called = []
    ok = attempt(lambda: config.add_handlers(build(shape.text(), 5, called)))
    sx.check(ok == shape.one(), 'a handler is accepted iff it takes exactly one argument', shape.text())
    log('text')
    sx.mark('accepted' if ok else 'refused')
    sx.check(len(called) == (1 if ok else 0), 'an accepted handler is called and a refused one is not', shape.text())


class Memory:
    def read(self):
        return ''

    write = close = flush = lambda self, *a: None


class Wrapper:
    def __init__(self, *a):
        pass

    def send(self, message):
        pass


def places(sx):
    """Every place where a callable with one argument is given."""
    shape = Shape(sx, positional=2, defaulted=1, small=True)
    place = sx.choice('place', ['named handler', 'extractor', 'converter', 'filter', 'alt', 'formatter', 'text', 'subject', 'own field'])
    function = build(shape.text(), 5)
    if place == 'named handler':
        ok = attempt(lambda: config.add_handlers(some_name=function))
    elif place == 'extractor':
        ok = attempt(lambda: config.add_fields(some=field(function)))
    elif place == 'converter':
        ok = attempt(lambda: config.add_fields(some=field(lambda item: 5, converter=function)))
    elif place == 'filter':
        ok = attempt(lambda: file_writer(Memory(), filter=function))
    elif place == 'alt':
        ok = attempt(lambda: file_writer(Memory(), alt=function))
    elif place == 'formatter':
        ok = attempt(lambda: file_writer(Memory(), formatter=function))
    elif place == 'text':
        ok = attempt(lambda: SMTP_sender('a', 'b', 'c', 'd', text_assembler=function, smtp_wrapper=Wrapper))
    elif place == 'subject':
        ok = attempt(lambda: SMTP_sender('a', 'b', 'c', 'd', subject_assembler=function, smtp_wrapper=Wrapper))
    else:
        class Own:
            get_data = staticmethod(function)
        ok = attempt(lambda: config.add_fields(some=Own()))
    sx.check(ok == shape.one(), 'a callable is accepted iff it takes exactly one argument', (place, shape.text()))
    s = sink()
    log('text')
    if sx.check(s.count() == 1, 'records are made', place) and place in ('extractor', 'converter', 'own field'):
        sx.check(('some' in s.items[0]) == ok, 'an accepted extractor works and a refused one is not used', place)


def kinds(sx):
    """Methods, objects, classes and partial objects: the argument of the object itself does not count."""
    shape = Shape(sx, positional=2, defaulted=1, small=True)
    kind = sx.choice('kind', ['method', 'object', 'class', 'static', 'class method', 'partial', 'partial named', 'lambda'])
    one = shape.one()
    if kind in ('method', 'object', 'class'):
        function = build(shape.text(['self']), 5)
        if kind == 'class':
            space = {'D': 5, 'called': []}
            exec('def function(%s):\n    called.append(1)' % shape.text(['self']), space)
            made = type('Made', (), {'__init__': space['function']})
        else:
            made = type('Made', (), {'method': function, '__call__': function})()
            made = made.method if kind == 'method' else made
    elif kind == 'static':
        made = type('Made', (), {'method': staticmethod(build(shape.text(), 5))})().method
    elif kind == 'class method':
        made = type('Made', (), {'method': classmethod(build(shape.text(['cls']), 5))}).method
    elif kind == 'partial':
        made = functools.partial(build(shape.text(['given']), 5), 75)
    elif kind == 'partial named':
        made = build(shape.text(), 5)
        if shape.defaulted:
            made = functools.partial(made, d0=7)
    else:
        made = eval('lambda %s: None' % shape.text(), {'D': 5})
    ok = attempt(lambda: config.add_handlers(made))
    sx.check(ok == one, 'a callable is accepted iff it takes exactly one argument', (kind, shape.text()))


def defaults(sx):
    """Default values of any kind."""
    shape = Shape(sx, positional=1, defaulted=2)
    value = sx.choice('value', [None, 0, Equal(), NoEqual(), 'text'])
    ok = attempt(lambda: config.add_handlers(build(shape.text(), value)))
    sx.check(ok == shape.one(), 'a handler is accepted iff it takes exactly one argument', shape.text())


def matcher(sx):
    """The matcher with any pattern."""
    shape = Shape(sx, positional=2, defaulted=1, small=not sx.thorough)
    if not sx.thorough:
        shape.named = sx.flag('named')
        shape.only = sx.choice('only', [0, shape.positional + shape.defaulted])
    dots = sx.choice('dots', [0, 1, 2])
    names = sx.choice('names', [[], ['d0'], ['m'], ['d0', 'm'], ['other']])
    star, stars = sx.flag('star'), sx.flag('stars')
    pattern = ['.'] * dots + names + (['*'] if star else []) + (['**'] if stars else [])
    got = SignatureMatcher(*pattern).match(build(shape.text(), 5))
    have = (['d0'] if shape.defaulted else []) + (['m'] if shape.named_defaulted else [])
    want = dots == shape.positional and sorted(names) == have and star == shape.args and stars == shape.kwargs and not shape.named and shape.only <= shape.positional
    sx.check(got == want, 'a callable matches a pattern iff their shapes are the same', (pattern, shape.text()))
    sx.mark('matched' if want else 'not matched')


def notcallable(sx):
    """Things that cannot be called."""
    value = sx.choice('value', ['text', 75, None, [], 0.5, b'x'])
    place = sx.choice('place', ['handler', 'named', 'extractor', 'converter'])
    if place == 'converter' and value is None:
        return
    calls = {'handler': lambda: config.add_handlers(value), 'named': lambda: config.add_handlers(name=value), 'extractor': lambda: field(value),
             'converter': lambda: field(lambda item: 1, converter=value)}
    sx.check(not attempt(calls[place]), 'what cannot be called is refused', place)
    number = sx.int('number', -HI, HI)
    sx.check(not attempt(lambda: config.add_handlers(number)), 'what cannot be called is refused')


def builtin(sx):
    """Built-in callables."""
    value, want = sx.choice('value', [(len, True), (print, False), (abs, True), (isinstance, False), (globals, False), ([].append, True), ({}.items, False), (repr, True), ({}.get, False), ([].pop, False)])
    sx.check(attempt(lambda: config.add_handlers(value)) == want, 'a built-in is accepted iff it takes exactly one argument')
    log('text')


def wrapped(sx):
    """Decorated functions are what they wrap."""
    shape = Shape(sx, positional=2, defaulted=1, small=True)
    function = build(shape.text(), 5)
    times = sx.choice('times', [1, 2])
    for i in range(times):
        function = functools.wraps(function)(make(function))
    ok = attempt(lambda: config.add_handlers(function))
    sx.check(ok == shape.one(), 'a decorated function is accepted iff the original is', shape.text())


def make(inner):
    def wrapper(*args, **kw):
        return inner(*args, **kw)
    return wrapper
