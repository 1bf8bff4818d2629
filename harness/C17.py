"""The logged assertion: raises in the debug mode, records otherwise, exactly once, and does nothing when the condition is true."""
from harness.common import config, sink, HI, Unprintable
from polog import ass

CASES = ['truth', 'texts', 'levels', 'repeated', 'hostile']
BOUNDS = ('conditions: any integer, real or text up to 2 characters, flags, None, containers, objects with own truth; texts of up to 2 characters, other objects '
          'and none; both policies and modes; any levels; histories of 3 assertions')
OUTSIDE = 'conditions whose truth cannot be told (only that they do not raise anything but AssertionError)'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'truth': ['passed', 'raised', 'recorded', 'raised and recorded']}


class Own:
    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class NoTruth:
    def __bool__(self):
        raise ValueError('no truth')


def condition(sx, name='condition'):
    """-> (object, its truth)"""
    kind = sx.choice(name + '_kind', ['int', 'real', 'str', 'flag', 'None', 'list', 'own', 'sized', 'object', 'unprintable'])
    if kind == 'int':
        v = sx.int(name, -HI, HI)
        return v, v != 0
    if kind == 'real':
        v = sx.real(name, -10, 10)
        return v, v != 0
    if kind == 'str':
        v = sx.str(name, 2)
        return v, len(v) > 0
    if kind == 'flag':
        v = sx.flag(name)
        return v, v
    if kind == 'None':
        return None, False
    if kind == 'list':
        v = [0] if sx.flag(name) else []
        return v, bool(v)
    if kind == 'own':
        v = sx.flag(name)
        return Own(v), v
    if kind == 'sized':
        v = sx.choice(name, [0, 3])
        return Sized(v), v != 0
    if kind == 'unprintable':
        return Unprintable(), True
    return object(), True


def do(args):
    try:
        ass(*args)
        return None
    except BaseException as e:
        return e


def verdict(sx, s, truth, debug, always, raised, text):
    if truth:
        sx.mark('passed')
        sx.check(raised is None, 'nothing is raised when the condition is true', type(raised).__name__)
        sx.check(s.count() == 0, 'nothing is recorded when the condition is true')
        return
    if debug:
        sx.check(type(raised) is AssertionError, 'a false condition raises in the debug mode', type(raised).__name__)
        if text is not None and raised is not None:
            sx.check(raised.args[0] == text, 'the exception has the text')
    else:
        sx.check(raised is None, 'a false condition raises nothing without the debug mode', type(raised).__name__)
    want = 1 if always or not debug else 0
    sx.mark('raised and recorded' if debug and want else 'raised' if debug else 'recorded')
    if sx.check(s.count() == want, 'a false condition is recorded exactly as often as the policy says', s.count()) and want:
        item = s.items[0]
        sx.check(item['success'] == False, 'a failed assertion is a failure')  # noqa: E712
        sx.check(item['exception_type'] == 'AssertionError', 'the record has the exception')
        if text is not None:
            sx.check(item['message'] == text and item['exception_message'] == text, 'the record has the text')


def setup(sx):
    debug = sx.flag('debug')
    always = sx.flag('always')
    config.set(debug_mode=debug, smart_assert_politic='all' if always else 'if_debug')
    return debug, always


def truth(sx):
    """Every condition, with and without a text."""
    s = sink()
    debug, always = setup(sx)
    value, is_true = condition(sx)
    with_text = sx.flag('with_text') if not isinstance(value, float) else True
    raised = do([value, 'text'] if with_text else [value])
    verdict(sx, s, is_true, debug, always, raised, 'text' if with_text else None)


def texts(sx):
    """What the text may be."""
    s = sink()
    debug, always = setup(sx)
    kind = sx.choice('text_kind', ['str', 'number', 'none', 'None', 'unprintable', 'unprintable condition'])
    value = sx.flag('condition')
    if kind == 'str':
        text = sx.str('text', 2, minlen=1)
        args, want = [value, text], text
    elif kind == 'number':
        args, want = [value, 75], '75'
    elif kind == 'none':
        args, want = [value], str(value)
    elif kind == 'None':
        args, want = [value, None], 'None'
    elif kind == 'unprintable':
        args, want = [value, Unprintable()], str(value)
    else:
        class Odd(Unprintable):
            def __bool__(self):
                return value
        args, want = [Odd()], None
    raised = do(args)
    verdict(sx, s, value, debug, always, raised, want)


def levels(sx):
    """The record obeys the levels."""
    s = sink()
    debug, always = setup(sx)
    g, d, de = sx.int('global_level', 0, HI), sx.int('default_level', 0, HI), sx.int('default_error_level', 0, HI)
    config.set(level=g, default_level=d, default_error_level=de)
    raised = do([False, 'text'])
    sx.check((raised is not None) == debug, 'levels do not change whether it raises')
    if always or not debug:
        if de >= g:
            if sx.check(s.count() == 1, 'a failed assertion at a sufficient level is recorded once', s.count()):
                sx.check(s.items[0]['level'] == de, 'the record has the default error level')
        else:
            sx.check(s.count() == 0, 'a failed assertion below the level is not recorded')
    else:
        sx.check(s.count() == 0, 'nothing is recorded')


def repeated(sx):
    """Several assertions with the mode changed in between."""
    s = sink()
    total = raisings = 0
    for i in range(3):
        debug, always, ok = sx.flag('debug%d' % i), sx.flag('always%d' % i), sx.flag('ok%d' % i)
        config.set(debug_mode=debug, smart_assert_politic='all' if always else 'if_debug')
        raised = do([ok, 'text%d' % i])
        sx.check((raised is not None) == (debug and not ok), 'each assertion obeys the mode of its time')
        if not ok and (always or not debug):
            total += 1
    sx.check(s.count() == total, 'each failed assertion has its record', (s.count(), total))


def hostile(sx):
    """A condition whose truth cannot be told, a logger whose handlers fail, too many arguments."""
    s = sink()
    debug, always = setup(sx)
    how = sx.choice('how', ['no truth', 'failing handler', 'arguments'])
    silent = sx.flag('silent')
    config.set(silent_internal_exceptions=silent)
    if how == 'no truth':
        raised = do([NoTruth(), 'text'])
        sx.check(raised is None or (debug and type(raised) is AssertionError), 'only AssertionError in the debug mode leaves', type(raised).__name__)
    elif how == 'failing handler':
        def bad(item):
            raise RuntimeError('handler')
        config.add_handlers(bad)
        ok = sx.flag('ok')
        verdict(sx, s, ok, debug, always, do([ok, 'text']), 'text')
    else:
        ok = sx.flag('ok')
        raised = do([ok, 'text', 'more'])
        if silent:
            verdict(sx, s, ok, debug, always, raised, 'text')
        else:
            sx.check(type(raised) is TypeError, 'too many arguments are refused', type(raised).__name__)
