"""Shared pieces of the harnesses.  Loaded instrumented in the solver run and as
plain Python in a replay; uses only the public interface of polog."""
import asyncio

from polog import log, config, field, flog, clog, message, unlog, handle_log

HI = 10 ** 9


class Sink:
    """A handler that keeps what it was given."""

    def __init__(self):
        self.items = []

    def __call__(self, item):
        self.items.append(item)

    def count(self):
        return len(self.items)

    def __bool__(self):
        # A callable object may have any truth value of its own.
        return False


def sink():
    s = Sink()
    config.add_handlers(s)
    return s


def quiet_json():
    """A json module that keeps structure instead of serialising (the 'json_module' setting)."""
    import types
    m = types.ModuleType('opaque_json')
    m.dumps = lambda x, *a, **k: ('json', x)
    m.loads = lambda x, *a, **k: x[1]
    return m


class Unprintable:
    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __str__


class Callable:
    """A callable object that counts as false."""
    def __init__(self, function):
        self.function = function

    def __call__(self, item):
        return self.function(item)

    def __len__(self):
        return 0


def _refuse(*args, **kwargs):
    raise RuntimeError('this object allows nothing')


# An object that allows nothing to be done with it, not even to ask for its class (like a proxy of an absent object).
Stubborn = type('Stubborn', (), dict({'__%s__' % name: _refuse for name in (
    'str repr eq ne bool len hash iter format reduce reduce_ex lt gt le ge contains getattr copy deepcopy dir int index float getitem call '
    'sizeof bytes').split()}, __class__=property(_refuse)))


class Liar:
    """An object that says it is a number (like a mock with a specification)."""
    __class__ = property(lambda self: int)


class GetError(Exception):
    def __getattr__(self, name):
        raise RuntimeError('no attributes')


class AnyError(Exception):
    def __getattr__(self, name):
        return 5


class FrozenError(Exception):
    def __setattr__(self, name, value):
        raise AttributeError('frozen')


class DumbError(Exception):
    def __str__(self):
        raise RuntimeError('no text')


class SlotError(ValueError):
    __slots__ = ()


class ChildError(ValueError):
    pass


def run_coroutine(coroutine):
    """Drive a coroutine that never waits for anything outside; no event loop needed."""
    try:
        while True:
            coroutine.send(None)
    except StopIteration as e:
        return e.value


class Suspend:
    """Awaitable that gives control back to the driver once."""

    def __await__(self):
        yield 'suspended'
