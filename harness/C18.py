"""Copying of the standard logging: complete, exact, harmless and switchable."""
import enum
import logging

from harness.common import log, config, sink, HI, unlog, DumbError, Stubborn
from polog.core.stores.settings.actions import from_logging_filter_to_polog

CASES = ['records', 'calls', 'messages', 'errors', 'switch', 'history', 'child', 'hostile']
BOUNDS = ('records with any level 0..10**9, line and time; 9 ways to call logging, 14 kinds of message with arguments (also such that cannot be formatted), exceptions of 4 '
          'kinds; histories of 4 switches, with a filter of the program before or after; the root logger and a logger with the documented filter')
OUTSIDE = 'loggers without the filter; negative levels; records changed by other filters'
ASSUMPTIONS = ['pool_size=0', 'the standard logging runs as it is (not instrumented); symbolic levels go through Logger.handle()']
MARKS = {'records': ['recorded', 'gated'], 'switch': ['on', 'off']}


class Own(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record)


class Mine(logging.Filter):
    def __init__(self):
        self.records = []

    def filter(self, record):
        self.records.append(record)
        return True


class Array:
    def __bool__(self):
        raise ValueError('ambiguous')

    def __str__(self):
        return '[1 2]'


class Level(enum.IntEnum):
    NOTICE = 25


def own(level=0):
    h = Own()
    logging.root.handlers[:] = [h]
    logging.root.setLevel(level)
    return h


def record(level, text='text', args=(), exc=None, line=7, name='func', created=1600000000.5):
    r = logging.LogRecord('root', 0, '/some/path/module.py', 7, text, args, exc, name)
    r.levelno = level
    r.lineno = line
    r.created = created
    return r


def records(sx):
    """Any level: recorded by the rules of levels, with everything the record of logging has."""
    s, h = sink(), own()
    level, g = sx.int('level', 0, HI), sx.int('global_level', 0, HI)
    line = sx.int('line', 0, HI)
    off = sx.flag('logging_off')
    config.set(level=g, logging_off=off)
    name = sx.choice('function', ['func', '<module>', '<lambda>'])
    r = record(level, line=line, name=name)
    logging.root.handle(r)
    sx.check(len(h.records) == (0 if off else 1), 'logging goes on by itself iff it is not turned off')
    if level >= g:
        sx.mark('recorded')
        if not sx.check(s.count() == 1, 'one record of logging, one record', s.count()):
            return
        item = s.items[0]
        sx.check(item['level'] == level, 'the record has the level')
        sx.check(item['message'] == 'text', 'the record has the text')
        sx.check(item['success'] == (level < 30), 'a record of logging is a failure from the level of warnings on')
        sx.check(item['line_number'] == line, 'the record has the line')
        sx.check(item['module'] == 'module' and item['path_to_code'] == '/some/path/module.py', 'the record has the place')
        sx.check(item.get('function') == ('func' if name == 'func' else None), 'the record has the function')
        sx.check(item['time'].timestamp() == 1600000000.5, 'the record has the time')
        sx.check(item['from_logging'] is True and item['auto'] is False, 'the record tells where it is from')
        sx.check(item['thread'] == '%s (%s)' % (r.threadName, r.thread) and item['process'] == '%s (%s)' % (r.processName, r.process),
                 'the record has the thread and the process')
        sx.check('exception_type' not in item and 'exception_message' not in item and 'traceback' not in item, 'no exception, no exception in the record')
    else:
        sx.mark('gated')
        sx.check(s.count() == 0, 'a record below the level is not copied')


def calls(sx):
    """The ways to call logging, with its own level."""
    s, h = sink(), own(sx.choice('threshold', [0, 10, 30, 31, 60]))
    off = sx.flag('logging_off')
    config.set(logging_off=off)
    how = sx.choice('how', ['debug', 'info', 'warning', 'error', 'critical', 'exception', 'log 35', 'log 5', 'log of enumeration', 'root'])
    number = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50, 'exception': 40, 'log 35': 35, 'log 5': 5, 'log of enumeration': Level.NOTICE, 'root': 30}[how]
    if how.startswith('log'):
        logging.log(number, 'text')
    elif how == 'root':
        logging.getLogger().warning('text')
    else:
        getattr(logging, how)('text')
    want = 1 if number >= logging.root.level else 0
    if sx.check(s.count() == want, 'exactly the calls that logging handles are copied, once', (how, s.count())) and want:
        sx.check(s.items[0]['level'] == number and s.items[0]['message'] == 'text', 'the record has the level and the text')
        sx.check(s.items[0]['success'] == (number < 30), 'a record of logging is a failure from the level of warnings on')
    sx.check(len(h.records) == (want if not off else 0), 'logging goes on by itself iff it is not turned off')


def messages(sx):
    """The text of a record is the text logging would show; texts that cannot be made do not matter."""
    s, h = sink(), own()
    silent = sx.flag('silent')
    config.set(logging_off=False, silent_internal_exceptions=silent)
    n = sx.int('number', -HI, HI)
    kind = sx.choice('kind', ['plain', 'percent', 'number', 'dict', 'object', 'list', 'missing', 'extra', 'wrong type', 'dumb', 'zero', 'empty', 'None', 'stubborn', 'array'])
    text, args, want = {
        'plain': ('some text', (), 'some text'),
        'percent': ('100%', (), '100%'),
        'number': ('%s items', (75,), '75 items'),
        'dict': ('%(a)s', ({'a': 75},), '75'),
        'object': (ValueError('obj'), (), 'obj'),
        'list': ([1, 2], (), '[1, 2]'),
        'missing': ('%s %s', (1,), None),
        'extra': ('text', (1,), None),
        'wrong type': ('%d', ('a',), None),
        'dumb': (DumbError('x'), (), None),
        'zero': (0, (), '0'),
        'empty': ('', (), ''),
        'None': (None, (), 'None'),
        'stubborn': (Stubborn(), (), None),
        'array': (Array(), (), '[1 2]'),
    }[kind]
    logging.error(text, *args)
    sx.check(len(h.records) == 1, 'the call has its own effect')
    if sx.check(s.count() == 1, 'every call is copied', (kind, s.count())):
        item = s.items[0]
        sx.check(item['level'] == 40, 'the record has the level')
        if want is not None:
            sx.check(item.get('message') == want, 'the record has the text logging shows', (kind, item.get('message')))


class EmptyError(Exception):
    def __len__(self):
        return 0


def errors(sx):
    """Exceptions."""
    s, h = sink(), own()
    config.set(logging_off=sx.flag('logging_off'))
    kind = sx.choice('kind', [ValueError, KeyError, DumbError, OSError, EmptyError])
    how = sx.choice('how', ['exception', 'exc_info', 'object', 'tuple', 'none'])
    if kind is EmptyError and how == 'object':
        return      # logging itself takes it for no exception
    level = sx.choice('level', [20, 40])
    try:
        raise kind('bad')
    except Exception as e:
        if how == 'exception':
            logging.exception('text')
            level = 40
        elif how == 'exc_info':
            logging.log(level, 'text', exc_info=True)
        elif how == 'object':
            logging.log(level, 'text', exc_info=e)
        elif how == 'tuple':
            logging.log(level, 'text', exc_info=(type(e), e, e.__traceback__))
    if how == 'none':
        logging.log(level, 'text', exc_info=True)
    if not sx.check(s.count() == 1, 'every call is copied', s.count()):
        return
    item = s.items[0]
    sx.check(item['level'] == level and item['message'] == 'text', 'the record has the level and the text')
    if how == 'none':
        sx.check('exception_type' not in item, 'no exception, no exception in the record')
    else:
        sx.check(item['exception_type'] == kind.__name__, 'the record has the type of the exception')
        sx.check('traceback' in item, 'the record has the traceback')
        if kind is not DumbError:
            sx.check(item['exception_message'] == str(kind('bad')), 'the record has the text of the exception')


def switch(sx):
    """Turned on and off."""
    s, h = sink(), own()
    on = True
    mine = Mine()
    filtered = sx.choice('own_filter', ['none', 'before', 'first'])
    if filtered == 'before':
        logging.root.addFilter(mine)
    elif filtered == 'first':
        logging.root.filters.insert(0, mine)
    for i in range(3):
        if sx.flag('turn%d' % i):
            on = not on
            if on:
                config.set(integration_with_logging=True)
            else:
                config.set(logging_off=False)
                config.set(integration_with_logging=False)
        s.items.clear()
        h.records.clear()
        del mine.records[:]
        logging.warning('text')
        sx.check(s.count() == (1 if on else 0), 'a call is copied once iff the integration is on', (i, on, s.count()))
        if filtered == 'first' or not on and filtered != 'none':
            sx.check(len(mine.records) == 1, 'other filters of logging are not disturbed')
        if not on:
            sx.mark('off')
            sx.check(len(h.records) == 1, 'without the integration logging works as usual')
        else:
            sx.mark('on')
    config.set(logging_off=False)
    config.set(integration_with_logging=False)
    sx.check(logging.root.filters == ([] if filtered == 'none' else [mine]), 'turned off, it leaves logging as it was')


def history(sx):
    """Histories of the two linked settings."""
    s, h = sink(), own()
    on, off = True, True
    for i in range(4):
        op = sx.choice('op%d' % i, ['on', 'off', 'quiet', 'loud'])
        want = not ((op == 'off' and off) or (op == 'quiet' and not on))
        try:
            if op in ('on', 'off'):
                config.set(integration_with_logging=op == 'on')
            else:
                config.set(logging_off=op == 'quiet')
            ok = True
        except ValueError:
            ok = False
        sx.check(ok == want, 'a change is accepted iff it makes no conflict', op)
        if ok:
            if op in ('on', 'off'):
                on = op == 'on'
            else:
                off = op == 'quiet'
    logging.warning('text')
    sx.check(s.count() == (1 if on else 0), 'a call is copied once iff the integration is on', s.count())
    sx.check(len(h.records) == (0 if on and off else 1), 'logging is quiet iff both settings are on')


def child(sx):
    """A logger with the documented filter."""
    s, h = sink(), own()
    off = sx.flag('logging_off')
    config.set(logging_off=off)
    logger = logging.getLogger('some.child')
    logger.setLevel(0)
    logger.filters[:] = []
    filtered = sx.flag('filtered')
    if filtered:
        logger.addFilter(from_logging_filter_to_polog)
    level = sx.int('level', 0, HI)
    r = record(level)
    r.name = 'some.child'
    logger.handle(r)
    sx.check(s.count() == (1 if filtered else 0), 'a logger is copied iff it has the filter', s.count())
    if filtered and s.items:
        sx.check(s.items[0]['level'] == level, 'the record has the level')
    sx.check(len(h.records) == (0 if filtered and off else 1), 'logging goes on by itself iff it is not turned off')


def hostile(sx):
    """Failing handlers, unlogged code and logging inside of a logged function."""
    s, h = sink(), own()
    config.set(logging_off=False, silent_internal_exceptions=sx.flag('silent'))
    how = sx.choice('how', ['failing handler', 'unlog', 'logged', 'block', 'edit of fields'])
    if how == 'failing handler':
        def bad(item):
            raise RuntimeError('handler')
        config.add_handlers(bad)
        logging.warning('text')
        want = 1
    elif how == 'unlog':
        unlog(lambda: logging.warning('text'))()
        want = 0
    elif how == 'logged':
        log('call')(lambda: logging.warning('text'))()
        want = 1
    elif how == 'block':
        with log('block'):
            logging.warning('text')
        want = 1
    else:
        config.set(unknown_fields_in_handle_logs=False)
        logging.warning('text')
        want = 1
    sx.check(len(h.records) == 1, 'the call has its own effect')
    mine = [i for i in s.items if i.get('from_logging')]
    sx.check(len(mine) == want, 'every call is copied once', (how, len(mine)))
    for i in mine:
        sx.check(i['message'] == 'text' and i['level'] == 30, 'the record has the level and the text')
