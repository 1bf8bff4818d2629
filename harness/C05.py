"""A record is read-only for handlers, behaves as a mapping and is ordered by its time."""
from harness.common import log, config, sink, HI
from polog.core.log_item import LogItem
from polog.errors import RewritingLogError

CASES = ['ordering', 'three', 'mapping', 'readonly', 'foreign', 'stored']
BOUNDS = ('two or three records with any integer times in 1000..10**9 or without a time, 6 comparison operators; records with '
          'up to 3 fields with integer values or None; read, write and delete attempts with any key')
OUTSIDE = 'times that are not totally ordered; direct use of the methods that build a record'
ASSUMPTIONS = ['the time of a record is any totally ordered value; it is an integer in the solver run']
MARKS = {'ordering': ['both times', 'no time'], 'mapping': ['present', 'absent'], 'readonly': ['set', 'delete']}
LO = -HI


def make(sx, name, optional=True, extra=None):
    item = LogItem()
    how = sx.choice(name + '_kind', ['time', 'no time', 'empty']) if optional else 'time'
    t = None
    if how == 'time':
        t = sx.int(name, 1000, HI)  # above the numbers Python keeps single objects for
        item.set_data({'time': t, 'message': name, **(extra or {})})
    elif how == 'no time':
        item.set_data({'message': name})
    return item, t


def op(symbol, a, b):
    try:
        if symbol == '<':
            return a < b
        if symbol == '>':
            return a > b
        if symbol == '<=':
            return a <= b
        if symbol == '>=':
            return a >= b
        if symbol == '==':
            return a == b
        return a != b
    except TypeError:
        return 'TypeError'


def ordering(sx):
    (a, ta), (b, tb) = make(sx, 'a'), make(sx, 'b')
    symbol = sx.choice('op', ['<', '>', '<=', '>=', '==', '!='])
    got = op(symbol, a, b)
    if ta is None or tb is None:
        want = {'==': False, '!=': True}.get(symbol, 'TypeError')
        sx.check(got is want or got == want, 'records without a time are unequal and cannot be ordered', (symbol, got))
        sx.mark('no time')
        return
    want = op(symbol, ta, tb)
    sx.check(got == want, 'records compare as their times do', symbol)
    sx.mark('both times')
    if op('==', a, b):
        sx.check(hash(a) == hash(b), 'equal records have equal hashes')
    sx.check(op('==', a, b) != op('!=', a, b), 'two records are either equal or not equal')


def three(sx):
    items = [make(sx, n, optional=False) for n in ('a', 'b', 'c')]
    order = sorted([i for i, t in items])
    times = sorted([t for i, t in items])
    for i in range(3):
        sx.check(order[i]['time'] == times[i], 'sorting records sorts them by time')
    smallest = min([i for i, t in items])
    for i, t in items:
        sx.check(smallest['time'] <= t, 'the minimum has the smallest time')


def mapping(sx):
    names = ['one', 'two', 'three'][:sx.choice('count', [0, 1, 2, 3])]
    nothing = sx.choice('nothing', ['no', 'one', 'two'])  # a field whose value is None
    data = {n: None if n == nothing else sx.int('v_' + n, LO, HI) for n in names}
    item = LogItem()
    if sx.flag('filled'):
        item.set_data(dict(data))
    else:
        data = {}
    sx.check(len(item) == len(data), 'the length is the number of fields')
    sx.check(list(item) == list(data) and list(item.keys()) == list(data), 'iteration gives the names of the fields')
    sx.check(list(item.values()) == list(data.values()), 'values() gives the values')
    sx.check(list(item.items()) == list(data.items()), 'items() gives the pairs')
    key = sx.str('key', 5, alphabet='onetwhr')
    if key in data:
        sx.mark('present')
        want = data[key]
        sx.check(key in item, 'a present field is in the record')
        for got in (item[key], item.get(key), item.get(key, 7)):
            sx.check(got is None if want is None else got is not None and got == want, 'reading gives the value of the field')
    else:
        sx.mark('absent')
        sx.check(key not in item, 'an absent field is not in the record')
        try:
            item[key]
            sx.check(False, 'reading an absent field raises KeyError')
        except KeyError:
            pass
        sx.check(item.get(key) is None and item.get(key, 7) == 7, 'get() of an absent field gives the default')
    text = str(item)
    sx.check(isinstance(text, str) and isinstance(repr(item), str), 'a record can be printed')


def readonly(sx):
    """The handler tries to change the record in every way the mapping interface offers."""
    seen = []
    key = sx.choice('key', ['message', 'level', 'time', 'success', 'auto', 'absent', 'my'])
    value = sx.int('value', LO, HI)
    what = sx.choice('what', ['set', 'delete'])

    def vandal(item):
        before = dict(item.items())
        try:
            if what == 'set':
                item[key] = value
            else:
                del item[key]
            seen.append('changed')
        except RewritingLogError:
            seen.append('refused')
        seen.append(before == dict(item.items()))

    config.add_handlers(vandal)
    s = sink()
    how = sx.choice('how', ['manual', 'function', 'block'])
    level = sx.int('level', 0, HI)
    if how == 'manual':
        log('text', level=level, my=5)
    elif how == 'function':
        log('text', level=level)(lambda: 5)()
    else:
        with log('text', level=level, my=5):
            pass
    sx.mark(what)
    sx.check(seen == ['refused', True], 'an attempt to change a record is refused and changes nothing', seen)
    if sx.check(s.count() == 1, 'the next handler gets the record'):
        item = s.items[0]
        sx.check(item['message'] == 'text' and item['level'] == level, 'the record is as it was made')
        sx.check('absent' not in item, 'nothing is added to the record')


def foreign(sx):
    """A record against something that is not a record."""
    a, ta = make(sx, 'a')
    other = sx.choice('other', [None, 1, 'text', {}, object()])
    symbol = sx.choice('op', ['<', '>', '<=', '>=', '==', '!='])
    got = op(symbol, a, other)
    sx.check(got is {'==': False, '!=': True}.get(symbol, 'TypeError') or got == 'TypeError',
             'a record is not equal to and not comparable with other objects', (symbol, got))
    if symbol in ('==', '!='):
        sx.check(got is (symbol == '!='), 'a record is not equal to other objects')


def stored(sx):
    """A handler keeps records; later calls do not touch the records it has."""
    s = sink()
    levels = [sx.int('level%d' % i, 0, HI) for i in range(3)]
    how = sx.choice('how', ['manual', 'function', 'block', 'recursive'])
    if how == 'recursive':
        @log('text')
        def function(n):
            if n:
                function(n - 1)
            return n
        function(2)
        sx.check(s.count() == 3, 'one record per call')
        sx.check(len({id(i.function_input_data) for i in s.items}) == 3, 'every record has its own input data')
        sx.check([i.function_input_data.args for i in s.items] == [(0,), (1,), (2,)], 'every record has its own input data',
                 [i.function_input_data.args for i in s.items])
        return
    for n, lv in enumerate(levels):
        if how == 'manual':
            log('text %d' % n, level=lv)
        elif how == 'function':
            log('text %d' % n, level=lv)(lambda: 5)()
        else:
            with log('text %d' % n, level=lv):
                pass
    if sx.check(s.count() == 3, 'one record per event'):
        for n, lv in enumerate(levels):
            sx.check(s.items[n]['message'] == 'text %d' % n and s.items[n]['level'] == lv, 'a stored record stays as it was made')
