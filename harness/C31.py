"""The handler that keeps records in memory."""
import datetime

from symx import conc
conc.install()

from harness.common import log, config, HI
from polog.core.log_item import LogItem
from polog.handlers.memory.saver import memory_saver

CASES = ['history', 'events', 'threads']
YIELD_IN = ['polog.handlers.memory']
BOUNDS = ('histories of 5 records and cleanings in any order, records with any level and text of the real logger at any global level; 2 and 3 threads that give 1..2 records or clean the handler; every schedule with at most 2 forced switches for 2 threads and 1 for 3 '
          '(one more in the thorough tier) at any statement of the handler that touches an attribute and at any operation of its locks')
OUTSIDE = 'readers of the list while it is being changed; more threads and forced switches; switches inside of one expression or inside of built-in operations'
ASSUMPTIONS = ['locks, semaphores and threads are stand-ins with the documented meaning', 'pool_size=0']
MARKS = {'history': ['cleaned', 'kept'], 'events': ['kept', 'left out'], 'threads': ['done']}


def record(number):
    item = LogItem()
    item.set_data({'level': 1, 'number': number, 'time': datetime.datetime(2020, 1, 2)})
    return item


def state(handler):
    return [id(i) for i in handler.all], None if handler.last is None else id(handler.last)


def history(sx):
    """Any history of records and cleanings, through several references to the handler."""
    handler = memory_saver()
    handler.clean()
    want = []
    for i in range(5 + 2 * sx.thorough):
        target = handler if i % 2 else memory_saver()
        if sx.flag('clean%d' % i):
            target.clean()
            want = []
            sx.mark('cleaned')
        else:
            item = record(i)
            target(item)
            want.append(item)
            sx.mark('kept')
        now = memory_saver()
        sx.check(len(now.all) == len(want) and all(a is b for a, b in zip(now.all, want)), 'the handler holds the records since the last cleaning, in order', i)
        sx.check(now.last is (want[-1] if want else None), 'the last record is named', i)


def events(sx):
    """Records of the logger, with the handler among others."""
    handler = memory_saver()
    handler.clean()
    config.add_handlers(handler, lambda item: 1 / 0)
    level = sx.int('global level', 0, HI)
    config.set(level=level)
    want = []
    for i in range(3):
        given = sx.int('level%d' % i, 0, HI)
        how = sx.choice('how%d' % i, ['manual', 'call', 'block'])
        if how == 'manual':
            log('text %d' % i, level=given)
        elif how == 'call':
            log('text %d' % i, level=given)(lambda: None)()
        else:
            with log('text %d' % i, level=given):
                pass
        if given >= level:
            want.append((i, given))
            sx.mark('kept')
        else:
            sx.mark('left out')
    if sx.check(len(handler.all) == len(want), 'exactly the recorded events are kept', len(handler.all)):
        for item, (i, given) in zip(handler.all, want):
            sx.check(item['message'] == 'text %d' % i and item['level'] == given, 'the records are kept in order, as they were made', i)
        sx.check(handler.last is (handler.all[-1] if want else None), 'the last record is named')


def orders(plans):
    """Every merge of the plans."""
    if not any(plans):
        yield []
        return
    for i, plan in enumerate(plans):
        if plan:
            for rest in orders(plans[:i] + [plan[1:]] + plans[i + 1:]):
                yield [plan[0]] + rest


def threads(sx):
    """The effect of several threads is that of some order of their operations."""
    handler = memory_saver()
    handler.clean()
    items = [record(i) for i in range(6)]
    number = sx.choice('threads', [2, 3])
    plans = []
    for i in range(number):
        kinds = [['two', 'one and clean'], ['two', 'clean']][i] if number == 2 else [['one'], ['one', 'clean'], ['one', 'clean']][i]
        kind = sx.choice('plan%d' % i, kinds)
        a, b = items[2 * i], items[2 * i + 1]
        plans.append({'two': [a, b], 'one': [a], 'clean': [None], 'one and clean': [a, None]}[kind])
    first = record(9)
    handler(first)

    def run(plan):
        def body():
            for item in plan:
                if item is None:
                    handler.clean()
                else:
                    handler(item)
        return body
    result = conc.run(sx, [run(p) for p in plans], preemptions=4 - number + sx.thorough)
    possible = []
    for order in orders(plans):
        held = [first]
        for op in order:
            held = [] if op is None else held + [op]
        possible.append(([id(i) for i in held], id(held[-1]) if held else None))
    sx.check(state(handler) in possible, 'the records kept are those of some order of the operations', (len(handler.all), result))
    handler(items[5])
    sx.check(handler.all[-1] is items[5] and handler.last is items[5], 'the handler goes on working')
    sx.mark('done')
