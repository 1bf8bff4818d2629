"""Names of levels: a name always means the number it was last given, everywhere."""
from harness.common import log, config, handle_log, message, sink, HI
from polog import file_writer

CASES = ['history', 'everywhere', 'shown', 'later', 'refused', 'standard', 'unknown']
BOUNDS = ('histories of 3 registrations over 3 names with any numbers 0..10**9; every way to name a level (manual record, short form, '
          'decorator, error level, block, edit, settings); 11 unknown names, also such that resemble a registered one; 13 right and wrong names with any number in -10**9..10**9')
OUTSIDE = 'registrations by several threads at once; booleans as numbers of levels'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'shown': ['by name', 'by number'], 'refused': ['accepted', 'refused']}
NAMES = ['alpha', 'beta', 'gamma']


class File:
    def __init__(self):
        self.lines = []

    def write(self, text):
        self.lines.append(text)

    def read(self):
        return ''

    def flush(self):
        pass

    def close(self):
        pass


def shown_level(f):
    return f.lines[-1].split(' | ')[1].strip()


def history(sx):
    """A name means its last number after any history."""
    s = sink()
    model = {}
    for i in range(3):
        name = sx.choice('name%d' % i, NAMES if i else NAMES[:1])
        value = sx.int('value%d' % i, 0, HI)
        if sx.flag('dict%d' % i):
            config.levels(**{name: value})
        else:
            getattr(config, 'levels')(**{name: value})
        model[name] = value
    for name, value in model.items():
        log('text', level=name)
        if sx.check(s.count() == 1, 'a registered name can be used', name):
            sx.check(s.items[0]['level'] == value, 'a name means the number it was last given', name)
        s.items.clear()
    for name in NAMES:
        if name not in model:
            config.set(silent_internal_exceptions=False)
            try:
                handle_log('text', level=name)
                sx.check(False, 'a name that was not registered means nothing', name)
            except KeyError:
                pass
            sx.check(s.count() == 0, 'a name that was not registered means nothing', name)


def everywhere(sx):
    """Every place where a level can be named gives the same number."""
    s = sink()
    old, new, other = sx.int('old', 0, HI), sx.int('new', 0, HI), sx.int('other', 0, HI)
    config.levels(alpha=old, beta=other)
    again = sx.flag('again')
    if again:
        config.levels(alpha=new)
    want = new if again else old
    how = sx.choice('how', ['manual', 'handle', 'short', 'short handle', 'decorator', 'short decorator', 'error', 'block', 'short block', 'edit',
                            'default', 'default error', 'class'])
    if how == 'manual':
        log('text', level='alpha')
    elif how == 'handle':
        handle_log('text', level='alpha')
    elif how == 'short':
        log.alpha('text')
    elif how == 'short handle':
        handle_log.alpha('text')
    elif how == 'decorator':
        log(level='alpha')(lambda: 5)()
    elif how == 'short decorator':
        log.alpha('text')(lambda: 5)()
    elif how == 'class':
        @log(level='alpha')
        class Some:
            def method(self):
                return 5
        Some().method()
    elif how == 'error':
        def bad():
            raise ValueError('bad')
        try:
            log(errors_level='alpha')(bad)()
        except ValueError:
            pass
    elif how == 'block':
        with log('text', level='alpha'):
            pass
    elif how == 'short block':
        with log.alpha('text'):
            pass
    elif how == 'edit':
        @log(level='beta')
        def f():
            message(level='alpha')
        f()
    elif how == 'default':
        config.set(default_level='alpha')
        log('text')
    else:
        config.set(default_error_level='alpha')
        log('text', success=False)
    if sx.check(s.count() == 1, 'one event, one record', how):
        sx.check(s.items[0]['level'] == want, 'a name means its number in every place', how)


def shown(sx):
    """A number is shown under a name that means it now."""
    f = File()
    config.add_handlers(file_writer(f))
    model, last = {}, []
    for i in range(3):
        name = sx.choice('name%d' % i, NAMES[:2] if i else NAMES[:1])
        value = sx.int('value%d' % i, 0, HI)
        config.levels(**{name: value})
        model[name] = value
        last = [(n, v) for n, v in last if n != name] + [(name, value)]
    number = sx.int('number', 0, 4)
    log('text', level=number)
    if not sx.check(len(f.lines) == 1, 'one line'):
        return
    text = shown_level(f)
    names = [n for n in model if model[n] == number]
    if text in NAMES:
        sx.mark('by name')
        sx.check(text in names, 'a number is shown under a name that means it', text)
    else:
        sx.mark('by number')
        sx.check(text == str(number), 'a number without a name is shown as it is', text)
        sx.check(not [n for n, v in last[-1:] if v == number], 'a number that has a name is shown under it', text)


def later(sx):
    """A decorator or a setting that names a level; the name is changed later."""
    s = sink()
    old, new = sx.int('old', 0, HI), sx.int('new', 0, HI)
    config.levels(alpha=old)
    f = log(level='alpha')(lambda: 5)
    f()
    config.levels(alpha=new)
    f()
    if sx.check(s.count() == 2, 'one call, one record'):
        sx.check(s.items[0]['level'] == old and s.items[1]['level'] == new, 'a decorator uses the number the name means at the call')
    s.items.clear()
    config.levels(gate=old)
    config.set(level='gate')
    config.levels(gate=new)
    log('text', level=old)
    sx.check(s.count() == 1, 'the chosen global level does not move when its name does')


def refused(sx):
    """Which names and numbers are accepted."""
    s = sink()
    name, ok = sx.choice('name', [('a', True), ('a1', True), ('a_b', True), ('A', True), ('_a', False), ('__a__', False), ('1a', False), ('a-b', False),
                                  ('a b', False), ('a.b', False), ('', False), ('message', False), ('suppress', False)])
    kind = sx.choice('kind', ['number', 'real', 'text', 'None'])
    value = {'number': sx.int('value', -HI, HI), 'real': 1.5, 'text': '5', 'None': None}[kind]
    known = ok and sx.flag('known')
    if known:
        config.levels(**{name: 7})
    try:
        config.levels(**{name: value})
        accepted = True
    except (TypeError, ValueError, NameError):
        accepted = False
    good = kind == 'number' and value >= 0
    sx.check(accepted == (ok and good), 'a name is accepted iff it can be a level and the number is right', (name, kind))
    config.set(silent_internal_exceptions=False)
    if accepted:
        sx.mark('accepted')
        handle_log('text', level=name)
        if sx.check(s.count() == 1, 'an accepted name can be used'):
            sx.check(s.items[0]['level'] == value, 'an accepted name means its number')
    else:
        sx.mark('refused')
        try:
            handle_log('text', level=name)
        except KeyError:
            pass
        if known:
            if sx.check(s.count() == 1, 'a refused change changes nothing', name):
                sx.check(s.items[0]['level'] == 7, 'a refused change changes nothing', name)
        else:
            sx.check(s.count() == 0, 'a refused name means nothing', name)


def standard(sx):
    """The standard names, before or after own ones."""
    s = sink()
    want = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
    own = sx.int('own', 0, HI)
    name = sx.choice('name', list(want))
    low = sx.flag('low')
    name, number = (name.lower() if low else name), want[name]
    order = sx.choice('order', ['none', 'before', 'after', 'after twice'])
    if order == 'before':
        config.levels(**{name: own})
    config.standard_levels()
    if order.startswith('after'):
        config.levels(**{name: own})
        number = own
    if order == 'after twice':
        config.standard_levels()
        number = want[name.upper()]
    handle_log('text', level=name)
    getattr(log, name)('text')
    sx.check([i['level'] for i in s.items] == [number, number], 'a standard name means its number', name)
    with_other = 'debug' if name.lower() != 'debug' else 'error'
    s.items.clear()
    log('text', level=with_other)
    sx.check(s.items[0]['level'] == want[with_other.upper()], 'the other standard names mean their numbers')


def unknown(sx):
    """A name nobody registered never records under a wrong number."""
    s = sink()
    config.levels(alpha=sx.int('alpha', 0, HI))
    d, de = sx.int('default_level', 0, HI), sx.int('default_error_level', 0, HI)
    config.set(default_level=d, default_error_level=de, silent_internal_exceptions=True)
    how = sx.choice('how', ['manual', 'short', 'decorator', 'error', 'failing decorator', 'setting', 'default'])
    nobody = sx.choice('unknown', ['nobody', 'Alpha', 'ALPHA', 'alph', 'alphas', 'alpha_', ' alpha', 'alpha ', 'alpha\n', '\u0430lpha', ''])
    if how == 'manual':
        log('text', level=nobody)
        want = d
    elif how == 'short':
        getattr(log, nobody)('text')
        want = d
    elif how == 'decorator':
        log(level=nobody)(lambda: 5)()
        want = d
    elif how in ('error', 'failing decorator'):
        def bad():
            raise ValueError('bad')
        try:
            (log(errors_level=nobody) if how == 'error' else log(level=nobody))(bad)()
        except ValueError:
            pass
        want = d if d > de else de
    else:
        try:
            config.set(**{'level' if how == 'setting' else 'default_level': nobody})
            sx.check(False, 'a setting does not take an unknown name')
        except KeyError:
            pass
        log('text')
        want = d
    if sx.check(s.count() == 1, 'an event with an unknown level is recorded', how):
        sx.check(s.items[0]['level'] == want, 'an unknown name counts as no level', how)
