"""Level gating: an event is recorded iff its level is at least the global level."""
from harness.common import log, config, sink, flog, handle_log

CASES = ['manual', 'decorator', 'context']
BOUNDS = ('every level (global, default, default error, per-event, per-name) any integer 0..10**9; one event per '
          'history; levels given as number, registered name, unregistered name (errors) or omitted')
OUTSIDE = 'levels above 10**9, more than two registered names'
ASSUMPTIONS = ['pool_size=0 (records are handled in the calling thread)', 'json_module left at its default']
MARKS = {'manual': ['recorded', 'gated'], 'decorator': ['recorded', 'gated', 'error recorded', 'error gated'],
         'context': ['recorded', 'gated', 'error recorded']}
HI = 10 ** 9


def setup(sx):
    s = sink()
    g = sx.int('global_level', 0, HI)
    d = sx.int('default_level', 0, HI)
    de = sx.int('default_error_level', 0, HI)
    named = sx.int('named_level', 0, HI)
    config.levels(alpha=named)
    by_name = sx.flag('global_level_by_name')
    if by_name:
        config.levels(beta=g)
        config.set(level='beta')
    else:
        config.set(level=g)
    config.set(default_level=d, default_error_level=de)
    return s, g, d, de, named


def expect(sx, s, level, g, kind=''):
    if level >= g:
        if sx.check(s.count() == 1, 'an event at or above the global level is recorded once', s.count()):
            sx.check(s.items[0]['level'] == level, 'the record carries the level of the event')
        sx.mark(kind + 'recorded')
    else:
        sx.check(s.count() == 0, 'an event below the global level is not recorded', s.count())
        sx.mark(kind + 'gated')


def manual(sx):
    s, g, d, de, named = setup(sx)
    how = sx.choice('how', ['plain', 'number', 'name', 'attribute', 'exception', 'failure', 'success', 'exception+level', 'attribute+level', 'attribute+name'])
    via = sx.choice('via', ['log', 'handle_log'])
    f = log if via == 'log' else handle_log
    lv = sx.int('level', 0, HI)
    if how == 'plain':
        want = d
        f('text')
    elif how == 'number':
        want = lv
        f('text', level=lv)
    elif how == 'name':
        want = named
        f('text', level='alpha')
    elif how == 'attribute':
        want = named
        f.alpha('text')
    elif how == 'exception':
        want = de
        f('text', exception=ValueError('bad'))
    elif how == 'failure':
        want = de
        f('text', success=False)
    elif how == 'success':
        want = d
        f('text', success=True)
    elif how == 'attribute+level':
        want = lv
        f.alpha('text', level=lv)
    elif how == 'attribute+name':
        config.levels(gamma=lv)
        want = named
        f.gamma('text', level='alpha')
    else:
        want = lv
        f('text', exception=ValueError('bad'), level=lv)
    expect(sx, s, want, g)


def level_argument(sx, name, named, kinds):
    """(given, value, resolved): resolved is None when it counts as not given."""
    kind = sx.choice(name + '_kind', kinds)
    if kind == 'omitted':
        return {}, None
    if kind == 'number':
        v = sx.int(name, 0, HI)
        return {name: v}, v
    if kind == 'name':
        return {name: 'alpha'}, named
    return {name: 'never_registered'}, None


def decorator(sx):
    s, g, d, de, named = setup(sx)
    raises = sx.flag('raises')
    kinds = ['omitted', 'number', 'name'] + (['unknown'] if raises else [])
    kw1, lv = level_argument(sx, 'level', named, kinds)
    kw2, elv = level_argument(sx, 'errors_level', named, ['omitted', 'number', 'name', 'unknown'])

    by_attribute = sx.flag('by_attribute')
    if by_attribute and lv is None and 'level' not in kw1:
        lv = named

    @(log.alpha if by_attribute else log)(**kw1, **kw2)
    def function():
        if raises:
            raise ValueError('bad')
        return 5
    try:
        function()
    except ValueError:
        pass
    if raises:
        if elv is not None:
            want = elv
        else:
            want = d
            if de > want:
                want = de
            if lv is not None and lv > want:
                want = lv
        expect(sx, s, want, g, 'error ')
    else:
        expect(sx, s, d if lv is None else lv, g)


def context(sx):
    s, g, d, de, named = setup(sx)
    raises = sx.flag('raises')
    how = sx.choice('how', ['bare', 'plain', 'number', 'name', 'attribute', 'inside', 'attribute+level', 'attribute inside'])
    lv = sx.int('level', 0, HI)
    want = de if raises else d
    manager = log
    if how == 'plain':
        manager = log('text')
    elif how == 'number':
        manager = log('text', level=lv)
        want = lv
    elif how == 'name':
        manager = log(level='alpha')
        want = named
    elif how == 'attribute':
        manager = log.alpha
        want = named
    elif how == 'inside':
        manager = log('text')
    elif how == 'attribute+level':
        manager = log.alpha('text', level=lv)
        want = lv
    elif how == 'attribute inside':
        manager = log.alpha
    try:
        with manager as m:
            if how == 'inside' or how == 'attribute inside':
                m(level=lv)
                want = lv
            if raises:
                raise ValueError('bad')
    except ValueError:
        pass
    expect(sx, s, want, g, 'error ' if raises else '')
