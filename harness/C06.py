"""Extra fields: exactly the chosen fields are extracted, with the right value; failures drop only the field."""
import collections

from harness.common import log, config, sink, field, handle_log, HI, Callable, Stubborn

CASES = ['decorator', 'sources', 'failing', 'manual', 'shape', 'live', 'input', 'shared']
BOUNDS = ('two global fields of each kind and up to two local ones of each kind with colliding names; local fields given as '
          'nothing, dict, list or tuple with or without an ellipsis in any place; extractors and converters that return any '
          'integer, return None or raise one of 4 classes; fields_intersection on and off')
OUTSIDE = 'extractors that change the record or the configuration'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'decorator': ['merged', 'local only', 'global'], 'failing': ['failed', 'worked'], 'manual': ['given by hand']}

ERRORS = [ValueError, KeyError, KeyboardInterrupt, SystemExit]
STUBBORN = Stubborn()


def F(value):
    return field(lambda item: value)


class OwnList(list):
    pass


def compose(base, places, intersection):
    data = dict(base)
    for fields in places:
        for name, value in fields.items():
            if name not in data or intersection:
                data[name] = value
    return data


def local_spec(sx, prefix, values):
    """How the local fields are given -> (argument, local names, whether the global ones are added)."""
    a, b = values
    how = sx.choice(prefix, ['absent', 'dict', 'list', 'list ...', '... tuple', 'two dicts ...', 'tuple', '... alone', 'empty', 'own dict', 'own list'])
    both = {'same': a, prefix + '_own': b}
    fields = {k: F(v) for k, v in both.items()}
    if how == 'absent':
        return None, {}, True
    if how == 'dict':
        return fields, both, False
    if how == 'own dict':
        return collections.OrderedDict(fields), both, False
    if how == 'own list':
        return OwnList([..., collections.OrderedDict(fields)]), both, True
    if how == 'list':
        return [fields], both, False
    if how == 'list ...':
        return [fields, ...], both, True
    if how == '... tuple':
        return (..., fields), both, True
    if how == 'two dicts ...':
        return [{'same': fields['same']}, ..., {prefix + '_own': fields[prefix + '_own']}], both, True
    if how == 'tuple':
        return (fields,), both, False
    if how == '... alone':
        return [...], {}, True
    return [], {}, False


def run(sx, record, kwargs):
    fn = log('text', **kwargs)(lambda: 5)
    fn()


def decorator(sx):
    s = sink()
    intersection = sx.flag('fields_intersection')
    config.set(fields_intersection=intersection)
    v = {n: sx.int(n, 0, HI) for n in ('g_same', 'g_only', 'e_same', 'e_only', 'l_same', 'l_own', 'le_same', 'le_own')}
    config.add_fields(same=F(v['g_same']), only=F(v['g_only']))
    config.add_engine_fields(same=F(v['e_same']), eonly=F(v['e_only']))
    arg, local, merge = local_spec(sx, 'extra', (v['l_same'], v['l_own']))
    kwargs = {}
    if arg is not None:
        kwargs['extra_fields'] = arg
    earg, elocal, emerge = None, {}, True
    if sx.flag('with_engine'):
        earg, elocal, emerge = local_spec(sx, 'engine', (v['le_same'], v['le_own']))
        if earg is not None:
            kwargs['extra_engine_fields'] = earg
    failing = sx.flag('call_fails')
    if failing:
        def body():
            raise ValueError('x')
    else:
        def body():
            return 5
    fn = log('text', **kwargs)(body)
    for _ in range(2):
        s.items.clear()
        try:
            fn()
        except ValueError:
            pass
        if not sx.check(s.count() == 1, 'one record'):
            return
        item = s.items[0]
        places = [dict(local), dict(elocal)]
        for mine, add, other in ((places[0], merge, {'same': v['g_same'], 'only': v['g_only']}),
                                 (places[1], emerge, {'same': v['e_same'], 'eonly': v['e_only']})):
            if add:
                for k, x in other.items():
                    if k not in mine:
                        mine[k] = x
        want = compose({}, places, intersection)
        for name in ('same', 'only', 'eonly', 'extra_own', 'engine_own'):
            if name in want:
                sx.check(name in item and item[name] == want[name], 'a chosen field has its value in the record', name)
            else:
                sx.check(name not in item, 'a field that is not chosen is not in the record', name)
    sx.mark('merged' if merge and arg is not None else 'local only' if arg is not None else 'global')


def broken(value):
    raise ValueError('no')


def sources(sx):
    """Fields against the fields Polog fills itself."""
    s = sink()
    intersection = sx.flag('fields_intersection')
    config.set(fields_intersection=intersection)
    name = sx.choice('name', ['level', 'message', 'result', 'function', 'own'])
    value = sx.int('value', 0, HI)
    level = sx.int('level', 0, HI)
    key = sx.choice('kind', ['extra_fields', 'extra_engine_fields'])
    fails = sx.choice('fails', ['no', 'extractor', 'converter'])
    one = F(value) if fails == 'no' else field(broken) if fails == 'extractor' else field(lambda item: value, broken)
    fn = log('text', level=level, **{key: {name: one}})(lambda: 5)
    fn()
    if sx.check(s.count() == 1, 'one record'):
        item = s.items[0]
        if fails != 'no':
            sx.check(item['level'] == level and item['message'] == 'text' and item['function'] == '<lambda>' and 'result' in item,
                     'a field that fails drops itself only')
        elif intersection or name == 'own':
            sx.check(item[name] == value, 'an extracted field replaces the automatic one only if intersections are allowed')
        else:
            sx.check(item['level'] == level and item['message'] == 'text' and item['function'] == '<lambda>',
                     'an extracted field does not replace the automatic one')


def failing(sx):
    s = sink()
    value = sx.int('value', 0, HI)
    kinds = []

    def make(n):
        how = sx.choice(n, ['ok', 'none', 'stubborn', 'converter ok', 'raise', 'converter raises'])
        error = ERRORS[0]
        if how in ('raise', 'converter raises'):
            error = sx.choice(n + '_error', ERRORS)

        def extractor(item):
            if how == 'raise':
                raise error('no')
            return None if how == 'none' else STUBBORN if how == 'stubborn' else value

        def converter(x):
            if how == 'converter raises':
                raise error('no')
            return x + 1
        kinds.append(how)
        return field(Callable(extractor), Callable(converter)) if 'converter' in how else field(Callable(extractor))

    first, second, third = make('first'), make('second'), F(value)
    where = sx.choice('where', ['global', 'local', 'engine', 'manual'])
    if where in ('global', 'manual'):
        config.add_fields(f1=first, f2=second, f3=third)
    if where == 'local':
        log('text', extra_fields={'f1': first, 'f2': second, 'f3': third})(lambda: 5)()
    elif where == 'engine':
        log('text', extra_engine_fields={'f1': first, 'f2': second, 'f3': third})(lambda: 5)()
    elif where == 'global':
        log('text')(lambda: 5)()
    else:
        log('text')
    if sx.check(s.count() == 1, 'a failing extractor does not stop the record'):
        item = s.items[0]
        for name, how in (('f1', kinds[0]), ('f2', kinds[1]), ('f3', 'ok')):
            if 'raise' in how:
                sx.mark('failed')
                sx.check(name not in item, 'a field that was not extracted is absent', name)
            else:
                sx.mark('worked')
                if sx.check(name in item, 'an extracted field is in the record', (name, how)):
                    if how == 'stubborn':
                        sx.check(item[name] is STUBBORN, 'an extracted field has its value', (name, how))
                        continue
                    want = {'ok': value, 'none': None, 'converter ok': value + 1}[how]
                    sx.check(item[name] is None if want is None else item[name] == want, 'an extracted field has its value', (name, how))
        sx.check(item['message'] == 'text', 'the other fields are as usual')


def manual(sx):
    """Manual records, blocks and values given by hand."""
    s = sink()
    intersection = sx.flag('fields_intersection')
    config.set(fields_intersection=intersection)
    g, e, mine = sx.int('g', 0, HI), sx.int('e', 0, HI), sx.int('mine', 0, HI)
    g_on, e_on = sx.flag('global'), sx.flag('engine')
    same = sx.flag('same_name')
    if g_on:
        config.add_fields(x=F(g))
    if e_on:
        config.add_engine_fields(**{'x' if same else 'y': F(e)})
    by_hand = sx.flag('by_hand')
    kw = {'x': mine} if by_hand else {}
    how = sx.choice('how', ['log', 'block', 'block later', 'handle_log'])
    if how == 'log':
        log('text', **kw)
    elif how == 'handle_log':
        if by_hand and not g_on and not (e_on and same):
            return
        handle_log('text', **kw)
    elif how == 'block':
        with log('text', **kw):
            pass
    else:
        with log('text') as block:
            block(**kw)
    if by_hand:
        sx.mark('given by hand')
    if sx.check(s.count() == 1, 'one record'):
        item = s.items[0]
        want = compose(kw, [{'x': g} if g_on else {}, {'x' if same else 'y': e} if e_on else {}], intersection)
        for name in ('x', 'y'):
            if name in want:
                sx.check(name in item and item[name] == want[name], 'a field of a manual record has its value', (name, how))
            else:
                sx.check(name not in item, 'no other fields', name)


def shape(sx):
    """The collections of the user stay as they were, wrong ones are refused."""
    a, b = F(1), F(2)
    given = sx.choice('given', [
        [{'a': a}, ...], ({'a': a}, ...), [..., ..., {'a': a}], [{'a': a}, {'b': b}], {'a': a},
        [{'a': a}, {'a': b}], {'a': 5}, {5: a}, [{'a': a}, {'b': 5}, ...], 5, 'text', {'a': lambda item: 1}])
    bad = given in ([{'a': a}, {'a': b}], {'a': 5}, {5: a}, [{'a': a}, {'b': 5}, ...], 5, 'text') or (
        type(given) is dict and any(not isinstance(x, field) for x in given.values()))
    key = sx.choice('kind', ['extra_fields', 'extra_engine_fields'])
    copy = [dict(x) if type(x) is dict else x for x in given] if isinstance(given, (list, tuple)) else None
    s = sink()
    try:
        fn = log('text', **{key: given})(lambda: 5)
        sx.check(not bad, 'a wrong collection of fields is refused', given)
        fn()
        if sx.check(s.count() == 1, 'one record'):
            sx.check('a' in s.items[0], 'the field is extracted')
    except ValueError:
        sx.check(bad, 'a right collection of fields is accepted', given)
    if copy is not None:
        sx.check(list(given) == copy, 'the collection of the user is not changed', given)


def live(sx):
    """Global fields added and removed after decoration."""
    s = sink()
    arg, local, merge = local_spec(sx, 'extra', (100, 200))
    kwargs = {} if arg is None else {'extra_fields': arg}
    fn = log('text', **kwargs)(lambda: 5)
    have = {}
    for i in range(3):
        op = sx.choice('op%d' % i, ['add', 'add same', 'delete', 'replace'])
        v = sx.int('v%d' % i, 0, HI)
        if op == 'add':
            config.add_fields(**{'n%d' % i: F(v)})
            have['n%d' % i] = v
        elif op == 'add same':
            config.add_fields(same=F(v))
            have['same'] = v
        elif have:
            name = sorted(have)[0]
            if op == 'delete':
                config.delete_fields(name)
                del have[name]
            else:
                config.add_fields(**{name: F(v)})
                have[name] = v
        s.items.clear()
        fn()
        item = s.items[0]
        want = dict(have) if merge else {}
        want.update(local)
        for name in ('n0', 'n1', 'n2', 'same', 'extra_own'):
            if name in want:
                sx.check(name in item and item[name] == want[name], 'a record has the fields registered at its time', name)
            else:
                sx.check(name not in item, 'a record has no field that is not registered', name)
        sx.check(sorted(config.get_in_place_fields()) == sorted(have), 'the registered fields can be listed')


def input(sx):
    """The extractor sees the record and the arguments of the call."""
    s = sink()
    x, y = sx.int('x', 0, HI), sx.int('y', 0, HI)
    kind = sx.choice('kind', ['extra_fields', 'extra_engine_fields'])
    fails = sx.flag('fails')

    def body(*args, **kwargs):
        if fails:
            raise ValueError('x')
        return 5
    extract = {'sum': field(lambda item: item.function_input_data.args[0] + item.function_input_data.kwargs['y']),
               'lv': field(lambda item: item['level']), 'ok': field(lambda item: item['success'])}
    level = sx.int('level', 0, HI)
    fn = log('text', level=level, errors_level=level, **{kind: extract})(body)
    try:
        fn(x, y=y)
    except ValueError:
        pass
    if sx.check(s.count() == 1, 'one record'):
        item = s.items[0]
        sx.check('sum' in item and item['sum'] == x + y, 'the extractor sees the arguments of the call')
        sx.check('lv' in item and item['lv'] == level and item['ok'] == (not fails), 'the extractor sees the other fields')


def shared(sx):
    """One field object under several names, global and local."""
    s = sink()
    value = sx.int('value', 0, HI)
    one = F(value)
    names = []
    if sx.flag('global'):
        config.add_fields(first=one)
        names.append('first')
    if sx.flag('second'):
        config.add_fields(second=one)
        names.append('second')
    if sx.flag('engine'):
        config.add_engine_fields(third=one)
        names.append('third')
    kwargs = {}
    if sx.flag('local'):
        kwargs['extra_fields'] = [{'fourth': one, 'fifth': one}, ...]
        names += ['fourth', 'fifth']
    if sx.flag('local engine'):
        kwargs['extra_engine_fields'] = ({'sixth': one}, ...)
        names.append('sixth')
    for _ in range(2):
        s.items.clear()
        log('text', **kwargs)(lambda: 5)()
        if sx.check(s.count() == 1, 'one record'):
            for name in ('first', 'second', 'third', 'fourth', 'fifth', 'sixth'):
                sx.check((name in s.items[0]) == (name in names), 'the record has exactly the chosen fields', name)
                if name in names:
                    sx.check(name in s.items[0] and s.items[0][name] == value, 'a chosen field has its value in the record', name)
