"""The base handler: a record is written or given to the alternative, once; nothing is shown to the program."""
import sys

from harness.common import log, config, HI, DumbError, Unprintable, Callable
from polog import file_writer
from polog.handlers.abstract.base import BaseHandler
from polog.handlers.smtp.sender import SMTP_sender

CASES = ['base', 'engine', 'writer', 'console', 'mail', 'mail_content', 'arguments', 'writer_arguments', 'mail_arguments', 'chain']
BOUNDS = ('one record through a handler with every outcome of: error-only choice, filter (none, any boolean, other values, any integer, failure), conversion, writing, flushing and '
          'alternative (none, working, failing), success true, false, any object or absent; chains of 2 handlers and 2 records; every argument right or wrong (quick: two of them at a time)')
OUTSIDE = 'the SMTP protocol itself (a stand-in for the connection is passed by the documented argument); KeyboardInterrupt and the like inside of handlers'
ASSUMPTIONS = ['pool_size=0']
MARKS = {'base': ['written', 'alternative', 'refused without alternative']}


class Own(BaseHandler):
    fail_content = False
    fail_do = False

    def __init__(self, **kw):
        BaseHandler.__init__(self, **kw)
        self.got = []
        self.done = []

    def get_content(self, log):
        if self.fail_content:
            raise self.fail_content('content')
        self.got.append(log)
        return ('content of', log)

    def do(self, content):
        if self.fail_do:
            raise self.fail_do('do')
        self.done.append(content)


class Alt:
    def __init__(self, fails=False):
        self.items = []
        self.fails = fails

    def __call__(self, log):
        self.items.append(log)
        if self.fails:
            raise RuntimeError('alternative')

    def __bool__(self):
        return False


def pick_filter(sx, name='filter', few=False):
    """A filter, whether it lets the record pass, and what it has seen."""
    kind = sx.choice(name, ['none', 'bool', 'fails badly'] if few else ['none', 'bool', 'number', 'text', 'nothing', 'object', 'fails', 'fails badly'])
    seen = []
    if kind == 'none':
        return None, True, seen
    b = sx.bool(name + ' answer') if kind == 'bool' else None
    n = sx.int(name + ' number', -HI, HI) if kind == 'number' else None

    def filter(record):
        seen.append(record)
        if kind == 'bool':
            return b
        if kind == 'number':
            return n
        if kind == 'text':
            return ''
        if kind == 'nothing':
            return None
        if kind == 'object':
            return Unprintable()
        if kind == 'fails':
            raise KeyError('filter')
        raise DumbError('filter')
    return Callable(filter), (b if kind == 'bool' else not kind.startswith('fails')), seen


def pick_record(sx):
    """A record, and whether it tells of success (a record that tells nothing counts as a success)."""
    kind = sx.choice('success', ['absent', 'bool', 'nothing'])
    record = {'message': 'text', 'level': sx.int('level', 0, HI)}
    good = True
    if kind == 'bool':
        record['success'] = good = sx.bool('success value')
    elif kind == 'nothing':
        record['success'] = None
        good = False
    return record, good


def pick_alt(sx):
    kind = sx.choice('alt', ['none', 'works', 'fails'])
    return None if kind == 'none' else Alt(kind == 'fails')


def base(sx):
    """Every outcome of every step."""
    only = sx.flag('only_errors')
    filter, passes, seen = pick_filter(sx)
    alt = pick_alt(sx)
    record, good = pick_record(sx)
    h = Own(only_errors=only, filter=filter, alt=alt)
    h.fail_content = sx.choice('content', [None, ValueError, DumbError])
    h.fail_do = sx.choice('do', [None, OSError, DumbError]) if not h.fail_content else None
    failed = None
    try:
        h(record)
    except RuntimeError as e:
        failed = e
    written = not (only and good) and passes and not h.fail_content and not h.fail_do
    if written:
        sx.mark('written')
        sx.check(len(h.done) == 1 and h.done[0][1] is record, 'the record is written once')
        sx.check(len(h.got) == 1, 'the record is converted once')
        sx.check(alt is None or not alt.items, 'a written record does not go to the alternative')
        sx.check(failed is None, 'no failure is shown')
    else:
        sx.check(not h.done, 'a refused record is not written')
        if alt is None:
            sx.mark('refused without alternative')
            sx.check(failed is None, 'no failure is shown')
        else:
            sx.mark('alternative')
            sx.check(len(alt.items) == 1 and alt.items[0] is record, 'the alternative gets the record once', len(alt.items))
            sx.check((failed is not None) == alt.fails, 'only the alternative itself may fail')
    if filter is not None and not (only and good):
        sx.check(len(seen) == 1 and seen[0] is record, 'the filter sees the record once')


def engine(sx):
    """The same as a registered handler: the program and other handlers never notice."""
    only = sx.flag('only_errors')
    filter, passes, seen = pick_filter(sx)
    alt = pick_alt(sx)
    h = Own(only_errors=only, filter=filter, alt=alt)
    h.fail_do = sx.choice('do', [None, OSError])
    after = Alt()
    config.add_handlers(h, after)
    good = sx.bool('good')
    log('text', success=good)
    log('text', success=good)
    written = not (only and good) and passes and not h.fail_do
    sx.check(len(after.items) == 2, 'other handlers get every record')
    sx.check(len(h.done) == (2 if written else 0), 'every record is written, or none')
    if alt is not None:
        sx.check(len(alt.items) == (0 if written else 2), 'the alternative gets what is not written')
        for item in alt.items:
            sx.check(item['message'] == 'text', 'the alternative gets the whole record')


class File:
    def __init__(self, write=None, flush=None):
        self.lines = []
        self.flushed = 0
        self.fail_write = write
        self.fail_flush = flush

    def read(self):
        return ''

    def write(self, text):
        if self.fail_write:
            raise self.fail_write('write')
        self.lines.append(text)

    def flush(self):
        self.flushed += 1
        if self.fail_flush:
            raise self.fail_flush('flush')

    def close(self):
        pass


def writer(sx):
    """The file handler over a file object."""
    only, flush = sx.flag('only_errors'), sx.flag('forced_flush')
    filter, passes, seen = pick_filter(sx, few=not sx.thorough)
    alt = pick_alt(sx)
    f = File(sx.choice('write', [None, OSError]), sx.choice('flush', [None, ValueError]))
    formatter = sx.choice('formatter', ['own', 'fails', 'base'])

    def own(record):
        if formatter == 'fails':
            raise DumbError('formatter')
        return 'line\n'
    h = file_writer(f, only_errors=only, forced_flush=flush, filter=filter, alt=alt, formatter=None if formatter == 'base' else Callable(own),
                    lock_type=sx.choice('lock', ['thread', None]))
    config.add_handlers(h)
    good = sx.bool('good')
    log('text', success=good)
    accepted = not (only and good) and passes
    reached = accepted and formatter != 'fails' and not f.fail_write
    sx.check(len(f.lines) == (1 if reached else 0), 'the line is written once iff nothing refuses it', len(f.lines))
    if reached and formatter == 'own':
        sx.check(f.lines[0] == 'line\n', 'the line is what the formatter made')
    sx.check(f.flushed == (1 if reached and flush else 0), 'the buffer is flushed iff it is asked for')
    whole = reached and not (flush and f.fail_flush)
    if alt is not None:
        sx.check(len(alt.items) == (0 if whole else 1), 'the alternative gets the record iff it is not written', len(alt.items))


def console(sx):
    """No file: the standard output."""
    stream = File(sx.choice('write', [None, OSError]))
    old, sys.stdout = sys.stdout, stream
    try:
        h = file_writer(formatter=lambda record: 'line\n', alt=pick_alt(sx))
        config.add_handlers(h)
        log('text')
        log('text')
    finally:
        sys.stdout = old
    ok = not stream.fail_write
    sx.check(stream.lines == (['line\n', 'line\n'] if ok else []), 'every record gives a line in the console')
    if h.alt is not None:
        sx.check(len(h.alt.items) == (0 if ok else 2), 'the alternative gets what is not written')


class Wrapper:
    made = []
    fails = None

    def __init__(self, server, port, sender, password, to):
        self.args = (server, port, sender, password, to)
        self.sent = []
        Wrapper.made.append(self)

    def send(self, message):
        if Wrapper.fails:
            raise Wrapper.fails('smtp')
        self.sent.append(message)


def mail(sx):
    """The mail handler over a stand-in for the connection."""
    Wrapper.made, Wrapper.fails = [], sx.choice('send', [None, OSError, DumbError])
    only = sx.flag('only_errors')
    filter, passes, seen = pick_filter(sx, few=not sx.thorough)
    alt = pick_alt(sx)
    text = sx.choice('text', ['standard', 'own', 'fails', 'not text'])
    subject = sx.choice('subject', ['standard', 'own', 'fails'])

    def text_assembler(record):
        if text == 'fails':
            raise DumbError('text')
        return 'own text' if text == 'own' else 75

    def subject_assembler(record):
        if subject == 'fails':
            raise DumbError('subject')
        return 'own subject'
    h = SMTP_sender('from@a', 'pass', 'server', 'to@a', only_errors=only, filter=filter, alt=alt, smtp_wrapper=Wrapper,
                    text_assembler=None if text == 'standard' else Callable(text_assembler), subject_assembler=None if subject == 'standard' else Callable(subject_assembler))
    good = sx.choice('good', [True, False])
    config.add_handlers(h)
    log('text', success=good)
    sent = not (only and good) and passes and text not in ('fails', 'not text') and subject != 'fails' and not Wrapper.fails
    sx.check(len(Wrapper.made) == 1 and Wrapper.made[0].args == ('server', 465, 'from@a', 'pass', 'to@a'), 'the connection gets the account')
    sx.check(len(Wrapper.made[0].sent) == (1 if sent else 0), 'the message is sent once iff nothing refuses it')
    if alt is not None:
        sx.check(len(alt.items) == (0 if sent else 1), 'the alternative gets the record iff it is not sent')
    for m in Wrapper.made[0].sent:
        sx.check(m['From'] == 'from@a' and m['To'] == 'to@a', 'the message has the addresses')
        if subject == 'own':
            sx.check(m['Subject'] == 'own subject', 'the subject is what the assembler made')
        if text == 'own':
            sx.check(m.get_payload() == 'own text', 'the text is what the assembler made')


def mail_content(sx):
    """The standard text and subject."""
    Wrapper.made, Wrapper.fails = [], None
    html = sx.flag('html')
    h = SMTP_sender('from@a', 'pass', 'server', 'to@a', is_html=html, smtp_wrapper=Wrapper)
    record = {}
    if sx.flag('message'):
        record['message'] = 'some text'
    success = sx.choice('success', ['absent', True, False])
    if success != 'absent':
        record['success'] = success
    if sx.flag('level'):
        record['level'] = sx.choice('level value', [0, 5, 40])
    h(record)
    if not sx.check(len(Wrapper.made[0].sent) == 1, 'the message is sent once'):
        return
    m = Wrapper.made[0].sent[0]
    text = m.get_payload()
    sx.check(m.get_content_subtype() == ('html' if html else 'plain'), 'the kind of the text is the chosen one')
    for key, value in record.items():
        sx.check(('%s = %s' % (key, value)) in text.split('\n'), 'the text has every field', key)
    start = {'absent': 'Message', True: 'Success', False: 'Error'}[success]
    sx.check(m['Subject'].startswith(start), 'the subject tells about success')


def three(a, b, c):
    pass


GOOD = {'only_errors': [True, False], 'filter': [None, lambda x: True, Alt()], 'alt': [None, lambda x: True, Alt()]}
BAD = {'only_errors': [1, 0, None, 'True', []], 'filter': [three, lambda: True, 'text', 5, True], 'alt': [three, lambda: True, 'text', 5, {}]}


def try_arguments(sx, make, good, bad):
    kw, right = {}, True
    chosen = list(good)
    if not sx.thorough and len(chosen) > 3:
        chosen = [sx.choice('first', chosen), sx.choice('second', chosen)]
        chosen = chosen[:1] if chosen[0] == chosen[1] else chosen
    for name in chosen:
        kind = sx.choice(name, ['absent', 'right', 'wrong'])
        if kind == 'right':
            kw[name] = sx.choice(name + ' value', good[name])
        elif kind == 'wrong':
            kw[name] = sx.choice(name + ' value', bad[name])
            right = False
    try:
        h = make(**kw)
        ok = True
    except ValueError:
        ok = False
    sx.check(ok == right, 'a handler is made iff its arguments are right', sorted(kw))
    if ok:
        for name, value in kw.items():
            if name in ('only_errors', 'filter', 'alt'):
                sx.check(getattr(h, name) is value, 'the handler has what it was given', name)


def arguments(sx):
    try_arguments(sx, lambda **kw: Own(**kw), GOOD, BAD)


def writer_arguments(sx):
    good = {'only_errors': [True], 'alt': [Alt()], 'forced_flush': [True, False], 'separator': ['', '\n', 'text'], 'formatter': [None, lambda x: 'x']}
    bad = {'only_errors': [1], 'alt': [three], 'forced_flush': [1, None, 'yes'], 'separator': [None, 1, b'x'], 'formatter': [three, 'text']}
    if sx.flag('arguments'):
        return try_arguments(sx, lambda **kw: file_writer(File(), **kw), good, bad)
    how = sx.choice('file', ['two', 'number', 'rotation', 'lock', 'no close'])
    try:
        if how == 'two':
            file_writer(File(), File())
        elif how == 'number':
            file_writer(75)
        elif how == 'rotation':
            file_writer(File(), rotation='1 kb')
        elif how == 'lock':
            file_writer(File(), lock_type='something')
        else:
            class Half:
                def read(self):
                    pass
                write = None
                close = read
            file_writer(Half())
        sx.check(False, 'a wrong file is refused', how)
    except ValueError:
        pass


def mail_arguments(sx):
    Wrapper.fails = None
    good = {'email_from': ['a@a'], 'password': ['p'], 'smtp_server': ['s'], 'email_to': ['b@b'], 'port': [25, 0], 'text_assembler': [None, lambda x: 'x'],
            'is_html': [True, False]}
    bad = {'email_from': [None], 'password': [5], 'smtp_server': [b's'], 'email_to': [['b@b']], 'port': ['25', None], 'text_assembler': [three, 'text'],
           'is_html': [1, None]}
    base = {'email_from': 'a@a', 'password': 'p', 'smtp_server': 's', 'email_to': 'b@b'}
    try_arguments(sx, lambda **kw: SMTP_sender(smtp_wrapper=Wrapper, **{**base, **kw}), good, bad)


def chain(sx):
    """An alternative that is a handler with an alternative."""
    last = Alt()
    f2, passes2, seen2 = pick_filter(sx, 'second', few=not sx.thorough)
    second = Own(filter=f2, alt=last)
    second.fail_do = sx.choice('second do', [None, OSError])
    f1, passes1, seen1 = pick_filter(sx, 'first')
    first = Own(filter=f1, alt=second)
    first.fail_do = sx.choice('first do', [None, OSError])
    config.add_handlers(first)
    log('one')
    log('two')
    one = passes1 and not first.fail_do
    two = not one and passes2 and not second.fail_do
    sx.check(len(first.done) == (2 if one else 0), 'written by the first handler')
    sx.check(len(second.done) == (2 if two else 0), 'written by the alternative')
    sx.check(len(last.items) == (0 if one or two else 2), 'given to the last alternative')
