"""The mail handler: every record is one whole letter over a connection of its own, or goes to the alternative."""
import email
import smtplib

from symx import conc
conc.install()

from polog import log, config
from polog.handlers.smtp.sender import SMTP_sender

CASES = ['letter', 'faults', 'threads', 'threads_faults']
YIELD_IN = ['polog.handlers.smtp', 'polog.handlers.abstract']
YIELD_INIT = True
YIELD_NOT = ['email_from', 'email_to', 'password', 'port', 'smtp_server', 'server', 'is_html', 'text_assembler', 'subject_assembler', 'smtp_wrapper', 'filter', 'only_errors', 'alt']
BOUNDS = ('one letter with every outcome of the record, plain and html, own or standard subject and text, any level; histories of 3 letters with a failure of the connection, the login, the sending or the parting at any of them; '
          '2 and 3 threads that give records to one handler, with and without one failing operation of the server; every schedule with at most 2 forced switches for 2 threads and 1 for 3 (one more in the thorough tier) at any statement that touches the connection and in any operation of the server')
OUTSIDE = 'the SMTP protocol itself (a stand-in with the documented meaning of SMTP_SSL); more forced switches; failures that are not exceptions (a server that never answers)'
ASSUMPTIONS = ['pool_size=0', 'a letter is delivered iff sendmail ends without an exception']
MARKS = {'letter': ['html', 'plain'], 'faults': ['failed', 'sent'], 'threads': ['done'], 'threads_faults': ['done', 'failed']}


class Server:
    """The other side: what SMTP_SSL does as far as the handler can see."""
    opened = []
    letters = []
    operations = 0
    fault = None            # the number of the operation that fails

    @classmethod
    def reset(cls, fault=None):
        cls.opened, cls.letters, cls.operations, cls.fault = [], [], 0, fault

    def operation(self, name):
        conc.point(name)
        number = Server.operations
        Server.operations += 1
        if Server.fault is not None and Server.fault == number:
            raise smtplib.SMTPException(name)

    def __init__(self, host='', port=0, *a, **k):
        self.user = None
        self.closed = False
        self.operation('connect')
        self.where = (host, port)
        Server.opened.append(self)

    def login(self, user, password, **k):
        if self.closed:
            raise smtplib.SMTPServerDisconnected('closed')
        self.operation('login')
        self.user = (user, password)

    def sendmail(self, sender, to, text, *a, **k):
        if self.closed:
            raise smtplib.SMTPServerDisconnected('closed')
        if self.user is None:
            raise smtplib.SMTPSenderRefused(530, 'login first', sender)
        self.operation('send')
        if self.closed:
            raise smtplib.SMTPServerDisconnected('closed')
        Server.letters.append((self, sender, to if isinstance(to, str) else ', '.join(to), email.message_from_string(text)))

    def send_message(self, message, from_addr=None, to_addrs=None, *a, **k):
        return self.sendmail(from_addr or message['From'], to_addrs or message['To'], message.as_string())

    def quit(self):
        if self.closed:
            raise smtplib.SMTPServerDisconnected('closed')
        self.operation('quit')
        self.closed = True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        try:
            self.quit()
        except smtplib.SMTPException:
            self.close()


class Alt:
    def __init__(self):
        self.items = []

    def __call__(self, item):
        self.items.append(item['message'])


def sender(**k):
    smtplib.SMTP_SSL = Server
    return SMTP_sender('from@x.org', 'secret', 'smtp.x.org', 'to@y.org', port=999, **k)


def text_of(letter):
    return letter.get_payload(decode=True).decode(letter.get_content_charset() or 'utf-8')


def message_of(letter):
    for line in text_of(letter).split('\n'):
        if line.startswith('message = '):
            return line[len('message = '):]


def letter(sx):
    Server.reset()
    alt = Alt()
    html = sx.bool('html')
    own = sx.choice('own', ['nothing', 'text', 'subject', 'both'])
    extra = {}
    if own in ('text', 'both'):
        extra['text_assembler'] = lambda item: 'own text of ' + item['message']
    if own in ('subject', 'both'):
        extra['subject_assembler'] = lambda item: 'own subject of ' + item['message']
    handler = sender(is_html=html, alt=alt, **extra)
    config.add_handlers(h=handler)
    message = sx.choice('message', ['plain', 'два слова', 'a = b | c'])
    success = sx.choice('success', [True, False, None])
    level = sx.choice('level', [0, 1, 10 ** 9])
    fields = {} if success is None else {'success': success}
    log(message, level=level, one='1', **fields)
    sx.check(alt.items == [] and len(Server.letters) == 1, 'a record is one letter', (alt.items, len(Server.letters)))
    server, frm, to, got = Server.letters[0]
    sx.check(server.where == ('smtp.x.org', 999) and server.user == ('from@x.org', 'secret'), 'the letter goes over the given server under the given name')
    sx.check((frm, to) == ('from@x.org', 'to@y.org') and (got['From'], got['To']) == ('from@x.org', 'to@y.org'), 'the letter goes to the given address')
    sx.check(got.get_content_type() == ('text/html' if html else 'text/plain'), 'the letter has the chosen kind')
    sx.mark('html' if html else 'plain')
    subject = str(email.header.make_header(email.header.decode_header(got['Subject'])))
    if own in ('subject', 'both'):
        sx.check(subject == 'own subject of ' + message, 'the subject is the one of the given function', subject)
    else:
        want = {True: 'Success message from the Polog', False: 'Error message from the Polog', None: 'Message from the Polog'}[success]
        sx.check(subject == want, 'the subject tells the outcome', subject)
    text = text_of(got)
    if own in ('text', 'both'):
        sx.check(text == 'own text of ' + message, 'the text is the one of the given function')
    else:
        lines = text.split('\n')
        for name, value in [('message', message), ('level', level), ('one', '1')] + list(fields.items()):
            sx.check('%s = %s' % (name, value) in lines, 'every field of the record is in the letter', (name, text))
    sx.check(all(s.closed for s in Server.opened), 'the connection is closed after the letter')


def faults(sx):
    """Histories of letters with one failing operation."""
    number = 3
    Server.reset(sx.int('fault', 0, 4 * number))
    alt = Alt()
    config.add_handlers(h=sender(alt=alt))
    for i in range(number):
        before = Server.operations
        log('m%d' % i)
        sent = [message_of(l[3]) for l in Server.letters]
        sx.check(sent.count('m%d' % i) + alt.items.count('m%d' % i) == 1, 'a record is one letter or goes to the alternative', (sent, alt.items))
        if Server.fault >= before and Server.fault < Server.operations:
            continue
        sx.check('m%d' % i in sent, 'a failure disturbs no other letter', (sent, alt.items))
    sx.mark('failed' if alt.items else 'sent')
    sx.check(len(Server.letters) + len(alt.items) == number, 'no letter is lost or doubled')
    sx.check(len(alt.items) <= 1, 'one failure loses at most one letter')


def several(sx, number, fault):
    Server.reset(fault)
    alt = Alt()
    handler = sender(alt=alt)
    config.add_handlers(h=handler)
    workers = [lambda i=i: log('m%d' % i) and None for i in range(number)]
    conc.run(sx, workers, preemptions=4 - number + sx.thorough)
    sent = [message_of(l[3]) for l in Server.letters]
    for i in range(number):
        sx.check(sent.count('m%d' % i) + alt.items.count('m%d' % i) == 1, 'every record of concurrent threads is one letter or goes to the alternative', (sent, alt.items))
    sx.check(len(alt.items) <= (0 if fault is None else 1), 'no letter fails because of the other threads', (sent, alt.items))
    if fault is None:
        sx.check(all(s.closed for s in Server.opened), 'the connection is closed after the letter')
    return alt


def threads(sx):
    several(sx, sx.choice('threads', [2, 3]), None)


def threads_faults(sx):
    alt = several(sx, 2, sx.choice('fault', [0, 1, 2, 4, 5, 6]))
    if alt.items:
        sx.mark('failed')
