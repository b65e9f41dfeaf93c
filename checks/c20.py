"""C20: handlers over the common base: the job or the fallback, once; the mail handler."""
import email
import email.header
import io
import types

from hypothesis import strategies as st

from vlib import fresh, kit, sched, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C20'
TECHNIQUE = 'property-based testing with generated policies, records and injected failures against a decision model; mail through a simulated smtplib, also by several threads under a deterministic scheduler'
RULE = ('Facet "policy": sequences of records through an own handler, a file handler or a mail handler with generated only_errors, filter, alt (none, function, failing, another handler), failing formatting or delivery. '
        'Non-trivial: at least one record was done and at least one was not. Facet "mail": generated addresses, assemblers, texts and failures of the connection, login, sending, quitting. Non-trivial: a letter was sent or a failure was injected. '
        'Facet "mail_threads": 2 - 3 threads send by one handler. Non-trivial: a preemption happened.')
ASSUMPTIONS = ['success is True, False or absent', 'texts can be encoded and subjects and addresses are single lines', 'filter, formatting and delivery fail with subclasses of Exception']

FILTERS = ['none', 'true', 'false', 'raise', 'truthy', 'falsy', 'null', 'by message', 'by message', 'by level']
ALTS = ['none', 'function', 'function', 'function', 'raise', 'handler']


def policy_strategy():
    log = st.fixed_dictionaries({'success': st.sampled_from([True, False, False, None]), 'number': st.integers(0, 5), 'fail': kit.weighted((4, st.none()), (1, st.sampled_from(['format', 'do'])))})
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['own', 'file', 'mail']),
        'only_errors': st.booleans(),
        'filter': st.sampled_from(FILTERS),
        'alt': st.sampled_from(ALTS),
        'exception': st.sampled_from(list(values.EXCEPTIONS)),
        'content': st.sampled_from(['text', 'text', '', 0, None]),
        'logs': st.lists(log, min_size=1, max_size=6),
    })


def run_policy(case):
    polog = fresh.load()
    item = fresh.module('polog.core.log_item').LogItem
    BaseHandler = fresh.module('polog.handlers.abstract.base').BaseHandler
    current = {}
    done, alts, deep = [], [], []

    def fail(stage):
        if current['fail'] == stage:
            raise values.build_exception(case['exception'])

    def content(log):
        fail('format')
        return f"<{log['message']}>"

    class Own(BaseHandler):
        def __init__(self, only_errors=False, filter=None, alt=None):
            super().__init__(only_errors=only_errors, filter=filter, alt=alt)

        def do(self, content):
            fail('do')
            done.append(content)

        def get_content(self, log):
            text = content(log)
            return text if case['content'] == 'text' else case['content']

    class File(io.StringIO):
        def write(self, text):
            fail('do')
            done.append(text)

    class Wrapper:
        def __init__(self, *args):
            pass

        def send(self, message):
            fail('do')
            done.append(message['Subject'])

    def filter_function(log):
        kind = case['filter']
        if kind == 'raise':
            raise values.build_exception(case['exception'])
        return {'true': lambda: True, 'false': lambda: False, 'truthy': lambda: 'yes', 'falsy': lambda: 0, 'null': lambda: None,
                'by message': lambda: log['message'].endswith(('0', '2', '4')), 'by level': lambda: log['level'] > 2}[kind]()

    def alt_function(log):
        alts.append(log)
        if case['alt'] == 'raise':
            raise values.build_exception(case['exception'])

    class Second(BaseHandler):
        def __init__(self):
            super().__init__(only_errors=True, filter=None, alt=deep.append)

        def __call__(self, log):
            alts.append(log)
            return super().__call__(log)

        def do(self, log):
            pass

        def get_content(self, log):
            raise ValueError('second')

    arguments = {'only_errors': case['only_errors'], 'filter': None if case['filter'] == 'none' else filter_function, 'alt': {'none': None, 'handler': Second()}.get(case['alt'], alt_function)}
    if case['kind'] == 'own':
        handler = Own(**arguments)
    elif case['kind'] == 'file':
        handler = fresh.module('polog.handlers.file.writer').file_writer(File(), formatter=content, **arguments)
    else:
        handler = fresh.module('polog.handlers.smtp.sender').SMTP_sender('a@b', 'pass', 'server', 'c@d', subject_assembler=content, smtp_wrapper=Wrapper, **arguments)

    kinds = set()
    for index, one in enumerate(case['logs']):
        done.clear()
        alts.clear()
        deep.clear()
        current['fail'] = one['fail']
        log = item()
        log.set_data({'message': f'{index}:{one["number"]}', 'level': one['number'], **({} if one['success'] is None else {'success': one['success']})})
        allowed = not (case['only_errors'] and one['success'] is not False)
        if allowed:
            allowed = {'false': False, 'raise': False, 'by message': one['number'] % 2 == 0, 'by level': one['number'] > 2}.get(case['filter'], True)
        job = allowed and one['fail'] is None
        try:
            handler(log)
            failed = False
        except Exception:
            failed = True
        check(not failed or (case['alt'] == 'raise' and not job), 'the handler raises')
        text = f'<{index}:{one["number"]}>' if case['kind'] != 'own' or case['content'] == 'text' else case['content']
        check_eq(done, [text] if job else [], 'what was done')
        expected = [] if job or case['alt'] == 'none' else [log]
        check_eq(len(alts), len(expected), 'calls of alt')
        check(all(x is log for x in alts), 'alt must get the same log')
        check_eq(len(deep), len(expected) if case['alt'] == 'handler' else 0, 'calls of the alt of alt')
        kinds.add(job)
    return Result(len(kinds) == 2, [case['kind'], 'both' if len(kinds) == 2 else 'one kind'])


# Mail.

class Connection:
    """One connection of the simulated smtplib."""
    def __init__(self, world, *args, **kwargs):
        self.world = world
        world.step('connect')
        self.address = args[:2] if len(args) > 1 else (kwargs.get('host', args[0] if args else None), kwargs.get('port'))
        self.logins = []
        self.letters = []
        self.closed = 0
        world.connections.append(self)

    def login(self, user, password, **kwargs):
        self.world.step('login')
        check(not self.closed, 'login after the connection was closed')
        self.logins.append((user, password))

    def sendmail(self, from_addr, to_addrs, msg, *args, **kwargs):
        self.world.step('send')
        check(not self.closed, 'sending after the connection was closed')
        if isinstance(msg, bytes):
            msg = msg.decode('ascii')
        self.letters.append((from_addr, [to_addrs] if isinstance(to_addrs, str) else list(to_addrs), msg))

    def send_message(self, msg, from_addr=None, to_addrs=None, **kwargs):
        self.sendmail(from_addr or msg['From'], to_addrs or [msg['To']], msg.as_string())

    def quit(self):
        if not self.closed:
            self.world.step('quit')
        self.closed += 1

    def close(self):
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed += 1


class Network:
    def __init__(self, points=0):
        self.connections = []
        self.fails = None
        self.exception = None
        self.points = points

    def step(self, stage):
        for x in range(self.points):
            sched.point()
        if self.fails == stage:
            raise values.build_exception(self.exception)

    def module(self):
        module = types.ModuleType('smtplib')
        module.SMTP_SSL = lambda *args, **kwargs: Connection(self, *args, **kwargs)
        module.SMTPException = type('SMTPException', (OSError,), {})
        return module


line = kit.weighted((3, st.text(alphabet='abc XYZ019@.-_яЖ😀=', max_size=25)), (1, st.sampled_from(['', ' ', 'Re: тема', '=?utf-8?q?x?='])))
body = kit.weighted((3, st.text(alphabet='abc XYZ\n\t<>&яЖ😀.', max_size=60)), (1, st.sampled_from(['', 'From me\nFrom you\n', '.\n.\n', '<b>bold</b>', 'x' * 2000, values.LONG[2], values.LONG[3], 'a\n\n\nb'])))


def mail_strategy():
    return st.fixed_dictionaries({
        'from': st.sampled_from(['me@here.com', 'from_me42@yandex.com', 'x', '"a,b"@x.org', 'First.Last+tag@Sub.Domain.Org']),
        'to': st.sampled_from(['you@there.com', 'list@x.org', 'y', '"c,d;e"@x.org', 'Last.First+tag@Sub.Domain.Org']),
        'server': st.sampled_from(['smtp.server.org', 'localhost', '127.0.0.1', 'SMTP.Server.Org', '::1']),
        'password': st.sampled_from(['JHjhhb87TY*Ny08z)', 'hunter2-hunter2', 'пароль секретный', '<HIDDEN-secret>']),
        'port': st.one_of(st.none(), st.integers(1, 65535)),
        'html': st.booleans(),
        'text': st.one_of(st.none(), body),
        'subject': st.one_of(st.none(), line),
        'logs': st.lists(st.fixed_dictionaries({
            'success': st.sampled_from([True, False, None]),
            'fields': st.dictionaries(st.sampled_from(['message', 'level', 'function', 'module', 'extra', 'result', 'exception_type']), values.value_specs(), max_size=4),
            'fails': kit.weighted((4, st.none()), (3, st.sampled_from(['connect', 'login', 'send', 'quit', 'text', 'subject']))),
        }), min_size=1, max_size=4),
        'exception': st.sampled_from(list(values.EXCEPTIONS)),
    })


def decode_subject(text):
    return str(email.header.make_header(email.header.decode_header(text)))


def standard_text(log):
    lines = []
    for key in log.keys():
        lines.append(f'{key} = {log[key]}')
    return 'Message from the Polog:\n\n' + '\n'.join(lines) if lines else 'Empty message from the Polog.'


def run_mail(case):
    network = Network()
    network.exception = case['exception']
    fresh.load(substitutes={'smtplib': network.module()})
    item = fresh.module('polog.core.log_item').LogItem
    SMTP_sender = fresh.module('polog.handlers.smtp.sender').SMTP_sender
    alts = []
    current = {}

    def assembler(name):
        def assemble(log):
            check(log is current['log'], 'an assembler gets another log')
            if current['fails'] == name:
                raise values.build_exception(case['exception'])
            return case[name]
        return assemble
    options = {f'{x}_assembler': assembler(x) for x in ('text', 'subject') if case[x] is not None}
    if case['port'] is not None:
        options['port'] = case['port']
    handler = SMTP_sender(case['from'], case['password'], case['server'], case['to'], alt=alts.append, is_html=case['html'], **options)
    useful = False
    for one in case['logs']:
        network.connections.clear()
        alts.clear()
        log = item()
        data = {key: values.build(x) for key, x in one['fields'].items()}
        if one['success'] is not None:
            data['success'] = one['success']
        log.set_data(data)
        fails = one['fails']
        if fails in ('text', 'subject') and case[fails] is None:
            fails = None
        current.update(log=log, fails=fails)
        network.fails = fails
        try:
            text = case['text'] if case['text'] is not None else standard_text(log)
            text.encode('utf-8')
            good = True
        except Exception:
            good = False  # a field without a text form
        check(case['password'] not in repr(handler) and case['password'] not in str(handler), 'the password is visible', repr(handler))
        handler(log)
        network.fails = None
        delivered = good and fails in (None, 'quit')
        check_eq(len(alts), 0 if delivered else 1, 'calls of alt')
        check(all(x is log for x in alts), 'alt must get the same log')
        letters = [(x, y) for x in network.connections for y in x.letters]
        check_eq(len(letters), 1 if delivered else 0, 'letters')
        for connection in network.connections:
            check(connection.closed or fails == 'quit', 'a connection is left open', fails)
            check_eq(tuple(connection.address), (case['server'], case['port'] or 465), 'address of the server')
        useful = useful or delivered or fails
        if not delivered:
            continue
        connection, (sender, receivers, raw) = letters[0]
        check_eq(len(network.connections), 1, 'number of connections')
        check_eq(connection.logins, [(case['from'], case['password'])], 'login')
        check_eq(sender, case['from'], 'from')
        check_eq(receivers, [case['to']], 'to')
        check(case['password'] not in raw, 'the password is in the letter')
        letter = email.message_from_string(raw)
        check_eq(letter['From'], case['from'], 'From')
        check_eq(letter['To'], case['to'], 'To')
        check_eq(letter.get_content_type(), 'text/html' if case['html'] else 'text/plain', 'type of the letter')
        got = letter.get_payload(decode=True).decode(letter.get_content_charset() or 'ascii')
        if '\r' not in text and not any(x in text for x in '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'):
            check_eq(got, text, 'text of the letter')
        subject = case['subject']
        if subject is None:
            subject = {True: 'Success message from the Polog', False: 'Error message from the Polog', None: 'Message from the Polog'}[one['success']]
            check_eq(letter['Subject'], subject, 'subject')
        elif '=?' not in subject:
            check_eq(decode_subject(letter['Subject'] or '').split(), subject.split(), 'subject')
    return Result(useful, ['own text' if case['text'] is not None else 'standard text'])


# Mail by threads.

def threads_strategy():
    return st.fixed_dictionaries({'threads': st.lists(st.lists(kit.weighted((5, st.none()), (1, st.sampled_from(['login', 'send', 'quit']))), min_size=1, max_size=3), min_size=2, max_size=3), 'schedule': sched.schedules(max_gap=200)})


def run_threads(case):
    world = sched.world()
    network = Network(points=3)
    plans = {}

    def step(stage):
        for x in range(3):
            sched.point()
        if plans.get(sched.here()[1]) == stage:
            raise OSError('network')
    network.step = step
    errors = []
    alts = []
    try:
        fresh.load(substitutes={**world, 'smtplib': network.module()})
        item = fresh.module('polog.core.log_item').LogItem
        handler = fresh.module('polog.handlers.smtp.sender').SMTP_sender('me@x.y', 'secret', 'server', 'you@x.y', text_assembler=lambda log: log['message'], alt=lambda log: alts.append(log['message']))
        expected = []

        def work(number):
            try:
                for index, fails in enumerate(case['threads'][number]):
                    log = item()
                    log.set_data({'message': f'{number}:{index}'})
                    plans[sched.here()[1]] = fails
                    expected.append((f'{number}:{index}', fails in (None, 'quit')))
                    handler(log)
            except BaseException as e:
                errors.append(e)

        def main():
            threads = [world['threading'].Thread(target=work, args=(x,), daemon=True) for x in range(len(case['threads']))]
            for x in threads:
                x.start()
            for x in threads:
                x.join()
        _, scheduler = sched.run(case['schedule'], main)
    finally:
        fresh.abandon()
    if errors:
        raise errors[0]
    sent = []
    for connection in network.connections:
        check(len(connection.letters) <= 1, 'two letters by one connection', connection.letters)
        check(connection.closed or any('quit' in x for x in case['threads']), 'a connection is left open')
        check(connection.logins or not connection.letters, 'a letter without login')
        sent += [email.message_from_string(x[2]).get_payload() for x in connection.letters]
    check_eq(sorted(sent), sorted(x for x, good in expected if good), 'sent letters')
    check_eq(sorted(alts), sorted(x for x, good in expected if not good), 'logs passed to alt')
    check_eq(len(network.connections), len(expected), 'number of connections')
    return Result(scheduler.preemptions, [f'{len(case["threads"])} threads'])


FACETS = [
    Facet('policy', policy_strategy, run_policy, quick=5000),
    Facet('mail', mail_strategy, run_mail, quick=5000),
    Facet('mail_threads', threads_strategy, run_threads, quick=1500),
]
