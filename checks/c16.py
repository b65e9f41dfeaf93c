"""C16: records of the standard logging module."""
import datetime
import enum
import json
import logging
import os
import threading
import time

from hypothesis import strategies as st

from vlib import fresh, kit, refjson, values
from vlib.core import Facet, HarnessError, Result, check, check_eq

ID = 'C16'
TECHNIQUE = 'model-based testing: generated histories of logging calls from generated code (file, line, function, thread), setting toggles and unlogged sections against a reference built from the standard logging module itself'
RULE = ('A case is a history of calls of the root logger (log, info, error, exception..., with fitting, missing, extra, dictionary and unprintable arguments, any exc_info, any integer level, '
        'from functions, lambdas and module code compiled with generated file names and line numbers, in other threads) and of switches of integration_with_logging, logging_off, level and strictness, '
        'also inside @unlog. Every record is compared with the LogRecord that the standard library builds for the same call. Non-trivial: at least two calls and one switch, or an odd message, level or exc_info.')
ASSUMPTIONS = ['only the root logger is integrated', 'the root logger itself lets everything through (level 1)']

TEMPLATES = ['text', 'a %s', '%d and %s', '%(key)s', '', ' ', '\n\t', '  padded\n', '100%', '%', '%s', 'кириллица\nдве строки']


class Level(enum.IntEnum):
    SEVEN = 7
    BIG = 45


argument = values.value_specs()
arguments = kit.weighted(
    (3, st.just([])),
    (3, st.lists(argument, min_size=1, max_size=2)),
    (1, st.just([['v', {'key': 'value'}]])),
    (1, st.just([['v', {}]])),
)
call = st.fixed_dictionaries({
    'method': st.sampled_from(['log', 'log', 'log', 'info', 'debug', 'warning', 'error', 'critical', 'exception', 'module.info', 'module.log']),
    'level': kit.weighted((4, st.sampled_from([1, 5, 10, 15, 20, 29, 30, 31, 40, 50, 1000])), (1, st.sampled_from(['SEVEN', 'BIG', 'true']))),
    'message': kit.weighted((6, st.sampled_from(TEMPLATES).map(lambda x: ['v', x])), (1, argument), (1, st.sampled_from([['s', 'selfstr'], ['s', 'textofchild'], ['s', 'strchild']]))),
    'args': arguments,
    'exc_info': kit.weighted((4, st.none()), (4, st.sampled_from([True, 'object', 'tuple', 'empty', False, 'never_raised']))),
    'exception': st.sampled_from(list(values.EXCEPTIONS)),
    'inside_except': st.booleans(),
    'place': st.sampled_from(['function', 'lambda', 'module', 'method']),
    'file': st.sampled_from(['/some/dir/some_module.py', 'relative.py', 'strange name.txt', '/x/noextension', 'пакет/модуль.py']),
    'line': st.integers(1, 30),
    'thread': kit.weighted((5, st.none()), (1, st.sampled_from(['thread', 'поток 5']))),
    'unlog': kit.weighted((6, st.none()), (1, st.booleans())),
})
received = st.fixed_dictionaries({
    'how': st.sampled_from(['constructor', 'dictionary']),
    'method': st.just('handle'),
    'level': st.sampled_from([1, 5, 10, 29, 30, 31, 40, 1000]),
    'message': kit.weighted((6, st.sampled_from(TEMPLATES).map(lambda x: ['v', x])), (1, argument), (1, st.sampled_from([['s', 'selfstr'], ['s', 'textofchild'], ['s', 'strchild']]))),
    'args': arguments,
    'exc_info': st.sampled_from([None, None, 'raised', 'never_raised']),
    'name': st.sampled_from(['root', 'root', 'some.other', '', 'имя']),
    'exception': st.sampled_from(list(values.EXCEPTIONS)),
    'inside_except': st.booleans(),
    'file': st.sampled_from(['/some/dir/some_module.py', 'relative.py', '/x/noextension']),
    'line': st.integers(0, 10 ** 6),
    'function': st.sampled_from([None, 'some_function', '<lambda>', '<module>']),
    'created': st.sampled_from([0.0, 1.5, 1e9, 1.7e9 + 0.123456, 4e9]),
    'thread': st.sampled_from([['elsewhere', 1], ['MainThread', 77], ['поток 5', 10 ** 12]]),
    'process': st.sampled_from([['OtherProcess', 1], ['MainProcess', 12345678]]),
    'unlog': kit.weighted((6, st.none()), (1, st.booleans())),
})
operation = kit.weighted(
    (7, call.map(lambda x: ['call', x])),
    (3, received.map(lambda x: ['receive', x])),
    (3, st.tuples(st.sampled_from(['integration_with_logging', 'logging_off', 'silent_internal_exceptions', 'unknown_fields_in_handle_logs']), st.booleans()).map(lambda x: ['set', *x])),
    (1, st.sampled_from([0, 10, 30, 35]).map(lambda x: ['set', 'level', x])),
    (1, st.just(['both_off'])),
)


def strategy():
    return st.fixed_dictionaries({'history': st.lists(operation, min_size=1, max_size=8), 'workers': kit.weighted((4, st.just(0)), (1, st.just(1)))})


class Maker(logging.Handler):
    """Catches the LogRecord the standard library makes, before polog can see it: a filter of the root logger placed first."""


class World:
    def __init__(self, polog, workers):
        self.polog = polog
        self.workers = workers
        self.sink = kit.Sink()
        self.settings = {'integration_with_logging': True, 'logging_off': True, 'silent_internal_exceptions': False, 'unknown_fields_in_handle_logs': True, 'level': 0}
        self.made = []
        self.handled = []
        self.odd = 0
        self.calls = 0
        self.switches = 0

    def spy(self, record):
        self.made.append(record)
        return True

    def set(self, key, value):
        conflict = ((key == 'integration_with_logging' and not value and self.settings['logging_off'])
                    or (key == 'logging_off' and value and not self.settings['integration_with_logging']))
        self.switches += 1
        try:
            self.polog.config.set(**{key: value})
        except ValueError:
            check(conflict, f'{key}={value} refused')
        else:
            check(not conflict, f'{key}={value} accepted')
            self.settings[key] = value
        # polog adds its filter at the end; the spy goes to the beginning again.
        if self.spy in logging.root.filters:
            logging.root.filters.remove(self.spy)
        logging.root.filters.insert(0, self.spy)

    def emit(self, data):
        level = {'SEVEN': Level.SEVEN, 'BIG': Level.BIG, 'true': True}.get(data['level'], data['level'])
        message = values.build(data['message'])
        args = [values.build(x) for x in data['args']]
        kwargs = {}
        exception = values.build_exception(data['exception'])
        if data['exc_info'] in (True, False):
            kwargs['exc_info'] = data['exc_info']
        elif data['exc_info'] == 'empty':
            kwargs['exc_info'] = (None, None, None)
        elif data['exc_info'] in ('object', 'tuple', 'never_raised'):
            if data['exc_info'] != 'never_raised':
                try:
                    raise exception
                except type(exception):
                    pass
            kwargs['exc_info'] = (type(exception), exception, exception.__traceback__) if data['exc_info'] == 'tuple' else exception
        method = data['method']
        function = getattr(logging, method[7:]) if method.startswith('module.') else getattr(logging.root, method)
        arguments = ((level,) if method.endswith('log') else ()) + (message, *args)
        namespace = {'function': function, 'arguments': arguments, 'kwargs': kwargs}
        padding = '\n' * (data['line'] - 1)
        expression = 'function(*arguments, **kwargs)'
        source = {
            'module': f'{padding}{expression}',
            'function': f'def some_function():\n{padding}    {expression}\nsome_function()',
            'lambda': f'{padding}(lambda: {expression})()',
            'method': f'class Some:\n    def some_method(self):\n{padding}        {expression}\nSome().some_method()',
        }[data['place']]
        code = compile(source, data['file'], 'exec')

        def go():
            if data['inside_except']:
                try:
                    raise exception
                except type(exception):
                    exec(code, namespace)
            else:
                exec(code, namespace)
        if data['unlog'] is not None:
            go = self.polog.unlog(full=data['unlog'])(go)
        start = time.time()
        if data['thread']:
            problems = []

            def target():
                try:
                    go()
                except BaseException as e:
                    problems.append(e)
            thread = threading.Thread(target=target, name=data['thread'], daemon=True)
            thread.start()
            thread.join()
            if problems:
                raise problems[0]
        else:
            go()
        finish = time.time()
        if data['level'] in ('SEVEN', 'BIG', 'true') or data['exc_info'] is not None or data['message'][0] != 'v' or data['args']:
            self.odd += 1
        return start, finish

    def receive(self, data):
        """A record made elsewhere (another process, say) and handed to the root logger."""
        exc_info = None
        exception = values.build_exception(data['exception'])
        if data['exc_info'] == 'raised':
            try:
                raise exception
            except type(exception):
                pass
        if data['exc_info']:
            exc_info = (type(exception), exception, exception.__traceback__)
        # LogRecord takes the dictionary out of a tuple with one dictionary, as the calls of loggers do.
        args = tuple(values.build(x) for x in data['args'])
        record = logging.LogRecord(data['name'], data['level'], data['file'], data['line'], values.build(data['message']), args, exc_info, data['function'])
        record.created = data['created']
        record.threadName, record.thread = data['thread']
        record.processName, record.process = data['process']
        if data['how'] == 'dictionary':
            record = logging.makeLogRecord(dict(record.__dict__))
        go = lambda: logging.root.handle(record)
        if data['unlog'] is not None:
            go = self.polog.unlog(full=data['unlog'])(go)
        if data['inside_except']:
            try:
                raise KeyError('not of the record')
            except KeyError:
                go()
        else:
            go()
        self.odd += 1

    def call(self, data):
        self.calls += 1
        if data['method'] == 'handle':
            self.receive(data)
        else:
            self.emit(data)
        if len(self.made) != 1:
            raise HarnessError(f'the logging call has made {len(self.made)} records')
        made = self.made.pop()
        where = f'{data["method"]} call'
        handled, self.handled = self.handled, []
        check_eq(len(handled), 0 if self.settings['logging_off'] else 1, f'{where}: records passed to handlers of logging')
        if handled:
            check(handled[0] is made, f'{where}: handlers of logging got another record')
        wanted = self.settings['integration_with_logging'] and int(made.levelno) >= self.settings['level'] and not (data['unlog'] is True)
        if self.workers and wanted:
            patience = kit.Patience()
            while not self.sink.records:
                check(patience, 'a record did not come')
                time.sleep(0.0002)
        records = self.sink.take()
        check_eq(len(records), 1 if wanted else 0, f'{where}: records of polog under {self.settings}')
        if wanted:
            self.compare(where, records[0], made, data)

    def compare(self, where, record, made, data):
        try:
            message = made.getMessage()
        except Exception:
            message = refjson.text_of(made.msg)
            if message is None:
                check(isinstance(record.get('message'), str) or 'message' not in record, f'{where}: message', record.get('message'))
                message = record.get('message')
        check_eq(record.get('message'), message or None, f'{where}: message')
        check(record['level'] == made.levelno, f'{where}: level', record['level'])
        check(record['success'] is (made.levelno < 30), f'{where}: success', record['success'], made.levelno)
        check(record['auto'] is False, f'{where}: auto')
        check_eq(record['module'], made.module, f'{where}: module')
        check_eq(record['line_number'], made.lineno, f'{where}: line number')
        if data['method'] == 'handle':
            check_eq(record.get('function'), data['function'] if data['function'] == 'some_function' else None, f'{where}: function')
            check_eq([record['thread'], record['process']], [f'{x[0]} ({x[1]})' for x in (data['thread'], data['process'])], f'{where}: thread and process')
        else:
            self.compare_place(where, record, data)
        check_eq(record['path_to_code'], made.pathname, f'{where}: path')
        for key, name, number in (('thread', made.threadName, made.thread), ('process', made.processName, made.process)):
            check(isinstance(record[key], str) and str(name) in record[key] and str(number) in record[key], f'{where}: {key}', record[key], name, number)
        check_eq(record['time'], datetime.datetime.fromtimestamp(made.created), f'{where}: time')
        self.compare_exception(where, record, made, data)

    def compare_place(self, where, record, data):
        check_eq(record['line_number'], data['line'] + {'module': 0, 'function': 1, 'lambda': 0, 'method': 2}[data['place']], f'{where}: line number in the source')
        check_eq(record.get('function'), {'function': 'some_function', 'method': 'some_method'}.get(data['place']), f'{where}: function')
        check_eq(record['process'].count(str(os.getpid())), 1, f'{where}: process')

    def compare_exception(self, where, record, made, data):
        info = made.exc_info
        if info and info[0] is not None:
            check_eq(record.get('exception_type'), info[0].__name__, f'{where}: exception type')
            text = refjson.text_of(info[1])
            if text is None:
                check(isinstance(record.get('exception_message'), str), f'{where}: text of the exception', record.get('exception_message'))
            else:
                check_eq(record.get('exception_message'), text, f'{where}: text of the exception')
            lines = refjson.parse(record['traceback'], where)
            check(isinstance(lines, list) and len(lines) >= (data['exc_info'] != 'never_raised' or (data['inside_except'] and data['method'] != 'handle')), f'{where}: traceback', lines)
        else:
            for key in ('exception_type', 'exception_message', 'traceback'):
                check(key not in record, f'{where}: {key} without an exception', record.get(key))


def run(case):
    polog = fresh.load()
    world = World(polog, case['workers'])
    polog.config.add_handlers(world.sink)
    if case['workers']:
        polog.config.set(time_quant=0.0005, pool_size=case['workers'])
    handler = Maker()
    handler.emit = world.handled.append
    handler.emit = lambda record: world.handled.append(record)
    old_level = logging.root.level
    logging.root.addHandler(handler)
    logging.root.setLevel(1)
    logging.root.filters.insert(0, world.spy)
    try:
        for step in case['history']:
            if step[0] in ('call', 'receive'):
                world.call(step[1])
            elif step[0] == 'both_off':
                world.set('logging_off', False)
                world.set('integration_with_logging', False)
            else:
                world.set(step[1], step[2])
    finally:
        while world.spy in logging.root.filters:
            logging.root.filters.remove(world.spy)
        logging.root.setLevel(old_level)
        logging.root.removeHandler(handler)
        if case['workers']:
            kit.drain(polog)
    return Result((world.calls > 1 and world.switches) or world.odd, [f"{case['workers']} workers", f'{world.calls} calls'])


FACETS = [Facet('histories', strategy, run, quick=9000)]
