"""C07: what a manual log records."""
import json
import sys

from hypothesis import strategies as st

from vlib import clock, fresh, kit, refjson, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C07'
TECHNIQUE = 'property-based testing: generated manual logs (all argument names and synonyms, valid and invalid values) against a reference model'
RULE = ('A case is a history of changes of settings (silent mode, unknown fields, service name, default levels, level names, extra fields) and '
        'manual logs (log, log.name, handle_log, handle_log.name) with positional and named arguments, full names and synonyms, values of right '
        'and wrong types, duplicates, unknown fields, sometimes made inside of an except block. For every log the model gives the exact record '
        'or the error. Non-trivial: a log with at least two arguments is recorded, or one with an invalid argument is made.')


class CallableObject:
    def __call__(self):
        pass

    def __str__(self):
        return 'callable object'


class BadCallable:
    """Neither its name nor its text can be taken."""
    @property
    def __name__(self):
        raise RuntimeError('name failed')

    def __str__(self):
        raise RuntimeError('str failed')
    __repr__ = __str__

    def __call__(self):
        pass


def some_function():
    pass


async def some_coroutine():
    pass


class SomeClass:
    def method(self):
        pass


FUNCTIONS = {
    'function': some_function, 'coroutine': some_coroutine, 'builtin': len, 'class': SomeClass, 'method': SomeClass().method,
    'lambda': (lambda: None), 'object': CallableObject(), 'bad': BadCallable(),
}
NAMES = ['alpha', 'beta', 'gamma']
KEYS = ['message', 'function', 'module', 'class', 'class_', 'exception', 'e', 'vars', 'locals', 'local_variables', 'success', 'level',
        'extra', 'another_extra', 'registered', 'result', 'input_variables', 'line']
SYNONYMS = {'class_': 'class', 'e': 'exception', 'vars': 'local_variables', 'locals': 'local_variables'}

text = kit.weighted((6, st.sampled_from(['some text', 'other text', ''])), (6, st.text(max_size=8)), (1, st.sampled_from(values.LONG)))
any_value = values.value_specs()
usual = {
    'message': text.map(lambda x: ['v', x]),
    'function': st.one_of(st.sampled_from(sorted(FUNCTIONS)).map(lambda x: ['f', x]), text.map(lambda x: ['v', x])),
    'module': text.map(lambda x: ['v', x]),
    'class': st.one_of(st.just(['c', 'SomeClass']), text.map(lambda x: ['v', x])),
    'exception': st.one_of(st.sampled_from(sorted(values.EXCEPTIONS)).map(lambda x: ['e', x]), text.map(lambda x: ['v', x])),
    'local_variables': text.map(lambda x: ['v', x]),
    'success': st.booleans().map(lambda x: ['v', x]),
    'level': st.one_of(st.integers(0, 60), st.sampled_from(NAMES + ['unknown_name', 'message'])).map(lambda x: ['v', x]),
}


def pair(key):
    good = usual.get(SYNONYMS.get(key, key), any_value)
    return st.tuples(st.just(key), st.one_of(good, good, good, any_value)).map(list)


PAIRS = [pair(x) for x in KEYS]
arguments = st.lists(st.integers(0, len(KEYS) - 1).flatmap(lambda x: PAIRS[x]), min_size=1, max_size=9, unique_by=lambda x: x[0])
logging_operation = st.fixed_dictionaries({
    'op': st.just('log'),
    'kind': st.sampled_from(['log', 'log', 'handle', 'handle']),
    'dot': st.sampled_from([None, None, None] + NAMES),
    'positional': st.lists(text, max_size=2).map(lambda x: x if len(x) < 2 else x) | st.lists(text, min_size=1, max_size=1),
    'thing': kit.weighted((4, st.none()), (1, values.value_specs().filter(lambda x: x not in (['s', 'eqall'], ['v', None])))),
    'kwargs': arguments,
    'inside': st.sampled_from([None, None, None, 'ValueError', 'same']),
})
setting_operation = st.one_of(
    st.booleans().map(lambda x: {'op': 'set', 'name': 'silent_internal_exceptions', 'value': x}),
    st.booleans().map(lambda x: {'op': 'set', 'name': 'unknown_fields_in_handle_logs', 'value': x}),
    st.sampled_from([None, 'one', 'two']).map(lambda x: {'op': 'set', 'name': 'service_name', 'value': x}),
    st.integers(0, 9).map(lambda x: {'op': 'set', 'name': 'default_level', 'value': x}),
    st.integers(0, 9).map(lambda x: {'op': 'set', 'name': 'default_error_level', 'value': x}),
    st.tuples(st.sampled_from(NAMES), st.integers(0, 60)).map(lambda x: {'op': 'level', 'name': x[0], 'value': x[1]}),
    st.tuples(st.booleans(), st.booleans()).map(lambda x: {'op': 'field', 'add': x[0], 'engine': x[1]}),
)


def strategy():
    return st.fixed_dictionaries({
        'silent': st.booleans(),
        'unknown': st.booleans(),
        'pool': st.sampled_from([0, 0, 0, 1]),
        'ops': st.lists(kit.weighted((3, logging_operation), (1, setting_operation)), min_size=3, max_size=8),
    })


def build(spec, inside):
    kind, payload = spec
    if kind == 'f':
        return FUNCTIONS[payload]
    if kind == 'c':
        return SomeClass
    if kind == 'e':
        return values.build_exception(payload)
    return values.build(spec)


def same_object(real, expected):
    return real is expected or (isinstance(real, str) and isinstance(expected, str) and real == expected) or (type(real) is type(expected) and type(expected) in (str, int, bool, float, type(None)) and (real == expected or (real != real and expected != expected)))


class Invalid(Exception):
    pass


class Model:
    def __init__(self, case):
        self.levels = {}
        self.settings = {
            'silent_internal_exceptions': case['silent'], 'unknown_fields_in_handle_logs': case['unknown'], 'service_name': None,
            'default_level': 1, 'default_error_level': 2,
        }
        self.registered = False

    def convert(self, key, value, everything):
        """The value a field gets, or Invalid."""
        is_text = type(value) is str
        if key == 'message':
            if not isinstance(value, str):
                raise Invalid()
        elif key in ('module', 'local_variables'):
            if not is_text:
                raise Invalid()
        elif key == 'function':
            if not is_text and not callable(value):
                raise Invalid()
        elif key == 'class':
            if isinstance(value, type):
                return value.__name__
            if not is_text:
                raise Invalid()
        elif key == 'exception':
            if not is_text and not isinstance(value, Exception):
                raise Invalid()
        elif key == 'success':
            if type(value) is not bool:
                raise Invalid()
        elif key == 'level':
            if is_text:
                if value not in self.levels:
                    raise Invalid()
                return self.levels[value]
            if type(value) is not int or value < 0:
                raise Invalid()
        elif not everything and not self.settings['unknown_fields_in_handle_logs'] and not (key == 'registered' and self.registered):
            raise Invalid()
        return value

    def fields(self, kind, dot, positional, kwargs):
        """Returns (valid fields, was there anything invalid)."""
        invalid = len(positional) > 1
        result = {}
        if positional:
            result['message'] = positional[0]
        if dot is not None and 'level' not in kwargs:
            kwargs = {'level': dot, **kwargs}
        for key, value in kwargs.items():
            key = SYNONYMS.get(key, key)
            try:
                value = self.convert(key, value, kind == 'log')
            except Invalid:
                invalid = True
                continue
            if key in result:
                try:
                    same = result[key] is value or not (result[key] != value)
                except Exception:
                    same = False  # not comparable
                if not same:
                    invalid = True
                continue
            if value is not None:
                result[key] = value
        return result, invalid


class Player:
    def __init__(self, case, polog, hands):
        self.polog = polog
        self.hands = hands
        self.model = Model(case)
        self.sink = kit.Sink()
        self.case = case
        self.nontrivial = False
        self.labels = set()
        polog.config.add_handlers(self.sink)
        polog.config.set(time_quant=0.0005, silent_internal_exceptions=case['silent'], unknown_fields_in_handle_logs=case['unknown'], pool_size=case['pool'])
        for index, name in enumerate(NAMES):
            self.play({'op': 'level', 'name': name, 'value': index + 3})

    def play(self, op):
        getattr(self, 'do_' + op['op'])(op)

    def do_set(self, op):
        self.polog.config.set(**{op['name']: op['value']})
        self.model.settings[op['name']] = op['value']

    def do_level(self, op):
        self.polog.config.levels(**{op['name']: op['value']})
        self.model.levels[op['name']] = op['value']

    def do_field(self, op):
        if op['add'] == self.model.registered:
            return
        if op['add']:
            self.engine = op['engine']
            add = self.polog.config.add_engine_fields if self.engine else self.polog.config.add_fields
            add(registered=self.polog.field(lambda log: 'extracted'))
        else:
            delete = self.polog.config.delete_engine_fields if self.engine else self.polog.config.delete_fields
            delete('registered')
        self.model.registered = op['add']

    def do_log(self, op):
        kwargs = {k: build(v, None) for k, v in op['kwargs']}
        exceptions = [kwargs[k] for k in ('e', 'exception') if isinstance(kwargs.get(k), Exception)]
        if len(exceptions) > 1:
            return  # Two exception objects compare by their own __eq__; the caller cannot mean anything by it.
        strings = [kwargs[k] for k in ('e', 'exception') if k in kwargs]
        if exceptions and len(strings) > 1:
            return
        positional = [values.SelfStr(x) if x == 'other text' else x for x in op['positional']]
        what = f'{op["kind"]}.{op["dot"]}{tuple(positional)} {op["thing"]} {op["kwargs"]}, silent {self.model.settings["silent_internal_exceptions"]}'
        if op['thing'] is not None and op['kind'] == 'handle' and positional:
            positional[0] = build(op['thing'], None)
        if len(positional) > 1 and op['kind'] == 'log':
            positional = positional[:1]  # Refused as a wrong use of the decorator, in all modes. Checked apart.
            try:
                self.polog.log(*op['positional'])
            except self.polog.errors.IncorrectUseLoggerError:
                pass
            else:
                check(False, 'log() with two positional arguments is refused')
        source = self.polog.log if op['kind'] == 'log' else self.polog.handle_log
        if op['dot'] is not None:
            source = getattr(source, op['dot'])
        self.hands.advance(1.5)
        fields, invalid = self.model.fields(op['kind'], op['dot'], positional, kwargs)
        reported = []
        before = dict(kwargs)
        saved = sys.unraisablehook
        sys.unraisablehook = lambda x: reported.append(x.exc_value)
        raised = None
        inside = None
        if op['inside'] is not None:
            inside = exceptions[0] if op['inside'] == 'same' and exceptions else ValueError('being handled')
        try:
            try:
                if inside is None:
                    returned = source(*positional, **kwargs)
                    del returned
                else:
                    marker_variable = 'some marker'
                    try:
                        raise inside
                    except Exception:
                        returned = source(*positional, **kwargs)
                        del returned
            except Exception as e:
                raised = e
        finally:
            sys.unraisablehook = saved
        silent = self.model.settings['silent_internal_exceptions']
        check(list(kwargs) == list(before) and all(kwargs[k] is before[k] for k in kwargs), f'{what}: the arguments were changed')
        if self.case['pool']:
            self.polog.config.set(pool_size=0)
            self.polog.config.set(pool_size=self.case['pool'])
        records = self.sink.take()
        self.labels.add('invalid' if invalid else 'valid')
        if invalid and not silent:
            self.nontrivial = True
            check(not records, f'{what}: an invalid log is not written in the strict mode', records)
            check(raised is not None or reported, f'{what}: nothing was raised or reported')
            if op['kind'] == 'handle':
                check(isinstance(raised, (ValueError, KeyError)), f'{what}: the error', raised)
            return
        check(raised is None, f'{what}: an exception reached the caller', raised)
        check(not reported, f'{what}: an error was reported', reported)
        check(len(records) == 1, f'{what}: exactly one record', records)
        if invalid or len(kwargs) + len(positional) > 1:
            self.nontrivial = True
        self.verify(records[0], fields, inside, what)

    def verify(self, record, fields, inside, what):
        record = dict(record)
        expected = dict(fields)
        exception = expected.pop('exception', None)
        check(record.pop('auto', None) is False, f'{what}: auto')
        check_eq(record.pop('time', None), self.hands.datetime(), f'{what}: time')
        check_eq(record.pop('service_name', None), self.model.settings['service_name'], f'{what}: service name')
        if exception is not None:
            expected['success'] = False
            if isinstance(exception, str):
                expected['exception_type'] = exception
            else:
                expected['exception_type'] = type(exception).__name__
                message = record.pop('exception_message', None)
                wanted = refjson.text_of(exception)
                check(type(message) is str and (wanted is None or message == wanted), f'{what}: exception message', message, wanted)
                trace = refjson.parse(record.pop('traceback', None), f'{what}: traceback')
                check(isinstance(trace, list), f'{what}: traceback', trace)
                if inside is not None:
                    check(trace and 'raise inside' in trace[-1], f'{what}: the raising line in the traceback', trace)
                    local = refjson.parse(record.pop('local_variables', None), f'{what}: local variables')
                    expected.pop('local_variables', None)
                    check(local['kwargs']['marker_variable'] == {'value': 'some marker', 'type': 'str'}, f'{what}: local variables', local)
                else:
                    check_eq(trace, [], f'{what}: traceback without an exception being handled')
        if 'level' not in expected:
            failure = exception is not None or expected.get('success') is False
            expected['level'] = self.model.settings['default_error_level' if failure else 'default_level']
        function = expected.get('function')
        if callable(function):
            if hasattr(type(function), '__call__') and isinstance(function, BadCallable):
                check(type(record.get('function')) is str, f'{what}: the text of a function', record.get('function'))
                expected['function'] = record.get('function')
            elif isinstance(function, CallableObject):
                expected['function'] = 'callable object'
            elif isinstance(function, values.BadAttr):
                expected['function'] = record.get('function')
            else:
                expected['function'] = function.__name__
            expected['module'] = function.__module__
        if self.model.registered and 'registered' not in expected:
            expected['registered'] = 'extracted'
        check_eq(sorted(record), sorted(expected), f'{what}: names of fields')
        for key, value in expected.items():
            check(same_object(record[key], value), f'{what}: field {key}', record[key], value)


def run(case):
    hands = clock.Clock()
    polog = fresh.load(substitutes=hands.modules(), extra=('polog.errors',))
    player = Player(case, polog, hands)
    for op in case['ops']:
        player.play(op)
    kit.drain(polog)
    check(not player.sink.take(), 'records out of nowhere')
    return Result(player.nontrivial, sorted(player.labels))


FACETS = [Facet('history', strategy, run, quick=9000)]
