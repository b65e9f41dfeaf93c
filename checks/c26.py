"""C26: registration accepts exactly valid handlers, fields, names and levels."""
import functools
import io
import os
import keyword
import shutil
import smtplib
import tempfile

from hypothesis import strategies as st

from vlib import fresh, kit
from vlib.core import Facet, Result, Violation, check, check_eq

ID = 'C26'
TECHNIQUE = 'property-based testing: generated signatures, names and values are offered to every place of registration; the answer is compared with a table of rules, and what was accepted is used'
RULE = ('Facet "signatures": a generated callable (kind and list of parameters) is offered to the places that take handlers, extractors, converters, filters, alternatives, formatters. Non-trivial: the callable has parameters besides a single required one, or is accepted and used. '
        'Facet "names": levels and fields under generated names and values. Non-trivial: something accepted and something refused. Facet "decorators": arguments of decorators. Non-trivial: not all of them default. Facet "parameters": arguments of the constructors of handlers. Non-trivial: at least one given. Facet "own": handlers derived from BaseHandler with generated input_proves; non-trivial: proves and arguments.')
ASSUMPTIONS = ['callables whose signature is computed from somebody else (__wrapped__, __signature__) are not generated', 'bool as a number of a level is not generated', 'the level of a decorator is given by a registered name']


class SayYes:
    """A default value that is equal to everything."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


class SayNothing:
    """A default value that cannot be compared."""
    def __eq__(self, other):
        raise RuntimeError('no comparison')

    __ne__ = __eq__
    __hash__ = object.__hash__


class Array:
    """A default value compared element by element, like arrays of numpy."""
    def __eq__(self, other):
        return self

    __ne__ = __eq__

    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')

    __hash__ = object.__hash__


DEFAULTS = {'none': None, 'number': 5, 'yes': SayYes(), 'nothing': SayNothing(), 'array': Array()}
default = st.sampled_from(['none', 'number', 'none', 'number', 'yes', 'nothing', 'array'])
small = kit.weighted((6, st.just(0)), (2, st.just(1)), (1, st.just(2)))


def signature_strategy():
    free = st.fixed_dictionaries({
        'positional_only': small, 'usual': kit.weighted((2, st.just(0)), (5, st.just(1)), (2, st.just(2)), (1, st.just(3))),
        'positional_only_defaults': st.lists(default, max_size=1), 'usual_defaults': kit.weighted((4, st.just([])), (1, st.lists(default, max_size=2))),
        'args': kit.weighted((5, st.just(False)), (1, st.just(True))), 'kwargs': kit.weighted((5, st.just(False)), (1, st.just(True))),
        'keyword_required': small, 'keyword_defaults': kit.weighted((5, st.just([])), (1, st.lists(default, max_size=2))),
    })
    # Positional parameters with defaults go after all required positional ones.
    return free.map(lambda x: {**x, 'positional_only_defaults': [] if x['usual'] else x['positional_only_defaults']})


SITES = ['add', 'add_named', 'add_path', 'decorator', 'decorator_tuple', 'class_decorator', 'extractor', 'converter', 'get_data', 'get_data_engine', 'filter', 'alt', 'formatter', 'text', 'subject']
KINDS = ['function', 'lambda', 'method', 'classmethod', 'staticmethod', 'object', 'class', 'partial']


def callables_strategy():
    return st.fixed_dictionaries({'signature': signature_strategy(), 'kind': st.sampled_from(KINDS), 'bound': st.integers(0, 2), 'site': st.sampled_from(SITES), 'other': kit.weighted((8, st.none()), (1, st.sampled_from(['text', 'number', 'object', 'list', 'int', 'dict'])))})


NOT_HANDLERS = {'text': 5.5, 'number': 5, 'object': object(), 'list': [1], 'int': type('NotHandler', (), {})(), 'dict': frozenset()}


def build_callable(case, calls):
    """Returns (callable, is it a handler)."""
    if case['other'] is not None:
        return NOT_HANDLERS[case['other']], False
    data, kind = case['signature'], case['kind']
    space = {'calls': calls}
    names = iter('abcdefghijklmnop')
    parts = []

    def with_default(key):
        name = next(names)
        space['d_' + name] = DEFAULTS[key]
        return f'{name}=d_{name}'
    first = {'method': ['self'], 'classmethod': ['cls'], 'object': ['self'], 'class': ['self']}.get(kind, [])
    bound = case['bound'] if kind == 'partial' else 0
    required = data['positional_only'] + data['usual']
    bound = min(bound, required)
    if kind == 'partial':
        first = ['bound_' + str(x) for x in range(bound)]
    only = [next(names) for _ in range(data['positional_only'])] + [with_default(x) for x in data['positional_only_defaults']]
    if only:
        parts += first + only + ['/']
    else:
        parts += first
    parts += [next(names) for _ in range(data['usual'])]
    parts += [with_default(x) for x in data['usual_defaults']]
    keywords = [next(names) for _ in range(data['keyword_required'])] + [with_default(x) for x in data['keyword_defaults']]
    if data['args']:
        parts.append('*more')
    elif keywords:
        parts.append('*')
    parts += keywords
    if data['kwargs']:
        parts.append('**named')
    text = ', '.join(parts)
    good = required == 1 and not data['positional_only_defaults'] and not data['usual_defaults'] and not data['args'] and not data['kwargs'] and not keywords
    if kind == 'lambda':
        exec(f'function = lambda {text}: calls.append(1)', space)
        return space['function'], good
    exec(f'def function({text}):\n    calls.append(1)', space)
    function = space['function']
    if kind == 'function':
        return function, good
    if kind == 'partial':
        return functools.partial(function, *range(bound)), good
    if kind == 'method':
        return type('Owner', (), {'name': function})().name, good
    if kind == 'classmethod':
        return type('Owner', (), {'name': classmethod(function)}).name, good
    if kind == 'staticmethod':
        return type('Owner', (), {'name': staticmethod(function)}).name, good
    if kind == 'object':
        return type('Owner', (), {'__call__': function})(), good
    if kind == 'class':
        return type('Owner', (), {'__init__': function}), good
    raise AssertionError(kind)


class FakeSMTP:
    """No letters leave this process."""
    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


def attempt(function):
    """Returns (result, exception)."""
    try:
        return function(), None
    except Violation:
        raise
    except Exception as e:
        return None, e


def run_signatures(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0, silent_internal_exceptions=True)
    calls = []
    subject, good = build_callable(case, calls)
    site = case['site']
    sink = kit.Sink()
    log, config = polog.log, polog.config
    scratch = tempfile.mkdtemp(prefix='c26_')
    old_smtp = smtplib.SMTP_SSL
    smtplib.SMTP_SSL = FakeSMTP
    try:
        config.add_handlers(sink=sink)
        handlers_before = list(config.get_handlers())
        undecorated = []

        class Owner:
            def method(self):
                pass
        original = Owner.__dict__['method']

        def function():
            undecorated.append(1)

        def register():
            if site == 'add':
                config.add_handlers(subject)
            elif site == 'add_named':
                config.add_handlers(one=subject)
            elif site == 'add_path':
                config.add_handlers({'two.three': subject})
            elif site == 'decorator':
                return log(handlers=[subject])(function)
            elif site == 'decorator_tuple':
                return log(handlers=('sink', subject))(function)
            elif site == 'class_decorator':
                return log(handlers=[subject])(Owner)
            elif site == 'extractor':
                config.add_fields(new=polog.field(subject))
            elif site == 'converter':
                config.add_fields(new=polog.field(lambda x: 'text', converter=subject))
            elif site in ('get_data', 'get_data_engine'):
                carrier = type('Carrier', (), {})()
                carrier.get_data = subject
                {'get_data': config.add_fields, 'get_data_engine': config.add_engine_fields}[site](new=carrier)
            elif site == 'filter':
                return fresh.module('polog').file_writer(os.path.join(scratch, 'file'), filter=subject)
            elif site == 'alt':
                return fresh.module('polog').file_writer(os.path.join(scratch, 'file'), filter=lambda x: False, alt=subject)
            elif site == 'formatter':
                return fresh.module('polog').file_writer(os.path.join(scratch, 'file'), formatter=subject)
            elif site in ('text', 'subject'):
                sender = fresh.module('polog.handlers.smtp.sender').SMTP_sender
                return sender('from@example.com', 'password', 'smtp.example.com', 'to@example.com', **{site + '_assembler': subject})
        result, error = attempt(register)
        where = f'{site}: a callable of kind {case["kind"]} with the parameters {case["signature"]}' if case['other'] is None else f'{site}: {subject!r}'
        check_eq(error is None, good, f'{where}: was it accepted ({error!r})')
        if good:
            if site == 'class_decorator':
                Owner().method()
            elif site in ('decorator', 'decorator_tuple'):
                result()
            elif site in ('filter', 'alt', 'formatter', 'text', 'subject'):
                config.add_handlers(result=result)
                log('text')
            else:
                log('text')
            check_eq(len(calls), 1, f'{where}: was accepted; calls of it for one record')
        else:
            check_eq(list(config.get_handlers()), handlers_before, f'{where}: was refused; the handlers')
            check_eq(config.get_all_fields(), {}, f'{where}: was refused; the fields')
            check(Owner.__dict__['method'] is original, f'{where}: was refused; the class is decorated')
            function()
            check_eq(len(sink.records), 0, f'{where}: was refused; records')
            log('text')
            check_eq(len(sink.records), 1, f'{where}: was refused; records of one event')
            check('new' not in sink.records[0], f'{where}: was refused, but the field is in the record')
            check_eq(len(calls), 0, f'{where}: was refused, but called')
    finally:
        smtplib.SMTP_SSL = old_smtp
        shutil.rmtree(scratch, ignore_errors=True)
    return Result(good or case['signature']['usual'] + case['signature']['positional_only'] != 1, [site, 'accepted' if good else 'refused'])


# Names.

LOGGER_NAMES = ['message', 'suppress', 'flog', 'settings', 'get_handlers', 'write', 'level_', '__call__', 'get_arg', 'engine']
FIELD_NAMES = ['level', 'auto', 'time', 'service_name', 'success', 'function', 'class', 'module', 'message', 'exception_type', 'exception_message', 'traceback', 'input_variables', 'local_variables', 'result', 'time_of_work']
name = kit.weighted(
    (4, st.sampled_from(['alpha', 'beta', 'Gamma', 'уровень', 'x1', 'ﬁ', 'snake_name', 'end_'])),
    (2, st.sampled_from(['', ' ', '1x', 'a b', 'a-b', 'a.b', 'é!', '.', 'a\n', '²', 'x²'])),
    (2, st.sampled_from(['_a', '__a__', '_', '__', '_1', '__class__'])),
    (2, st.sampled_from(FIELD_NAMES + LOGGER_NAMES)),
    (1, st.sampled_from(keyword.kwlist)),
    (2, st.text(max_size=4)),
    (3, st.integers(0, 300).map(lambda x: ['taken', x])),
)
number = kit.weighted((4, st.integers(0, 100)), (1, st.sampled_from([0, 10 ** 20])), (2, st.integers(-5, -1)), (1, st.sampled_from(['text', None, 1.5, [1], '5'])))
value = st.sampled_from(['field', 'object', 'field', 'method_two', 'method_none', 'nothing', 'function', 'attribute', 'class'])
names_step = kit.weighted(
    (3, st.lists(st.tuples(name, number), min_size=1, max_size=3, unique_by=lambda x: str(x[0])).map(lambda x: ['levels', x])),
    (3, st.tuples(st.sampled_from(['in_place', 'engine']), st.lists(st.tuples(name, value), min_size=1, max_size=3, unique_by=lambda x: str(x[0]))).map(lambda x: ['fields', *x])),
    (1, st.tuples(st.sampled_from(['in_place', 'engine']), name).map(lambda x: ['delete', *x])),
)


def names_strategy():
    return st.fixed_dictionaries({'history': st.lists(names_step, min_size=1, max_size=6)})


class Good:
    def get_data(self, log):
        return 'data'


def build_field(polog, kind):
    """Returns (field, is it good)."""
    if kind == 'field':
        return polog.field(lambda x: 'data'), True
    if kind == 'object':
        return Good(), True
    if kind == 'method_two':
        return type('Bad', (), {'get_data': lambda self, x, y: 'data'})(), False
    if kind == 'method_none':
        return type('Bad', (), {'get_data': lambda self: 'data'})(), False
    if kind == 'attribute':
        return type('Bad', (), {'get_data': 'data'})(), False
    if kind == 'class':
        return Good, False
    if kind == 'function':
        return (lambda log: 'data'), False
    return None, False


def run_names(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0, silent_internal_exceptions=True)
    log, config = polog.log, polog.config
    sink = kit.Sink()
    config.add_handlers(sink=sink)
    loggers = [log, fresh.module('polog.loggers.auto.function_logger').flog, fresh.module('polog.loggers.handle.handle_log').handle_log, fresh.module('polog.loggers.handle.message').message]
    taken = set().union(*[dir(x) for x in loggers])
    levels, fields = {}, {'in_place': {}, 'engine': {}}
    add = {'in_place': config.add_fields, 'engine': config.add_engine_fields}
    delete = {'in_place': config.delete_fields, 'engine': config.delete_engine_fields}
    get = {'in_place': config.get_in_place_fields, 'engine': config.get_engine_fields}
    accepted = refused = 0
    known = sorted(x for x in taken if not x.startswith('_'))

    def resolve(x):
        """A name, or the number of one of the names of the loggers."""
        return x if isinstance(x, str) else known[x[1] % len(known)]
    for index, step in enumerate(case['history']):
        if step[0] == 'levels':
            step = ['levels', list({resolve(key): x for key, x in step[1]}.items())]
        elif step[0] == 'fields':
            step = ['fields', step[1], list({resolve(key): x for key, x in step[2]}.items())]
        else:
            step = ['delete', step[1], resolve(step[2])]
        where = f'step {index}, {step}'
        if step[0] == 'levels':
            expected = True
            for one, level in step[1]:
                expected = type(level) is int and level >= 0 and one.isidentifier() and not one.startswith('_') and one not in taken
                if not expected:
                    break
                levels[one] = level
            _, error = attempt(lambda: config.levels(**dict(step[1])))
        elif step[0] == 'fields':
            expected = True
            given = {}
            for one, kind in step[2]:
                given[one], good = build_field(polog, kind)
                expected = expected and good and one.isidentifier() and not one.startswith('_') and one not in FIELD_NAMES
                if expected:
                    fields[step[1]][one] = given[one]
            _, error = attempt(lambda: add[step[1]](**given))
        else:
            expected = step[2] in fields[step[1]]
            fields[step[1]].pop(step[2], None)
            _, error = attempt(lambda: delete[step[1]](step[2]))
        check_eq(error is None, expected, f'{where}: was it accepted ({error!r})')
        if expected:
            accepted += 1
        else:
            refused += 1
        for kind in fields:
            real = get[kind]()
            check_eq(sorted(real), sorted(fields[kind]), f'{where}: names of the {kind} fields')
            for one in real:
                check(real[one] is fields[kind][one], f'{where}: the field {one}')
        # What is accepted works, and nothing else.
        log('text')
        record, = sink.take()
        names = set(fields['in_place']) | set(fields['engine'])
        check_eq(sorted(x for x in record if x not in FIELD_NAMES), sorted(names), f'{where}: extra fields of a record')
        Levels = fresh.module('polog.core.stores.levels').Levels
        check_eq(sorted(Levels.get_all_names()), sorted(levels), f'{where}: names of levels')
        for one, level in levels.items():
            getattr(log, one)('text')
            record, = sink.take()
            check_eq(record['level'], level, f'{where}: the number of the level {one}')
        if step[0] == 'levels':
            for one, _ in step[1]:
                if one not in levels:
                    attempt(lambda: polog.handle_log('text', level=one))
                    check_eq([x['level'] for x in sink.take() if x.get('level') not in (None, 1)], [], f'{where}: records with the level {one!r}, that was refused')
    return Result(bool(accepted and refused), [x[0] for x in case['history']])


# Arguments of decorators.

level_value = kit.weighted((3, st.none()), (3, st.sampled_from([0, 5, 'known'])), (1, st.sampled_from(['!list', '!float', '!object'])))
handlers_value = kit.weighted((3, st.none()), (3, st.lists(st.sampled_from(['sink', 'own', 'future.name', 'other']), max_size=3)), (2, st.lists(st.sampled_from(['sink', 'own', '!number', '!none', '!two', '!nothing']), min_size=1, max_size=3)), (1, st.sampled_from(['!number', '!set', '!text', '!dict', '!handler'])))
fields_value = kit.weighted((3, st.none()), (3, st.lists(st.sampled_from(['one', 'two', '...']), max_size=3, unique=True)), (2, st.lists(st.sampled_from(['one', 'two', '...', '!double', '!name', '!value', '!number']), min_size=1, max_size=3)), (1, st.sampled_from(['single', '!number', '!text', '!set'])))


def decorators_strategy():
    return st.fixed_dictionaries({
        'message': kit.weighted((3, st.none()), (3, st.just('words')), (1, st.sampled_from(['!number', '!list']))),
        'level': level_value, 'errors_level': level_value, 'handlers': handlers_value, 'extra_fields': fields_value, 'extra_engine_fields': fields_value,
        'unknown': kit.weighted((9, st.just(False)), (1, st.just(True))), 'tuple': st.booleans(),
        'target': st.sampled_from(['function', 'function', 'async', 'class', 'class_method', 'number', 'two']), 'through': st.sampled_from(['log', 'log', 'level', 'direct']), 'silent': st.booleans(),
        'raise': st.booleans(),
    })


def constant(value):
    return lambda log: value


def run_decorators(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0, silent_internal_exceptions=case['silent'], deduplicate_errors=False)
    log, config = polog.log, polog.config
    config.levels(known=7)
    sink, own, other = kit.Sink(), kit.Sink(), kit.Sink()
    config.add_handlers(sink=sink, other=other)
    config.add_fields(everywhere=polog.field(lambda x: 'everywhere'))
    config.add_engine_fields(engine_everywhere=polog.field(lambda x: 'everywhere'))
    good = not case['unknown']
    arguments = {}
    if case['message'] is not None:
        arguments['message'] = {'words': 'words', '!number': 5, '!list': ['words']}[case['message']]
        good = good and case['message'] == 'words'
    for name in ('level', 'errors_level'):
        if case[name] is not None:
            arguments[name] = {'!list': [5], '!float': 5.5, '!object': object()}.get(case[name], case[name])
            good = good and not (isinstance(case[name], str) and case[name].startswith('!'))
    if case['handlers'] is not None:
        if isinstance(case['handlers'], str):
            arguments['handlers'] = {'!number': 5, '!set': {'sink'}, '!text': 'sink', '!dict': {'sink': own}, '!handler': own}[case['handlers']]
            good = False
        else:
            table = {'own': own, '!number': 5, '!none': None, '!two': lambda x, y: None, '!nothing': lambda: None}
            arguments['handlers'] = (tuple if case['tuple'] else list)([table.get(x, x) for x in case['handlers']])
            good = good and not any(x.startswith('!') for x in case['handlers'])
    local = {}
    for name in ('extra_fields', 'extra_engine_fields'):
        given = case[name]
        local[name] = {}
        if given is None:
            continue
        prefix = name + '_'
        table = {key: {prefix + key: polog.field(constant(key))} for key in ('one', 'two')}
        table.update({'...': Ellipsis, '!name': {5: polog.field(lambda x: 'x')}, '!value': {prefix + 'x': lambda x: 'x'}, '!number': 5, '!double': {prefix + 'one': polog.field(lambda x: 'x')}})
        if isinstance(given, str):
            arguments[name] = {'single': table['one'], '!number': 5, '!text': 'text', '!set': {5}}[given]
            good = good and given == 'single'
            local[name] = {prefix + 'one': 'one'}
        else:
            arguments[name] = (tuple if case['tuple'] else list)([table[x] for x in given])
            repeated = len([x for x in given if x in ('one', '!double')]) > 1 or given.count('two') > 1
            good = good and not repeated and not any(x in ('!name', '!value', '!number') for x in given)
            local[name] = {prefix + ('one' if x == '!double' else x): x for x in given if x in ('one', 'two', '!double')}
    if case['unknown']:
        arguments['unknown_argument'] = 5

    ran = []

    def body():
        ran.append(1)
        if case['raise']:
            raise ValueError('a problem')

    def function():
        return body()

    async def coroutine():
        return body()

    class Owner:
        def method(self):
            return body()
    originals = (Owner.__dict__['method'],)
    target = {'function': function, 'async': coroutine, 'class': Owner, 'class_method': Owner, 'number': 5, 'two': None}[case['target']]
    good = good and target is not None and target != 5
    if case['target'] == 'class_method':
        arguments['methods'] = ('method',)
    logger = log.known if case['through'] == 'level' else log

    def register():
        if case['target'] == 'two':
            return logger(function, Owner)
        if case['through'] == 'direct':
            if case['target'] == 'number':
                return logger(target)
            return logger(target, **arguments)
        return logger(**arguments)(target)
    result, error = attempt(register)
    where = f'@log({arguments}) through {case["through"]} on {case["target"]}'
    check_eq(error is None, good, f'{where}: was it accepted ({error!r})')
    for one in (sink, own, other):
        check_eq(one.records, [], f'{where}: records before any call')
    if not good:
        check(Owner.__dict__['method'] is originals[0], f'{where}: was refused, but the class is decorated')
        function_now = function
    else:
        function_now = result
    try:
        if case['target'] == 'async':
            kit.drive((function_now if good else coroutine)())
        elif case['target'].startswith('class'):
            Owner().method()
        else:
            function_now()
        raised = False
    except ValueError:
        raised = True
    check_eq(raised, case['raise'], f'{where}: the exception of the function')
    check_eq(len(ran), 1, f'{where}: calls of the function')
    if not good:
        for one in (sink, own, other):
            check_eq(one.records, [], f'{where}: was refused, but there are records')
        return Result(True, ['refused'])
    wanted = case['handlers'] if case['handlers'] is not None else ['sink', 'other']
    check_eq(len(own.records), wanted.count('own'), f'{where}: records in the local handler')
    check_eq(len(sink.records), int('sink' in wanted), f'{where}: records in the global handler')
    check_eq(len(other.records), int('other' in wanted), f'{where}: records in the other global handler')
    for record in [*own.records, *sink.records, *other.records]:
        level = case['level'] if case['level'] is not None else ('known' if case['through'] == 'level' else 1)
        level = {'known': 7}.get(level, level)
        if case['raise']:
            level = case['errors_level'] if case['errors_level'] is not None else max(2, level)
        check_eq(record['level'], {'known': 7}.get(level, level), f'{where}: the level of the record')
        check_eq(record.get('message'), case['message'], f'{where}: the message')
        expected = {}
        for name, common in (('extra_fields', 'everywhere'), ('extra_engine_fields', 'engine_everywhere')):
            if case[name] is None or (isinstance(case[name], list) and '...' in case[name]):
                expected[common] = 'everywhere'
            expected.update({key: {'!double': 'x'}.get(value, value) for key, value in local[name].items()})
        real = {key: value for key, value in record.items() if 'everywhere' in key or key.startswith('extra_')}
        check_eq(real, expected, f'{where}: extra fields')
    # And when a handler appears under the name that was promised, it gets records too.
    return Result(bool(arguments), ['accepted', case['target']])


# Arguments of handlers.

def one_of(good, bad):
    return kit.weighted((2, st.none()), (2, st.sampled_from(good).map(lambda x: [True, x])), (1, st.sampled_from(bad).map(lambda x: [False, x])))


def parameters_strategy():
    return st.one_of(
        st.fixed_dictionaries({'handler': st.just('file'), 'target': one_of(['path', 'buffer', 'own', 'stdout'], ['no read', 'no write', 'no close', 'read is a field', 'write is a field', 'close is a field', 'number', 'bytes', 'two', 'nothing at all']), 'only_errors': one_of([True, False], ['yes', 1, None]), 'forced_flush': one_of([True, False], ['yes', 0, None]), 'separator': one_of(['\n', '', '--'], [5, None, ['x']]), 'rotation': one_of(['1 megabyte >> .', '10 gigabytes >> somewhere'], [5, ['1 megabyte >> .']]), 'lock_type': one_of(['thread', 'file', 'thread+file', None], ['elephant', 5, 'thread+elephant'])}),
        st.fixed_dictionaries({'handler': st.just('mail'), 'email_from': one_of(['a@example.com'], [5, None]), 'password': one_of(['secret'], [5, None]), 'smtp_server': one_of(['smtp.example.com'], [5, None]), 'email_to': one_of(['b@example.com'], [5, None, ['b@example.com']]), 'port': one_of([465, 25], ['465', None, 1.5]), 'is_html': one_of([True, False], ['yes', 1, None]), 'only_errors': one_of([True, False], ['yes', 1, None])}),
    )


def file_targets(kind, path):
    if kind in ('path', 'buffer', 'stdout', 'number', 'bytes', 'two', 'nothing at all'):
        return {'path': [path], 'buffer': [io.StringIO()], 'stdout': [], 'number': [5], 'bytes': [path.encode()], 'two': [path, path], 'nothing at all': [object()]}[kind]
    methods = {x: (lambda self, *args: None) for x in ('read', 'write', 'close', 'flush')}
    if kind.startswith('no '):
        del methods[kind[3:]]
    elif kind != 'own':
        methods[kind.split()[0]] = 'a field'
    return [type('Target', (), methods)()]


def run_parameters(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0)
    given = {key: x for key, x in case.items() if key != 'handler' and x is not None}
    arguments = {key: x[1] for key, x in given.items()}
    good = all(x[0] for x in given.values())
    if case['handler'] == 'file' and case['rotation'] is not None and case['target'] is not None and case['target'][1] != 'path':
        good = False  # only a file that was given by its path can be rotated
    old_smtp = smtplib.SMTP_SSL
    smtplib.SMTP_SSL = FakeSMTP
    scratch = tempfile.mkdtemp(prefix='c26_')
    try:
        if case['handler'] == 'file':
            files = file_targets(arguments.pop('target', 'path'), os.path.join(scratch, 'file'))
            result, error = attempt(lambda: polog.file_writer(*files, **arguments))
        else:
            arguments = {**{'email_from': 'a@example.com', 'password': 'secret', 'smtp_server': 'smtp.example.com', 'email_to': 'b@example.com'}, **arguments}
            result, error = attempt(lambda: fresh.module('polog.handlers.smtp.sender').SMTP_sender(**arguments))
        check_eq(error is None, good, f'{case["handler"]} handler with {arguments}: was it accepted ({error!r})')
        if good:
            polog.config.add_handlers(result)
            check(any(x is result for x in polog.config.get_handlers()), 'a handler was accepted, but is not among the registered ones')
    finally:
        smtplib.SMTP_SSL = old_smtp
        shutil.rmtree(scratch, ignore_errors=True)
    return Result(bool(given), [case['handler'], 'accepted' if good else 'refused'])


# Handlers made by the user from the base class.

PROVES = {
    'text': lambda x: isinstance(x, str),
    'anything': lambda x: True,
    'nothing': lambda x: False,
    'truthy': lambda x: x,
    'positive': lambda x: isinstance(x, (int, float)) and x > 0,
}
ARGUMENTS = ['some_data', 'size', 'other', 'only_errors', 'alt']


def own_strategy():
    value = st.sampled_from([None, 0, 1, -2.5, 'text', '', True, False, [], [0]])
    return st.fixed_dictionaries({
        'proves': kit.weighted((1, st.none()), (4, st.dictionaries(st.sampled_from(ARGUMENTS), st.sampled_from(sorted(PROVES)), max_size=3))),
        'where': st.sampled_from(['class', 'parent', 'instance']),
        'arguments': st.dictionaries(st.sampled_from(['some_data', 'size', 'other']), value, max_size=3),
        'together': st.booleans(),
        'base': st.fixed_dictionaries({'only_errors': kit.weighted((2, st.none()), (2, st.booleans()), (1, st.sampled_from(['yes', 1, 0]))), 'filter': st.sampled_from(['absent', 'absent', 'none', 'good', 'bad', 'text']), 'alt': st.sampled_from(['absent', 'absent', 'none', 'good', 'bad', 'text'])}),
        'logs': st.lists(st.booleans(), min_size=1, max_size=3),
    })


def run_own(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0)
    BaseHandler = fresh.module('polog.handlers.abstract.base').BaseHandler
    done = []
    base = {}
    if case['base']['only_errors'] is not None:
        base['only_errors'] = case['base']['only_errors']
    for key in ('filter', 'alt'):
        if case['base'][key] != 'absent':
            base[key] = {'none': None, 'good': lambda log: True, 'bad': lambda log, other: True, 'text': 'text'}[case['base'][key]]
    proves = None if case['proves'] is None else {key: PROVES[x] for key, x in case['proves'].items()}

    class Parent(BaseHandler):
        pass

    class Own(Parent):
        def __init__(self, arguments, **kwargs):
            if proves is not None and case['where'] == 'instance':
                self.input_proves = proves
            super().__init__(**kwargs)
            if case['together']:
                self.do_input_proves(**arguments)
            else:
                for key, x in arguments.items():
                    self.do_input_proves(**{key: x})

        def get_content(self, log):
            return log['message']

        def do(self, content):
            done.append(content)

    if proves is not None and case['where'] != 'instance':
        (Own if case['where'] == 'class' else Parent).input_proves = proves
    wanted = {'only_errors': lambda x: isinstance(x, bool), 'filter': lambda x: x is None or (callable(x) and case['base']['filter'] == 'good'), 'alt': lambda x: x is None or (callable(x) and case['base']['alt'] == 'good')}
    wanted.update(proves or {})
    given = {'only_errors': False, 'filter': None, 'alt': None, **base, **case['arguments']}
    good = all(wanted[key](x) for key, x in given.items() if key in wanted)
    result, error = attempt(lambda: Own(case['arguments'], **base))
    check((error is None) == good, 'a handler of the user: was it accepted', repr(error), case)
    if error is not None:
        check(isinstance(error, ValueError), 'the exception of a handler of the user', repr(error))
    else:
        polog.config.add_handlers(result)
        only_errors = base.get('only_errors', False) is True
        for index, success in enumerate(case['logs']):
            polog.log(f'text {index}', success=success)
        check_eq(done, [f'text {index}' for index, success in enumerate(case['logs']) if not (success and only_errors)], 'what a handler of the user was given')
    return Result(bool(case['proves']) and bool(case['arguments']), ['accepted' if good else 'refused', case['where']])


FACETS = [
    Facet('signatures', callables_strategy, run_signatures, quick=3000),
    Facet('names', names_strategy, run_names, quick=1500),
    Facet('decorators', decorators_strategy, run_decorators, quick=2500),
    Facet('parameters', parameters_strategy, run_parameters, quick=1000),
    Facet('own', own_strategy, run_own, quick=1000),
]
