"""C01: a logging decorator is invisible to the code that calls the decorated function."""
import contextvars
import functools
import inspect
import threading

from hypothesis import strategies as st

from vlib import coros, fresh, kit, values
from vlib.core import Facet, Result, Violation, check, check_eq

ID = 'C01'
RULE = ('A case is a callable (plain, async, generator, lambda, closure, bound/class/static method, partial, callable object, wrapper of another '
        'one, or a method of a decorated class), arguments and a body outcome (return, return an argument, raise, raise from, re-raise, BaseException, or a '
        'call that does not fit the signature), a decorator spelling and a configuration with well-behaved and failing handlers and '
        'fields. The same body is run undecorated and decorated and everything the caller can see is compared. Non-trivial: the body '
        'raises, or a value / handler / field is hostile, or suppression is requested. Facet "suppression": chains of .suppress() with many classes, '
        'exceptions near to them (children, parents, namesakes), the setting about subclasses changed between calls. Non-trivial: something was suppressed and something was not.')

KINDS = ['func', 'async', 'lambda', 'closure', 'method', 'asyncmethod', 'classmethod', 'staticmethod', 'partial', 'callable_object',
         'class_method', 'class_classmethod', 'class_staticmethod', 'class_async', 'bound', 'async_bound',
         'sync_of_async', 'async_of_sync', 'partial_async', 'marked', 'async_callable']
ASYNC = ('async', 'asyncmethod', 'class_async', 'async_bound', 'async_of_sync', 'partial_async', 'marked', 'async_callable')
OBJECTS = ('partial', 'callable_object', 'partial_async', 'async_callable')  # no metadata of a function
VARIADIC = OBJECTS + ('sync_of_async', 'async_of_sync', 'marked')  # no call that does not fit
NAMES = ['a', 'b', 'self_', 'message', 'level', 'func', 'handlers', 'args', 'kwargs', 'e']

level = st.one_of(st.none(), st.integers(0, 12), st.sampled_from(['low', 'high']))
exc_name = st.sampled_from(sorted(values.EXCEPTIONS))


def strategy():
    outcome = st.one_of(
        values.value_specs().map(lambda x: ['return', x]),
        st.integers(0, 2).map(lambda x: ['arg', x]),
        exc_name.map(lambda x: ['raise', x]),
        exc_name.map(lambda x: ['raise', x]),
        st.tuples(exc_name, exc_name).map(lambda x: ['raise_from', *x]),
        st.tuples(exc_name, exc_name).map(lambda x: ['raise_in_handler', *x]),
        exc_name.map(lambda x: ['raise_from_none', x]),
        st.sampled_from(sorted(values.BASE_EXCEPTIONS)).map(lambda x: ['raise', x]),
        st.just(['badcall']),
        values.value_specs().map(lambda x: ['mutate', x]),
    )
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'name': st.sampled_from(['target', 'target', '_target', '_Holder__target', 't']),
        'args': st.lists(values.value_specs(), max_size=3),
        'kwargs': st.dictionaries(st.sampled_from(NAMES), values.value_specs(), max_size=2),
        'outcome': outcome,
        'form': st.sampled_from(['bare', 'call', 'dot', 'flog']),
        'message': st.one_of(st.none(), st.text(max_size=5)),
        'level': level,
        'errors_level': level,
        'suppress': st.one_of(st.none(), st.none(), st.lists(st.sampled_from(sorted(values.CLASSES)), max_size=2)),
        'handlers': st.lists(st.sampled_from(['ok', 'raise', 'stop', 'rewrite']), max_size=3),
        'local_handlers': st.booleans(),
        'fields': st.lists(st.sampled_from(['ok', 'raise', 'badstr']), max_size=2),
        'engine_fields': st.lists(st.sampled_from(['ok', 'raise']), max_size=2),
        'settings': st.fixed_dictionaries({}, optional={
            'level': st.integers(0, 12),
            'default_level': st.integers(0, 12),
            'pool_size': st.sampled_from([0, 0, 0, 1]),
            'silent_internal_exceptions': st.booleans(),
            'suppress_by_default': st.booleans(),
            'suppress_exception_subclasses': st.booleans(),
            'deduplicate_errors': st.booleans(),
            'traceback_cutting': st.booleans(),
            'fields_intersection': st.booleans(),
            'full_unlog': st.booleans(),
            'service_name': st.sampled_from(['base', None]),
        }),
        'calls': st.integers(1, 3),
        'thread': st.booleans(),
        'message_inside': st.sampled_from([None, None, 'text', 'level', 'exception']),
    })


VARIABLE = contextvars.ContextVar('of the caller')


class Body:
    """The body of the decorated function: remembers what it got and does what the case says."""
    def __init__(self, case, polog=None):
        self.case = case
        self.polog = polog
        self.calls = []
        self.raised = []
        self.places = []

    def __call__(self, args, kwargs):
        self.calls.append((args, kwargs))
        self.places.append((threading.get_ident(), VARIABLE.get(None)))
        VARIABLE.set(f'set by call {len(self.calls)}')
        inside = self.case['message_inside']
        if self.polog is not None and inside is not None:
            if inside == 'text':
                self.polog.log.message('inside')
            elif inside == 'level':
                self.polog.log.message('inside', level=5)
            else:
                self.polog.log.message(e=ValueError('inside'))
        outcome = self.case['outcome']
        kind = outcome[0]
        if kind == 'return':
            self.result = values.build(outcome[1])
            return self.result
        if kind == 'mutate':
            self.result = values.build(outcome[1])
            for arg in args:
                if type(arg) is list:
                    arg.append('mutated')
            return self.result
        if kind == 'arg':
            self.result = args[outcome[1]] if outcome[1] < len(args) else args
            return self.result
        if kind == 'raise':
            exc = values.build_exception(outcome[1])
            self.raised.append((exc, exc.__cause__, exc.__context__, exc.__suppress_context__))
            raise exc
        if kind == 'raise_from_none':
            exc = values.build_exception(outcome[1])
            self.raised.append((exc, None, exc.__context__, True))
            raise exc from None
        if kind == 'raise_from':
            cause = values.build_exception(outcome[2])
            exc = values.build_exception(outcome[1])
            self.raised.append((exc, cause, exc.__context__, True))
            raise exc from cause
        if kind == 'raise_in_handler':
            inner = values.build_exception(outcome[2])
            exc = values.build_exception(outcome[1])
            self.raised.append((exc, exc.__cause__, inner, exc.__suppress_context__))
            try:
                raise inner
            except BaseException:
                raise exc
        return None


def make(case, body, decorate):
    """Build the callable of the case and decorate it; returns (callable to call, function to inspect, undecorated function)."""
    kind = case['kind']
    if kind in ('func', 'closure', 'staticmethod', 'class_staticmethod'):
        if kind == 'closure':
            token = []

            def function(*args: 'note', **kwargs) -> 'result':
                """The docstring."""
                token.append(1)
                return body(args, kwargs)
        else:
            def function(*args, **kwargs):
                """The docstring."""
                return body(args, kwargs)
    elif kind in ('async', 'asyncmethod', 'class_async', 'async_bound'):
        if kind == 'async':
            async def function(*args, **kwargs):
                """The docstring."""
                return body(args, kwargs)
        else:
            async def function(self, *args, **kwargs):
                """The docstring."""
                return body(args, kwargs)
    elif kind == 'lambda':
        function = lambda *args, **kwargs: body(args, kwargs)
    elif kind in ('method', 'class_method', 'classmethod', 'class_classmethod', 'bound'):
        def function(self, *args, **kwargs):
            """The docstring."""
            return body(args, kwargs)
    elif kind == 'partial':
        def base(first, *args, **kwargs):
            return body(args, kwargs)
        function = functools.partial(base, 1)
    elif kind == 'callable_object':
        class CallableObject:
            def __call__(self, *args, **kwargs):
                return body(args, kwargs)
        function = CallableObject()
    elif kind == 'sync_of_async':
        async def hidden(*args, **kwargs):
            """The docstring."""
            return body(args, kwargs)

        @functools.wraps(hidden)
        def function(*args, **kwargs):
            return kit.drive(hidden(*args, **kwargs))
    elif kind == 'async_of_sync':
        def hidden(*args, **kwargs):
            """The docstring."""
            return body(args, kwargs)

        @functools.wraps(hidden)
        async def function(*args, **kwargs):
            return hidden(*args, **kwargs)
    elif kind == 'partial_async':
        async def base(first, *args, **kwargs):
            return body(args, kwargs)
        function = functools.partial(base, 1)
    elif kind == 'marked':
        async def hidden(args, kwargs):
            return body(args, kwargs)

        def function(*args, **kwargs):
            """The docstring."""
            return hidden(args, kwargs)
        if hasattr(inspect, 'markcoroutinefunction'):
            inspect.markcoroutinefunction(function)
    elif kind == 'async_callable':
        class AsyncCallable:
            async def __call__(self, *args, **kwargs):
                return body(args, kwargs)
        function = AsyncCallable()

    if case['outcome'] == ['badcall']:
        strict_body = body
        if kind in ('async',):
            async def function(only):
                """The docstring."""
                return strict_body((only,), {})
        elif kind in ('asyncmethod', 'class_async', 'async_bound'):
            async def function(self, only):
                """The docstring."""
                return strict_body((only,), {})
        elif kind in ('method', 'class_method', 'classmethod', 'class_classmethod', 'bound'):
            def function(self, only):
                """The docstring."""
                return strict_body((only,), {})
        elif kind in ('func', 'closure', 'lambda', 'staticmethod', 'class_staticmethod'):
            def function(only):
                """The docstring."""
                return strict_body((only,), {})

    if kind in ('func', 'async', 'lambda', 'closure') + VARIADIC:
        decorated = decorate(function)
        return decorated, decorated, function
    if kind in ('bound', 'async_bound'):
        bound = getattr(type('Holder', (), {case['name']: function})(), case['name'])
        decorated = decorate(bound)
        return decorated, decorated, bound
    if kind in ('method', 'asyncmethod', 'classmethod', 'staticmethod'):
        wrapped = decorate(function)
        attribute = {'classmethod': classmethod, 'staticmethod': staticmethod}.get(kind, lambda x: x)(wrapped)
        Class = type('Holder', (), {case['name']: attribute})
        return getattr(Class(), case['name']), wrapped, function
    attribute = {'class_classmethod': classmethod, 'class_staticmethod': staticmethod}.get(kind, lambda x: x)(function)
    Class = type('Holder', (), {case['name']: attribute, 'data': 5, 'Inner': type('Inner', (), {})})
    Same = decorate(Class)
    check(Same is Class, 'the class decorator returned another class')
    check(Class.data == 5, 'the class decorator changed a data attribute')
    return getattr(Class(), case['name']), inspect.getattr_static(Class, case['name']), function


def metadata(function):
    if not inspect.ismethod(function):
        function = getattr(function, '__func__', function)
    result = {}
    for name in ('__name__', '__qualname__', '__doc__', '__module__', '__annotations__'):
        result[name] = getattr(function, name, '<none>')
    try:
        result['signature'] = str(inspect.signature(function))
    except (ValueError, TypeError):
        result['signature'] = None
    result['async'] = inspect.iscoroutinefunction(function)
    return result


def call(target, case, args, kwargs, body):
    """Call and say what the caller sees: ('value', object) or ('exception', object)."""
    box = []

    def inner():
        VARIABLE.set('set by the caller')
        count = len(body.places)
        ask()
        # Context variables: the body sees those of the caller, the caller sees the changes.
        for place in body.places[count:]:
            check_eq(place, (threading.get_ident(), 'set by the caller'), 'the thread and the context variable the body sees')
            check_eq(VARIABLE.get(None), f'set by call {len(body.calls)}', 'the context variable the caller sees')

    def ask():
        try:
            if case['kind'] in ASYNC:
                made = target(*args, **kwargs)
                if not inspect.iscoroutine(made):
                    box.append(('not a coroutine', made))
                    return
                # Driven by hand: no await inside, so the first send() ends it.
                try:
                    made.send(None)
                except StopIteration as e:
                    box.append(('value', e.value))
                else:
                    box.append(('suspended', None))
            else:
                box.append(('value', target(*args, **kwargs)))
        except BaseException as e:
            box.append(('exception', e))
    if case['thread']:
        problems = []

        def guarded():
            try:
                inner()
            except BaseException as e:
                problems.append(e)
        thread = threading.Thread(target=guarded)
        thread.start()
        thread.join()
        if problems:
            raise problems[0]
    else:
        inner()
    return box[0]


def make_handler(behaviour, seen):
    def handler(log):
        seen.append(dict(log.items()))
        if behaviour == 'raise':
            raise ValueError('handler failed')
        if behaviour == 'stop':
            raise StopIteration
        if behaviour == 'rewrite':
            log['message'] = 'other'
    return handler


def compare(case, polog, decorate, get_suppressed):
    """Plays the case bare and decorated and compares what the caller sees."""
    expected_body, body = Body(case), Body(case, polog)
    plain, plain_function, _ = make(case, expected_body, lambda x: x)
    target, decorated_function, original = make(case, body, decorate)

    if case['kind'] not in OBJECTS:
        real, wanted = metadata(decorated_function), metadata(original)
        check_eq(real, wanted, 'the decorator changed the metadata of the function')

    args = [values.build(x) for x in case['args']]
    kwargs = {k: values.build(v) for k, v in case['kwargs'].items()}
    if case['outcome'] == ['badcall']:
        args = []
        kwargs = {'unexpected_argument': 1}

    for number in range(case['calls']):
        lists = [list(x) if type(x) is list else None for x in args]
        wanted = call(plain, case, args, kwargs, expected_body)
        for arg, saved in zip(args, lists):
            if saved is not None:
                arg[:] = saved
        before = len(body.calls)
        real = call(target, case, args, kwargs, body)
        check_eq(len(body.calls) - before, 0 if case['outcome'] == ['badcall'] else 1, 'number of runs of the body per call')
        for arg, saved in zip(args, lists):
            if saved is not None:
                added = 1 if case['outcome'][0] == 'mutate' and case['outcome'] != ['badcall'] else 0
                times = sum(1 for x in args if x is arg)
                check(len(arg) == len(saved) + added * times, 'an argument was modified')
                arg[:] = saved
        if case['outcome'] != ['badcall']:
            got_args, got_kwargs = body.calls[-1]
            check(len(got_args) == len(args) and all(x is y for x, y in zip(got_args, args)), 'the function received other positional arguments')
            check(list(got_kwargs) == list(kwargs) and all(got_kwargs[k] is kwargs[k] for k in kwargs), 'the function received other named arguments')

        if wanted[0] == 'value':
            check(real[0] == 'value', 'the decorated function did not return', real)
            if case['outcome'][0] in ('return', 'mutate', 'arg'):
                check(real[1] is body.result, 'another object was returned', real[1])
        else:
            exc = wanted[1]
            if case['outcome'] == ['badcall']:
                own = None
            else:
                own, cause, context, suppress_context = body.raised[-1]
            swallow = False
            if isinstance(exc, Exception):
                suppress_all, suppressed = get_suppressed()
                swallow = suppress_all
                if suppressed:
                    if case['settings'].get('suppress_exception_subclasses', True):
                        swallow = isinstance(exc, suppressed)
                    else:
                        swallow = type(exc) in suppressed
            if swallow:
                check(real == ('value', None), 'a suppressed exception must become None', real)
            else:
                check(real[0] == 'exception', 'the exception of the function did not reach the caller', real)
                if own is None:
                    check(type(real[1]) is type(exc), 'another exception reached the caller', real[1], exc)
                    check_eq(str(real[1]), str(exc), 'the text of the exception')
                else:
                    check(real[1] is own, 'another exception object reached the caller', type(real[1]).__name__)
                    check(own.__cause__ is cause, 'the cause of the exception changed')
                    check(own.__context__ is context, 'the context of the exception changed')
                    check(own.__suppress_context__ == suppress_context, 'the suppress_context mark of the exception changed')
                    names = []
                    tb = own.__traceback__
                    while tb is not None:
                        names.append(tb.tb_frame.f_code)
                        tb = tb.tb_next
                    check(Body.__call__.__code__ in names, 'the traceback lost the frame that raised the exception')


def run(case):
    if case['kind'] in VARIADIC and case['outcome'] == ['badcall']:
        case = dict(case, outcome=['return', ['v', None]])
    if case['kind'] == 'async_callable':
        case = dict(case, suppress=None)  # it is no coroutine function: what happens after the call returned is not covered
    polog = fresh.load()
    polog.config.levels(low=2, high=9)
    polog.config.set(**case['settings'])
    seen = []
    handlers = [make_handler(x, seen) for x in case['handlers']]
    if not case['local_handlers']:
        polog.config.add_handlers(*handlers)

    def make_field(behaviour):
        def extractor(log):
            if behaviour == 'raise':
                raise KeyError('field failed')
            if behaviour == 'badstr':
                return values.BadStr()
            return 'extra'
        return polog.field(extractor)
    polog.config.add_fields(**{f'field_{i}': make_field(x) for i, x in enumerate(case['fields'])})
    polog.config.add_engine_fields(**{f'engine_field_{i}': make_field(x) for i, x in enumerate(case['engine_fields'])})

    is_class = case['kind'].startswith('class_')
    arguments = {}
    if case['message'] is not None:
        arguments['message'] = case['message']
    if case['level'] is not None:
        arguments['level'] = case['level']
    if case['errors_level'] is not None:
        arguments['errors_level'] = case['errors_level']
    if case['local_handlers'] and handlers:
        arguments['handlers'] = handlers

    suppress_all = False
    suppressed = ()

    def decorate(item):
        nonlocal suppress_all, suppressed
        form = case['form']
        if form == 'bare':
            return polog.log(item)
        if form == 'dot':
            rest = {k: v for k, v in arguments.items() if k != 'level'}
            made = polog.log.high(**rest)
        elif form == 'flog' and not is_class:
            return polog.flog(False, [], **arguments)(item)
        else:
            made = polog.log(**arguments)
        if case['suppress'] is not None:
            suppressed = tuple(values.CLASSES[x] for x in case['suppress'])
            suppress_all = not suppressed
            made = made.suppress(*suppressed)
        return made(item)

    compare(case, polog, decorate, lambda: (suppress_all, suppressed))
    labels = [case['kind'], case['outcome'][0]]
    hostile = any(values.is_hostile(x) for x in case['args'] + list(case['kwargs'].values()))
    failing = any(x != 'ok' for x in case['handlers'] + case['fields'] + case['engine_fields'])
    if hostile:
        labels.append('hostile values')
    if failing:
        labels.append('failing handlers or fields')
    if seen:
        labels.append('records delivered')
    nontrivial = hostile or failing or suppress_all or suppressed or case['outcome'][0].startswith('raise')
    return Result(nontrivial, labels)


def coroutine_strategy():
    return st.fixed_dictionaries({
        'ops': coros.operations(),
        'script': coros.scripts(),
        'kind': st.sampled_from(['function', 'method', 'class', 'bound', 'static']),
        'stack': st.lists(st.sampled_from(['log', 'suppress_other', 'suppress_all']), min_size=1, max_size=2),
        'level': st.sampled_from([0, 5]),
        'handler_fails': st.booleans(),
        'second': st.booleans(),
    })


def build_coroutine_function(kind, program, decorate):
    if kind in ('function', 'static'):
        async def target(*args, **kwargs):
            """The docstring."""
            return await program.run(*args, **kwargs)
    else:
        async def target(self, *args, **kwargs):
            """The docstring."""
            return await program.run(*args, **kwargs)
    if kind == 'function':
        return decorate(target)
    if kind == 'static':
        return type('Holder', (), {'target': staticmethod(decorate(target))}).target
    if kind == 'method':
        return type('Holder', (), {'target': decorate(target)})().target
    if kind == 'bound':
        return decorate(type('Holder', (), {'target': target})().target)
    return decorate(type('Holder', (), {'target': target}))().target


def compare_coroutines(case, decorate):
    """One coroutine function, bare and decorated, driven by the same script (values sent, exceptions thrown in, closing)."""
    programs = coros.Program(case['ops']), coros.Program(case['ops'])
    functions = build_coroutine_function(case['kind'], programs[0], lambda x: x), build_coroutine_function(case['kind'], programs[1], decorate)
    check(inspect.iscoroutinefunction(functions[1]), 'the decorated function is not a coroutine function')
    for number in range(1 + case['second']):
        results = []
        for program, function in zip(programs, functions):
            program.trace.clear()
            made = function(1, key=2)
            check(inspect.iscoroutine(made), 'the decorated function did not return a coroutine', made)
            check(not program.trace, 'the body runs before it is awaited', program.trace)
            results.append((coros.drive(made, program, case['script']), coros.plain(program.trace)))
        wanted = results[0][0]
        if case['stack'][-1] == 'suppress_all':
            wanted = coros.suppressed(wanted, case['script'])
        check_eq(results[1][0], wanted, 'what the driver of the coroutine sees')
        check_eq(results[1][1], results[0][1], 'what the body of the coroutine sees')
    return results[0][0]


def build_generator_function(case, program, decorate):
    if case['generator'] == 'plain':
        def target(*args, **kwargs):
            return (yield from program.run(*args[-1:], **kwargs).__await__())
    else:
        async def target(*args, **kwargs):
            program.trace.append(['called', args[-1:], kwargs])
            for op in case['items']:
                try:
                    got = yield op
                    program.trace.append(['got', got])
                except coros.CAUGHT[case['catches']] as e:
                    program.trace.append(['caught', e])
                finally:
                    program.trace.append(['finally'])
    kind = case['kind']
    if kind == 'function':
        return decorate(target)
    if kind == 'static':
        return type('Holder', (), {'target': staticmethod(decorate(target))}).target
    if kind == 'method':
        return type('Holder', (), {'target': decorate(target)})().target
    if kind == 'bound':
        return decorate(type('Holder', (), {'target': target})().target)
    return decorate(type('Holder', (), {'target': target}))().target


def compare_generators(case, decorate):
    """The same for generators and asynchronous generators."""
    programs = coros.Program(case['ops']), coros.Program(case['ops'])
    functions = build_generator_function(case, programs[0], lambda x: x), build_generator_function(case, programs[1], decorate)
    results = []
    for program, function in zip(programs, functions):
        made = function(1, key=2)
        check(not program.trace, 'the body of a generator runs before the first step', program.trace)
        if case['generator'] == 'plain':
            check(inspect.isgenerator(made), 'the decorated function did not return a generator', made)
            seen = coros.drive(made, program, case['script'])
        else:
            check(inspect.isasyncgen(made), 'the decorated function did not return an asynchronous generator', made)
            seen = coros.drive_asyncgen(made, program, case['script'])
        results.append((seen, coros.plain(program.trace)))
    check_eq(results[1][0], results[0][0], 'what the driver of the generator sees')
    check_eq(results[1][1], results[0][1], 'what the body of the generator sees')
    return results[0][0]


def generator_strategy():
    return st.fixed_dictionaries({
        'generator': st.sampled_from(['plain', 'async']),
        'ops': coros.operations(),
        'items': st.lists(st.integers(0, 9), max_size=4),
        'catches': st.sampled_from(['Exception', 'ValueError', 'CancelledError']),
        'script': coros.scripts(),
        'kind': st.sampled_from(['function', 'method', 'class', 'bound', 'static']),
        'stack': st.lists(st.sampled_from(['log', 'suppress_other']), min_size=1, max_size=2),
        'level': st.sampled_from([0, 5]),
        'handler_fails': st.booleans(),
    })


def run_coroutine(case, compare=compare_coroutines):
    polog = fresh.load()
    seen = []
    polog.config.add_handlers(make_handler('raise' if case['handler_fails'] else 'ok', seen))
    polog.config.set(level=case['level'], deduplicate_errors=False)

    def decorate(item):
        for x in case['stack']:
            item = polog.log(item) if x == 'log' else polog.log('text', level=3).suppress(*([] if x == 'suppress_all' else [ZeroDivisionError]))(item)
        return item
    trace = compare(case, decorate)
    return Result(len(trace) > 1 and case['script'], [case['kind'], trace[-1][0], f'{min(len(trace), 5)} steps'])


# Suppression: chains of .suppress(), many classes, exceptions near to them.

class Family(ValueError):
    pass


class Child(Family, KeyError):
    pass


class Same(type('Child', (Exception,), {})):
    pass


NEAR = {x.__name__: x for x in (Exception, LookupError, KeyError, IndexError, ValueError, UnicodeError, OSError, FileNotFoundError, ArithmeticError, ZeroDivisionError, StopIteration, Family, Child, Same)}
NEAR['other Child'] = Same.__mro__[1]
RAISED = sorted(x for x in NEAR if x != 'StopIteration')  # (a coroutine can't raise that)


def suppression_strategy():
    name = st.sampled_from(sorted(NEAR))
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['function', 'async', 'method', 'async method', 'class', 'async class', 'static class']),
        'chain': st.lists(kit.weighted((6, st.lists(name, min_size=1, max_size=4)), (1, st.just([]))), min_size=1, max_size=3),
        'form': st.sampled_from(['text', 'empty', 'level', 'dot']),
        'calls': st.lists(st.tuples(st.one_of(st.none(), st.sampled_from(RAISED), st.sampled_from(RAISED)), st.booleans()).map(list), min_size=1, max_size=6),
        'default': st.booleans(),
    })


def run_suppression(case):
    polog = fresh.load()
    seen = []
    polog.config.add_handlers(make_handler('ok', seen))
    polog.config.levels(low=3)
    polog.config.set(suppress_by_default=case['default'])
    made = {'text': lambda: polog.log('text'), 'empty': lambda: polog.log(), 'level': lambda: polog.log(level='low'), 'dot': lambda: polog.log.low('text')}[case['form']]()
    for names in case['chain']:
        made = made.suppress(*[NEAR[x] for x in names])
    listed = [NEAR[x] for names in case['chain'] for x in names]
    everything = not all(case['chain'])

    def body(exception):
        if exception is not None:
            raise exception
        return listed
    kind = case['kind']

    class Owner:
        if kind == 'static class':
            @staticmethod
            def method(exception):
                return body(exception)
        elif kind.startswith('async'):
            async def method(self, exception):
                return body(exception)
        else:
            def method(self, exception):
                return body(exception)
    if 'class' in kind:
        made(Owner)
        function = Owner().method
    elif 'method' in kind:
        Owner.method = made(Owner.method)
        function = Owner().method
    elif kind == 'async':
        @made
        async def function(exception):
            return body(exception)
    else:
        function = made(body)
    swallowed = passed = 0
    for name, subclasses in case['calls']:
        polog.config.set(suppress_exception_subclasses=subclasses)
        exception = None if name is None else NEAR[name]('one')
        wanted = exception is not None and (everything or (isinstance(exception, tuple(listed)) if subclasses else type(exception) in listed))
        try:
            result = kit.drive(function(exception)) if kind.startswith('async') else function(exception)
            raised = None
        except Exception as e:
            raised = e
        if exception is None:
            check(raised is None and result is listed, 'the result of the call', raised)
            continue
        if wanted:
            check(raised is None and result is None, 'the exception is of a suppressed class', name, subclasses, raised)
            swallowed += 1
        else:
            check(raised is exception, 'the exception is not of a suppressed class', name, subclasses, raised)
            passed += 1
    check_eq(len(seen), len(case['calls']), 'records')
    return Result(swallowed and passed, [kind, 'all' if everything else f'{min(len(listed), 6)} classes'])


FACETS = [Facet('suppression', suppression_strategy, run_suppression, quick=2000), Facet('call', strategy, run, quick=6000), Facet('coroutines', coroutine_strategy, run_coroutine, quick=6000),
          Facet('generators', generator_strategy, lambda case: run_coroutine(case, compare_generators), quick=1600)]
