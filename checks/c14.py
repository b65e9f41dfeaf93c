"""C14: extra fields."""
import sys
import threading
import time

from hypothesis import strategies as st

from vlib import events, fresh, kit
from vlib.core import Facet, Result, check, check_eq

ID = 'C14'
TECHNIQUE = 'model-based testing: generated histories of field registrations, deletions, decorations, setting changes and logs against a reference model of the fields of every record'
RULE = ('A case is a history of up to 14 operations: in-place and engine fields added (also over existing ones) and deleted, fields_intersection switched, decorators with '
        'extra_fields / extra_engine_fields in every documented form (dictionary, lists and tuples of dictionaries, with and without "...", clashing names), and records through '
        'every entry point, some of them with fields of the same names passed by hand or by message(). Extractors return constants, parts of the record, the state or the thread at that '
        'moment, or fail; converters change values or fail. With 0 or 2 workers. Each record is compared with the model, field by field. '
        'Non-trivial: a record with a clash of at least two sources of one field, or a failing field, or a field changed after the decoration.')
ASSUMPTIONS = ['with workers, the history waits for the queue before fields or fields_intersection change',
               'the order in which fields are extracted is not compared']

NAMES = ['first', 'second', 'third', 'fourth']
MISSING = object()


class MarkedError(Exception):
    pass


field = st.fixed_dictionaries({
    'kind': kit.weighted((4, st.just('const')), (1, st.just('none')), (2, st.just('message')), (1, st.just('level')), (2, st.just('state')), (2, st.just('thread')),
                         (2, st.just('fail')), (1, st.just('rewrite')), (1, st.just('missing')), (1, st.just('input')), (1, st.just('churn'))),
    'value': st.integers(0, 9),
    'converter': kit.weighted((4, st.none()), (2, st.just('pair')), (1, st.just('fail'))),
})
name = st.sampled_from(NAMES)
where = st.sampled_from(['place', 'engine'])
MANY = [f'field_{x}' for x in range(40)]


def crowd(few):
    """Sometimes there are many of them."""
    return kit.weighted((15, few), (1, st.sampled_from([6, 12, 40]).map(lambda x: {y: {'kind': 'const', 'value': len(y), 'converter': None} for y in MANY[:x]})))


some_fields = crowd(st.dictionaries(name, field, max_size=3))
local = st.one_of(
    st.none(),
    some_fields.map(lambda x: ['dict', x]),
    st.tuples(st.sampled_from(['list', 'tuple']), st.lists(kit.weighted((2, st.just('...')), (3, some_fields)), max_size=3)).map(list),
)
given_fields = st.dictionaries(name, st.integers(100, 109), max_size=2)
operation = kit.weighted(
    (6, st.tuples(st.just('add'), where, crowd(st.dictionaries(name, field, min_size=1, max_size=2))).map(list)),
    (3, st.tuples(st.just('delete'), where, name).map(list)),
    (2, st.booleans().map(lambda x: ['intersection', x])),
    (5, st.tuples(st.just('decorate'), local, local, st.sampled_from(['function', 'async', 'class', 'failing', 'failing async', 'failing class'])).map(list)),
    (5, st.tuples(st.just('call'), st.integers(0, 9), given_fields).map(list)),
    (3, st.tuples(st.just('manual'), st.sampled_from(['log', 'handle', 'with', 'with_inside']), given_fields).map(list)),
    (3, st.sampled_from(events.KINDS).map(lambda x: ['emit', x])),
    (1, st.lists(name, max_size=2).map(lambda x: ['getters', x])),
)


def strategy():
    return st.fixed_dictionaries({
        'history': st.lists(operation, min_size=3, max_size=14),
        'workers': kit.weighted((3, st.just(0)), (1, st.just(2))),
    })


class World:
    def __init__(self, case, polog):
        self.workers = case['workers']
        self.polog = polog
        self.sinks = [kit.Sink(), kit.Sink()]
        self.fields = {'place': {}, 'engine': {}}
        self.intersection = False
        self.decorated = []
        self.expected = {}
        self.given = []
        self.state = 0
        self.count = 0
        self.lock = threading.Lock()
        self.interesting = False

    # Fields.

    def make(self, spec):
        kind = spec['kind']

        def extractor(log):
            if kind == 'const':
                return spec['value']
            if kind == 'none':
                return None
            if kind == 'message':
                return log.get('message')
            if kind == 'level':
                return log['level']
            if kind == 'state':
                return self.state
            if kind == 'thread':
                return threading.get_ident()
            if kind == 'churn':
                # A field that adds and deletes other fields while fields are being extracted.
                with self.lock:
                    for add, delete in ((self.polog.config.add_fields, self.polog.config.delete_fields), (self.polog.config.add_engine_fields, self.polog.config.delete_engine_fields)):
                        try:
                            delete('late')
                        except KeyError:
                            add(late=self.polog.field(lambda log: 'late'))
                return spec['value']
            if kind == 'input':
                return log.function_input_data.args
            if kind == 'missing':
                return log['there is no such field']
            if kind == 'rewrite':
                log['first'] = 'spoiled'
                return 'rewritten'
            raise MarkedError('extractor')
        if spec['converter'] is None:
            made = self.polog.field(extractor)
        elif spec['converter'] == 'pair':
            def converter(value):
                return ('converted', value)
            made = self.polog.field(extractor, converter=converter)
        else:
            def converter(value):
                raise MarkedError('converter')
            made = self.polog.field(extractor, converter=converter)
        made.spec = spec
        return made

    def make_all(self, specs):
        return {k: self.make(v) for k, v in specs.items()}

    def is_failing(self, spec):
        return spec['kind'] in ('fail', 'missing', 'rewrite') or spec['converter'] == 'fail'

    # The model.

    def model(self, text, given, place, engine, arguments=None):
        result = dict.fromkeys(given)
        for k, v in given.items():
            result[k] = ('given', v)
        sources = {k: 1 for k in given}
        for title, fields in (('place', place), ('engine', engine)):
            for k, f in fields.items():
                sources[k] = sources.get(k, 0) + 1
                if self.is_failing(f.spec):
                    self.interesting = True
                    continue
                if k not in result or self.intersection:
                    result[k] = (title, f.spec, self.state)
        if any(x > 1 for x in sources.values()):
            self.interesting = True
        self.expected[text] = (result, arguments)

    def compare(self, text, record, wanted):
        fields, arguments = wanted
        for k in NAMES + MANY:
            real = record.get(k, MISSING)
            data = fields.get(k)
            if data is None:
                check(real is MISSING, f'{text}: field {k} out of nowhere', real)
                continue
            check(real is not MISSING, f'{text}: no field {k}', data)
            if data[0] == 'given':
                check_eq(real, data[1], f'{text}: field {k} given by hand')
                continue
            title, spec, state = data
            if spec['converter'] == 'pair':
                check(type(real) is tuple and len(real) == 2 and real[0] == 'converted', f'{text}: field {k} is not converted', real)
                real = real[1]
            kind = spec['kind']
            if kind == 'thread':
                if title == 'place' or not self.workers:
                    check_eq(real, threading.get_ident(), f'{text}: in-place field {k} must be extracted in the logging thread')
                else:
                    check(type(real) is int and real != threading.get_ident(), f'{text}: engine field {k} must be extracted in the engine', real)
                continue
            if kind == 'state' and title == 'engine' and self.workers:
                check(type(real) is int and real >= state, f'{text}: engine field {k} extracted before the log', real)
                continue
            if kind == 'level':
                value = record['level']
            elif kind == 'input':
                value = arguments
            else:
                value = {'const': spec['value'], 'churn': spec['value'], 'none': None, 'message': record.get('message'), 'state': state}[kind]
            check_eq(real, value, f'{text}: field {k} ({title}, {kind})')

    # Operations.

    def wait(self):
        """Wait until everything logged is handled."""
        patience = kit.Patience()
        while self.workers and len(self.sinks[1].records) < len(self.expected):
            check(patience, 'a record did not come')
            time.sleep(0.0002)
        self.verify()

    def verify(self):
        for sink in self.sinks:
            seen = set()
            for record in sink.take():
                text = record.get('message')
                check(text in self.expected and text not in seen, 'unexpected record', record)
                seen.add(text)
                self.compare(text, record, self.expected[text])
            check_eq(seen, set(self.expected), 'recorded events')
        self.expected.clear()
        for given, copy in self.given:
            check(type(given) is type(copy) and len(given) == len(copy), 'a collection of the user was changed', given, copy)
            if isinstance(given, dict):
                check(list(given) == list(copy) and all(given[k] is copy[k] for k in copy), 'a dictionary of the user was changed', given, copy)
            else:
                check(all(x is y for x, y in zip(given, copy)), 'a list of the user was changed', given, copy)

    def remember(self, x):
        self.given.append((x, type(x)(x)))

    def local(self, spec):
        """Returns (argument for the decorator, function to get the fields in force now by the global ones), or None if the names clash."""
        if spec is None:
            return None, lambda defaults: defaults
        if spec[0] == 'dict':
            made = self.make_all(spec[1])
            self.remember(made)
            snapshot = dict(made)
            return made, lambda defaults: snapshot
        items = []
        own = {}
        clash = False
        for x in spec[1]:
            if x == '...':
                items.append(...)
            else:
                made = self.make_all(x)
                self.remember(made)
                items.append(made)
                clash = clash or bool(set(made) & set(own))
                own.update(made)
        argument = tuple(items) if spec[0] == 'tuple' else items
        self.remember(argument)
        if clash:
            return argument, None
        if '...' in spec[1]:
            return argument, lambda defaults: {**defaults, **own}
        return argument, lambda defaults: own

    def do(self, step):
        kind = step[0]
        config = self.polog.config
        self.count += 1
        text = f'event {self.count}'
        self.state += 1
        if kind in ('add', 'delete', 'intersection'):
            self.wait()
            if self.decorated and kind != 'intersection':
                self.interesting = True
        if kind == 'add':
            made = self.make_all(step[2])
            {'place': config.add_fields, 'engine': config.add_engine_fields}[step[1]](**made)
            self.fields[step[1]].update(made)
        elif kind == 'delete':
            delete = {'place': config.delete_fields, 'engine': config.delete_engine_fields}[step[1]]
            if step[2] in self.fields[step[1]]:
                delete(step[2])
                del self.fields[step[1]][step[2]]
            else:
                try:
                    delete(step[2])
                except KeyError:
                    pass
                else:
                    check(False, 'deletion of an unknown field must be refused', step)
        elif kind == 'intersection':
            config.set(fields_intersection=step[1])
            self.intersection = step[1]
        elif kind == 'decorate':
            self.decorate(step)
        elif kind == 'call':
            if self.decorated:
                self.call(self.decorated[step[1] % len(self.decorated)], text, step[2])
        elif kind == 'manual':
            place, engine = self.fields['place'], self.fields['engine']
            self.model(text, step[2], place, engine)
            if step[1] == 'log':
                self.polog.log(text, **step[2])
            elif step[1] == 'handle':
                self.polog.handle_log(text, **step[2])
            elif step[1] == 'with':
                with self.polog.log(text, **step[2]):
                    pass
            else:
                with self.polog.log(text) as block:
                    block(**step[2])
        elif kind == 'emit':
            self.model(text, {}, self.fields['place'], self.fields['engine'], (self.emitter.object, text) if step[1] == 'method' else ((text,) if step[1] in ('deco', 'deco_error', 'async') else (() if step[1] == 'message' else None)))
            self.emitter.emit(step[1], text)
        elif kind == 'getters':
            names = step[1] or NAMES + MANY
            for title, getter, wanted in (
                ('in-place', config.get_in_place_fields, self.fields['place']),
                ('engine', config.get_engine_fields, self.fields['engine']),
                ('all', config.get_all_fields, {**self.fields['place'], **self.fields['engine']}),
            ):
                real = getter(*step[1])
                real.pop('late', None)
                check({k: id(v) for k, v in real.items()} == {k: id(v) for k, v in wanted.items() if k in names}, f'{title} fields by {step[1]}', real)
                real['spoiled'] = 1
        if not self.workers:
            self.verify()
        # The logging call has returned: a later change of the state must not be seen by its in-place fields.
        self.state += 1

    def decorate(self, step):
        extra, extra_model = self.local(step[1])
        engine, engine_model = self.local(step[2])
        kwargs = {}
        if extra is not None:
            kwargs['extra_fields'] = extra
        if engine is not None:
            kwargs['extra_engine_fields'] = engine
        polog = self.polog

        def body(text, given, fail=False):
            polog.message(text, **given)
            if fail:
                raise MarkedError('body')

        def decorate():
            decorator = polog.log(**kwargs)
            if step[3] == 'function':
                @decorator
                def function(text, given):
                    body(text, given)
                return function
            if step[3] == 'failing':
                @decorator
                def failing(text, given):
                    body(text, given, True)
                return failing
            if step[3] in ('async', 'failing async'):
                @decorator
                async def coroutine(text, given):
                    body(text, given, step[3] != 'async')
                return lambda text, given: kit.drive(coroutine(text, given))

            @decorator
            class Owner:
                @staticmethod
                def method(text, given):
                    body(text, given, step[3] != 'class')
            return Owner.method
        if extra_model is None or engine_model is None:
            try:
                decorate()
            except ValueError:
                return
            check(False, 'a name used twice must be refused', step)
        self.decorated.append((decorate(), extra_model, engine_model))

    def call(self, data, text, given):
        function, extra_model, engine_model = data
        self.model(text, given, extra_model(self.fields['place']), engine_model(self.fields['engine']), (text, given))
        try:
            function(text, given)
        except MarkedError as e:
            check_eq(str(e), 'body', 'exception out of a decorated function')


def run(case):
    polog = fresh.load()
    world = World(case, polog)
    polog.config.add_handlers(*world.sinks)
    polog.config.set(smart_assert_politic='all')
    if case['workers']:
        polog.config.set(time_quant=0.0005, pool_size=case['workers'])
    world.emitter = events.Emitter(polog)
    unraisable = []
    hook = sys.unraisablehook
    sys.unraisablehook = unraisable.append
    try:
        for step in case['history']:
            world.do(step)
        world.wait()
        check(not unraisable, 'an exception in a finalizer', [str(x.exc_value) for x in unraisable])
    finally:
        sys.unraisablehook = hook
        if case['workers']:
            kit.drain(polog)
    return Result(world.interesting, [f"{case['workers']} workers"])


FACETS = [Facet('histories', strategy, run, quick=7000)]
