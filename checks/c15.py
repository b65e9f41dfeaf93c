"""C15: settings as a state machine."""
import builtins
import json
import logging
import sys
import threading
import time
import types

from hypothesis import strategies as st

from vlib import fresh, kit, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C15'
TECHNIQUE = 'model-based testing: generated sequences of valid and invalid config.set() calls against a reference state machine, each state probed by behaviour'
RULE = ('A case is a sequence of up to 12 config.set() calls (valid values, invalid values of every kind, conflicting combinations, several settings in one call), level registrations and probes, '
        'before and after the first log. After each call every setting is read back; a probe logs through all entry points and compares what happens (records, fields, exceptions, threads, queue limit, '
        'built-in name, standard logging) with what the model says the current values mean. Non-trivial: at least one refused assignment and one accepted change, with a probe after them.')
ASSUMPTIONS = ['several settings in one call are assigned one after another, in their order', 'behaviour of traceback_cutting, engine and the exit delays is not probed here (C04 probes the latter)']

NAMES = {'low': 0, 'middle': 5, 'high': 12}
BOOLS = ['silent_internal_exceptions', 'debug_mode', 'fields_intersection', 'unknown_fields_in_handle_logs', 'deduplicate_errors', 'log_is_built_in', 'full_unlog',
         'suppress_by_default', 'suppress_exception_subclasses', 'integration_with_logging', 'logging_off', 'traceback_cutting']
DEFAULTS = {
    'pool_size': 0, 'max_queue_size': 0, 'level': 0, 'default_level': 1, 'default_error_level': 2, 'service_name': None, 'silent_internal_exceptions': False,
    'max_delay_before_exit': 1.0, 'delay_on_exit_loop_iteration_in_quants': 10, 'time_quant': 0.01, 'json_module': json, 'debug_mode': __debug__,
    'fields_intersection': False, 'unknown_fields_in_handle_logs': True, 'deduplicate_errors': True, 'log_is_built_in': False, 'full_unlog': True,
    'suppress_by_default': False, 'suppress_exception_subclasses': True, 'integration_with_logging': True, 'logging_off': True, 'traceback_cutting': True,
}


def v(strategy):
    return strategy.map(lambda x: ['v', x])


VALID = {
    'pool_size': v(st.sampled_from([0, 0, 1, 2, 3])),
    'max_queue_size': v(st.sampled_from([0, 0, 1, 3])),
    'level': v(st.one_of(st.integers(0, 9), st.sampled_from(list(NAMES)))),
    'default_level': v(st.one_of(st.integers(0, 9), st.sampled_from(list(NAMES)))),
    'default_error_level': v(st.one_of(st.integers(0, 9), st.sampled_from(list(NAMES)))),
    'service_name': v(st.sampled_from([None, 'service', 'имя', '_x1'])),
    'max_delay_before_exit': v(st.sampled_from([0, 0.0, 1, 2.5])),
    'delay_on_exit_loop_iteration_in_quants': v(st.sampled_from([1, 7])),
    'time_quant': v(st.sampled_from([0.0005, 0.001])),
    'json_module': st.sampled_from([['m', 'custom'], ['m', 'json']]),
    'smart_assert_politic': v(st.sampled_from(['all', 'if_debug'])),
    **{x: v(st.booleans()) for x in BOOLS},
}
strange = values.value_specs()
INVALID = {
    'pool_size': v(st.sampled_from([-1, -100, 1.0, '1', None, [1], 2.5])),
    'max_queue_size': v(st.sampled_from([-1, -100, 1.0, '1', None, [1]])),
    'level': v(st.sampled_from([-1, 'unknown', '', '5', None, 1.0, [1]])),
    'default_level': v(st.sampled_from([-1, 'unknown', '', '5', None, 1.0, [1]])),
    'default_error_level': v(st.sampled_from([-1, 'unknown', '', '5', None, 1.0, [1]])),
    'service_name': v(st.sampled_from(['', '1', 'a b', 'a-b', 5, b'a', ['a'], 'a.b', True])),
    'max_delay_before_exit': v(st.sampled_from([-1, -0.001, float('nan'), '1', None, [1]])),
    'delay_on_exit_loop_iteration_in_quants': v(st.sampled_from([0, -1, 1.5, '1', None])),
    'time_quant': v(st.sampled_from([0, 0.0, -1, -0.001, float('nan'), '1', None])),
    'json_module': st.one_of(st.sampled_from([['m', x] for x in ('empty', 'half', 'other_half', 'not_callable', 'class')]), v(st.sampled_from([None, 'json', 5]))),
    'smart_assert_politic': v(st.sampled_from(['', 'ALL', 'none', None, True, 5, ['all']])),
    'engine': v(st.sampled_from([None, 5, 'text'])),
    'started': v(st.sampled_from([False, None, 5, 'yes', 0])),
    'unknown_setting': v(st.sampled_from([True, 1, None])),
    '': v(st.just(1)),
    **{x: v(st.sampled_from([None, 0, 1, 'True', '', 2, [], 1.0])) for x in BOOLS},
}
valid_item = st.sampled_from(sorted(VALID)).flatmap(lambda x: VALID[x].map(lambda y: [x, y]))
invalid_item = st.sampled_from(sorted(INVALID)).flatmap(lambda x: INVALID[x].map(lambda y: [x, y]))
conflict_item = st.sampled_from([['pool_size', ['v', 0]], ['max_queue_size', ['v', 2]], ['pool_size', ['v', 2]], ['max_queue_size', ['v', 0]],
                                 ['integration_with_logging', ['v', False]], ['logging_off', ['v', True]], ['logging_off', ['v', False]], ['integration_with_logging', ['v', True]]])
item = kit.weighted((5, valid_item), (3, invalid_item), (2, conflict_item), (1, st.sampled_from(sorted(BOOLS + ['pool_size', 'time_quant', 'service_name'])).flatmap(lambda x: strange.map(lambda y: [x, ['s', y]]))))
operation = kit.weighted(
    (8, item.map(lambda x: ['set', [x]])),
    (2, st.lists(item, min_size=2, max_size=3, unique_by=lambda x: x[0]).map(lambda x: ['set', x])),
    (4, st.just(['probe'])),
    (1, st.tuples(st.sampled_from(list(NAMES)), st.integers(0, 12)).map(lambda x: ['levels', *x])),
)


def strategy():
    return st.fixed_dictionaries({'history': st.lists(operation, min_size=3, max_size=12)})


def module(name):
    if name == 'json':
        return json
    result = types.ModuleType(name)
    if name == 'class':
        return type('NotModule', (), {'loads': json.loads, 'dumps': json.dumps})
    if name in ('custom', 'other_half'):
        result.loads = json.loads
    if name in ('custom', 'half'):
        result.dumps = lambda data: 'custom ' + json.dumps(data)
    if name == 'not_callable':
        result.loads = json.loads
        result.dumps = 'text'
    return result


def build(spec):
    if spec[0] == 'v':
        return spec[1]
    if spec[0] == 's':
        return values.build(spec[1])
    return module(spec[1])


class Refused(Exception):
    pass


class World:
    def __init__(self, polog):
        self.polog = polog
        self.store = fresh.module('polog.core.stores.settings.settings_store').SettingsStore()
        self.model = dict(DEFAULTS)
        self.politic = 'if_debug'
        self.names = dict(NAMES)
        self.sink = kit.Sink()
        self.threads = []
        self.refused = self.accepted = self.probed = 0
        polog.config.levels(**NAMES)
        self.logging_records = []
        self.gate = None
        self.inside = 0

        def handler(log):
            self.threads.append(threading.current_thread())
            gate = self.gate
            if gate is not None:
                gate(log)
            self.sink(log)
        polog.config.add_handlers(handler)
        polog.config.add_fields(registered=polog.field(lambda log: 'extracted'))

    # The model of one assignment.

    def convert(self, key, value):
        if key in BOOLS:
            if type(value) is not bool:
                raise Refused()
            return value
        if key in ('pool_size', 'max_queue_size', 'delay_on_exit_loop_iteration_in_quants'):
            if not isinstance(value, int) or value < (key == 'delay_on_exit_loop_iteration_in_quants'):
                raise Refused()
            return value
        if key in ('max_delay_before_exit', 'time_quant'):
            if not isinstance(value, (int, float)) or not (value > 0 if key == 'time_quant' else value >= 0):
                raise Refused()
            return value
        if key in ('level', 'default_level', 'default_error_level'):
            if isinstance(value, str) and value in self.names:
                return self.names[value]
            if type(value) is not int or value < 0:
                raise Refused()
            return value
        if key == 'service_name':
            if value is not None and (not isinstance(value, str) or not value.isidentifier()):
                raise Refused()
            return value
        if key == 'json_module':
            if not isinstance(value, types.ModuleType) or not callable(getattr(value, 'loads', None)) or not callable(getattr(value, 'dumps', None)):
                raise Refused()
            return value
        if key == 'smart_assert_politic':
            if type(value) is not str or value not in ('all', 'if_debug'):
                raise Refused()
            return value
        raise Refused()

    def assign(self, key, value):
        value = self.convert(key, value)
        if key == 'pool_size' and value == 0 and self.model['max_queue_size'] != 0:
            raise Refused()
        if key == 'max_queue_size' and value != 0 and self.model['pool_size'] == 0:
            raise Refused()
        if key == 'integration_with_logging' and not value and self.model['logging_off']:
            raise Refused()
        if key == 'logging_off' and value and not self.model['integration_with_logging']:
            raise Refused()
        if key == 'smart_assert_politic':
            self.politic = value
        else:
            self.model[key] = value

    def usable(self, key, value):
        """Valid values that would only make the check slow or impossible: huge pools, endless quants."""
        if key in ('pool_size', 'max_queue_size'):
            return not (isinstance(value, int) and value > 5)
        if key == 'time_quant':
            return not (isinstance(value, (int, float)) and value > 0.002)
        return True

    def set(self, items):
        kwargs = {k: build(x) for k, x in items}
        kwargs = {k: x for k, x in kwargs.items() if self.usable(k, x)}
        refused = None
        before = dict(self.model)
        politic = self.politic
        for k, x in kwargs.items():
            try:
                self.assign(k, x)
            except Refused:
                refused = k
                break
        try:
            self.polog.config.set(**kwargs)
        except Exception as e:
            check(refused is not None, f'config.set() refused valid values {items}', e)
            self.refused += 1
        else:
            check(refused is None, f'config.set() accepted a wrong value of {refused}', items)
        if before != self.model or politic != self.politic:
            self.accepted += 1
        for k, wanted in self.model.items():
            real = self.store[k]
            check(type(real) is type(wanted) and (real is wanted or real == wanted), f'{k} after config.set({items})', real, wanted)

    # Probes.

    def event(self, function):
        """Returns (records, the exception)."""
        raised = None
        unraisable = []
        hook = sys.unraisablehook
        sys.unraisablehook = unraisable.append
        try:
            function()
        except Exception as e:
            raised = e
        finally:
            sys.unraisablehook = hook
        if unraisable:
            raised = unraisable[0].exc_value
        return raised

    def records(self, number):
        patience = kit.Patience()
        while self.model['pool_size'] and len(self.sink.records) < number:
            check(patience, 'a record did not come')
            time.sleep(0.0002)
        return self.sink.take()

    def probe(self):
        self.probed += 1
        polog, model = self.polog, self.model
        log = polog.log
        expected = []

        def expect(text, level, fields=None, missing=()):
            if level >= model['level']:
                expected.append((text, level, fields or {}, missing))

        log('success')
        expect('success', model['default_level'])
        log('failure', success=False)
        expect('failure', model['default_error_level'])

        raised = self.event(lambda: polog.handle_log('bad level', level='no such level'))
        check((raised is not None) == (not model['silent_internal_exceptions']), 'exception by silent_internal_exceptions', raised)
        if model['silent_internal_exceptions']:
            expect('bad level', model['default_level'])

        raised = self.event(lambda: polog.handle_log('unknown field', level=100, strange=1))
        check((raised is not None) == (not model['silent_internal_exceptions'] and not model['unknown_fields_in_handle_logs']), 'exception by unknown_fields_in_handle_logs', raised)
        if raised is None:
            if model['unknown_fields_in_handle_logs']:
                expect('unknown field', 100, {'strange': 1})
            else:
                expect('unknown field', 100, {}, ('strange',))

        @log(errors_level=100)
        def inner():
            raise ValueError('deduplication')

        @log(errors_level=100)
        def outer():
            inner()
        raised = self.event(outer)
        check(type(raised) is ValueError, 'exception of a decorated function', raised)
        for x in range(1 if model['deduplicate_errors'] else 2):
            expect(None, 100, {'exception_message': 'deduplication'})

        def block():
            with log('block', level=100):
                raise ValueError('block')
        raised = self.event(block)
        check((raised is None) == model['suppress_by_default'], 'suppression by suppress_by_default', raised)
        expect('block', 100, {'success': False})

        def subclass():
            with log('subclass', level=100).suppress(LookupError):
                raise KeyError('block')
        raised = self.event(subclass)
        check((raised is None) == model['suppress_exception_subclasses'], 'suppression by suppress_exception_subclasses', raised)
        expect('subclass', 100, {'success': False})

        @polog.unlog
        def unlogged():
            log('unlogged', level=100)
        unlogged()
        if not model['full_unlog']:
            expect('unlogged', 100)

        del self.logging_records[:]
        raised = self.event(lambda: logging.root.log(100, 'from logging'))
        check(raised is None, 'logging must not raise', raised)
        if model['integration_with_logging']:
            expect('from logging', 100, {'from_logging': True})
        try:
            raise KeyError('for logging')
        except KeyError:
            raised = self.event(lambda: logging.root.log(100, 'exception from logging', exc_info=True))
        check(raised is None, 'logging must not raise', raised)
        if model['integration_with_logging']:
            expect('exception from logging', 100, {'from_logging': True, 'exception_type': 'KeyError'})
        check_eq(len(self.logging_records), 0 if model['logging_off'] else 2, 'records seen by a handler of logging')

        def described():
            try:
                raise KeyError('described')
            except KeyError as e:
                log('described', level=100, e=e)
        check(self.event(described) is None, 'a manual log must not raise')
        expect('described', 100, {'exception_type': 'KeyError'})

        raised = self.event(lambda: polog.ass(False, 'assertion'))
        check((raised is not None) == model['debug_mode'], 'assertion by debug_mode', raised)
        if self.politic == 'all' or not model['debug_mode']:
            expect('assertion', model['default_error_level'])

        if model['log_is_built_in']:
            check(getattr(builtins, 'log', None) is log, 'log must be built-in')
        else:
            check(not hasattr(builtins, 'log'), 'log must not be built-in')

        @log(level=100, message='serialization')
        def serialized(argument):
            pass
        serialized(1)
        expect('serialization', 100)

        log('intersection', level=100, registered='given')
        expect('intersection', 100, {'registered': 'extracted' if model['fields_intersection'] else 'given'})

        raised = self.event(lambda: polog.config.set(started=True))
        check(raised is not None, 'the mark of the start is set twice')

        del self.threads[:]
        before = len(expected)
        log('thread', level=100)
        expect('thread', 100)
        records = self.records(len(expected))
        check_eq(sorted(str(x.get('message')) for x in records), sorted(str(x[0]) for x in expected), f'records under {self.different()}')
        for text, level, fields, missing in expected:
            for record in [x for x in records if x.get('message') == text]:
                check_eq(record['level'], level, f'{text}: level under {self.different()}')
                check_eq(record.get('service_name'), model['service_name'], f'{text}: service name')
                for k, x in fields.items():
                    check_eq(record.get(k), x, f'{text}: {k}')
                for k in missing:
                    check(k not in record, f'{text}: {k}')
                if text == 'serialization':
                    check('input_variables' in record, f'{text}: arguments')
                for name in ('input_variables', 'result', 'traceback', 'local_variables'):
                    if record.get(name):
                        check_eq(record[name].startswith('custom '), model['json_module'] is not json, f'{text}: {name} is made by the json module in settings')
        main = threading.current_thread()
        if model['pool_size']:
            check(main not in self.threads, 'handlers must run in workers')
        else:
            check(all(x is main for x in self.threads), 'handlers must run in the logging thread')

    def probe_engine(self):
        """As many handlers at once as workers, as many waiting records as the limit."""
        pool, limit = int(self.model['pool_size']), int(self.model['max_queue_size'])
        release = threading.Event()
        lock = threading.Lock()
        state = {'inside': 0, 'done': 0}

        def gate(log):
            with lock:
                state['inside'] += 1
            release.wait(30)
        self.gate = gate
        many = pool + (limit or 4) + 3

        def target():
            for x in range(many):
                self.polog.log('engine', level=100)
                state['done'] += 1
        thread = threading.Thread(target=target, daemon=True)
        thread.start()
        wanted = min(many, pool + limit) if limit else many
        patience = kit.Patience()
        try:
            while state['done'] < wanted or state['inside'] < pool:
                check(patience, f'{pool} workers, limit {limit}: {wanted} logs must be accepted and {pool} of them handled at once', state)
                time.sleep(0.0002)
            time.sleep(0.003)
            check(state['inside'] == pool and state['done'] == wanted, f'{pool} workers, limit {limit}: too many logs are accepted or handled at once', state)
        finally:
            release.set()
            self.gate = None
        thread.join(20)
        check(not thread.is_alive(), 'logging is blocked')
        check_eq(len(self.records(many)), many, 'records')

    def different(self):
        return {k: x for k, x in self.model.items() if DEFAULTS[k] != x}


def run(case):
    polog = fresh.load()
    world = World(polog)
    world.store
    handler = logging.Handler()
    handler.emit = world.logging_records.append
    logging.root.addHandler(handler)
    try:
        # A big quant would only make stopping of workers slow.
        polog.config.set(time_quant=0.0005)
        world.model['time_quant'] = 0.0005
        for step in case['history']:
            if step[0] == 'set':
                world.set(step[1])
            elif step[0] == 'levels':
                polog.config.levels(**{step[1]: step[2]})
                world.names[step[1]] = step[2]
            else:
                world.probe()
        world.probe()
        if world.model['pool_size']:
            world.probe_engine()
    finally:
        logging.root.removeHandler(handler)
        if hasattr(builtins, 'log'):
            del builtins.log
        if world.store['pool_size']:
            kit.drain(polog)
    return Result(world.refused and world.accepted, [f"pool {int(world.model['pool_size'])}", f'{world.refused} refused'])


FACETS = [Facet('histories', strategy, run, quick=7000)]
