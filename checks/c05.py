"""C05: the level of an event and the filter, through every entry point."""
import logging

from hypothesis import strategies as st

from vlib import fresh, kit
from vlib.core import Facet, Result, check, check_eq

ID = 'C05'
TECHNIQUE = 'property-based testing: generated histories of settings, level registrations and events against a reference model of level resolution'
RULE = ('A case is a history: registrations of level names (also of the standard ones, all at once), changes of level / default_level / default_error_level (numbers and names; also from '
        'inside of a running decorated call), decorations of functions, coroutines and classes with all sources of the level, their calls, manual '
        'logs, with blocks, asserts and records of logging. For each event the model says whether it is recorded and with which level. '
        'Non-trivial: at least one event is recorded and one is filtered out.')

NAMES = ['alpha', 'beta', 'gamma', 'delta']
# What config.standard_levels() promises: the scheme of logging, in both cases.
STANDARD = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
STANDARD.update({key.lower(): value for key, value in list(STANDARD.items())})
number = st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([10, 30, 50, 10 ** 6]))
name = kit.weighted((4, st.sampled_from(NAMES)), (1, st.sampled_from(list(STANDARD))))
level = st.one_of(number, name)
maybe_level = st.one_of(st.none(), level)
maybe_name = st.one_of(st.none(), name)
setting = st.one_of(
    st.tuples(st.just('set'), st.sampled_from(['level', 'level', 'default_level', 'default_error_level']), level).map(list),
    st.tuples(st.just('levels'), name, number).map(list),
)

operation = st.one_of(
    setting,
    st.tuples(st.just('decorate'), st.sampled_from(['function', 'async', 'class', 'static']), maybe_name, maybe_level, maybe_level, st.booleans()).map(list),
    st.tuples(st.just('call'), st.integers(0, 5), st.booleans(), st.one_of(st.none(), setting)).map(list),
    st.tuples(st.just('call'), st.integers(0, 5), st.booleans(), st.none()).map(list),
    st.tuples(st.just('manual'), st.sampled_from(['log', 'handle']), maybe_name, maybe_level, st.sampled_from([None, True, False]), st.sampled_from([None, 'text', 'object'])).map(list),
    st.tuples(st.just('keep'), st.sampled_from(['log', 'handle']), name).map(list),
    st.tuples(st.just('kept'), st.integers(0, 3), st.sampled_from([None, 'object'])).map(list),
    st.tuples(st.just('with'), st.sampled_from(['bare', 'call', 'edit', 'suppress']), maybe_name, maybe_level, st.booleans(), st.one_of(st.none(), setting)).map(list),
    st.just(['standard']),
    st.tuples(st.just('assert'), st.booleans()).map(list),
    st.tuples(st.just('logging'), number.map(lambda x: x or 1)).map(list),
)


def strategy():
    return st.fixed_dictionaries({
        'initial': st.lists(number, min_size=4, max_size=4),
        'threshold': st.integers(0, 4),
        'ops': st.lists(operation, min_size=6, max_size=20),
    })


class Model:
    def __init__(self):
        self.names = {}
        self.settings = {'level': 0, 'default_level': 1, 'default_error_level': 2}

    def number(self, value):
        return self.names[value] if isinstance(value, str) else value

    def decorated(self, dot, explicit, errors, fails):
        own = explicit if explicit is not None else dot
        if not fails:
            return self.number(own) if own is not None else self.settings['default_level']
        if errors is not None:
            return self.number(errors)
        candidates = [self.settings['default_level'], self.settings['default_error_level']]
        if own is not None:
            candidates.append(self.number(own))
        return max(candidates)

    def other(self, dot, explicit, failure):
        own = explicit if explicit is not None else dot
        if own is not None:
            return self.number(own)
        return self.settings['default_error_level' if failure else 'default_level']


class Player:
    def __init__(self, polog):
        self.polog = polog
        self.model = Model()
        self.sink = kit.Sink()
        self.decorated = []
        self.kept = []
        self.passed = 0
        self.filtered = 0
        polog.config.add_handlers(self.sink)
        polog.config.set(smart_assert_politic='all', integration_with_logging=True)

    def expect(self, expected, what):
        records = self.sink.take()
        if expected >= self.model.settings['level']:
            self.passed += 1
            check(len(records) == 1, f'{what}: level {expected} with the threshold {self.model.settings["level"]} must give one record', records)
            check(type(records[0]['level']) is int and records[0]['level'] == expected, f'{what}: the level of the record', records[0].get('level'), expected)
        else:
            self.filtered += 1
            check(not records, f'{what}: level {expected} with the threshold {self.model.settings["level"]} must give no record', records)

    def source(self, dot):
        return self.polog.log if dot is None else getattr(self.polog.log, dot)

    def setting(self, op):
        if op[0] == 'set':
            self.polog.config.set(**{op[1]: op[2]})
            self.model.settings[op[1]] = self.model.number(op[2])
        else:
            self.polog.config.levels(**{op[1]: op[2]})
            self.model.names[op[1]] = op[2]

    def play(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])

    def do_set(self, *args):
        self.setting(('set',) + args)

    def do_levels(self, *args):
        self.setting(('levels',) + args)

    def do_standard(self):
        self.polog.config.standard_levels()
        self.model.names.update(STANDARD)

    def do_decorate(self, kind, dot, explicit, errors, bare):
        kwargs = {}
        if explicit is not None:
            kwargs['level'] = explicit
        if errors is not None:
            kwargs['errors_level'] = errors
        source = self.source(dot)
        decorator = source if bare and not kwargs else source(**kwargs)

        def body(fails, action):
            if action is not None:
                self.setting(action)
            if fails:
                raise ValueError('expected')

        if kind == 'function':
            @decorator
            def function(fails, action):
                body(fails, action)
        elif kind == 'async':
            @decorator
            async def coroutine(fails, action):
                body(fails, action)

            def function(fails, action):
                kit.run_async(coroutine(fails, action))
        elif kind == 'class':
            @decorator
            class Class:
                def method(self, fails, action):
                    body(fails, action)
            function = Class().method
        else:
            @decorator
            class Class:
                @staticmethod
                def method(fails, action):
                    body(fails, action)
            function = Class.method
        check(not self.sink.take(), 'decorating writes nothing')
        self.decorated.append((function, dot, explicit, errors))

    def do_call(self, index, fails, action):
        if not self.decorated:
            return
        function, dot, explicit, errors = self.decorated[index % len(self.decorated)]
        try:
            function(fails, action)
        except ValueError:
            check(fails, 'an exception out of nowhere')
        self.expect(self.model.decorated(dot, explicit, errors, fails), f'decorated call (dot {dot}, level {explicit}, errors_level {errors}, fails {fails})')

    def do_manual(self, spelling, dot, explicit, success, exception):
        kwargs = {}
        if explicit is not None:
            kwargs['level'] = explicit
        if success is not None:
            kwargs['success'] = success
        if exception is not None:
            kwargs['exception'] = ValueError('text') if exception == 'object' else 'ValueError'
        if spelling == 'log':
            self.source(dot)('text', **kwargs)
        else:
            (self.polog.handle_log if dot is None else getattr(self.polog.handle_log, dot))('text', **kwargs)
        self.expect(self.model.other(dot, explicit, exception is not None or success is False), f'manual log {spelling} (dot {dot}, {kwargs})')

    def do_keep(self, spelling, dot):
        """A level method is kept under a name, to be used after the level has changed."""
        self.kept.append((getattr(self.polog.log if spelling == 'log' else self.polog.handle_log, dot), dot))

    def do_kept(self, index, exception):
        if not self.kept:
            return
        kept, dot = self.kept[index % len(self.kept)]
        kept('text', **({} if exception is None else {'exception': ValueError('text')}))
        self.expect(self.model.other(dot, None, exception is not None), f'manual log through the kept method of the level {dot}')

    def do_with(self, spelling, dot, explicit, fails, action):
        source = self.source(dot)
        kwargs = {} if explicit is None else {'level': explicit}
        if spelling == 'bare':
            explicit = None
            manager = source
        elif spelling == 'call':
            manager = source('text', **kwargs)
        elif spelling == 'edit':
            manager = source
        else:
            manager = source('text', **kwargs).suppress()
        del source
        try:
            with manager as block:
                if spelling == 'edit':
                    block('text', **kwargs)
                if action is not None:
                    self.setting(action)
                check(not self.sink.take(), 'nothing is written before the end of the block')
                if fails:
                    raise ValueError('expected')
        except ValueError:
            check(fails, 'an exception out of nowhere')
        self.expect(self.model.other(dot, explicit, fails), f'with block {spelling} (dot {dot}, level {explicit}, fails {fails})')

    def do_assert(self, value):
        try:
            self.polog.ass(value, 'text')
        except AssertionError:
            pass
        if not value:
            self.expect(self.model.other(None, None, True), 'smart assert')

    def do_logging(self, value):
        logging.root.setLevel(0)
        logging.root.log(value, 'text')
        self.expect(value, 'record of logging')


def run(case):
    polog = fresh.load()
    player = Player(polog)
    for name_, value in zip(NAMES, case['initial']):
        player.setting(['levels', name_, value])
    player.play(['standard'])
    player.setting(['set', 'level', case['threshold']])
    for op in case['ops']:
        player.play(op)
    return Result(player.passed and player.filtered, sorted({x[0] for x in case['ops']}))


FACETS = [Facet('history', strategy, run, quick=10000)]
