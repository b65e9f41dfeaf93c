"""C25: logging keeps nothing alive, weak registries never lie."""
import gc
import time
import weakref

from hypothesis import strategies as st

from vlib import fresh, kit, sched
from vlib.core import Facet, Result, Violation, check, check_eq

ID = 'C25'
TECHNIQUE = 'model-based testing: generated histories of dictionary operations and object deaths against a list of weak pairs; generated programs of decorations, calls and records, after which every object has to die'
RULE = ('Facet "dictionary": operations on the weak dictionary over a few slots of identity-compared and equal-but-distinct keys, whose objects die at any moment (also in the middle of an iteration, also by the cycle collector). '
        'Non-trivial: something stored in the dictionary died. Facet "shared": threads of operations on one dictionary under generated schedules, with an order of the operations searched that explains all the answers (or, when objects die meanwhile, with weaker invariants); non-trivial: something was written and a thread was preempted. Facet "leaks": programs that decorate, unlog, call and log with tracked objects. Non-trivial: at least 3 tracked objects and one record.')
ASSUMPTIONS = ['the handlers do not store records', 'CPython: objects without cycles die with their last reference; cycles die in gc.collect()', 'nobody writes to the dictionary in the middle of an iteration (objects do die)']

SLOTS = 4
slot = st.integers(0, SLOTS - 1)
operation = kit.weighted(
    (6, st.tuples(st.just('set'), slot, slot)),
    (2, st.tuples(st.just('set_self'), slot)),
    (2, st.tuples(st.just('delete'), slot)),
    (2, st.tuples(st.sampled_from(['pop', 'pop_default']), slot)),
    (4, st.tuples(st.sampled_from(['kill_key', 'kill_value']), slot)),
    (2, st.tuples(st.just('new_key'), slot, st.integers(0, 2), st.booleans())),
    (2, st.tuples(st.just('new_value'), slot, st.booleans())),
    (3, st.tuples(st.just('iterate'), st.sampled_from(['keys', 'values', 'items', 'iter', 'str']), st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['key', 'value']), slot), max_size=4))),
    (1, st.tuples(st.just('collect'))),
    (1, st.tuples(st.just('none'), slot)),
    (1, st.tuples(st.just('crowd'), st.integers(1, 150), st.integers(0, 6))),
)


def dictionary_strategy():
    return st.fixed_dictionaries({
        'keys': st.lists(st.tuples(kit.weighted((2, st.none()), (2, st.integers(0, 2))), kit.weighted((4, st.just(False)), (1, st.just(True)))), min_size=SLOTS, max_size=SLOTS),
        'values': st.lists(kit.weighted((4, st.just(False)), (1, st.just(True))), min_size=SLOTS, max_size=SLOTS),
        'start': st.lists(st.tuples(st.just('set'), slot, slot), max_size=4), 'history': st.lists(operation, min_size=3, max_size=30),
    })


def prepare():
    """Take everything that is loaded already out of the way of the cycle collector: it gets much faster."""
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()


class Thing:
    """A value, or a key compared by identity."""
    def __init__(self, cyclic=False):
        if cyclic:
            self.me = self


class Equal(Thing):
    """A key equal to the other keys with the same number."""
    def __init__(self, number, cyclic=False):
        super().__init__(cyclic)
        self.number = number

    def __eq__(self, other):
        return isinstance(other, Equal) and other.number == self.number

    def __hash__(self):
        return hash(self.number)


def make_key(number, cyclic):
    return Thing(cyclic) if number is None else Equal(number, cyclic)


class Pairs:
    """The model: pairs of weak references."""
    def __init__(self):
        self.pairs = []

    def alive(self):
        """The pairs that are alive right now (strong references: use the result and drop it)."""
        result = []
        for pair in self.pairs:
            key, value = pair[0](), pair[1]()
            if key is not None and value is not None:
                result.append((key, value, pair))
        return result

    def prune(self):
        self.pairs = [pair for pair in self.pairs if pair[0]() is not None and pair[1]() is not None]

    def find(self, key):
        for stored, value, pair in self.alive():
            if stored is key or stored == key:
                return pair
        return None

    def set(self, key, value):
        pair = self.find(key)
        if pair is not None:
            pair[1] = weakref.ref(value)
        else:
            self.pairs.append([weakref.ref(key), weakref.ref(value)])

    def delete(self, key):
        pair = self.find(key)
        self.pairs.remove(pair)

    def get(self, key):
        pair = self.find(key)
        return None if pair is None else pair[1]()


def compare(real, model, keys, where):
    """All the ways to read the dictionary agree with the model."""
    model.prune()
    check_eq(len(real), len(model.pairs), f'{where}: the number of pairs')
    for index, key in enumerate(keys):
        if key is None:
            continue
        expected = model.get(key)
        check(real.get(key) is expected, f'{where}: get() of the key in slot {index}', f'expected {expected}')
        check_eq(key in real, expected is not None, f'{where}: is the key in slot {index} in the dictionary')
        try:
            got = real[key]
        except KeyError:
            got = None
        check(got is expected, f'{where}: [] of the key in slot {index}')
    alive = model.alive()
    expected_keys = sorted(id(x[0]) for x in alive)
    expected_values = sorted(id(x[1]) for x in alive)
    check_eq(sorted(id(x) for x in real.keys()), expected_keys, f'{where}: keys()')
    check_eq(sorted(id(x) for x in real), expected_keys, f'{where}: iteration')
    check_eq(sorted(id(x) for x in real.values()), expected_values, f'{where}: values()')
    check_eq(sorted((id(x), id(y)) for x, y in real.items()), sorted((id(x[0]), id(x[1])) for x in alive), f'{where}: items()')
    check_eq('(empty)' in str(real), not alive, f'{where}: the text form says that the dictionary is empty')
    check_eq(bool(real), bool(alive), f'{where}: the truth of the dictionary')


def iterate(real, model, keys, vals, way, deaths, where):
    """Iterate, while objects die between the steps."""
    model.prune()
    start = list(model.pairs)
    if way == 'str':
        str(real)
        return
    iterator = iter({'keys': real.keys, 'values': real.values, 'items': real.items, 'iter': real.__iter__}[way]())
    got = []
    given = {}
    step = 0
    while True:
        for moment, what, index in deaths:
            if moment == step:
                (keys if what == 'key' else vals)[index] = None
        try:
            one = next(iterator)
        except StopIteration:
            break
        except Exception as e:
            # What the dictionary gives to iterate over may be an iterator of the standard library.
            check(False, f'{where}: the iteration raised', repr(e))
        if way == 'items':
            check(isinstance(one, tuple) and len(one) == 2, f'{where}: an item is not a pair')
            mine = [pair for pair in start if pair[0]() is one[0] and pair[1]() is one[1]]
        elif way == 'values':
            mine = [pair for pair in start if pair[1]() is one and pair[0]() is not None]
            given[id(one)] = given.get(id(one), 0) + 1
            check(given[id(one)] <= len([pair for pair in start if pair[1]() is one]), f'{where}: the iteration gave one value too many times')
        else:
            mine = [pair for pair in start if pair[0]() is one and pair[1]() is not None]
        check(mine, f'{where}: the iteration gave what is not alive in the dictionary')
        check(way == 'values' or not any(mine[0] is x for x in got), f'{where}: the iteration gave one pair twice')
        got.append(mine[0])
        one = None
        mine = None
        step += 1
        check(step <= len(start), f'{where}: the iteration gave too much')
    iterator = None
    if way == 'values':
        alive = [id(pair[1]()) for pair in start if pair[0]() is not None and pair[1]() is not None]
        for one in set(alive):
            check(given.get(one, 0) >= alive.count(one), f'{where}: the value of a pair that stayed alive was skipped')
    else:
        for pair in start:
            check(pair[0]() is None or pair[1]() is None or any(pair is x for x in got), f'{where}: a pair that stayed alive was skipped')


# The class has no state of its own, one copy is enough.
LOADED = []


def run_dictionary(case):
    if not LOADED:
        fresh.load()
        LOADED.append(fresh.module('polog.data_structures.wrappers.weak_linked.dictionary').LockedWeakKeyValueDictionary)
        prepare()
    real, model = LOADED[0](), Pairs()
    keys = [make_key(*x) for x in case['keys']]
    vals = [Thing(x) for x in case['values']]
    crowd = []
    dead = 0
    labels = []
    for number, step in enumerate([*case['start'], *case['history']]):
        where = f'step {number}, {step}'
        kind = step[0]
        if kind in ('set', 'set_self'):
            key = keys[step[1]]
            value = vals[step[2]] if kind == 'set' else key
            if key is not None and value is not None:
                real[key] = value
                model.set(key, value)
            key = value = None
        elif kind == 'none':
            key = keys[step[1]]
            if key is not None:
                try:
                    real[key] = None
                except TypeError:
                    pass
                else:
                    check(False, f'{where}: None was stored')
            key = None
        elif kind == 'delete':
            key = keys[step[1]]
            if key is not None:
                expected = model.find(key) is not None
                try:
                    del real[key]
                    got = True
                except KeyError:
                    got = False
                check_eq(got, expected, f'{where}: is there anything to delete')
                if expected:
                    model.delete(key)
            key = None
        elif kind in ('pop', 'pop_default'):
            key = keys[step[1]]
            if key is not None:
                expected = model.get(key)
                default = Thing()
                try:
                    got = real.pop(key, *([default] if kind == 'pop_default' else []))
                    check(got is expected or (expected is None and got is default and kind == 'pop_default'), f'{where}: the result of pop()')
                except KeyError:
                    check(expected is None and kind == 'pop', f'{where}: KeyError from pop()')
                else:
                    check(expected is not None or kind == 'pop_default', f'{where}: pop() of nothing without a default')
                if expected is not None:
                    model.delete(key)
                expected = got = None
            key = None
        elif kind in ('kill_key', 'kill_value'):
            (keys if kind == 'kill_key' else vals)[step[1]] = None
        elif kind == 'new_key':
            keys[step[1]] = make_key(step[2], step[3])
        elif kind == 'new_value':
            vals[step[1]] = Thing(step[2])
        elif kind == 'collect':
            gc.collect()
        elif kind == 'crowd':
            # A lot of pairs at once; some of them lose a half.
            crowd = [[Thing(), Thing()] for x in range(step[1])]
            for key, value in crowd:
                real[key] = value
                model.set(key, value)
            key = value = None
            for index in range(0, len(crowd) if step[2] else 0, step[2] or 1):
                crowd[index][index % 2] = None
        elif kind == 'iterate':
            iterate(real, model, keys, vals, step[1], step[2], where)
            labels.append(step[1])
        before = len(model.pairs)
        compare(real, model, keys, where)
        dead += before - len(model.pairs)
    references = [weakref.ref(x) for x in [*keys, *vals, *(y for x in crowd for y in x)] if x is not None]
    keys = vals = crowd = None
    gc.collect()
    check(not any(x() is not None for x in references), 'the dictionary keeps something alive')
    check_eq(len(real), 0, 'everything died, but the dictionary is not empty')
    return Result(dead > 0, labels)


# Leaks.

step = kit.weighted(
    (5, st.fixed_dictionaries({'kind': st.sampled_from(['sync', 'async', 'method', 'static', 'generator']), 'logs': st.integers(0, 2), 'unlog': st.sampled_from([None, None, None, 'outer', 'inner', 'full']), 'calls': st.lists(st.sampled_from(['ok', 'raise', 'edit', 'edit_raise', 'bad']), max_size=3), 'suppress': st.booleans(), 'message': st.booleans()}).map(lambda x: ['function', x])),
    (3, st.fixed_dictionaries({'kind': st.sampled_from(['call', 'level', 'handle', 'with', 'with_level', 'decorated_block']), 'raise': st.booleans(), 'error': st.booleans(), 'function': st.booleans(), 'vars': st.booleans(), 'extra': st.booleans(), 'suppress': st.booleans()}).map(lambda x: ['manual', x])),
    (1, st.fixed_dictionaries({'methods': st.booleans(), 'inherit': st.booleans(), 'unlog': st.booleans(), 'calls': st.lists(st.sampled_from(['ok', 'raise']), max_size=3)}).map(lambda x: ['class', x])),
    (1, st.booleans().map(lambda x: ['standard', x])),
    (1, st.booleans().map(lambda x: ['local_handler', x])),
)


# The dictionary and threads.

key_number = st.integers(0, 1)
value_number = st.integers(0, 2)
shared_operation = kit.weighted(
    (5, st.tuples(st.just('set'), key_number, value_number).map(list)),
    (2, key_number.map(lambda x: ['get', x])),
    (2, key_number.map(lambda x: ['item', x])),
    (1, key_number.map(lambda x: ['contains', x])),
    (3, key_number.map(lambda x: ['pop', x])),
    (3, key_number.map(lambda x: ['pop_default', x])),
    (3, key_number.map(lambda x: ['delete', x])),
    (1, st.just(['len'])),
)
mortal_operation = kit.weighted(
    (6, shared_operation),
    (3, value_number.map(lambda x: ['kill_value', x])),
    (1, key_number.map(lambda x: ['kill_key', x])),
    (2, st.just(['list'])),
    (1, st.just(['str'])),
)


short_schedules = st.lists(st.tuples(st.integers(0, 40), st.integers(0, 2)).map(list), min_size=2, max_size=5).map(lambda x: {'gaps': x})


def shared_strategy():
    general = st.booleans().flatmap(lambda mortal: st.fixed_dictionaries({
        'start': st.lists(st.tuples(key_number, value_number).map(list), max_size=2),
        'threads': st.lists(st.lists(mortal_operation if mortal else shared_operation, min_size=1, max_size=6 if mortal else 3), min_size=2, max_size=3),
        'schedule': sched.schedules(max_gap=80),
    }))
    # A value dies in one thread while others work with its key.
    kill = st.sampled_from([['kill_value', 0], ['kill_value', 1], ['kill_key', 1]])
    write = st.sampled_from([['set', 0, 1], ['set', 0, 2], ['pop_default', 0], ['pop', 0], ['set', 1, 1], ['get', 0], ['list']])
    focused = st.fixed_dictionaries({
        'start': st.sampled_from([[[0, 0]], [[0, 0], [1, 0]], [[0, 1], [1, 1]]]),
        'threads': st.tuples(st.lists(kill, min_size=1, max_size=2), st.lists(write, min_size=1, max_size=2)).map(list),
        'schedule': short_schedules,
    })
    return st.one_of(general, general, focused)


def step_of_model(state, step):
    """(the new state, the answer): keys live forever, a state is a tuple of numbers of values (None: no such key)."""
    kind = step[0]
    if kind == 'len':
        return state, sum(x is not None for x in state)
    value = state[step[1]]
    changed = list(state)
    if kind == 'set':
        changed[step[1]] = step[2]
        return tuple(changed), 'done'
    if kind == 'get':
        return state, value
    if kind == 'item':
        return state, 'KeyError' if value is None else value
    if kind == 'contains':
        return state, value is not None
    changed[step[1]] = None
    if kind == 'pop':
        return tuple(changed), 'KeyError' if value is None else value
    if kind == 'pop_default':
        return tuple(changed), 'default' if value is None else value
    return tuple(changed), 'KeyError' if value is None else 'done'


def explainable(state, operations, final):
    """Is there an order of the operations that agrees with the real time, all the answers and the final state?"""
    seen = set()

    def search(state, left):
        if not left:
            return state == final
        if (state, left) in seen:
            return False
        seen.add((state, left))
        limit = min(operations[x][2] for x in left)
        for index in left:
            step, start, _, answer = operations[index]
            if start > limit:
                continue
            new_state, expected = step_of_model(state, step)
            if expected == answer and search(new_state, left - {index}):
                return True
        return False
    return search(state, frozenset(range(len(operations))))


def run_shared(case):
    world = sched.world()
    fresh.load(substitutes=world)
    dictionary = fresh.module('polog.data_structures.wrappers.weak_linked.dictionary').LockedWeakKeyValueDictionary()
    keys, vals = [Thing() for x in range(2)], [Thing() for x in range(3)]
    for index, x in enumerate(vals):
        x.number = index
    mortal = any(x[0] in ('kill_value', 'kill_key', 'list', 'str') for part in case['threads'] for x in part)
    state = [None, None]
    for key, value in case['start']:
        dictionary[keys[key]] = vals[value]
        state[key] = value
    written = {(k, v) for k, v in case['start']} | {(x[1], x[2]) for part in case['threads'] for x in part if x[0] == 'set'}
    clock, operations, errors = [0], [], []
    key_identities = {id(x): i for i, x in enumerate(keys)}

    def tick():
        clock[0] += 1
        return clock[0]

    def apply(step):
        kind = step[0]
        if kind == 'len':
            return len(dictionary)
        if kind == 'kill_value':
            vals[step[1]] = None
            return 'done'
        if kind == 'kill_key':
            keys[step[1]] = None
            return 'done'
        if kind == 'str':
            check(isinstance(str(dictionary), str), 'str() of the dictionary')
            return 'done'
        if kind == 'list':
            pairs = [(key_identities[id(k)], v.number) for k, v in dictionary.items()]
            check(len(set(x[0] for x in pairs)) == len(pairs), 'a key is met twice in an iteration', pairs)
            check(set(pairs) <= written, 'a pair that nobody wrote is met in an iteration', pairs)
            return 'done'
        key = keys[step[1]]
        if key is None:
            return 'dead'
        try:
            if kind == 'set':
                value = vals[step[2]]
                if value is not None:
                    dictionary[key] = value
                return 'done'
            if kind == 'get':
                value = dictionary.get(key)
                return None if value is None else value.number
            if kind == 'item':
                return dictionary[key].number
            if kind == 'contains':
                return key in dictionary
            if kind == 'pop':
                return dictionary.pop(key).number
            if kind == 'pop_default':
                value = dictionary.pop(key, 'default')
                return value if value == 'default' else value.number
            del dictionary[key]
            return 'done'
        except KeyError:
            return 'KeyError'

    def body(steps):
        try:
            for step in steps:
                start = tick()
                answer = apply(step)
                operations.append((step, start, tick(), answer))
        except BaseException as e:
            errors.append(e)

    def main():
        threads = [world['threading'].Thread(target=body, args=(x,), daemon=True) for x in case['threads']]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()

    try:
        _, scheduler = sched.run(case['schedule'], main)
        if errors:
            raise errors[0]
        for step, _, _, answer in operations:
            if isinstance(answer, int) and step[0] in ('get', 'item', 'pop', 'pop_default'):
                check((step[1], answer) in written, 'a value that was never written under the key', step, answer)
        left = [None if x is None or dictionary.get(x) is None else dictionary.get(x).number for x in keys]
        for key, value in enumerate(left):
            if value is not None:
                check((key, value) in written, 'after all: a value that was never written under the key', key, value)
        check_eq(len(dictionary), sum(x is not None for x in left), 'after all: the number of pairs')
        check_eq(sorted(key_identities[id(x)] for x in dictionary), [k for k, v in enumerate(left) if v is not None], 'after all: keys')
        for number, key in enumerate(keys):
            writes = sorted((x for x in operations if x[0][0] in ('set', 'pop', 'pop_default', 'delete') and x[0][1] == number), key=lambda x: x[1])
            if key is None or not writes:
                continue
            step, start, _, answer = writes[-1]
            if step[0] == 'set' and answer == 'done' and all(x[2] < start for x in writes[:-1]) and vals[step[2]] is not None:
                check_eq(left[number], step[2], f'after all: the last value written under the key {number}, both are alive')
        if not mortal:
            check(explainable(tuple(state), operations, tuple(left)), 'no order of the operations explains their results', sorted(operations, key=lambda x: x[1]), left)
    finally:
        fresh.abandon()
    return Result(scheduler.preemptions > 0 and any(x[0][0] == 'set' for x in operations), ['mortal' if mortal else 'immortal'])


def leaks_strategy():
    return st.fixed_dictionaries({'steps': st.lists(step, min_size=1, max_size=6), 'workers': kit.weighted((3, st.just(0)), (2, st.just(1)), (1, st.just(2))), 'field': st.booleans(), 'bad_handler': kit.weighted((3, st.just(False)), (1, st.just(True))), 'deduplicate': st.booleans(), 'silent': st.booleans(), 'standard': kit.weighted((4, st.just(False)), (1, st.just(True)))})


class Problem(Exception):
    pass


class Tracker:
    """Makes objects and remembers them weakly."""
    def __init__(self):
        self.references = []

    def add(self, thing, name):
        self.references.append((weakref.ref(thing), name))
        return thing

    def thing(self, name):
        return self.add(Thing(), name)

    def problem(self):
        return self.add(Problem('a problem'), 'exception')

    def alive(self):
        return [name for ref, name in self.references if ref() is not None]


def function_step(polog, tracker, data):
    kind, log, unlog = data['kind'], polog.log, polog.unlog

    def body(mode, payload):
        if mode.startswith('edit'):
            log.message('edited', **({'exception': tracker.problem()} if mode == 'edit_raise' else {}))
        if mode in ('raise', 'edit_raise'):
            raise tracker.problem()
        return tracker.thing('result')
    tracker.add(body, 'inner function')
    if kind == 'async':
        async def function(mode, payload, *more):
            return body(mode, payload)
    elif kind == 'generator':
        def function(mode, payload, *more):
            yield body(mode, payload)
    elif kind == 'method':
        def function(self, mode, payload, *more):
            return body(mode, payload)
    else:
        def function(mode, payload, *more):
            return body(mode, payload)
    tracker.add(function, 'function')
    for number in range(data['logs']):
        if data['unlog'] == 'inner' and number == 1:
            function = tracker.add(unlog(function), 'unlogged wrapper')
        decorator = log(message='text') if data['message'] else (log if number else log(level=3))
        function = tracker.add(decorator(function), 'wrapper')
    if data['unlog'] == 'outer':
        function = tracker.add(unlog(function), 'unlogged wrapper')
    elif data['unlog'] == 'full':
        function = tracker.add(unlog(full=True)(function), 'unlogged wrapper')
    if kind == 'method':
        owner = tracker.add(type('Owner', (), {'method': function}), 'class')
        function = tracker.add(owner(), 'instance').method
    elif kind == 'static':
        owner = tracker.add(type('Owner', (), {'method': staticmethod(function)}), 'class')
        function = owner.method
    for call in data['calls']:
        try:
            arguments = [] if call == 'bad' else [call, tracker.thing('argument')]
            if kind == 'async':
                result = kit.drive(function(*arguments))
            elif kind == 'generator':
                result = list(function(*arguments))
            else:
                result = function(*arguments)
            del result
        except (Problem, TypeError):
            pass
        arguments = None


def manual_step(polog, tracker, data):
    log = polog.log
    fields = {}
    if data['error']:
        fields['e'] = tracker.problem()
    if data['function']:
        def function():
            pass
        fields['function'] = tracker.add(function, 'function as a field')
    if data['vars']:
        fields['vars'] = 'some vars'
    if data['extra']:
        fields['extra'] = tracker.thing('extra field')
    kind = data['kind']
    try:
        if kind == 'call':
            log('text', **fields)
        elif kind == 'level':
            log.special_level('text', **fields)
        elif kind == 'handle':
            polog.handle_log('text', **fields)
        else:
            if kind == 'decorated_block':
                context = (log('text').suppress(ValueError) if not data['suppress'] else log('text').suppress())
            else:
                context = log('text', **fields) if kind == 'with' else log.special_level('text', **fields)
                if data['suppress']:
                    context = context.suppress(Problem)
            tracker.add(context, 'context manager')
            with context as inside:
                inside('edited', extra=tracker.thing('extra field of a block'))
                if data['raise']:
                    raise tracker.problem()
            context = inside = None
    except Problem:
        pass


def class_step(polog, tracker, data):
    def make():
        class Owner:
            def method(self, mode, payload):
                if mode == 'raise':
                    raise tracker.problem()
                return tracker.thing('result')

            def other(self):
                pass
        return Owner
    owner = tracker.add(make(), 'class')
    tracker.add(owner.method, 'method')
    owner = (polog.log(methods=['method']) if data['methods'] else polog.log)(owner)
    tracker.add(owner, 'decorated class')
    tracker.add(owner.method, 'decorated method')
    if data['inherit']:
        owner = tracker.add(type('Child', (owner,), {'more': lambda self: None}), 'child')
        owner = tracker.add(polog.log(owner), 'decorated child')
    if data['unlog']:
        owner.method = tracker.add(polog.unlog(owner.method), 'unlogged method')
    one = tracker.add(owner(), 'instance')
    for call in data['calls']:
        try:
            one.method(call, tracker.thing('argument'))
        except Problem:
            pass


def standard_step(polog, tracker, error):
    import logging
    logging.root.setLevel(1)
    try:
        if error:
            raise tracker.problem()
        logging.root.warning('text %s', tracker.thing('argument'))
    except Problem:
        logging.root.exception('text')


def local_handler_step(polog, tracker, remove):
    def handler(log):
        pass
    tracker.add(handler, 'handler')

    @polog.log(handlers=[handler])
    def function(x):
        return x
    tracker.add(function, 'wrapper')
    function(tracker.thing('argument'))
    if remove:
        def handler(log):
            pass
        tracker.add(handler, 'removed handler')
        polog.config.add_handlers(removed=handler)
        polog.log('text', extra=tracker.thing('extra field'))
        polog.config.delete_handlers('removed')


def scenario(polog, tracker, case, counter):
    def handler(log):
        counter.append(1)
        tracker.add(log, 'record')
        if case['bad_handler']:
            raise ValueError('a bad handler')
    polog.config.add_handlers(handler)
    if case['field']:
        def extractor(log):
            return tracker.thing('extracted value')
        polog.config.add_fields(extracted=polog.field(extractor, converter=lambda x: 'converted' if len(counter) % 2 else x))
    for kind, data in case['steps']:
        {'function': function_step, 'manual': manual_step, 'class': class_step, 'standard': standard_step, 'local_handler': local_handler_step}[kind](polog, tracker, data)


def run_leaks(case):
    try:
        return find_leaks(case)
    except Violation:
        # A machine that stopped for a while is not a leak: a leak comes back in one of two new runs of the same program.
        find_leaks(case)
        return find_leaks(case)


def find_leaks(case):
    prepare()
    polog = fresh.load()
    polog.config.set(pool_size=case['workers'], level=0, silent_internal_exceptions=case['silent'], deduplicate_errors=case['deduplicate'], unknown_fields_in_handle_logs=True, **({'time_quant': 0.0005} if case['workers'] else {}))
    polog.config.levels(special_level=7)
    if case['standard']:
        polog.config.set(integration_with_logging=True)
    tracker, counter = Tracker(), []
    import sys
    old_hook, unraisable = sys.unraisablehook, []
    sys.unraisablehook = lambda x: unraisable.append(type(x.exc_value).__name__)
    try:
        scenario(polog, tracker, case, counter)
        # A worker may be in the middle of a record, and a collection started by another thread makes this one do nothing: what counts is the number of attempts.
        deadline = time.monotonic() + (10 if case['workers'] else 1)
        attempts = 0
        while True:
            gc.collect()
            attempts += 1
            alive = tracker.alive()
            if not alive or (attempts >= 100 and time.monotonic() > deadline):
                break
            time.sleep(0.003)
    finally:
        sys.unraisablehook = old_hook
    check(not alive, 'dropped objects are still alive', f'{len(alive)} of {len(tracker.references)}: {sorted(set(alive))}')
    labels = [x[0] for x in case['steps']] + (['workers'] if case['workers'] else [])
    return Result(len(tracker.references) >= 3 and len(counter) > 0, labels)


FACETS = [
    Facet('dictionary', dictionary_strategy, run_dictionary, quick=4000),
    Facet('shared', shared_strategy, run_shared, quick=4000),
    Facet('leaks', leaks_strategy, run_leaks, quick=2000),
]
