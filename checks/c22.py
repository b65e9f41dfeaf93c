"""C22: the record as a read-only mapping with an order."""
import datetime
import operator

from hypothesis import strategies as st

from vlib import fresh, kit, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C22'
TECHNIQUE = 'model-based testing: generated sequences of dictionary operations on records against a plain dict; generated pairs of records against the order of their times; handlers that try to change the record they got'
RULE = ('Facet "mapping": operations (reads of every kind, attempts to write and delete) on a record with generated fields, or on an empty one. Non-trivial: at least 3 operations, one of them a write. '
        'Facet "order": lists of records with equal, different, absent, naive and aware times and other objects, all operators for all pairs, sorting, sets. Non-trivial: at least two records. '
        'Facet "handlers": a history of events with handlers that read, try to write and delete; all handlers must see the same record, equal to what the first one saw. Non-trivial: a write attempt between two readers.')
ASSUMPTIONS = ['values of the time field are datetimes', 'records are not subclassed']

NAMES = ['message', 'time', 'level', 'x', 'имя', '']
KEYS = NAMES + ['absent', 5, None, ('t',), ['unhashable']]
key = st.integers(0, len(KEYS) - 1)
WRITES = ('setitem', 'delitem')
operation = kit.weighted(
    (4, st.tuples(st.sampled_from(['getitem', 'get', 'get_default', 'contains', 'delitem', 'get_two']), key).map(list)),
    (1, st.tuples(st.just('setitem'), key, values.value_specs()).map(list)),
    (2, st.sampled_from([['len'], ['iter'], ['keys'], ['values'], ['items'], ['dict'], ['bool_list'], ['str'], ['repr'], ['unpack'], ['reversed_keys']])),
    (1, st.sampled_from([['pop'], ['update'], ['clear'], ['setdefault'], ['popitem']])),
)


def mapping_strategy():
    return st.fixed_dictionaries({'fields': st.one_of(st.none(), st.dictionaries(st.sampled_from(NAMES[:5]), values.value_specs(), max_size=5)), 'operations': st.lists(operation, min_size=1, max_size=10)})


def outcome(function):
    try:
        return ['value', function()]
    except Exception as e:
        return ['error', e]


def same(real, expected, where):
    """The same objects in the same order."""
    check_eq(len(real), len(expected), f'{where}: number of elements')
    for one, two in zip(real, expected):
        check(one is two or (isinstance(one, (str, int)) and one == two), where, repr(type(one)), repr(type(two)))


READS = {
    'len': len, 'iter': lambda x: list(iter(x)), 'keys': lambda x: list(x.keys()), 'values': lambda x: list(x.values()), 'dict': lambda x: list(dict(x).keys()), 'bool_list': lambda x: [k for k in x if k in x],
    'unpack': lambda x: list({**x}.values()),
    'reversed_keys': lambda x: list(reversed(list(x.keys()))),
}


def text_of(fields):
    return ', '.join(f'{k} = ' + (f'"{v}"' if isinstance(v, str) else f'{v}') for k, v in fields.items())


def run_operation(item, model, step, rewriting):
    kind = step[0]
    where = f'{step}'
    if kind in ('setitem', 'delitem'):
        try:
            if kind == 'setitem':
                item[KEYS[step[1]]] = values.build(step[2])
            else:
                del item[KEYS[step[1]]]
        except rewriting:
            return
        except Exception as e:
            check(False, f'{where}: another exception', repr(e))
        check(False, f'{where}: the record was changed without an exception')
    elif kind in ('pop', 'update', 'clear', 'setdefault', 'popitem'):
        # Methods of dict that change it: a record has no working ones.
        method = getattr(item, kind, None)
        if method is not None:
            arguments = {'pop': ('message',), 'update': ({'message': 'changed'},), 'setdefault': ('new', 1)}.get(kind, ())
            outcome(lambda: method(*arguments))
    elif kind in ('str', 'repr'):
        try:
            expected = text_of(model)
        except Exception:
            return  # not printable
        text = str(item) if kind == 'str' else repr(item)
        check(isinstance(text, str) and (expected in text), f'{where}: all fields must be in the text', text, expected)
    elif kind in ('getitem', 'get', 'get_default', 'contains', 'get_two'):
        name = KEYS[step[1]]
        mark = object()
        function = {'getitem': lambda x: x[name], 'get': lambda x: x.get(name), 'get_default': lambda x: x.get(name, mark), 'contains': lambda x: name in x, 'get_two': lambda x: x.get(name, 1, 2)}[kind]
        real, expected = outcome(lambda: function(item)), outcome(lambda: function(model))
        check_eq(real[0], expected[0], f'{where}: value or error, {real[1]!r}' if real[0] == 'error' else where)
        if real[0] == 'value':
            check(real[1] is expected[1], where)
        else:
            check_eq(type(real[1]).__name__, type(expected[1]).__name__, where)
    elif kind == 'items':
        real = list(item.items())
        same([x[0] for x in real], list(model), where)
        same([x[1] for x in real], list(model.values()), where)
    elif kind == 'len':
        check_eq(len(item), len(model), where)
    else:
        same(READS[kind](item), READS[kind](model), where)


def run_mapping(case):
    fresh.load()
    item = fresh.module('polog.core.log_item').LogItem()
    rewriting = fresh.module('polog.errors').RewritingLogError
    model = {}
    if case['fields'] is not None:
        model = {k: values.build(v) for k, v in case['fields'].items()}
        item.set_data(dict(model))
    for step in case['operations']:
        if case['fields'] is None and len(step) > 1 and KEYS[step[1]] == ['unhashable']:
            continue  # a record without data is never given to a handler: only its plain reads are defined
        run_operation(item, model, step, rewriting)
    for step in (['keys'], ['values'], ['items'], ['len'], ['iter']):
        run_operation(item, model, step, rewriting)
    writes = sum(x[0] in WRITES for x in case['operations'])
    return Result(len(case['operations']) >= 3 and writes, ['empty' if not model else 'with fields'])


# Order.

MOMENTS = [None, '2020-01-01T00:00:00', '2020-01-01T00:00:00', '2020-01-01T00:00:00.000001', '2021-05-05T10:00:00', '1999-12-31T23:59:59.999999', '2020-01-01T00:00:00+00:00', '2020-01-01T03:00:00+03:00', 'missing']
OTHERS = ['time', 'none', 'int', 'dict', 'text', 'hostile']


def order_strategy():
    return st.fixed_dictionaries({'records': st.lists(st.tuples(st.sampled_from(MOMENTS), st.sampled_from(['a', 'b'])).map(list), min_size=1, max_size=5), 'other': st.sampled_from(OTHERS)})


def moment(text):
    return None if text in (None, 'missing') else datetime.datetime.fromisoformat(text)


def run_order(case):
    fresh.load()
    Item = fresh.module('polog.core.log_item').LogItem
    items = []
    times = []
    for text, message in case['records']:
        item = Item()
        time = moment(text)
        if text is None:
            item.set_data({'message': message, 'time': None})
        elif text == 'missing':
            if message == 'a':
                item.set_data({'message': message})
        else:
            item.set_data({'message': message, 'time': time})
        items.append(item)
        times.append(time)
    for one, time in zip(items, times):
        check_eq(hash(one), hash(time), 'hash')
        for two, second in zip(items, times):
            where = f'{time} and {second}'
            for name in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
                function = getattr(operator, name)
                real = outcome(lambda: function(one, two))
                if time is None or second is None:
                    if name in ('eq', 'ne'):
                        check_eq(real, ['value', name == 'ne'], f'{name} of {where}')
                        continue
                    expected = ['error', TypeError()]
                else:
                    expected = outcome(lambda: function(time, second))
                check_eq(real[0], expected[0], f'{name} of {where}')
                if real[0] == 'error':
                    check(isinstance(real[1], TypeError), f'{name} of {where}: the error', repr(real[1]))
                else:
                    check(real[1] is expected[1], f'{name} of {where}', real, expected)
        other = {'time': time, 'none': None, 'int': 5, 'dict': dict(one.items()), 'text': 'text', 'hostile': values.build(['s', 'plain'])}[case['other']]
        check((one == other) is False and (other == one) is False, 'equal to an object of another type', case['other'])
        check((one != other) is True and (other != one) is True, 'not "not equal" to an object of another type', case['other'])
        for name in ('lt', 'gt', 'le', 'ge'):
            real = outcome(lambda: getattr(operator, name)(one, other))
            check(real[0] == 'error' and isinstance(real[1], TypeError), f'{name} with an object of another type', real)
    plain = [(x, y) for x, y in zip(items, times) if y is not None and y.tzinfo is None]
    check_eq([x['time'] for x in sorted(x for x, y in plain)], sorted(y for x, y in plain), 'sorted records')
    check_eq(len({x for x, y in plain}), len({y for x, y in plain}), 'size of the set of records')
    return Result(len(items) > 1, [f'{len(items)} records'])


# Handlers.

def handlers_strategy():
    return st.fixed_dictionaries({
        'handlers': st.lists(st.lists(operation, max_size=4), min_size=2, max_size=4),
        'events': st.lists(st.tuples(st.sampled_from(['manual', 'function', 'fail', 'block']), kit.weighted((8, st.text(max_size=5)), (1, st.sampled_from(values.LONG))), st.lists(values.value_specs(), max_size=2)).map(list), min_size=1, max_size=3),
        'workers': kit.weighted((4, st.just(0)), (1, st.just(1))),
    })


def run_handlers(case):
    polog = fresh.load()
    polog.config.set(pool_size=case['workers'], level=0, **({'time_quant': 0.0005} if case['workers'] else {}))
    rewriting = fresh.module('polog.errors').RewritingLogError
    seen = []
    problems = []

    def make(index, operations):
        def handler(log):
            try:
                seen.append((index, log, dict(log.items())))
                for step in operations:
                    run_operation(log, dict(log.items()), step, rewriting)
                seen.append((index, log, dict(log.items())))
            except BaseException as e:
                problems.append(e)
        return handler
    for index, operations in enumerate(case['handlers']):
        polog.config.add_handlers(make(index, operations))
    inputs = []

    @polog.log
    def function(text, *args):
        return text

    @polog.log
    def fail(text, *args):
        raise ValueError(text)
    for kind, text, args in case['events']:
        args = tuple(values.build(x) for x in args)
        if kind == 'manual':
            polog.log(text or 'x')
            inputs.append((None, None))
        elif kind == 'block':
            with polog.log(text or 'x'):
                pass
            inputs.append((None, None))
        else:
            try:
                (function if kind == 'function' else fail)(text, *args)
            except ValueError:
                pass
            inputs.append(((text, *args), {}))
    if case['workers']:
        kit.drain(polog)
    if problems:
        raise problems[0]
    size = len(case['handlers']) * 2
    check_eq(len(seen), size * len(case['events']), 'calls of handlers')
    for number, (args, kwargs) in enumerate(inputs):
        group = seen[number * size:(number + 1) * size]
        check(len({id(x[1]) for x in group}) == 1, 'the handlers got different records')
        first = group[0][2]
        for index, _, fields in group[1:]:
            same(list(fields), list(first), f'fields seen by the handler {index}')
            same(list(fields.values()), list(first.values()), f'values seen by the handler {index}')
        data = group[0][1].function_input_data
        if args is None:
            check(data.args is None and data.kwargs is None, 'arguments of a record without a function', data.args, data.kwargs)
        else:
            same(list(data.args), list(args), 'arguments of the function')
            check_eq(dict(data.kwargs), {}, 'named arguments of the function')
    writes = any(x[0] in WRITES for y in case['handlers'][:-1] for x in y)
    return Result(writes, ['workers' if case['workers'] else 'no workers'])


FACETS = [
    Facet('mapping', mapping_strategy, run_mapping, quick=8000),
    Facet('order', order_strategy, run_order, quick=3000),
    Facet('handlers', handlers_strategy, run_handlers, quick=2000),
]
