"""C23: serialization of variables."""
import enum
import json
import types

from hypothesis import strategies as st

from vlib import fresh, kit, refjson, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C23'
TECHNIQUE = 'property-based round-trip testing: generated arguments of any kind (hostile objects included) serialized, parsed back and compared with the originals; several json modules with refusals of their own'
RULE = ('Facet "vars": json_vars() of 0 - 5 positional and 0 - 4 named generated values with the standard json or a set one (refusing NaN, big numbers, subclasses; with another layout; counting calls). '
        'Facet "records": the same for arguments, results, locals of the frame of an exception in records of decorated functions and for manual records. '
        'Non-trivial: at least one object without a place in JSON and one simple value, or a refusal of the json module.')
ASSUMPTIONS = ['the json module set in settings accepts dictionaries and lists of plain strings']


class TextWithText(str):
    def __str__(self):
        return 'another text'


class FloatWithRepr(float):
    def __repr__(self):
        return 'not a number'


class Color(enum.IntEnum):
    RED = 5


class Word(str, enum.Enum):
    ONE = 'one'


class Liar:
    """Says that it is an int."""
    __class__ = int


class BadClass:
    @property
    def __class__(self):
        raise RuntimeError('no class')


def deep():
    result = []
    for x in range(20000):
        result = [result]
    return result


MORE = {
    'textwithtext': lambda: TextWithText('the text'), 'floatwithrepr': lambda: FloatWithRepr(2.5), 'intenum': lambda: Color.RED, 'textenum': lambda: Word.ONE, 'liar': Liar, 'badclass': BadClass, 'deep': deep,
    'true': lambda: True, 'false': lambda: False, 'control': lambda: '\x00\x1f"\\\n\u2028', 'bigint': lambda: 2 ** 70, 'tiny': lambda: 5e-324, 'large': lambda: 1.7976931348623157e308,
    'bytearray': lambda: bytearray(b'x'), 'none': lambda: None,
}


def build(spec):
    return MORE[spec[1]]() if spec[0] == 'm' else values.build(spec)


def specs():
    return kit.weighted((4, values.value_specs()), (1, st.sampled_from(sorted(MORE)).map(lambda x: ['m', x])), (2, values.scalars().map(lambda x: ['v', x])))


names = kit.weighted((3, st.sampled_from(['a', 'b', 'self', 'args', 'kwargs', 'value', 'type', 'имя'])), (1, st.text(max_size=6)))
MODULES = ['standard', 'standard', 'standard', 'no nan', 'no big', 'no children', 'layout', 'fragile']


def json_module(kind, calls):
    """A json module of the user."""
    module = types.ModuleType('custom_json')

    def guard(x):
        if isinstance(x, dict):
            for y in x.values():
                guard(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                guard(y)
        elif kind == 'no big' and type(x) in (int, float) and abs(x) > 2 ** 53:
            raise OverflowError('too big')
        elif kind == 'no children' and type(x) not in (bool, int, float, str, type(None)):
            raise TypeError('a subclass')
        elif kind == 'fragile' and type(x) is not str:
            raise SystemError('only strings')

    def dumps(data):
        calls.append(data)
        guard(data)
        if kind == 'no nan':
            return json.dumps(data, allow_nan=False)
        if kind == 'layout':
            return json.dumps(data, indent=1, ensure_ascii=True, separators=(' , ', ' : '))
        return json.dumps(data)

    def loads(text):
        return json.loads(text)
    module.dumps = dumps
    module.loads = loads
    return module


def vars_strategy():
    return st.fixed_dictionaries({'args': kit.weighted((20, st.lists(specs(), max_size=5)), (1, values.many_specs())), 'kwargs': kit.weighted((20, st.dictionaries(names, specs(), max_size=4)), (1, values.many_named_specs())), 'module': st.sampled_from(MODULES)})


def interesting(all_values, dumps):
    simple = refused = other = False
    for x in all_values:
        if refjson.refused(x, dumps):
            refused = True
        elif refjson.base_of(x) is None:
            other = True
        else:
            simple = True
    return refused or (simple and other)


def prepare(polog, kind):
    calls = []
    if kind == 'standard':
        return json.dumps, calls
    module = json_module(kind, calls)
    polog.config.set(json_module=module)
    return module.dumps, calls


def run_vars(case):
    polog = fresh.load()
    dumps, calls = prepare(polog, case['module'])
    args = [build(x) for x in case['args']]
    kwargs = {k: build(x) for k, x in case['kwargs'].items()}
    calls.clear()
    text = polog.json_vars(*args, **kwargs)
    if (args or kwargs) and case['module'] != 'standard':
        check(calls, 'the json module in settings is not used')
    refjson.check_vars(text, args, kwargs, 'json_vars', dumps)
    return Result(interesting(args + list(kwargs.values()), dumps), [case['module']])


def records_strategy():
    call = st.fixed_dictionaries({
        'kind': st.sampled_from(['function', 'function', 'method', 'fail', 'manual', 'block']),
        'args': st.lists(specs(), max_size=3),
        'kwargs': st.dictionaries(st.sampled_from(['a', 'b', 'value', 'имя']), specs(), max_size=2),
        'result': specs(),
    })
    return st.fixed_dictionaries({'calls': st.lists(call, min_size=1, max_size=3), 'module': st.sampled_from(MODULES)})


def run_records(case):
    polog = fresh.load()
    polog.config.set(pool_size=0, level=0)
    dumps, calls = prepare(polog, case['module'])
    records = []

    def handler(log):
        records.append(dict(log.items()))
    polog.config.add_handlers(handler)
    log = polog.log
    found = False
    for call in case['calls']:
        args = [build(x) for x in call['args']]
        kwargs = {k: build(x) for k, x in call['kwargs'].items()}
        value = build(call['result'])

        def function(*args, **kwargs):
            return value

        def fail(*args, **kwargs):
            local = value
            raise ValueError('text')

        class Class:
            def method(self, *args, **kwargs):
                return value
        records.clear()
        calls.clear()
        kind = call['kind']
        everything = args + list(kwargs.values()) + [value]
        if kind == 'function':
            log(function)(*args, **kwargs)
        elif kind == 'method':
            subject = log(Class)()
            subject.method(*args, **kwargs)
            args = [subject] + args
        elif kind == 'fail':
            try:
                log(fail)(*args, **kwargs)
            except ValueError:
                pass
        elif kind == 'manual':
            log('text', vars=polog.json_vars(*(args + [value]), **kwargs))
        else:
            with log('text').suppress():
                local_value = value
                raise ValueError('block')
        check_eq(len(records), 1, 'records')
        record = records[0]
        if kind in ('function', 'method', 'fail'):
            if args or kwargs:
                refjson.check_vars(record.get('input_variables'), args, kwargs, 'arguments', dumps)
            else:
                check(record.get('input_variables') is None, 'arguments of a call without them')
        if kind in ('function', 'method'):
            refjson.check_one(record['result'], value, 'result', dumps)
        elif kind == 'fail':
            # "value" is a free variable: it is in the locals of the frame too.
            refjson.check_vars(record['local_variables'], [], {'args': tuple(args), 'kwargs': kwargs, 'local': value, 'value': value}, 'locals', dumps)
        elif kind == 'manual':
            refjson.check_vars(record['local_variables'], args + [value], kwargs, 'vars', dumps)
        if record.get('traceback') is not None:
            frames = refjson.parse(record['traceback'], 'traceback')
            check(isinstance(frames, list) and frames and all(isinstance(x, str) for x in frames), 'traceback: a list of texts', frames)
        if case['module'] != 'standard' and kind in ('function', 'method', 'fail'):
            check(calls, 'the json module in settings is not used')
        found = found or interesting(everything, dumps)
    return Result(found, [case['module']])


FACETS = [
    Facet('vars', vars_strategy, run_vars, quick=8000),
    Facet('records', records_strategy, run_records, quick=4000),
]
