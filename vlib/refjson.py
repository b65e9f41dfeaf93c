"""What serialized variables must look like: a reference written from the documentation, not from the code."""
import json
import math

from vlib.core import Violation, check

SIMPLE = (bool, int, float, str)


def base_of(value):
    for base in SIMPLE:
        if isinstance(value, base):
            return base
    return None


def text_of(value):
    """str() of the object, or None if it is impossible."""
    try:
        result = str(value)
    except Exception:
        return None
    return result


def same(real, expected):
    if isinstance(expected, float) and math.isnan(expected):
        return isinstance(real, float) and math.isnan(real)
    if type(real) is not base_of(expected):
        return False
    return real == expected and (not isinstance(expected, float) or math.copysign(1, real) == math.copysign(1, expected))


def refused(value, dumps=json.dumps):
    """Would the json module refuse this simple value?"""
    try:
        if base_of(value) is None:
            return False
        dumps({'value': value})
    except Exception:
        return True
    return False


def check_item(item, value, as_text, where):
    check(isinstance(item, dict) and set(item) == {'value', 'type'}, f'{where}: a value and its type', item)
    try:
        base = base_of(value)
    except Exception:
        base = None  # the object does not let anybody know its class
    if base is not None and not as_text:
        check(item['type'] == base.__name__, f'{where}: the type of a simple value', item, base.__name__)
        check(same(item['value'], value), f'{where}: a simple value', item['value'], value)
        return
    check(item['type'] == type(value).__name__ or (base is not None and item['type'] == base.__name__), f'{where}: the type', item, type(value).__name__)
    check(type(item['value']) is str, f'{where}: the text of an object', item)
    text = text_of(value)
    if text is not None:
        check(item['value'] == text, f'{where}: the text of an object', item['value'], text)


def parse(text, where):
    check(type(text) is str, f'{where}: a string is expected', text)
    try:
        return json.loads(text)
    except ValueError as e:
        raise Violation(f'{where}: not json: {e}: {text[:300]!r}')


def check_vars(text, args, kwargs, where='input variables', dumps=json.dumps):
    if not args and not kwargs:
        check(text is None, f'{where}: nothing is expected', text)
        return
    data = parse(text, where)
    as_text = any(refused(x, dumps) for x in args) or any(refused(x, dumps) for x in kwargs.values())
    expected_keys = ({'args'} if args else set()) | ({'kwargs'} if kwargs else set())
    check(isinstance(data, dict) and set(data) == expected_keys, f'{where}: parts', data)
    if args:
        check(len(data['args']) == len(args), f'{where}: number of positional ones', data['args'], len(args))
        for index, (item, value) in enumerate(zip(data['args'], args)):
            check_item(item, value, as_text, f'{where}: positional {index}')
    if kwargs:
        check(list(data['kwargs']) == list(kwargs), f'{where}: names', list(data['kwargs']), list(kwargs))
        for name, value in kwargs.items():
            check_item(data['kwargs'][name], value, as_text, f'{where}: {name!r}')


def check_one(text, value, where='result', dumps=json.dumps):
    check_item(parse(text, where), value, refused(value, dumps), where)
