"""Values and exceptions described by JSON-able specs, ordinary and hostile."""
import asyncio

from hypothesis import strategies as st

# Texts around and above the sizes at which somebody could be tempted to cut, fold or wrap.
LONG = ['word ' * 60 + 'end', 'long text ' * 130 + 'end', 'very long text ' * 1500 + 'end', 'очень длинный текст ' * 450 + 'end']


class BadStr:
    def __str__(self):
        raise RuntimeError('str failed')
    __repr__ = __str__


class BadEq:
    def __eq__(self, other):
        raise RuntimeError('eq failed')
    __hash__ = object.__hash__


class BadBool:
    def __bool__(self):
        raise RuntimeError('bool failed')

    def __len__(self):
        raise RuntimeError('len failed')


class BadAttr:
    def __getattr__(self, name):
        raise RuntimeError('getattr failed')


class NotStrStr:
    def __str__(self):
        return 5


class IntChild(int):
    pass


class StrChild(str):
    pass


class SelfStr(str):
    """As the "safe" strings of template engines: str() gives the object itself, not a copy of the type str."""
    def __str__(self):
        return self


class TextOfChild:
    def __str__(self):
        return SelfStr('text of a child')


class LongText:
    """Its text is longer than any limit somebody could have in mind."""
    def __str__(self):
        return LONG[2]


class Plain:
    def __init__(self):
        self.x = 1


class Slotted:
    __slots__ = ()


class EqAll:
    """Equal to everything."""
    def __eq__(self, other):
        return True
    __hash__ = object.__hash__


class LenZero:
    """False in the boolean context."""
    def __len__(self):
        return 0


def _cycle():
    result = []
    result.append(result)
    return result


SPECIAL = {
    'object': object,
    'longtext': LongText,
    'longstr': lambda: LONG[3],
    'longlist': lambda: list(range(3000)),
    'plain': Plain,
    'slotted': Slotted,
    'badstr': BadStr,
    'badeq': BadEq,
    'badbool': BadBool,
    'badattr': BadAttr,
    'notstrstr': NotStrStr,
    'eqall': EqAll,
    'lenzero': LenZero,
    'cycle': _cycle,
    'nan': lambda: float('nan'),
    'inf': lambda: float('inf'),
    'neginf': lambda: float('-inf'),
    'hugeint': lambda: 10 ** 5000,
    'surrogate': lambda: 'a\ud800b',
    'bytes': lambda: b'\xff\x00',
    'set': lambda: {1, 2},
    'tuple': lambda: (1, (2, 3)),
    'dict': lambda: {'a': [1], 2: None},
    'list': lambda: [1, 'x', None],
    'intchild': lambda: IntChild(7),
    'strchild': lambda: StrChild('child'),
    'selfstr': lambda: SelfStr('self'),
    'textofchild': TextOfChild,
    'type': lambda: Plain,
    'func': lambda: (lambda x: x),
    'ellipsis': lambda: Ellipsis,
    'notimpl': lambda: NotImplemented,
    'generator': lambda: (x for x in (1, 2)),
    'exception_instance': lambda: ValueError('as a value'),
    'exception_class': lambda: KeyError,
    'complex': lambda: 1 + 2j,
    'emptystr': lambda: '',
    'emptylist': lambda: [],
    'zero': lambda: 0,
    'negzero': lambda: -0.0,
}


def scalars():
    return st.one_of(
        st.none(), st.booleans(), st.integers(-10 ** 20, 10 ** 20),
        st.floats(allow_nan=False, allow_infinity=False, width=64),
        st.text(max_size=12),
    )


def value_specs():
    """['v', scalar] or ['s', name of a special value]."""
    return st.one_of(
        scalars().map(lambda x: ['v', x]),
        st.sampled_from(sorted(SPECIAL)).map(lambda x: ['s', x]),
    )


def many_specs():
    return st.sampled_from([12, 40, 130, 300]).map(lambda x: [['v', i] for i in range(x)])


def many_named_specs():
    return st.sampled_from([12, 40, 130, 300]).map(lambda x: {f'name_{i}': ['v', i] for i in range(x)})


def build(spec):
    kind, payload = spec
    if kind == 'v':
        return payload
    return SPECIAL[payload]()


def is_hostile(spec):
    return spec[0] == 's'


class MemoryChildError(MemoryError):
    """CPython reuses the objects of MemoryError itself and forgets to reset __suppress_context__ in them."""


class CustomError(Exception):
    pass


class ChildError(CustomError):
    pass


class ArgsError(Exception):
    """The constructor has an unusual signature."""
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a = a


class StrFailsError(Exception):
    def __str__(self):
        raise RuntimeError('str of the exception failed')


class ReprFailsError(Exception):
    def __repr__(self):
        raise RuntimeError('repr of the exception failed')


class FrozenError(Exception):
    def __setattr__(self, name, value):
        raise AttributeError('frozen')


class SlotsError(Exception):
    __slots__ = ('x',)


class BoolError(Exception):
    def __bool__(self):
        return False


class EqError(Exception):
    def __eq__(self, other):
        raise RuntimeError('eq of the exception failed')
    __hash__ = Exception.__hash__


class GetAttrError(Exception):
    def __getattr__(self, name):
        raise RuntimeError('getattr of the exception failed')


class NotStrError(Exception):
    def __str__(self):
        return 3


def with_roots(cause, context, note):
    """An exception that remembers others (raised elsewhere) and has a note."""
    exception = CustomError('effect', 2)
    for name, root in (('__cause__', cause), ('__context__', context)):
        if root is not None:
            try:
                raise root
            except type(root) as e:
                setattr(exception, name, e)
    if note:
        exception.add_note('a note')
    return exception


EXCEPTIONS = {
    'CausedError': lambda: with_roots(KeyError('cause'), None, False),
    'ContextError': lambda: with_roots(None, KeyError('context'), False),
    'BothError': lambda: with_roots(KeyError('cause'), ChildError('context'), True),
    'ValueError': lambda: ValueError('bad value'),
    'ValueErrorEmpty': lambda: ValueError(),
    'LongError': lambda: ValueError(LONG[2]),
    'KeyError': lambda: KeyError('key'),
    'IndexError': lambda: IndexError(5),
    'ZeroDivisionError': lambda: ZeroDivisionError('division'),
    'OSError': lambda: OSError(2, 'no file'),
    'FileNotFoundError': lambda: FileNotFoundError(2, 'no file', 'name'),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'reason'),
    'StopAsyncIteration': lambda: StopAsyncIteration('stop'),
    'TimeoutError': lambda: TimeoutError('late'),
    'AssertionError': lambda: AssertionError('assert'),
    'RecursionError': lambda: RecursionError('deep'),
    'MemoryChildError': lambda: MemoryChildError('memory'),
    'CustomError': lambda: CustomError('custom', 1),
    'ChildError': lambda: ChildError('child'),
    'ArgsError': lambda: ArgsError(1, [2]),
    'StrFailsError': lambda: StrFailsError('x'),
    'ReprFailsError': lambda: ReprFailsError('x'),
    'FrozenError': lambda: FrozenError('x'),
    'SlotsError': lambda: SlotsError('x'),
    'BoolError': lambda: BoolError('x'),
    'EqError': lambda: EqError('x'),
    'GetAttrError': lambda: GetAttrError('x'),
    'NotStrError': lambda: NotStrError('x'),
    'ExceptionGroup': lambda: ExceptionGroup('group', [ValueError('a'), KeyError('b')]),
    'SurrogateError': lambda: ValueError('\ud800'),
}

CLASSES = {
    'Exception': Exception,
    'ValueError': ValueError,
    'KeyError': KeyError,
    'LookupError': LookupError,
    'ArithmeticError': ArithmeticError,
    'OSError': OSError,
    'CustomError': CustomError,
    'ChildError': ChildError,
    'StrFailsError': StrFailsError,
}

BASE_EXCEPTIONS = {
    'KeyboardInterrupt': lambda: KeyboardInterrupt('k'),
    'SystemExit': lambda: SystemExit(3),
    'GeneratorExit': lambda: GeneratorExit('g'),
    'CancelledError': lambda: asyncio.CancelledError('c'),
}


def build_exception(name):
    if name in EXCEPTIONS:
        return EXCEPTIONS[name]()
    return BASE_EXCEPTIONS[name]()
