"""C10: stacks of decorators and decorated class hierarchies."""
import abc
import functools
import inspect

from hypothesis import strategies as st

from vlib import fresh, kit
from vlib.core import Facet, Result, check, check_eq

ID = 'C10'
TECHNIQUE = 'property-based testing: generated programs of function and class decorations over class hierarchies, against a model of the decorator in force'
RULE = ('A case is a program: functions decorated several times in several places, classes (with one or two parents, some of them builtin types) with methods of all kinds, own '
        'decorators of methods, class decorators (all methods or a list) at the definition and later, methods decorated later, methods shared '
        'between classes and calling super(). After every operation everything is called through instances and classes; values, binding and '
        'records are compared with the model, and everything else in the classes must be untouched. Non-trivial: something is decorated at least twice. '
        'Facet "wide": the same with classes of up to 80 methods, lists of up to 80 names and towers of 30 decorators over one function; non-trivial: more than 20 methods.')
ASSUMPTIONS = ['callables that are unhashable or cannot be weakly referenced are not decorated',
               'a parent is not decorated after its descendant was decorated with methods=...']

NAMES = ['a', 'b', 'c', '_hidden']
MANY = [f'{x}{y}' for x in ('b', '_m', 'get_', 'Z') for y in range(20)]
KINDS = ['method', 'method', 'method', 'abstract', 'classmethod', 'staticmethod', 'async', 'super', 'callable', 'shared', 'partial']
BUILTINS = {'dict': dict, 'list': list, 'str': str, 'int': int, 'exception': Exception}
names_list = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)
class_decorators = st.lists(st.one_of(st.none(), st.none(), names_list), max_size=2)
class_spec = st.fixed_dictionaries({
    'op': st.just('class'),
    'parents': st.lists(st.integers(0, 4), max_size=2),
    'builtin': kit.weighted((3, st.none()), (2, st.sampled_from(sorted(BUILTINS)))),
    'methods': st.dictionaries(st.sampled_from(NAMES), st.tuples(st.sampled_from(KINDS), st.integers(0, 2), st.integers(0, 5)).map(list), min_size=1, max_size=4),
    'decorators': class_decorators,
})
operation = kit.weighted(
    (4, class_spec),
    (2, st.tuples(st.just('redecorate'), st.integers(0, 4), st.one_of(st.none(), names_list)).map(lambda x: {'op': x[0], 'index': x[1], 'methods': x[2]})),
    (2, st.tuples(st.just('method'), st.integers(0, 4), st.sampled_from(NAMES)).map(lambda x: {'op': x[0], 'index': x[1], 'name': x[2]})),
    (2, st.tuples(st.just('function'), st.integers(0, 5)).map(lambda x: {'op': x[0], 'index': x[1]})),
    (1, st.just({'op': 'new_function', 'index': 0})),
)


def strategy():
    return st.lists(operation, min_size=2, max_size=7)


class CallableObject:
    def __init__(self, marker):
        self.marker = marker

    def __call__(self, *args):
        return ('callable', self.marker, None, args)


def for_partial(marker, *args):
    return ('partial', marker, None, args)


class Described:
    """A descriptor that gives a callable."""
    def __init__(self, number):
        self.number = number

    def __get__(self, instance, owner):
        return lambda *args: ('described', self.number, instance is None, args)


class Entry:
    """What the model knows about an attribute of a class."""
    def __init__(self, kind, marker, own=None, by_class=None):
        self.kind = kind
        self.marker = marker
        self.own = own
        self.by_class = by_class

    def copy(self, **changes):
        result = Entry(self.kind, self.marker, self.own, self.by_class)
        result.__dict__.update(changes)
        return result

    @property
    def tag(self):
        return self.own if self.own is not None else self.by_class


class Program:
    def __init__(self, polog, sink, names=NAMES):
        self.polog = polog
        self.names = names
        self.sink = sink
        self.tags = 0
        self.markers = 0
        self.functions = []  # (callable, tag, marker)
        self.classes = []    # {'class', 'entries', 'limited'}
        self.times = {}
        self.play({'op': 'new_function'})

    def tag(self):
        self.tags += 1
        return self.tags

    def marker(self):
        self.markers += 1
        return self.markers

    def decorator(self, tag, methods=None):
        kwargs = {}
        if tag % 4 == 1:
            kwargs['extra_fields'] = {'tagged': self.polog.field(lambda log: tag)}
        elif tag % 4 == 2:
            kwargs['extra_engine_fields'] = {'tagged': self.polog.field(lambda log: tag)}
        if methods is not None:
            return self.polog.log(str(tag), level=tag, methods=methods if tag % 2 else tuple(methods), **kwargs)
        if kwargs:
            return self.polog.log(str(tag), level=tag, **kwargs)
        if tag % 3 == 0:
            return self.polog.log(message=str(tag), level=tag)
        return self.polog.log(str(tag), level=tag)

    def play(self, op):
        before = self.snapshot()
        changed = getattr(self, 'do_' + op['op'])(op)
        self.compare(before, changed)

    def snapshot(self):
        return [dict(x['class'].__dict__) for x in self.classes]

    def compare(self, before, changed):
        """Only the class that was decorated may change, and only its methods."""
        for index, (data, content) in enumerate(zip(self.classes, before)):
            now = dict(data['class'].__dict__)
            for name in set(now) | set(content):
                if index == changed and (name in self.names or name in ('__annotations__', '__static_attributes__', 'dispatched', 'described') or name in dir(data['builtin'])):
                    continue
                check(now.get(name) is content.get(name) or now.get(name) == content.get(name), f'attribute {name} of class {index} was changed by decorating class {changed}')

    # Operations.

    def do_new_function(self, op):
        marker = self.marker()

        def function(*args):
            """Text."""
            return ('shared', marker, None, args)
        self.functions.append((function, None, marker))

    def do_function(self, op):
        function, tag, marker = self.functions[op['index'] % len(self.functions)]
        tag = self.tag()
        self.functions.append((self.decorator(tag)(function), tag, marker))

    def do_class(self, op):
        parents = []
        for x in op['parents']:
            if self.classes:
                candidate = self.classes[x % len(self.classes)]['class']
                if not any(issubclass(candidate, y) or issubclass(y, candidate) or self.builtin_of(candidate) is not self.builtin_of(y) for y in parents):
                    parents.append(candidate)
        try:
            type('Probe', tuple(parents), {})
        except TypeError:
            # Two parents that list their own parents in opposite orders.
            del parents[1:]
        if not parents and op['builtin'] is not None:
            parents.append(BUILTINS[op['builtin']])
        number = len(self.classes)
        entries = {}
        body = {'data': ['data', number], 'number': number, '__doc__': 'Some text.'}

        class Nested:
            pass
        body['Nested'] = Nested

        def __len__(self):
            return 5 + number

        def __call__(self, x):
            return ('call', number, x)
        body['__len__'] = __len__
        body['__call__'] = __call__
        # Their way of binding is their own.
        dispatched = functools.singledispatchmethod(lambda self, x: ('any', number))
        dispatched.register(int, lambda self, x: ('int', number))
        body['dispatched'] = dispatched
        body['described'] = Described(number)
        body['prop'] = property(lambda self: ('prop', number))
        holder = {}
        for name, (kind, stack, index) in op['methods'].items():
            body[name], entries[name] = self.make_method(name, kind, stack, index, holder)
        Class = type(f'Class{number}', tuple(parents), body)
        holder['class'] = Class
        data = {'class': Class, 'entries': entries, 'limited': False, 'builtin': self.builtin_of(Class)}
        self.classes.append(data)
        if isinstance(Class, type):
            for methods in op['decorators']:
                self.decorate_class(data, methods)

    @staticmethod
    def builtin_of(Class):
        return next((x for x in Class.__mro__ if x in BUILTINS.values()), object)

    def make_method(self, name, kind, stack, index, holder):
        marker = self.marker()
        tag = None
        if kind == 'shared':
            function, tag, marker = self.functions[index % len(self.functions)]
        elif kind == 'callable':
            function = CallableObject(marker)
        elif kind == 'partial':
            function = functools.partial(for_partial, marker)
        elif kind == 'staticmethod':
            def function(*args):
                """Text."""
                return ('staticmethod', marker, None, args)
        elif kind == 'async':
            async def function(self, *args):
                """Text."""
                return ('async', marker, self, args)
        elif kind == 'super':
            def function(self, *args):
                """Text."""
                upper = getattr(super(holder['class'], self), name, None)
                return ('super', marker, self, upper(*args) if upper is not None else args)
        else:
            def function(self, *args):
                """Text."""
                return (kind, marker, self, args)
            if kind == 'abstract':
                # Without ABCMeta the class can be instantiated.
                abc.abstractmethod(function)
        if inspect.isfunction(function) and kind != 'shared':
            function.__name__ = name
        for x in range(stack):
            tag = self.tag()
            function = self.decorator(tag)(function)
        if kind == 'classmethod':
            function = classmethod(function)
        elif kind in ('staticmethod', 'shared') or (stack and kind in ('callable', 'partial')):
            function = staticmethod(function)
        return function, Entry(kind, marker, own=tag)

    def find(self, Class, name):
        for x in Class.__mro__:
            for data in self.classes:
                if data['class'] is x and name in data['entries']:
                    return data['entries'][name]
        return None

    def is_ready(self, data):
        """Later changes of a parent are seen in children only through inheritance; what a limited decorator leaves there is not specified."""
        return not any(x is not data and x['limited'] and issubclass(x['class'], data['class']) for x in self.classes)

    def decorate_class(self, data, methods):
        if methods is not None:
            methods = [x for x in methods if self.find(data['class'], x) is not None]
            if not methods:
                return
            data['limited'] = True
        tag = self.tag()
        result = self.decorator(tag, methods)(data['class'])
        check(result is data['class'], 'the decorated class is the same object')
        for name in self.names:
            entry = self.find(data['class'], name)
            if entry is None:
                continue
            if methods is None or name in methods:
                data['entries'][name] = entry.copy(by_class=tag)
                self.times[entry.marker] = self.times.get(entry.marker, 0) + 1 + (entry.own is not None)
            else:
                data['entries'][name] = entry.copy(by_class=None)

    def do_redecorate(self, op):
        if not self.classes:
            return None
        index = op['index'] % len(self.classes)
        if self.is_ready(self.classes[index]):
            self.decorate_class(self.classes[index], op['methods'])
        return index

    def do_method(self, op):
        if not self.classes:
            return None
        index = op['index'] % len(self.classes)
        data = self.classes[index]
        entry = self.find(data['class'], op['name'])
        if entry is None or entry.kind not in ('method', 'abstract', 'async', 'super') or not self.is_ready(data):
            return None
        tag = self.tag()
        setattr(data['class'], op['name'], self.decorator(tag)(getattr(data['class'], op['name'])))
        data['entries'][op['name']] = entry.copy(own=tag)
        self.times[entry.marker] = self.times.get(entry.marker, 0) + 1
        return index

    # Checks.

    def expected_call(self, Class, where, name, instance, args):
        """The value and the tags of records."""
        entry = self.find_from(Class, where, name)
        if entry.kind == 'super':
            owner = self.owner_of(entry)
            upper = self.find_from(Class, owner, name, after=True)
            if upper is None:
                inner, tags = args, []
            else:
                upper_owner = self.owner_found(Class, owner, name)
                inner, tags = self.expected_call(Class, upper_owner, name, instance, args)
            value = ('super', entry.marker, instance, inner)
        else:
            tags = []
            bound = {'method': instance, 'abstract': instance, 'async': instance, 'classmethod': Class}.get(entry.kind)
            value = (entry.kind, entry.marker, bound, args)
        if entry.tag is not None:
            tags = tags + [entry.tag]
        return value, tags

    def owner_of(self, entry):
        """The class where the function was defined (super() starts from it)."""
        return self.definitions[entry.marker]

    def owner_found(self, Class, owner, name):
        mro = list(Class.__mro__)
        for x in mro[mro.index(owner) + 1:]:
            for data in self.classes:
                if data['class'] is x and name in data['entries']:
                    return x

    def find_from(self, Class, where, name, after=False):
        mro = list(Class.__mro__)
        start = mro.index(where) + (1 if after else 0)
        for x in mro[start:]:
            for data in self.classes:
                if data['class'] is x and name in data['entries']:
                    return data['entries'][name]
        return None

    @property
    def definitions(self):
        result = {}
        for data in self.classes:
            for name, entry in data['entries'].items():
                if entry.marker not in result:
                    result[entry.marker] = data['class']
        return result

    def call_everything(self):
        for function, tag, marker in self.functions:
            self.sink.take()
            check_eq(function(7, 8), ('shared', marker, None, (7, 8)), 'the value of a function')
            self.tags_are([] if tag is None else [tag], 'a function')
            check_eq((function.__name__, function.__doc__), ('function', 'Text.'), 'name and text of a function')
        for number, data in enumerate(self.classes):
            Class = data['class']
            instance = Class()
            check(len(instance) == 5 + number and instance(3) == ('call', number, 3) and instance.prop == ('prop', number), 'special methods and properties')
            check(Class.data == ['data', number] and Class.number == number and inspect.isclass(Class.Nested), 'data and nested classes')
            check_eq((Class.__name__, Class.__doc__), (f'Class{number}', 'Some text.'), 'the class itself')
            self.tags_are([], 'special methods')
            self.inherited(data, instance, number)
            self.sink.take()  # whether these are logged is not specified
            for name in self.names:
                entry = self.find(Class, name)
                if entry is None:
                    check(not hasattr(Class, name), f'a method {name} out of nowhere')
                    continue
                value, tags = self.expected_call(Class, Class, name, instance, (1, 'x'))
                what = f'{name} ({entry.kind}) of class {number}'
                for through in ('instance', 'class'):
                    if through == 'instance':
                        real = getattr(instance, name)(1, 'x')
                    elif entry.kind in ('method', 'abstract', 'async', 'super'):
                        real = getattr(Class, name)(instance, 1, 'x')
                    else:
                        real = getattr(Class, name)(1, 'x')
                    if entry.kind == 'async':
                        check(inspect.isawaitable(real), f'{what}: a coroutine')
                        real = kit.drive(real)
                    elif entry.kind == 'super':
                        real = self.unwrap(real)
                    check(self.same(real, value), f'{what} through {through}: the value', real, value)
                    self.tags_are(tags, f'{what} through {through}')
                if entry.kind not in ('callable', 'partial', 'shared'):
                    check_eq((getattr(Class, name).__name__, getattr(Class, name).__doc__), (name, 'Text.'), f'{what}: name and text')

    def inherited(self, data, instance, number):
        """Attributes that have their own way of binding and methods of builtin types."""
        Class, builtin = data['class'], data['builtin']
        check_eq((instance.dispatched(5), instance.dispatched('x')), (('int', number), ('any', number)), 'a method that depends on the type of the argument')
        check_eq((instance.described(1), Class.described(2)), (('described', number, False, (1,)), ('described', number, True, (2,))), 'an attribute with its own binding')
        if builtin is dict:
            instance['key'] = 'value'
            check_eq((instance.get('key'), instance.pop('key'), list(instance.items()), type(Class.fromkeys('ab')) is Class, type(instance.fromkeys('c')) is Class), ('value', 'value', [], True, True), 'methods of a dictionary')
        elif builtin is list:
            instance.append(1)
            instance.extend([2])
            check_eq((instance.count(1), instance.pop(), instance.copy()), (1, 2, [1]), 'methods of a list')
        elif builtin is str:
            check_eq((Class('a').upper(), Class('b').join(['1', '2']), Class.maketrans('a', 'b')), ('A', '1b2', {97: 98}), 'methods of a string')
        elif builtin is int:
            check_eq((Class(5).bit_length(), Class.from_bytes(b'\x01', 'big'), type(Class.from_bytes(b'\x01', 'big')) is Class), (3, 1, True), 'methods of a number')
        elif builtin is Exception:
            try:
                raise instance.with_traceback(None)
            except Class as e:
                check(e is instance, 'a decorated class of exceptions')

    def unwrap(self, value):
        """The method above a "super" one may be a coroutine."""
        if isinstance(value, tuple) and len(value) == 4 and value[0] == 'super':
            return value[:3] + (self.unwrap(value[3]),)
        if inspect.isawaitable(value):
            return kit.drive(value)
        return value

    def same(self, real, expected):
        if isinstance(expected, tuple):
            return isinstance(real, tuple) and len(real) == len(expected) and all(self.same(x, y) for x, y in zip(real, expected))
        return real is expected or real == expected

    def tags_are(self, tags, what):
        records = self.sink.take()
        real = [(x['message'], x['level'], x.get('tagged')) for x in records]
        # A coroutine above a "super" method is finished after it.
        check(sorted(real, key=str) == sorted(((str(x), x, x if x % 4 in (1, 2) else None) for x in tags), key=str), f'{what}: decorators in force', real, tags)


# Classes with lots of methods.

def wide_strategy():
    def programs(n):
        names = MANY[:n]
        # Some of the methods have something special, the others are plain.
        methods = st.dictionaries(st.sampled_from(names), st.tuples(st.sampled_from(KINDS), st.integers(0, 2), st.integers(0, 5)).map(list), max_size=6).map(lambda x: {y: x.get(y, ['method', 0, 0]) for y in names})
        some = st.lists(st.sampled_from(names), min_size=1, max_size=n, unique=True)
        few = st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)
        listed = st.one_of(st.none(), some, few, few.map(lambda x: [y for y in names if y not in x] or names))
        child = st.dictionaries(st.sampled_from(names), st.tuples(st.sampled_from(KINDS), st.integers(0, 2), st.integers(0, 5)).map(list), min_size=1, max_size=4)
        return st.tuples(
            st.fixed_dictionaries({'op': st.just('class'), 'parents': st.just([]), 'builtin': st.none(), 'methods': methods, 'decorators': st.lists(listed, min_size=1, max_size=2)}),
            kit.weighted((1, st.none()), (2, st.fixed_dictionaries({'op': st.just('class'), 'parents': st.just([0]), 'builtin': st.none(), 'methods': child, 'decorators': st.lists(listed, max_size=1)}))),
            st.lists(st.tuples(st.integers(0, 1), listed).map(lambda x: {'op': 'redecorate', 'index': x[0], 'methods': x[1]}), max_size=2),
            st.lists(st.integers(0, 1).map(lambda x: {'op': 'function', 'index': 100 if x else 0}), max_size=1).map(lambda x: x * 30),
        ).map(lambda x: [x[0], *([x[1]] if x[1] else []), *x[2], *x[3]])
    return kit.weighted((1, st.integers(5, 20)), (2, st.integers(20, 80))).flatmap(programs)


def run_wide(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    names = list(case[0]['methods'])
    program = Program(polog, sink, names)
    for op in case:
        if op['op'] == 'function':
            op = {'op': 'function', 'index': len(program.functions) - 1 if op['index'] else 0}
        program.play(op)
        check(not sink.take(), 'decorating writes nothing')
        if op['op'] != 'function':
            program.call_everything()
    program.call_everything()
    return Result(len(names) > 20, [f'{len(names) // 20 * 20}+ methods'])


def run(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    program = Program(polog, sink)
    for op in case:
        program.play(op)
        check(not sink.take(), 'decorating writes nothing')
        program.call_everything()
    stacks = any(x['op'] == 'class' and any(y[1] > 1 for y in x['methods'].values()) for x in case)
    return Result(stacks or any(x > 1 for x in program.times.values()) or len(program.functions) > 2, sorted({x['op'] for x in case}))


FACETS = [Facet('programs', strategy, run, quick=7000), Facet('wide', wide_strategy, run_wide, quick=400)]
