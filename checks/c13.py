"""C13: the tree of handlers and the local sets of handlers of decorators."""
import _thread
import collections

from hypothesis import strategies as st

from vlib import fresh, kit, sched
from vlib.core import Facet, Result, check, check_eq

ID = 'C13'
TECHNIQUE = 'model-based testing: generated histories of registrations, deletions, refused operations and decorations against a dictionary of dotted names, also by threads under a deterministic scheduler'
RULE = ('A case is a history of up to 16 operations: handlers added without a name, by keywords, by dictionaries with dotted names, deleted by name and by object, '
        'operations that must be refused (taken name or object, bad names, missing name, bad signature, None), functions, coroutines and classes decorated with handlers=[...] '
        'of names (existing or not yet, nested, repeated, "below" and "above" each other) and objects, and subtrees asked from config. After every operation a global log and a call of every decorated '
        'function are compared, handler by handler, with a dictionary of dotted names, and so are size, membership, indexing and iteration of the tree. '
        'Non-trivial: at least one deletion or late registration under a path that a living decorator listens to, or a refused operation. '
        'Facet "many": up to hundreds of handlers without names, of which some are deleted, with their possible names taken by others, and functions with up to hundreds of handlers of their own; non-trivial: more than 50 handlers. '
        'Facet "threads": threads that register and delete handlers under names of their own, decorate, call, log and ask for subtrees under a generated schedule; non-trivial: a preemption happened, and a registration with something else.')
ASSUMPTIONS = ['one object is never registered under two names at once (the documentation forbids it)',
               'an object given to a decorator together with a name that leads to the same object may be called once or twice',
               'membership of names of empty nodes (ancestors of registered names, paths somebody listens to) is not compared']

NAMES = ['a', 'b', 'a.b', 'a.b.c', 'a.b.c.d', 'a.b.c.d.e.f.g.h.i', 'a.c', 'b.a', 'b.b', 'c', 'abc', 'a_', 'пони', 'Pinkie_Pie']
BAD_NAMES = ['', ' ', 'a..b', '1a', 'a.', '.a', 'a b', 'a.1', 'a-b', '..', 'b.a.', 'a.b c']
PONIES = [f'{x}{y}'.replace(' ', '_') for xs, ys in (
    (['Twilight', 'Apple', 'Flutter', 'Rari', 'Pinkie', 'Rainbow', 'Derpy'], [' Sparkle', 'jack', 'shy', 'ty', ' Pie', ' Dash', ' Hooves']),
    (['Princess ' + x for x in ['Cad', 'Sky', 'Amo', 'Cele', 'Lu']], ['ance', 'star', 're', 'stia', 'na']),
) for x in xs for y in ys]
SINKS = 10

name = kit.weighted((20, st.sampled_from(NAMES)), (1, st.just('.')))
path = st.sampled_from(NAMES)
number = st.integers(0, SINKS - 1)
pairs = st.lists(st.tuples(name, number), min_size=1, max_size=3, unique_by=(lambda x: x[0], lambda x: x[1])).map(lambda x: [list(y) for y in x])
operation = kit.weighted(
    (3, st.lists(number, min_size=1, max_size=2, unique=True).map(lambda x: ['plain', x])),
    (2, st.tuples(st.sampled_from([x for x in NAMES if '.' not in x]), number).map(lambda x: ['named', list(x)])),
    (7, pairs.map(lambda x: ['dict', x])),
    (5, name.map(lambda x: ['delete', x])),
    (3, number.map(lambda x: ['delete_object', x])),
    (2, st.tuples(st.sampled_from(BAD_NAMES), st.sampled_from(['add', 'delete', 'get', 'decorate'])).map(lambda x: ['bad_name', *x])),
    (2, st.tuples(name, st.sampled_from(['none', 'number', 'text', 'two', 'zero', 'star', 'named', 'default']), st.sampled_from(['dict', 'plain', 'kwarg'])).map(lambda x: ['bad_handler', *x])),
    (1, st.sampled_from([None, 5, 2.0, ('a',), b'a']).map(lambda x: ['bad_key', repr(x)])),
    (5, st.fixed_dictionaries({
        'paths': st.lists(path, max_size=3),
        'own': st.lists(st.integers(0, 2), max_size=2, unique=True),
        'registered': kit.weighted((4, st.none()), (1, number)),
        'kind': st.sampled_from(['function', 'async', 'class', 'failing', 'failing async', 'failing class']),
        'container': st.sampled_from(['list', 'tuple']),
        'order': st.booleans(),
    }).map(lambda x: ['decorate', x])),
    (2, st.lists(path, min_size=1, max_size=3).map(lambda x: ['get', x])),
    (1, st.booleans().map(lambda x: ['ponies', x])),
    (1, st.just(['root_path'])),
)


def strategy():
    return st.lists(operation, min_size=2, max_size=16)


class FalsySink(kit.Sink):
    """A handler which is false and has a length: none of that matters."""
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def bad_handler(kind):
    def two(log, other):
        pass

    def zero():
        pass

    def star(*args):
        pass

    def named(log, **kwargs):
        pass

    def default(log=None):
        pass
    return {'none': None, 'number': 5, 'text': 'text', 'two': two, 'zero': zero, 'star': star, 'named': named, 'default': default}[kind]


class World:
    def __init__(self, polog):
        self.polog = polog
        self.config = polog.config
        self.sinks = [FalsySink() if x == SINKS - 1 else kit.Sink() for x in range(SINKS)]
        self.own = [kit.Sink() for x in range(3)]
        self.names = {}
        self.unnamed = []
        self.touched = set()
        self.decorated = []
        self.ponies = {}
        self.interesting = False

    # The model.

    def registered(self, sink):
        return any(x is sink for x in self.names.values()) or any(x is sink for x in self.unnamed)

    def top(self, sink):
        return any(x is sink for x in self.unnamed) or any(x is sink and '.' not in k for k, x in self.names.items())

    def listened(self, changed):
        return any(changed == x or changed.startswith(x + '.') for d in self.decorated for x in d['paths'])

    def below(self, paths):
        return [v for k, v in self.names.items() if any(k == x or k.startswith(x + '.') for x in paths)]

    # Operations.

    def refused(self, function, *errors):
        self.interesting = True
        try:
            function()
        except errors:
            return
        check(False, 'the operation must be refused', errors)

    def add(self, key, sink):
        """Does the dictionary with this item must be refused?"""
        if key in self.names:
            self.refused(lambda: self.config.add_handlers({key: sink}), NameError)
            return
        if self.registered(sink):
            return
        self.config.add_handlers({key: sink})
        self.set(key, sink)

    def set(self, key, sink):
        self.interesting = self.interesting or self.listened(key)
        self.names[key] = sink

    def do(self, step):
        kind = step[0]
        config = self.config
        if kind == 'plain':
            sinks = [self.sinks[x] for x in step[1]]
            for sink in sinks:
                if self.top(sink):
                    self.refused(lambda: config.add_handlers(sink), ValueError)
                    return
            if not any(self.registered(x) for x in sinks):
                config.add_handlers(*sinks)
                tree = config.get_handlers()
                for sink in sinks:
                    # The automatic names are not specified. When one is known, it is a name like any other: somebody may listen to it.
                    automatic = next((x for x in PONIES if tree.get(x) is sink), None)
                    if automatic is None:
                        self.unnamed.append(sink)
                    else:
                        check(automatic not in self.names, 'an automatic name is free', automatic)
                        self.set(automatic, sink)
        elif kind == 'named':
            key, sink = step[1][0], self.sinks[step[1][1]]
            if key in self.names:
                self.refused(lambda: config.add_handlers(**{key: sink}), NameError)
            elif not self.registered(sink):
                config.add_handlers(**{key: sink})
                self.set(key, sink)
        elif kind == 'dict':
            items = [(k, self.sinks[n]) for k, n in step[1]]
            if any(k in self.names or self.registered(s) for k, s in items):
                for k, s in items:
                    self.add(k, s)
            else:
                config.add_handlers(dict(items))
                for k, s in items:
                    self.set(k, s)
        elif kind == 'delete':
            if step[1] not in self.names:
                self.refused(lambda: config.delete_handlers(step[1]), KeyError)
            else:
                self.interesting = self.interesting or self.listened(step[1])
                config.delete_handlers(step[1])
                del self.names[step[1]]
        elif kind == 'delete_object':
            sink = self.sinks[step[1]]
            if self.top(sink):
                config.delete_handlers(sink)
                for k in [k for k, v in self.names.items() if v is sink]:
                    self.interesting = self.interesting or self.listened(k)
                    del self.names[k]
                self.unnamed = [x for x in self.unnamed if x is not sink]
            elif not self.registered(sink):
                self.refused(lambda: config.delete_handlers(sink), ValueError, KeyError)
        elif kind == 'bad_name':
            if step[2] == 'add':
                self.refused(lambda: config.add_handlers({step[1]: kit.Sink()}), KeyError)
            elif step[2] == 'delete':
                self.refused(lambda: config.delete_handlers(step[1]), KeyError)
            elif step[2] == 'get':
                self.refused(lambda: config.get_handlers(step[1]), KeyError)
            else:
                def wrong():
                    @self.polog.log(handlers=[step[1]])
                    def function():
                        pass
                self.refused(wrong, KeyError)
        elif kind == 'bad_handler':
            handler = bad_handler(step[2])
            if step[3] == 'plain':
                self.refused(lambda: config.add_handlers(handler), ValueError)
            elif step[1] not in self.names:
                if step[3] == 'kwarg' and '.' not in step[1]:
                    self.refused(lambda: config.add_handlers(**{step[1]: handler}), ValueError)
                else:
                    self.refused(lambda: config.add_handlers({step[1]: handler}), ValueError)
        elif kind == 'bad_key':
            self.refused(lambda: config.add_handlers({eval(step[1]): kit.Sink()}), KeyError)
            if step[1] != 'None':
                self.refused(lambda: config.delete_handlers(eval(step[1])), KeyError, ValueError)
        elif kind == 'decorate':
            self.decorate(step[1])
        elif kind == 'get':
            self.touched.update(step[1])
            tree = config.get_handlers(*step[1])
            wanted = self.below(step[1])
            self.same(list(tree), wanted, f'subtrees {step[1]}')
            check_eq(len(tree), len(wanted), f'size of subtrees {step[1]}')
            for x in step[1]:
                check(tree.get(x) is self.names.get(x), f'{x} from a subtree')
        elif kind == 'ponies':
            if step[1] and not self.ponies:
                handlers = {x: kit.Sink() for x in PONIES if x not in self.names}
                try:
                    config.add_handlers(handlers)
                except NameError:
                    # One of the names was given to an unnamed handler before: what is registered is unknown, forget about this step.
                    for x in handlers:
                        if config.get_handlers().get(x) is handlers[x]:
                            config.delete_handlers(x)
                    return
                self.ponies = handlers
                for k, v in handlers.items():
                    self.set(k, v)
            elif self.ponies:
                for x in self.ponies:
                    if x in self.names:
                        config.delete_handlers(x)
                        del self.names[x]
                self.ponies = {}
        elif kind == 'root_path':
            def wrong():
                @self.polog.log(handlers=['.'])
                def function():
                    pass
            self.refused(wrong, ValueError)

    def decorate(self, data):
        paths = list(data['paths'])
        if self.ponies and paths:
            paths.extend(list(self.ponies)[:20])
        own = [self.own[x] for x in data['own']]
        extra = [] if data['registered'] is None else [self.sinks[data['registered']]]
        handlers = own + extra + paths if data['order'] else paths + own + extra
        if data['container'] == 'tuple':
            handlers = tuple(handlers)
        self.touched.update(paths)
        decorator = self.polog.log(handlers=handlers)
        if data['kind'] == 'function':
            @decorator
            def function(uid):
                return uid
        elif data['kind'] == 'failing':
            @decorator
            def function(uid):
                raise ValueError(uid)
        elif data['kind'] in ('async', 'failing async'):
            @decorator
            async def wrapped(uid):
                if data['kind'] == 'failing async':
                    raise ValueError(uid)
                return uid

            def function(uid):
                kit.drive(wrapped(uid))
        else:
            @decorator
            class Owner:
                def method(self, uid):
                    if data['kind'] == 'failing class':
                        raise ValueError(uid)
                    return uid
            function = Owner().method
        self.decorated.append({'function': function, 'paths': paths, 'objects': own + extra, 'kind': data['kind']})

    # Comparisons.

    def same(self, real, wanted, what):
        check_eq(sorted(map(id, real)), sorted(map(id, wanted)), f'{what}: handlers')

    def counts(self):
        result = {}
        for sink in [*self.sinks, *self.own, *self.ponies.values()]:
            if sink.records:
                result[id(sink)] = len(sink.records)
                sink.take()
        return result

    def compare(self, what, wanted, objects=()):
        real = self.counts()
        expected = {id(x): 1 for x in wanted}
        for x in objects:
            if id(x) in expected and real.get(id(x)) == 2:
                real[id(x)] = 1
            expected[id(x)] = 1
        check(real == expected, f'{what}: which handlers got the record, and how many times',
              {self.title(k): v for k, v in real.items()}, {self.title(k): v for k, v in expected.items()})

    def title(self, number):
        for k, v in self.names.items():
            if id(v) == number:
                return k
        for k, v in enumerate(self.own):
            if id(v) == number:
                return f'own {k}'
        for k, v in enumerate(self.sinks):
            if id(v) == number:
                return f'sink {k}'
        return 'other'

    def read_text(self, text):
        """A line for each node, each under its parent and shifted by a tab; the names of empty nodes are not compared."""
        if not self.names and not self.unnamed:
            check('empty' in text and '\n' not in text, 'text of an empty tree', text)
            return
        path, found = [], []
        for line in text.split('\n')[2:]:
            line = line.rstrip('>')
            depth = len(line) - len(line.lstrip('\t'))
            name = line.strip('\t|').replace('\033[4m', '').replace('\033[0m', '')
            check(1 <= depth <= len(path) + 1, 'text of the tree: a line is under its parent', text)
            path[depth - 1:] = [name]
            found.append('.'.join(path))
        check_eq(len(set(found)), len(found), 'text of the tree: names are not repeated')
        missing = set(self.names) - set(found) - {'.'}
        check(not missing, 'text of the tree: all the names are here', missing, text)
        known = set(self.names) | self.touched
        alien = [x for x in found if not any(k == x or k.startswith(x + '.') for k in known)]
        check_eq(len(alien), len(self.unnamed), 'text of the tree: other names')

    def verify(self):
        everything = [*self.names.values(), *self.unnamed]
        self.polog.log('global')
        self.compare('manual log', everything)
        for d in self.decorated:
            try:
                d['function']('x')
            except ValueError:
                check('failing' in d['kind'], 'exception', d['kind'])
            self.compare(f"call with handlers {d['paths']} and {len(d['objects'])} objects", self.below(d['paths']), d['objects'])
        tree = self.config.get_handlers()
        check_eq(len(tree), len(everything), 'size of the tree')
        self.same(list(tree), everything, 'iteration over the tree')
        self.read_text(str(tree))
        for x in NAMES + ['missing', 'a.missing']:
            if x in self.names:
                check(x in tree, f'{x} in the tree')
                check(tree[x] is self.names[x], f'{x}: handler under the name')
            else:
                check(tree.get(x) is None, f'{x}: nothing under the name')
                try:
                    tree[x]
                except KeyError:
                    pass
                else:
                    check(False, f'{x}: KeyError expected')
                if not any(t.startswith(x + '.') or t == x for t in [*self.names, *self.touched]):
                    check(x not in tree, f'{x} is not in the tree')


def run(case):
    polog = fresh.load()
    world = World(polog)
    for step in case:
        world.do(step)
        world.verify()
    return Result(world.interesting and len(world.names) + len(world.unnamed) > 0, [f'{len(world.decorated)} decorators'])


# Many handlers.

def many_strategy():
    step = kit.weighted(
        (4, st.integers(1, 60).map(lambda x: ['add', x])),
        (2, st.integers(0, 9).map(lambda x: ['delete_some', x])),
        (1, st.just(['delete_all'])),
        (2, st.lists(st.sampled_from(PONIES), min_size=1, max_size=12, unique=True).map(lambda x: ['take_names', x])),
        (2, st.tuples(st.integers(0, 70), st.integers(0, 50), st.booleans()).map(lambda x: ['decorate', *x])),
    )
    return st.lists(step, min_size=2, max_size=8)


def run_many(case):
    """Handlers without names get free names, all different, however many they are."""
    polog = fresh.load()
    config = polog.config
    handlers, taken = [], {}
    decorated = []
    total = 0
    for step in case:
        if step[0] == 'add':
            new = [CountingSink() for x in range(step[1])]
            config.add_handlers(*new)
            handlers.extend(new)
            total += len(new)
        elif step[0] == 'delete_some':
            victims = handlers[step[1]::10]
            config.delete_handlers(*victims)
            handlers = [x for x in handlers if not any(x is y for y in victims)]
        elif step[0] == 'delete_all':
            if handlers:
                config.delete_handlers(*handlers)
            handlers = []
        elif step[0] == 'decorate':
            # A lot of handlers of one function: objects and names, of which a half is registered, or will be.
            objects, paths = [CountingSink() for x in range(step[1])], [f'wide.n{x}' for x in range(step[2])]
            for path in paths[::2]:
                if path not in taken:
                    taken[path] = CountingSink()
                    config.add_handlers({path: taken[path]})

            @polog.log(handlers=objects + paths if step[3] else paths + objects)
            def function():
                pass
            decorated.append((function, objects, paths))
            total += len(objects) + len(paths)
        else:
            for name in step[1]:
                if config.get_handlers().get(name) is None:
                    taken[name] = CountingSink()
                    config.add_handlers({name: taken[name]})
        everything = [*handlers, *taken.values()]
        tree = config.get_handlers()
        check_eq(len(tree), len(everything), 'size of the tree')
        check_eq(sorted(map(id, tree)), sorted(map(id, everything)), 'handlers of the tree')
        for name, sink in taken.items():
            check(tree[name] is sink, f'{name}: handler under the name')
        polog.log('text')
        for sink in everything:
            check_eq(sum(sink.counts.values()), 1, 'records got by a handler')
            sink.counts.clear()
        for function, objects, paths in decorated:
            function()
            listeners = {id(x) for x in [*objects, *(taken[x] for x in paths if x in taken)]}
            for sink in [*everything, *(x for y in decorated for x in y[1])]:
                check_eq(sum(sink.counts.values()), int(id(sink) in listeners), 'records of a decorated function got by a handler')
                sink.counts.clear()
    return Result(total > 50, [f'{min(total // 50 * 50, 200)}+ handlers'])


# Several threads.

def own_names(number):
    return [x.replace('?', str(number)) for x in ('t?', 'a.t?', 'a.b.t?', 'a.b.c.t?', 'a.t?.c', 'x.y?.z', 'x.y?')]


SHARED = ['a', 'a.b', 'a.b.c', 'x', 'n', 'n.m', 'n.m.k']
INITIAL = ['a', 'a.b.c', 'a.p', 'x', 'n.m', 'p']
threaded_operation = kit.weighted(
    (6, st.integers(0, 6).map(lambda x: ['add', x])),
    (5, st.integers(0, 6).map(lambda x: ['delete', x])),
    (5, st.lists(st.one_of(st.sampled_from(SHARED), st.integers(0, 6)), min_size=1, max_size=2).map(lambda x: ['decorate', x])),
    (3, st.just(['call'])),
    (2, st.just(['log'])),
    (1, st.lists(st.one_of(st.sampled_from(SHARED), st.integers(0, 6)), min_size=1, max_size=2).map(lambda x: ['get', x])),
    (1, st.integers(0, 6).map(lambda x: ['look', x])),
)


def threads_strategy():
    return st.fixed_dictionaries({
        'initial': st.lists(st.sampled_from(INITIAL), max_size=3, unique=True),
        'threads': st.lists(st.lists(threaded_operation, min_size=1, max_size=5), min_size=2, max_size=3),
        'schedule': sched.schedules(max_gap=300),
    })


class CountingSink:
    """Counts the records by the threads they were made in (without workers a record is handled where it is made)."""
    def __init__(self):
        self.counts = collections.Counter()

    def __call__(self, log):
        self.counts[_thread.get_ident()] += 1


def lies_below(key, paths):
    return any(key == x or key.startswith(x + '.') for x in paths)


def run_threads(case):
    world = sched.world()
    polog = fresh.load(substitutes=world)
    config = polog.config
    initial = {x: CountingSink() for x in case['initial']}
    errors, registered, decorated = [], [{} for x in case['threads']], []
    everything = [(None, k, v) for k, v in initial.items()]

    def compare(number, paths, what):
        """What the current thread has just delivered. Handlers of the other threads come and go."""
        me = _thread.get_ident()
        for owner, key, sink in list(everything):
            count = sink.counts.pop(me, 0)
            below = paths is None or lies_below(key, paths)
            if not below:
                check_eq(count, 0, f'{what}: {key} is not in the list of the decorator')
            elif owner is None:
                check_eq(count, 1, f'{what}: records got by {key}, which is registered all the time')
            elif owner == number:
                check_eq(count, int(registered[number].get(key) is sink), f'{what}: records got by {key}, which belongs to this thread')
            else:
                check(count in (0, 1), f'{what}: {key} got a record twice')

    def decorate(paths):
        @polog.log(handlers=paths)
        def function():
            pass
        decorated.append((paths, function))
        return paths, function

    def body(number, steps):
        names = own_names(number)
        mine = registered[number]
        own_decorated = []
        try:
            for step in steps:
                if step[0] == 'add' and names[step[1]] not in mine:
                    key, sink = names[step[1]], CountingSink()
                    everything.append((number, key, sink))
                    config.add_handlers({key: sink})
                    mine[key] = sink
                elif step[0] == 'delete' and mine:
                    key = sorted(mine)[step[1] % len(mine)]
                    config.delete_handlers(key)
                    del mine[key]
                elif step[0] == 'decorate':
                    own_decorated.append(decorate([names[x] if isinstance(x, int) else x for x in step[1]]))
                elif step[0] == 'call' and own_decorated:
                    paths, function = own_decorated[-1]
                    function()
                    compare(number, paths, f'a call with handlers={paths} in a thread')
                elif step[0] == 'log':
                    polog.log('text')
                    compare(number, None, 'a log in a thread')
                elif step[0] == 'get':
                    paths = [names[x] if isinstance(x, int) else x for x in step[1]]
                    found = list(config.get_handlers(*paths))
                    for key, sink in [*mine.items(), *initial.items()]:
                        check_eq(sum(x is sink for x in found), int(lies_below(key, paths)), f'{key} among the handlers of {paths}')
                elif step[0] == 'look':
                    tree = config.get_handlers()
                    key = names[step[1]]
                    check(tree.get(key) is mine.get(key), f'{key} in the tree')
                    check(len(tree) >= len(initial) + len(mine), 'size of the tree', len(tree))
        except BaseException as e:
            errors.append(e)

    def main():
        config.set(pool_size=0)
        for key, sink in initial.items():
            config.add_handlers({key: sink})
        threads = [world['threading'].Thread(target=body, args=x, daemon=True) for x in enumerate(case['threads'])]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()

    try:
        _, scheduler = sched.run(case['schedule'], main)
        if errors:
            raise errors[0]
        current = {**initial, **{k: v for x in registered for k, v in x.items()}}
        # Now nobody interferes: the same as in the histories, and for handlers that appear later too.
        for late in (None, 'n.m.k.late', 'a.b.late', 'x.y0.late'):
            if late:
                current[late] = CountingSink()
                config.add_handlers({late: current[late]})
                everything.append((None, late, current[late]))
            for paths, function in [(None, lambda: polog.log('text')), *decorated]:
                function()
                for _, key, sink in everything:
                    expected = int(current.get(key) is sink and (paths is None or lies_below(key, paths)))
                    check_eq(sum(sink.counts.values()), expected, f'after all: records got by {key} from handlers={paths}')
                    sink.counts.clear()
        check_eq(len(config.get_handlers()), len(current), 'size of the tree after all')
    finally:
        fresh.abandon()
    done = {x[0] for part in case['threads'] for x in part}
    return Result(scheduler.preemptions > 0 and 'add' in done and len(done) > 1, sorted(done))


FACETS = [
    Facet('histories', strategy, run, quick=4500),
    Facet('many', many_strategy, run_many, quick=400),
    Facet('threads', threads_strategy, run_threads, quick=2400),
]
