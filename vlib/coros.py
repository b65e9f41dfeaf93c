"""Coroutine and generator programs driven step by step: the same program bare and decorated must look the same to its driver."""
import asyncio
import sys

from hypothesis import strategies as st

from vlib import values

THROWN = {
    'CancelledError': asyncio.CancelledError,
    'GeneratorExit': GeneratorExit,
    'KeyboardInterrupt': KeyboardInterrupt,
    'ValueError': ValueError,
    'KeyError': KeyError,
    'StopAsyncIteration': StopAsyncIteration,
}
CAUGHT = {'Exception': Exception, 'BaseException': BaseException, 'ValueError': ValueError, 'CancelledError': asyncio.CancelledError}


def forget_abandoned(problem, hook=sys.unraisablehook):
    """Coroutines left in the middle by their scripts may complain when they are thrown away: that is not interesting."""
    if not isinstance(problem.exc_value, (RuntimeError, GeneratorExit, *THROWN.values())):
        hook(problem)


sys.unraisablehook = forget_abandoned


def operations():
    simple = st.one_of(
        st.integers(0, 9).map(lambda x: ['yield', x]),
        st.integers(0, 9).map(lambda x: ['yield', x]),
        st.sampled_from(['ValueError', 'KeyError', 'CancelledError']).map(lambda x: ['raise', x]),
        st.just(['return']),
    )
    return st.recursive(
        st.lists(simple, max_size=3),
        lambda inner: st.lists(st.one_of(
            simple,
            st.tuples(st.just('try'), inner, st.sampled_from(sorted(CAUGHT)), inner).map(list),
            st.tuples(st.just('finally'), inner, inner).map(list),
        ), max_size=3),
        max_leaves=4,
    )


def scripts():
    return st.lists(st.one_of(
        st.integers(10, 19).map(lambda x: ['send', x]),
        st.integers(10, 19).map(lambda x: ['send', x]),
        st.sampled_from(sorted(THROWN)).map(lambda x: ['throw', x]),
        st.just(['close']),
    ), max_size=6)


class Echo:
    def __init__(self, value):
        self.value = value

    def __await__(self):
        got = yield self.value
        return got


class Stop(Exception):
    """The inner signal of "return"."""


class Program:
    """Plays the operations; the trace holds all that it got from outside."""
    def __init__(self, ops):
        self.ops = ops
        self.trace = []

    async def play(self, ops):
        for op in ops:
            if op[0] == 'yield':
                got = await Echo(op[1])
                self.trace.append(['got', got])
            elif op[0] == 'raise':
                error = THROWN[op[1]]('of the body')
                self.trace.append(['raised', error])
                raise error
            elif op[0] == 'return':
                return True
            elif op[0] == 'try':
                try:
                    if await self.play(op[1]):
                        return True
                except CAUGHT[op[2]] as e:
                    self.trace.append(['caught', e])
                    if await self.play(op[3]):
                        return True
            else:
                try:
                    if await self.play(op[1]):
                        return True
                finally:
                    self.trace.append(['finally'])
                    await self.play(op[2])
        return False

    async def run(self, *args, **kwargs):
        self.trace.append(['called', args, kwargs])
        await self.play(self.ops)
        self.result = object()
        return self.result


def drive(made, program, script):
    """What the driver sees, as plain data: identities are told relative to the objects of this very run."""
    seen = []
    sent = [None] + [None] * len(script)
    steps = [['send', None]] + list(script)
    for index, step in enumerate(steps):
        thrown = None
        try:
            if step[0] == 'send':
                seen.append(['yielded', made.send(step[1])])
            elif step[0] == 'throw':
                thrown = THROWN[step[1]]('of the driver')
                sent[index] = thrown
                seen.append(['yielded', made.throw(thrown)])
            else:
                made.close()
                seen.append(['closed'])
                break
        except StopIteration as e:
            seen.append(['returned', 'the result' if e.value is getattr(program, 'result', program) else repr(e.value)])
            break
        except BaseException as e:
            own = [i for i, x in enumerate(program.trace) if len(x) > 1 and x[1] is e]
            given = [i for i, x in enumerate(sent) if x is e]
            seen.append(['raised', type(e).__name__, str(e), own[:1], given])
            break
    try:
        made.close()
    except BaseException as e:
        seen.append(['at close', type(e).__name__])
    return seen


def suppressed(seen, script):
    """What the driver sees if all the exceptions are suppressed at the way out: those that are not errors (cancellation, closing) are not."""
    def is_error(name):
        return name not in ('CancelledError', 'GeneratorExit', 'KeyboardInterrupt', 'SystemExit')
    result = []
    steps = [['send', None]] + list(script)
    for index, one in enumerate(seen):
        if one[0] == 'raised' and is_error(one[1]):
            one = ['closed'] if steps[index][0] == 'close' else ['returned', 'None']
        elif one[0] == 'at close' and is_error(one[1]):
            continue
        result.append(one)
    return result


def drive_asyncgen(made, program, script):
    """The same for an asynchronous generator whose body never waits."""
    seen = []
    for step in [['send', None]] + list(script):
        thrown = None
        if step[0] == 'send':
            awaitable = made.asend(step[1])
        elif step[0] == 'throw':
            thrown = THROWN[step[1]]('of the driver')
            awaitable = made.athrow(thrown)
        else:
            awaitable = made.aclose()
        try:
            awaitable.send(None)
            seen.append(['suspended'])
            break
        except StopIteration as e:
            seen.append(['yielded', repr(e.value)])
        except BaseException as e:
            seen.append(['raised', type(e).__name__, str(e), e is thrown])
            break
        if step[0] == 'close':
            break
    try:
        made.aclose().send(None)
    except StopIteration:
        pass
    except BaseException as e:
        seen.append(['at close', type(e).__name__])
    return seen


def plain(trace):
    """The trace without identities of objects."""
    return [[x[0]] + [repr(y) for y in x[1:]] for x in trace]
