"""C24: smart assert."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import fresh, kit, values
from vlib.core import REPO, VERIF, Facet, Result, check, check_eq

ID = 'C24'
TECHNIQUE = 'model-based testing: generated histories of setting changes and asserts over any objects against a table of modes; the same under real interpreters with and without -O'
RULE = ('Facet "history": changes of debug_mode, politic, strictness, level and asserts of generated expressions and messages (hostile objects included), plain, in functions under @unlog and in decorated functions. '
        'Non-trivial: a true and a false expression, or two modes. Facet "process": a real interpreter with or without -O. Always non-trivial.')
ASSUMPTIONS = ['the truth of an expression does not change while it is asserted', 'whether an expression that cannot be evaluated is recorded is not specified (at most once)']

expression = kit.weighted((3, st.booleans().map(lambda x: ['v', x])), (3, values.value_specs()), (1, st.sampled_from(['badbool', 'emptylist', 'lenzero', 'zero', 'badstr', 'emptystr']).map(lambda x: ['s', x])))
message = kit.weighted((6, st.text(max_size=10).map(lambda x: ['v', x])), (1, st.sampled_from(values.LONG).map(lambda x: ['v', x])), (2, values.value_specs()), (2, st.none()))
operation = kit.weighted(
    (6, st.fixed_dictionaries({'expression': expression, 'message': message, 'place': st.sampled_from(['plain', 'plain', 'plain', 'unlog']), 'more': kit.weighted((8, st.just(False)), (1, st.just(True)))}).map(lambda x: ['ass', x])),
    (2, st.tuples(st.just('debug_mode'), st.booleans()).map(lambda x: ['set', *x])),
    (2, st.tuples(st.just('smart_assert_politic'), st.sampled_from(['all', 'if_debug'])).map(lambda x: ['set', *x])),
    (1, st.tuples(st.sampled_from(['silent_internal_exceptions']), st.booleans()).map(lambda x: ['set', *x])),
    (1, st.tuples(st.sampled_from(['level', 'default_error_level']), st.sampled_from([0, 1, 2, 3, 5])).map(lambda x: ['set', *x])),
)


def history_strategy():
    return st.fixed_dictionaries({'history': st.lists(operation, min_size=2, max_size=10), 'workers': kit.weighted((6, st.just(0)), (1, st.just(1)))})


def text_of(*objects):
    """The first of the objects that has a text form."""
    for one in objects:
        try:
            text = str(one)
            return text if isinstance(one, str) else text
        except Exception:
            continue
    return None


def truth(x):
    try:
        return bool(x)
    except Exception:
        return None


def run_history(case):
    polog = fresh.load()
    settings = {'debug_mode': __debug__, 'smart_assert_politic': 'if_debug', 'level': 0, 'default_error_level': 2, 'silent_internal_exceptions': False}
    polog.config.set(pool_size=case['workers'], level=0, **({'time_quant': 0.0005} if case['workers'] else {}))
    records = []

    def handler(log):
        records.append(dict(log.items()))
    polog.config.add_handlers(handler)
    expected = []
    truths, modes = set(), set()

    @polog.unlog
    def unlogged(*args):
        polog.ass(*args)
    for step in case['history']:
        if step[0] == 'set':
            polog.config.set(**{step[1]: step[2]})
            settings[step[1]] = step[2]
            continue
        call = step[1]
        subject = values.build(call['expression'])
        arguments = [subject] + ([values.build(call['message'])] if call['message'] is not None else [])
        if call['more'] and call['message'] is not None:
            arguments.append('one more')
        good = truth(subject)
        debug = settings['debug_mode']
        strict = not settings['silent_internal_exceptions']
        function = {'unlog': unlogged, 'plain': polog.ass}[call['place']]
        raised = None
        before = len(records)
        try:
            function(*arguments)
        except Exception as e:
            raised = e
        if len(arguments) > 2 and strict:
            check(type(raised) is TypeError, 'too many arguments', repr(raised))
            continue
        if not debug or good:
            check(raised is None, 'an exception', repr(raised), f'debug mode {debug}, expression {good}')
        else:
            check(type(raised) is AssertionError, 'AssertionError is expected', repr(raised), f'debug mode {debug}, expression {good}')
        text = text_of(*([arguments[1], subject] if len(arguments) > 1 else [subject]))
        if raised is not None:
            check(len(raised.args) == 1 and isinstance(raised.args[0], str), 'arguments of the exception', raised.args)
            if text is not None:
                check_eq(raised.args[0], text, 'message of the exception')
        hidden = call['place'] == 'unlog' or settings['default_error_level'] < settings['level']
        if good is None:
            low, high = 0, 1
        elif not good and (not debug or settings['smart_assert_politic'] == 'all'):
            low = high = 1
        else:
            low = high = 0
        if hidden:
            low = high = 0
        expected.append((low, high, text, settings['default_error_level']))
        truths.add(good)
        modes.add((debug, settings['smart_assert_politic']))
        if not case['workers']:
            check(low <= len(records) - before <= high, 'number of records', len(records) - before, f'from {low} to {high}', f'debug mode {debug}, expression {good}, {settings}')
            for record in records[before:]:
                check_record(record, text, settings['default_error_level'])
    if case['workers']:
        kit.drain(polog)
        check(sum(x[0] for x in expected) <= len(records) <= sum(x[1] for x in expected), 'number of records', len(records))
        if all(x[0] == x[1] for x in expected):
            for record, one in zip(records, [x for x in expected if x[0]]):
                check_record(record, one[2], one[3])
    return Result(len(truths) > 1 or len(modes) > 1, [f'{len(modes)} modes'])


def check_record(record, text, level):
    if text is not None:
        check_eq(record.get('message'), text, 'message of the record')
        check_eq(record.get('exception_message'), text, 'message of the exception in the record')
    check_eq(record.get('success'), False, 'success')
    check_eq(record.get('exception_type'), 'AssertionError', 'type of the exception in the record')
    check_eq(record.get('level'), level, 'level')
    check_eq(record.get('auto'), False, 'auto')


def process_strategy():
    return st.fixed_dictionaries({'optimize': st.booleans(), 'politic': st.sampled_from(['all', 'if_debug']), 'asserts': st.lists(st.tuples(st.booleans(), st.text(alphabet='abcя ', min_size=1, max_size=5)).map(list), min_size=1, max_size=5)})


def run_process(case):
    done = subprocess.run([sys.executable, '-B'] + (['-O'] if case['optimize'] else []) + [os.path.join(VERIF, 'programs', 'assert_program.py'), json.dumps(case), REPO], capture_output=True, timeout=100)
    check_eq(done.returncode, 0, f'exit code, {done.stderr.decode(errors="replace")[-1000:]}')
    expected = []
    for good, text in case['asserts']:
        raised = [text] if not good and not case['optimize'] else None
        records = [[text, False]] if not good and (case['optimize'] or case['politic'] == 'all') else []
        expected.append([raised, records])
    check_eq(json.loads(done.stdout), expected, 'results of asserts')
    return Result(True, ['-O' if case['optimize'] else 'debug'])


FACETS = [
    Facet('history', history_strategy, run_history, quick=8000),
    Facet('process', process_strategy, run_process, quick=64),
]
