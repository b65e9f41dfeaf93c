"""C21: the default text of a record in the file handler."""
import datetime
import decimal
import io
import json
import re

from hypothesis import strategies as st

from vlib import fresh, kit, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C21'
TECHNIQUE = 'differential property-based testing: generated records (field by field, with hostile values, and made by real logging calls) formatted by the file handler and by an independent reference'
RULE = ('Facet "records": records with any subset of well typed fields, levels with none, one or several names, service names, generated arguments, tracebacks with any paths, extra fields; the whole line is compared. '
        '"hostile": some fields are replaced with objects of any kind; the line must still be made, and contain all parts of the other fields in order. "events": records of real calls (functions with generated arguments, results, exceptions). '
        'Non-trivial: at least four parts beyond the four that are always there.')
ASSUMPTIONS = ['levels are named before the first line is made', 'durations are non-negative finite numbers', 'extra fields do not have names of built-in ones']

text = kit.weighted((6, st.text(max_size=12)), (1, st.sampled_from(values.LONG)), (2, st.sampled_from(['', ' | ', '"', 'a\nb', '{x}', '%s', 'кириллица'])))
identifier = st.sampled_from(['f', '_private', 'Class', 'some_function', 'имя', '<lambda>', '<module>', 'x1'])
variables = st.tuples(st.lists(values.value_specs(), max_size=3), st.dictionaries(st.sampled_from(['a', 'self', 'имя', 'x1']), values.value_specs(), max_size=3)).map(list)
frame = st.tuples(
    st.sampled_from(['/repo/x.py', 'x.py', '/dir with spaces/my file.py', '<stdin>', 'C:\\x y\\z.py', '/a, line 3, in b.py', '/путь/к.py', '<frozen importlib._bootstrap>']),
    st.integers(0, 10 ** 6), identifier, st.sampled_from(['', 'raise ValueError', 'x = 1 / 0', 'call(a,  b)', 'return "File x, line 5, in y"', 'print( "a | b" )\n           ~~~^^^~~~']),
).map(list)
fields = {
    'time': st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1)).map(lambda x: x.isoformat()),
    'level': st.sampled_from([0, 1, 2, 3, 7, 20, 50, 123456789]),
    'success': st.booleans(),
    'auto': st.booleans(),
    'message': text,
    'function': identifier,
    'class': identifier,
    'module': st.sampled_from(['module', 'a.b.c', '__main__']),
    'service_name': st.sampled_from(['service', 'other']),
    'time_of_work': kit.weighted((4, st.floats(0, 10 ** 6)), (2, st.sampled_from([0.0, 1.0, 10.0, 100.0, 0.5, 1e-8, 4e-9, 5e-9, 1200.0, 0.10, 1e-300, 1e15, 0.1 + 0.2, 20, 0, 1000])), (1, st.floats(0, 1e-6))),
    'input_variables': variables,
    'local_variables': variables,
    'result': values.value_specs(),
    'exception_type': st.sampled_from(['ValueError', 'KeyError', 'CustomError']),
    'exception_message': text,
    'traceback': kit.weighted((8, st.lists(frame, max_size=3)), (2, st.just([])), (1, st.tuples(st.lists(frame, min_size=1, max_size=3), st.integers(5, 40)).map(lambda x: x[0] * x[1]))),
}
EXTRA = ['extra', 'line', 'ip_address', 'имя', 'process', 'thread_name']


def settings_strategy():
    name = st.sampled_from(['debug', 'some', 'very_long_name_of_level', 'x', 'имя', 'second'])
    return {
        'levels': st.lists(st.tuples(name, st.sampled_from([1, 2, 3, 7, 20, 50])).map(list), max_size=4),
        'service': st.sampled_from([None, None, 'service', 'имя']),
        'separator': st.sampled_from(['\n', '\n', '\n', '', '\r\n', ' | ', '\n\n']),
    }


def subset(names):
    @st.composite
    def result(draw):
        chosen = [x for x in names if draw(st.integers(0, 2))]
        order = draw(st.permutations(chosen)) if draw(st.booleans()) else chosen
        return [[x, draw(fields[x])] for x in order]
    return result()


def records_strategy():
    extra = st.dictionaries(st.sampled_from(EXTRA), kit.weighted((3, text.map(lambda x: ['v', x])), (2, values.value_specs())), max_size=2)
    return st.fixed_dictionaries({**settings_strategy(), 'records': st.lists(st.fixed_dictionaries({'fields': subset(list(fields)), 'extra': extra}), min_size=1, max_size=2)})


def hostile_strategy():
    spoiled = st.dictionaries(st.sampled_from([x for x in fields] + EXTRA), values.value_specs(), min_size=1, max_size=3)
    record = st.fixed_dictionaries({'fields': subset(list(fields)), 'extra': st.just({}), 'spoiled': spoiled})
    return st.fixed_dictionaries({**settings_strategy(), 'records': st.lists(record, min_size=1, max_size=2)})


# The reference.

def item_text(item):
    return f'"{item["value"]}" (str)' if item['type'] == 'str' else f'{item["value"]} ({item["type"]})'


def variables_text(source):
    document = json.loads(source)
    parts = [item_text(x) for x in document.get('args', [])]
    parts += [f'{name} = {item_text(x)}' for name, x in document.get('kwargs', {}).items()]
    return ', '.join(parts)


def duration_text(number):
    exact = decimal.Decimal(number).quantize(decimal.Decimal('0.00000001'), rounding=decimal.ROUND_HALF_EVEN, context=decimal.Context(prec=400))
    digits = f'{exact:f}'
    return re.sub(r'\.?0*$', '', digits) if '.' in digits else digits


FRAME = re.compile(r'\s*File "(.*)", line (\d+), in (\S+)')


def traceback_text(source):
    frames = json.loads(source)
    if not frames:
        return 'no traceback'
    result = []
    for one in frames:
        first, _, code = one.partition('\n')
        path, line, place = FRAME.fullmatch(first).groups()
        result.append(f'{" ".join(code.split())} ("{path}", line {line}, in {place})')
    return 'traceback: ' + '; '.join(result)


def names_of(levels):
    names = {}
    for name, number in levels:
        names[name] = number
    last = {}
    for name, number in levels:
        last[number] = name
    return names, last


def reference(record, levels, service):
    """The list of (field, text) of the line."""
    names, last = names_of(levels)
    width = max([7] + [len(x) for x in names])
    get = record.get
    level = get('level')
    parts = [('time', f"[{get('time')}]" if get('time') is not None else '[----time not specified----]')]
    parts.append(('level', ('UNKNOWN' if level is None else last.get(level, str(level))).center(width)))
    parts.append(('success', {None: 'UNKNOWN', True: 'SUCCESS', False: 'ERROR'}[get('success')].center(7)))
    parts.append(('auto', ('AUTO' if get('auto') else 'MANUAL').center(6)))
    if get('message') is not None:
        parts.append(('message', f"\"{get('message')}\""))
    place = [x for x in (service, get('module'), get('class')) if x is not None]
    if get('function') is not None:
        parts.append(('function', 'where: ' + '.'.join(place + [get('function')]) + '()'))
    else:
        parts.append(('function', 'where: ' + '.'.join(place + ['?'])))
    if get('time_of_work') is not None:
        parts.append(('time_of_work', f"time of work: {duration_text(get('time_of_work'))} sec."))
    if get('input_variables') is not None:
        parts.append(('input_variables', 'input variables: ' + variables_text(get('input_variables'))))
    if get('local_variables') is not None:
        parts.append(('local_variables', 'local variables: ' + variables_text(get('local_variables'))))
    if 'result' in record:
        parts.append(('result', 'result: ' + item_text(json.loads(get('result')))))
    if get('exception_type') is not None:
        message = '' if get('exception_message') is None else f"\"{get('exception_message')}\""
        parts.append(('exception_type', f"exception: {get('exception_type')}({message})"))
    if get('traceback') is not None:
        parts.append(('traceback', traceback_text(get('traceback'))))
    known = {x for x, y in parts} | set(fields)
    for name, value in record.items():
        if name not in known and value is not None:
            if isinstance(value, str):
                parts.append((name, f'{name}: "{value}"'))
            else:
                try:
                    parts.append((name, f'{name}: {value}'))
                except Exception:
                    parts.append((name, None))  # without a text form: something must be there
    return parts


def center(text, width):
    return f'{text:^{width}}'


def python_align(parts):
    """str.center() and the "^" of formats put the odd space to different sides: use the one of formats, as documented by PEP 3101."""
    result = []
    for name, text in parts:
        if name in ('level', 'success', 'auto'):
            text = center(text.strip() if name != 'level' else text.strip(' '), len(text))
        result.append((name, text))
    return result


def compare(line, parts, separator, where):
    line = line.replace('\x00', '\\0')
    if all(x is not None for _, x in parts):
        check_eq(line, ' | '.join(x for _, x in parts).replace('\x00', '\\0') + separator, where)
        return
    # Parts without a text form.
    pattern = ' \\| '.join(re.escape(x.replace('\x00', '\\0')) if x is not None else f'{re.escape(name)}: .*' for name, x in parts)
    check(re.fullmatch(pattern + re.escape(separator), line, re.DOTALL), f'{where}: {line!r} must be like {pattern!r}')


def make_record(json_vars, json_one_variable, spec):
    record = {}
    for name, value in spec['fields']:
        if name == 'time':
            value = datetime.datetime.fromisoformat(value)
        elif name in ('input_variables', 'local_variables'):
            args, kwargs = value
            value = json_vars(*[values.build(x) for x in args], **{k: values.build(x) for k, x in kwargs.items()})
            if value is None:
                continue
        elif name == 'result':
            value = json_one_variable(values.build(value))
        elif name == 'traceback':
            value = json.dumps([f'  File "{path}", line {line}, in {place}\n' + (f'    {code}\n' if code else '') for path, line, place, code in value])
        record[name] = value
    for name, spec in spec['extra'].items():
        record[name] = values.build(spec)
    return record


class Writer:
    def __init__(self, case):
        polog = self.polog = fresh.load()
        for name, number in case['levels']:
            polog.config.levels(**{name: number})
        if case['service'] is not None:
            polog.config.set(service_name=case['service'])
        self.buffer = io.StringIO()
        self.alts = []
        self.handler = fresh.module('polog.handlers.file.writer').file_writer(self.buffer, separator=case['separator'], alt=self.alts.append)
        self.Item = fresh.module('polog.core.log_item').LogItem

    def line(self, record):
        item = self.Item()
        item.set_data(record)
        return self.write(item)

    def write(self, item):
        self.buffer.seek(0)
        self.buffer.truncate()
        self.alts.clear()
        self.handler(item)
        check(not self.alts, 'the formatting failed: the log is passed to alt')
        return self.buffer.getvalue()


def run_records(case):
    writer = Writer(case)
    module = fresh.module('polog.utils.json_vars')
    count = 0
    for spec in case['records']:
        record = make_record(module.json_vars, module.json_one_variable, spec)
        parts = python_align(reference(record, case['levels'], case['service']))
        line = writer.line(record)
        compare(line, parts, case['separator'], 'the line')
        count = max(count, len(parts))
    return Result(count >= 9, [f'{count} parts'])


DEPENDS = {'function': ['class', 'module', 'function'], 'exception_type': ['exception_type', 'exception_message']}


def run_hostile(case):
    writer = Writer(case)
    module = fresh.module('polog.utils.json_vars')
    count = 0
    for spec in case['records']:
        record = make_record(module.json_vars, module.json_one_variable, spec)
        clean = python_align(reference(record, case['levels'], case['service']))
        for name, value in spec['spoiled'].items():
            record[name] = values.build(value)
        line = writer.line(record)
        check(line.endswith(case['separator']), 'the line must end with the separator', line)
        position = 0
        for name, text in clean:
            if text is None or any(x in spec['spoiled'] for x in DEPENDS.get(name, [name])):
                continue
            found = line.find(text, position)
            check(found >= 0, f'the part of {name!r} is lost', text, line)
            position = found + len(text)
            count += 1
    return Result(count >= 8, [f'{len(spec["spoiled"])} spoiled'])


# Real calls.

def events_strategy():
    call = st.fixed_dictionaries({
        'kind': st.sampled_from(['function', 'function', 'method', 'manual', 'block', 'edit']),
        'args': st.lists(values.value_specs(), max_size=2),
        'kwargs': st.dictionaries(st.sampled_from(['a', 'имя']), values.value_specs(), max_size=2),
        'result': values.value_specs(),
        'exception': kit.weighted((2, st.none()), (1, st.sampled_from(list(values.EXCEPTIONS)))),
        'extra': st.dictionaries(st.sampled_from(EXTRA), values.value_specs(), max_size=1),
        'message': text,
        'level': st.sampled_from([1, 2, 7, 50]),
    })
    return st.fixed_dictionaries({**settings_strategy(), 'calls': st.lists(call, min_size=1, max_size=3)})


def extractor(spec):
    return lambda item: values.build(spec)


def run_events(case):
    writer = Writer(case)
    polog = writer.polog
    polog.config.set(pool_size=0, level=0)
    taken = []

    def handler(log):
        taken.append((dict(log.items()), writer.write(log)))
    polog.config.add_handlers(handler)
    log = polog.log
    count = 0
    for call in case['calls']:
        args = [values.build(x) for x in call['args']]
        kwargs = {k: values.build(x) for k, x in call['kwargs'].items()}
        extra = {k: polog.field(extractor(x)) for k, x in call['extra'].items()}

        def body(*args, **kwargs):
            local = 5
            if call['kind'] == 'edit':
                polog.log.message(call['message'], level=call['level'])
            if call['exception'] is not None:
                raise values.build_exception(call['exception'])
            return values.build(call['result'])

        class Class:
            method = body
        options = {'message': call['message'], 'level': call['level'], 'extra_fields': extra}
        try:
            if call['kind'] in ('function', 'edit'):
                log(**options)(body)(*args, **kwargs)
            elif call['kind'] == 'method':
                log(**options)(Class)().method(*args, **kwargs)
            elif call['kind'] == 'manual':
                log(call['message'], level=call['level'], success=call['exception'] is None, vars=polog.json_vars(5, *args, **kwargs))
            else:
                with log(call['message'], level=call['level']):
                    body()
        except Exception:
            pass
        check_eq(len(taken), 1, 'records')
        record, line = taken.pop()
        if record.get('local_variables') == '':
            continue
        parts = python_align(reference(record, case['levels'], case['service']))
        compare(line, parts, case['separator'], f'the line of {call["kind"]}')
        count = max(count, len(parts))
    return Result(count >= 8, [f'{count} parts'])


FACETS = [
    Facet('records', records_strategy, run_records, quick=6000),
    Facet('hostile', hostile_strategy, run_hostile, quick=4000),
    Facet('events', events_strategy, run_events, quick=2000),
]
