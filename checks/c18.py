"""C18: the language of rotation rules."""
import os
import re
import sys

from hypothesis import strategies as st

from vlib import clock, files, fresh, kit, sched
from vlib.core import Facet, Result, check, check_eq

ID = 'C18'
TECHNIQUE = 'grammar-based generation of rotation strings (and mutations of them) against an independent parser, with files of generated (sparse) sizes around the limits; generated patterns of tokens against a reference matcher'
RULE = ('Facet "rules": rotation strings from the grammar (0 - 3 rules, all size names, odd spacing, separators and directories), their mutations and random texts; accepted ones run a history of writes over files whose sizes are set '
        'around the limits (sparse, up to the petabytes where the file system allows). Non-trivial: the string is refused, or both a write with and a write without a rotation happened. Facet "threads": threads write through one handler under a generated schedule; no archive may be smaller than the least limit. Non-trivial: a preemption and a rotation. Facet "patterns": patterns and token lists. Non-trivial: a match, or a pattern with "*" or a value.')
ASSUMPTIONS = ['numbers are written in ASCII digits, with or without the minus', 'a string without rules (empty or only ">> directory") means no rotation']

UNITS = ['b', 'kb', 'mb', 'gb', 'tb', 'pb']
NAMES = ['byte', 'kilobyte', 'megabyte', 'gigabyte', 'terabyte', 'petabyte']
SIZES = {**{name: 1024 ** index for index, name in enumerate(UNITS)}, **{name: 1024 ** index for index, name in enumerate(NAMES)}, **{name + 's': 1024 ** index for index, name in enumerate(NAMES)}}

space = st.sampled_from(['', '', ' ', '  ', '\t', ' \n '])
gap = st.sampled_from([' ', ' ', ' ', '   ', '\t', '\n'])
number = kit.weighted((4, st.integers(1, 40).map(str)), (2, st.sampled_from(['1023', '1024', '1025', '007', '100500'])), (1, st.integers(1, 10 ** 6).map(str)))
rule = st.tuples(number, gap, kit.weighted((3, st.sampled_from(['b', 'bytes', 'kb', 'byte'])), (3, st.sampled_from(sorted(SIZES))))).map(''.join)
bad_number = st.sampled_from(['0', '-1', '-5', '00', '1.5', '2.0', '1e3', 'five', '', '0x10', '½', '10%', 'b', '-0'])
bad_size = st.sampled_from(['', 'KB', 'Mb', 'kbs', 'bs', 'k', 'kib', 'bit', 'kilobytess', 'eb', 'exabyte', 'days', '5', 'kb.', 'mbs', 'byte s'])
bad_rule = st.one_of(
    st.tuples(bad_number, gap, st.sampled_from(sorted(SIZES))).map(''.join),
    st.tuples(number, gap, bad_size).map(''.join),
    st.tuples(number, st.sampled_from(sorted(SIZES))).map(''.join),
    st.tuples(st.sampled_from(sorted(SIZES)), gap, number).map(''.join),
    st.tuples(rule, gap, rule).map(''.join),
    st.tuples(rule, gap, st.sampled_from(['b', '5', 'or', '.'])).map(''.join),
    st.tuples(st.sampled_from(['5', 'b', 'or', '.', '>']), gap, rule).map(''.join),
    st.text(alphabet='0123456789 bkmgtps.,;>-', max_size=12),
)
directory = st.sampled_from(['archive', 'a/b/c', 'with space', 'x,y;z', '.', '..hidden', 'ABSOLUTE/here', 'logs', '5 mb', 'a > b'])


@st.composite
def source(draw):
    good = draw(st.integers(0, 9)) < 7
    rules = draw(st.lists(rule, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))
    if not good:
        rules.insert(draw(st.integers(0, len(rules))), draw(bad_rule))
    text = draw(space)
    for index, one in enumerate(rules):
        if index:
            text += draw(st.sampled_from([',', ';', ', ', ' ; ', ',,', '; ,']))
        text += one + draw(space)
    text += draw(st.sampled_from(['', '', '', ',', ' ;']))
    tail = draw(st.sampled_from(['none', 'none', 'directory', 'directory', 'directory', 'blank', 'double']))
    if tail == 'directory':
        text += '>>' + draw(space) + draw(directory) + draw(space)
    elif tail == 'blank':
        text += '>>' + draw(st.sampled_from(['', ' ', '\t ']))
    elif tail == 'double':
        text += '>> a ' + draw(st.sampled_from(['>> b', '>>', '>>>>']))
    return text


def parse(text):
    """None if the text must be refused, otherwise (limits, directory). Written from the documentation."""
    parts = text.split('>>')
    if len(parts) > 2:
        return None
    limits = []
    for chunk in re.split('[,;]', parts[0]):
        chunk = chunk.strip()
        if not chunk:
            continue
        match = re.fullmatch(r'([0-9]+)\s+([a-z]+)', chunk)
        if match is None or int(match.group(1)) == 0 or match.group(2) not in SIZES:
            return None
        limits.append(int(match.group(1)) * SIZES[match.group(2)])
    return limits, (parts[1].strip() if len(parts) == 2 else '') or 'logs'


def rules_strategy():
    step = kit.weighted(
        (4, st.tuples(st.integers(1, 60), st.integers(0, 2), st.sampled_from([-2, -1, 0, 1, 1000])).map(list)),
        (1, st.tuples(st.integers(1, 60), st.just(-1), st.integers(0, 50)).map(list)),
        (2, st.integers(1, 60).map(lambda x: [x])),
    )
    return st.fixed_dictionaries({'source': source(), 'history': st.lists(step, min_size=2, max_size=7), 'lock': st.sampled_from(['thread', 'thread+file', None])})


def archives(directory):
    return {x: os.stat(os.path.join(directory, x)).st_size for x in os.listdir(directory) if x.endswith('.logs') or '.logs.' in x} if os.path.isdir(directory) else {}


def run_rules(case):
    ticker = clock.Clock()
    fresh.load(substitutes=ticker.modules())
    writer = fresh.module('polog.handlers.file.writer').file_writer
    item = fresh.module('polog.core.log_item').LogItem
    with files.Scratch('/dev/shm') as scratch:
        text = case['source'].replace('ABSOLUTE', scratch.path)
        expected = parse(text)
        make = lambda: writer('file.log', rotation=text, formatter=lambda log: log['message'], lock_type=case['lock'])
        if expected is None:
            try:
                handler = make()
            except ValueError:
                return Result(True, ['refused'])
            check(False, 'a malformed rotation string is accepted', text)
        limits, directory = expected
        handler = make()
        size = 0
        seen = set()
        for step in case['history']:
            if len(step) > 1:
                # Set the size of the file.
                if step[1] >= 0 and limits:
                    new = max(0, limits[step[1] % len(limits)] + step[2])
                else:
                    new = abs(step[2])
                try:
                    os.truncate("file.log", new if new < 2 ** 62 else -1)
                    size = new
                except OSError:
                    pass
            before = archives(directory)
            log = item()
            log.set_data({'message': 'x' * step[0]})
            ticker.advance(1)
            handler(log)
            after = archives(directory)
            rotate = any(size >= limit for limit in limits)
            for name in before:
                check_eq(after.get(name), before[name], f'size of the archive {name}')
            new = {k: v for k, v in after.items() if k not in before}
            check_eq(sorted(new.values()), [size] if rotate else [], f'sizes of new archives in {directory!r}, size {size}, limits {limits}')
            size = step[0] if rotate else size + step[0]
            check_eq(os.stat('file.log').st_size, size, 'size of the log file')
            seen.add(rotate)
        if not limits:
            check(not archives(directory), 'a rotation without rules')
        other = {x for x in os.listdir('.')} - {'file.log', 'file.log.lock'} - ({directory.split('/')[0]} if not os.path.isabs(directory) else {'here'})
        other = {x for x in other if not (directory == '.' and x in archives('.'))}
        check(not other, 'files in a wrong place', other)
    return Result(len(seen) == 2, ['accepted', f'{len(limits)} rules', 'both' if len(seen) == 2 else 'one kind'])


# Patterns.

WORDS = ['5', '17', 'kb', 'mb', 'or', 'x', '-3', '5.']


def letter_of(word):
    if word in SIZES:
        return 's'
    return 'n' if re.fullmatch('-?[0-9]+', word) else 'd'


# Threads of one handler.

def threads_strategy():
    return st.fixed_dictionaries({
        'limits': st.lists(st.integers(5, 120), min_size=1, max_size=2),
        'threads': st.lists(st.lists(kit.weighted((3, st.integers(1, 30)), (1, st.integers(60, 150))), min_size=1, max_size=3), min_size=2, max_size=3),
        'lock': st.sampled_from(['thread', 'thread+file']),
        'schedule': sched.schedules(max_gap=200),
    })


def run_threads(case):
    """Whoever else writes at the same moment: only a file that has reached a limit is rotated, and once."""
    world = sched.world()
    saved = sys.modules['fcntl']
    errors, alts = [], []
    limit = min(case['limits'])
    with files.Scratch() as scratch:
        sys.modules['fcntl'] = files.FakeFcntl()
        try:
            fresh.load(substitutes=world)
            writer = fresh.module('polog.handlers.file.writer').file_writer
            item = fresh.module('polog.core.log_item').LogItem
            item()
            handler = writer('file.log', rotation=', '.join(f'{x} b' for x in case['limits']) + ' >> archive', formatter=lambda log: log['message'], lock_type=case['lock'], alt=alts.append)

            def write(length):
                log = item()
                log.set_data({'message': 'x' * length})
                handler(log)

            def body(lengths):
                try:
                    for x in lengths:
                        write(x)
                except BaseException as e:
                    errors.append(e)

            def main():
                threads = [world['threading'].Thread(target=body, args=(x,), daemon=True) for x in case['threads']]
                for thread in threads:
                    thread.start()
                for thread in threads:
                    thread.join()
            _, scheduler = sched.run(case['schedule'], main)
            if errors:
                raise errors[0]
            sizes = archives('archive')
            check(all(x >= limit for x in sizes.values()), 'a file that had not reached the limit was rotated', sizes, limit)
            before = os.stat('file.log').st_size
            check_eq(before + sum(sizes.values()), sum(map(sum, case['threads'])), 'everything is written')
            _, again = sched.run({'gaps': []}, lambda: write(3))
            rotated = len(archives('archive')) - len(sizes)
            check_eq(rotated, int(before >= limit), f'a write alone after all, over {before} bytes with the limit {limit}: rotations')
            check(not alts, 'alt was called')
            files.close([handler], 0)
        finally:
            sys.modules['fcntl'] = saved
            fresh.abandon()
    return Result(scheduler.preemptions and sizes, [f'{min(len(sizes), 3)} archives'])


def patterns_strategy():
    unit = kit.weighted(
        (4, st.tuples(st.sampled_from('nsd.'), st.none())),
        (2, st.tuples(st.just('*'), st.none())),
        (2, st.tuples(st.sampled_from('nsd.'), st.sampled_from(WORDS))),
    ).map(list)
    words = st.lists(st.sampled_from(WORDS), min_size=1, max_size=6)

    @st.composite
    def case(draw):
        tokens = draw(words)
        if draw(st.booleans()):
            pattern = draw(st.lists(unit, min_size=1, max_size=6))
        else:
            # Made from the tokens: near to a match.
            pattern = []
            for word in tokens:
                kind = draw(st.sampled_from(['letter', 'value', '.', '*', 'drop', 'any']))
                pattern += {'letter': [[letter_of(word), None]], 'value': [[letter_of(word), word]], '.': [['.', None]], '*': [['*', None]], 'drop': [], 'any': [['*', None], [letter_of(word), None]]}[kind]
            if not pattern:
                pattern = [['*', None]]
        return {'tokens': tokens, 'pattern': pattern}
    return case()


def matches(pattern, tokens):
    if not pattern:
        return not tokens
    (letter, value), rest = pattern[0], pattern[1:]
    if letter == '*':
        return any(matches(rest, tokens[index:]) for index in range(len(tokens) + 1))
    if not tokens or (letter != '.' and letter_of(tokens[0]) != letter) or (value is not None and tokens[0] != value):
        return False
    return matches(rest, tokens[1:])


def run_patterns(case):
    fresh.load()
    group = fresh.module('polog.handlers.file.rotation.rules.rules.tokenization.tokenizator').Tokenizator(' '.join(case['tokens'])).generate_tokens()
    text = ''.join(letter + (f'[{value}]' if value is not None else '') for letter, value in case['pattern'])
    check_eq(len(group), len(case['tokens']), 'number of tokens')
    expected = matches(case['pattern'], case['tokens'])
    check_eq(bool(group.check_regexp(text)), expected, f'match of {text!r} and {case["tokens"]}')
    return Result(expected or '*' in text or '[' in text, ['match' if expected else 'no match'])


FACETS = [
    Facet('rules', rules_strategy, run_rules, quick=6000),
    Facet('threads', threads_strategy, run_threads, quick=1600),
    Facet('patterns', patterns_strategy, run_patterns, quick=6000),
]
