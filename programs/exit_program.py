"""A program that logs and ends, described by a JSON case. Run by checks/c04.py in a process of its own."""
import atexit
import json
import os
import signal
import sys
import threading
import time

case = json.loads(sys.argv[1])
out = os.open(sys.argv[2], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
# What the environment does about SIGINT (ignored in background jobs of a shell) must not matter.
signal.signal(signal.SIGINT, {'default': signal.default_int_handler, 'ignored': signal.SIG_IGN, 'own': lambda number, frame: None}[case['sigint']])
sys.path.insert(0, sys.argv[3])  # the code under test
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib.events import Emitter


def note(*parts):
    os.write(out, (json.dumps(parts) + '\n').encode())


emitter = None


def make_exit_function(name, kinds):
    def function():
        for index, kind in enumerate(kinds):
            emitter.emit(kind, f'{name} {index}')
            note('logged', f'{name} {index}')
        note('left', name)
    return function


atexit.register(make_exit_function('early', case['early']))

import polog
from polog import config

emitter = Emitter(polog)


def make_handler(index, behaviour, delay):
    def handler(log):
        message = log.get('message')
        if message == 'stuck':
            if case['stuck'] == 'sleep':
                time.sleep(100000)
            elif case['stuck'] == 'event':
                threading.Event().wait()
            elif case['stuck'] == 'sleeps':
                while True:
                    time.sleep(0.01)
        time.sleep(delay)
        note('handled', index, message)
        if behaviour == 'raise':
            raise ValueError('handler failed')
        if behaviour == 'exit':
            sys.exit(5)
        if behaviour == 'logging' and not message.startswith('inner'):
            polog.log(f'inner {message}')
    return handler


for index, behaviour in enumerate(case['handlers']):
    config.add_handlers(make_handler(index, behaviour, case['delay'] / 1000))
if case['limit'] is not None:
    config.set(max_delay_before_exit=float(case['limit']) if case['limit'] == 'inf' else case['limit'])
if case['time_quant'] is not None:
    config.set(time_quant=case['time_quant'])
config.set(pool_size=case['pool'])
if case['pool']:
    config.set(max_queue_size=case['queue'])

atexit.register(make_exit_function('middle', case['middle']))

if case['stuck']:
    for index in range(case['stuck_times']):
        polog.log('stuck')
if case['reload']:
    # Another thread changes a setting: that waits for the stuck handler.
    threading.Thread(target=config.set, kwargs={'pool_size': case['pool'] + 1}, daemon=True).start()
    time.sleep(0.05)


def log_all(name, kinds):
    for index, kind in enumerate(kinds):
        emitter.emit(kind, f'{name} {index}')
        note('logged', f'{name} {index}')


log_all('main', case['events'] * case.get('repeat', 1))

atexit.register(make_exit_function('late', case['late']))

if case['thread']:
    def body():
        threading.main_thread().join()
        log_all('thread', case['thread'])
    threading.Thread(target=body).start()

# The log is written when its object is dropped: at the very end, if the program keeps it.
kept = []
for index, kind in enumerate(case.get('kept', [])):
    one = polog.log(f'kept {index}', **({'level': 7} if kind == 'level' else {}))
    if kind == 'cycle':
        one = [one]
        one.append(one)
    elif kind == 'attribute':
        threading.current_thread().kept = one
    if kind != 'attribute':
        kept.append(one)
    note('logged', f'kept {index}')
one = None

note('end', time.time())
if case['end'] == 'exit':
    sys.exit(3)
elif case['end'] == 'error':
    raise RuntimeError('an expected end')
elif case['end'] == 'interrupt':
    raise KeyboardInterrupt
elif case['end'] == 'decorated':
    @polog.log(message='the end')
    def function():
        sys.exit(3)
    function()
