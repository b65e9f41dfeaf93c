"""Several processes and threads increment a counter in a file under a lock of the file handler. Run by checks/c19.py."""
import json
import multiprocessing
import os
import sys
import threading
import time

case = json.loads(sys.argv[1])
sys.path.insert(0, sys.argv[2])  # the code under test

from polog.handlers.file.locks.double_lock import DoubleLock

sys.setswitchinterval(0.0002)


def increment(stop):
    with open('counter') as file:
        number = int(file.read())
    if stop:
        time.sleep(0)
    with open('counter', 'w') as file:
        file.write(str(number + 1))


def work(number, locks, errors):
    for step in range(case['steps']):
        lock = locks[(number + step) % len(locks)]
        try:
            with lock:
                increment(step % 2)
                if (number + step) % case['raise'] == 0:
                    raise KeyError('body')
        except KeyError:
            pass
        except BaseException as e:
            errors.append(repr(e))


def process(locks):
    if case['when'] == 'after':
        locks = make()
    errors = []
    threads = [threading.Thread(target=work, args=(x, locks, errors)) for x in range(case['threads'])]
    for x in threads:
        x.start()
    for x in threads:
        x.join()
    if errors:
        print(errors[0], file=sys.stderr)
        os._exit(1)


def make():
    return [DoubleLock('file.log', case['type']) for x in range(case['locks'])]


with open('counter', 'w') as file:
    file.write('0')
locks = make()
if case['used']:
    for lock in locks:
        with lock:
            pass
context = multiprocessing.get_context('fork')
processes = [context.Process(target=process, args=(locks,)) for x in range(case['processes'])]
for x in processes:
    x.start()
if case['parent']:
    process(locks)
for x in processes:
    x.join()
codes = [x.exitcode for x in processes]
with open('counter') as file:
    print(json.dumps({'counter': int(file.read()), 'codes': codes}))
