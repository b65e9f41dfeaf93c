"""Writes lines by several threads through a file handler. Run by checks/c17.py and checks/c19.py, several copies at once."""
import json
import os
import sys
import threading
import time

case = json.loads(sys.argv[1])
index = int(sys.argv[2])
sys.path.insert(0, sys.argv[3])  # the code under test
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from polog.core.log_item import LogItem
from polog.handlers.file.writer import file_writer


def make_line(thread, number, size):
    return f'<{thread}:{number}:{"x" * size}>'


sys.setswitchinterval(0.0005)
failed = []
handlers = [file_writer('file.log', rotation=case['rotation'], lock_type=case['lock'], formatter=lambda log: log['message'] + '\n', alt=failed.append)
            for x in range(case['handlers'])]
print('ready', flush=True)
sys.stdin.readline()


def write(number):
    thread = index * 100 + number
    for line, size in enumerate(case['lines']):
        item = LogItem()
        item.set_data({'message': make_line(thread, line, size)})
        handlers[(number + line) % len(handlers)](item)


threads = [threading.Thread(target=write, args=(x,)) for x in range(case['threads'])]
for x in threads:
    x.start()
for x in threads:
    x.join()
print(json.dumps({'failed': len(failed)}), flush=True)
