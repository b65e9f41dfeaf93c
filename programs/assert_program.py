"""Smart asserts under python with or without -O. Run by checks/c24.py."""
import json
import sys

case = json.loads(sys.argv[1])
sys.path.insert(0, sys.argv[2])  # the code under test

from polog import ass, config

records = []


def handler(log):
    records.append([log.get('message'), log.get('success')])


config.add_handlers(handler)
config.set(pool_size=0, level=0, smart_assert_politic=case['politic'])
result = []
for expression, message in case['asserts']:
    records.clear()
    try:
        ass(expression, message)
        raised = None
    except AssertionError as e:
        raised = list(e.args)
    result.append([raised, list(records)])
print(json.dumps(result))
