"""Re-evaluates the case of a replay file on the current tree, without the explorer: exit 1 if it (still) violates the property."""
from . import env  # noqa: F401
import importlib
import json
import sys

from . import core


def main():
    data = json.load(open(sys.argv[1]))
    module = importlib.import_module('mc.props.' + data['property'].lower())
    outcomes = []
    for attempt in range(2):  # twice: a failure has to be reproducible
        outcomes.append(core.run_case(module, data['case'], core.Stats()))
    if outcomes[0] is None:
        print('the case does not violate', data['property'])
        return 0
    print(outcomes[0][1])
    if outcomes[1] is None or outcomes[0][0] != outcomes[1][0]:
        print('warning: the second evaluation differs')
    print('VIOLATION property={} replay={}'.format(data['property'], sys.argv[1]))
    return 1


if __name__ == '__main__':
    sys.exit(main())
