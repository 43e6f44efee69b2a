"""One session of questions about the standard library, in an order of its own.

usage: ask_session.py OUT WHO ORDER: writes a line per question; ORDER is "forward",
"backward", "lazy" (modules are imported on the way), "alone" (each module in a process
where no other was asked for) or the seed of a shuffle."""
import json
import random
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import ask_lib  # noqa: E402
import forks  # noqa: E402
import stub_walk  # noqa: E402
from ask_sweep import TooLong, library, too_long  # noqa: E402

SECONDS = 20


def ask(x, value, who):
    signal.setitimer(signal.ITIMER_REAL, SECONDS)
    try:
        event = ask_lib.ask(x, value, who=who, twice=False, keep=True)
    except TooLong:
        event = {'op': 'ask', 'x': x, 'who': who, 'out': 'hang', 'dg': '', 'eq': 'T',
                 'cls': '', 'must': 'F'}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    event['alts'] = []
    return event


def alone(who):
    for name in stub_walk.module_names():
        found, failure = forks.forked(
                lambda: [ask(x, value, who) for x, value in library([name])], 100)
        if failure:
            found = [{'op': 'ask', 'x': name, 'who': who, 'out': failure, 'alts': [],
                      'dg': '', 'eq': 'T', 'cls': '', 'must': 'F'}]
        yield from found


def main():
    out, who, order = sys.argv[1:4]
    objects = library()
    if order == 'alone':
        events = alone(who)
    else:
        if order != 'lazy':
            objects = list(objects)
        if order == 'backward':
            objects.reverse()
        elif order not in ('lazy', 'forward'):
            random.Random(int(order)).shuffle(objects)
        events = (ask(x, value, who) for x, value in objects)
    signal.signal(signal.SIGALRM, too_long)
    with open(out, 'w') as file:
        for event in events:
            file.write(json.dumps(event) + '\n')


main()
