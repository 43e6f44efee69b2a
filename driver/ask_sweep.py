"""Asks about everything: all objects of the standard library, however reached, unusual
objects of users and objects of users with stolen names.  Writes traces of AskTrace.tla.

usage: ask_sweep.py TRACE_OUT SEED SPOOFED_COUNT"""
import functools
import json
import random
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import ask_lib  # noqa: E402
import odd_objects  # noqa: E402
import stub_walk  # noqa: E402

SIZE = 40
SECONDS = 20


class TooLong(BaseException):
    pass


def too_long(*_):
    raise TooLong


def guarded(function, x, value, **kwargs):
    signal.setitimer(signal.ITIMER_REAL, SECONDS)
    try:
        return function(x, value, **kwargs)
    except TooLong:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def events_of(x, value):
    event = guarded(ask_lib.ask, x, value)
    if event is None:
        return [{'op': 'ask', 'x': x, 'who': '', 'out': 'hang', 'alts': [], 'dg': '',
                 'eq': 'T', 'cls': '', 'must': 'F'}]
    events = [event]
    if callable(value):
        try:
            partial = functools.partial(value)
        except Exception:
            return events
        # partials of partials of the standard class are flattened
        again = guarded(ask_lib.part, x, partial)
        events.append(again or {'op': 'part', 'x': x, 'out': 'hang', 'dg': ''})
    return events


def library(modules=None):
    seen, kept = set(), []
    for m, owner, path in stub_walk.owners(modules):
        for name in sorted(vars(owner), key=str):
            values = [vars(owner)[name]]
            if isinstance(owner, type):
                try:
                    values.append(getattr(owner, name))
                except Exception:
                    pass
            for value in values:
                if id(value) not in seen:
                    seen.add(id(value))
                    kept.append(value)
                    yield (f'{m}:{".".join(path + [str(name)])} '
                           f'{type(value).__name__}', value)


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    signal.signal(signal.SIGALRM, too_long)
    groups = []
    for x, value in library():
        groups.append(events_of(x, value))
    library_size = len(groups)
    for x, value in odd_objects.all_objects():
        groups.append(events_of('odd ' + x, value))
    odd_size = len(groups) - library_size
    for x, value in odd_objects.spoofed(seed, count):
        groups.append(events_of('spoofed ' + x, value))
    random.Random(seed).shuffle(groups)
    with open(out, 'w') as file:
        for i in range(0, len(groups), SIZE):
            file.write(json.dumps({'id': f'a{i // SIZE}', 'events': sum(
                    groups[i:i + SIZE], [])}) + '\n')
    print(json.dumps({'library': library_size, 'odd': odd_size,
                      'spoofed': len(groups) - library_size - odd_size}))


if __name__ == '__main__':
    main()
