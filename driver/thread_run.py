"""Questions about made-up worlds asked by several threads at once.

usage: thread_run.py ROOT WORLDS TRACES SEED STOPS
WORLDS: lines {id, g, k, style, prefix, threads: [[node...]...]}"""
import json
import os
import random
import sys
import warnings

warnings.simplefilter('ignore')
import alias_run  # noqa: E402
import forks  # noqa: E402
import schedules  # noqa: E402

SECONDS = 60


def functions(world, who, given):
    return [lambda session=session, i=i: [alias_run.ask(world, node,
                                                        f'{who} thread{i}', given)
                                          for node in session]
            for i, session in enumerate(world['threads'])]


def compared(world, run):
    """Answers to the same question are equal as long as they are kept."""
    given = []
    result = run(given)
    for event, signature in list(given):
        given_later = []
        alias_run.ask(world, event['x'], 'later', given_later)
        if event['out'] == 'ok' and not (given_later
                                         and given_later[0][1] == signature):
            event['out'] = 'unequal'
    return result


def failed(world, who, failure):
    return [{'op': 'ask', 'x': world['threads'][0][0], 'who': who, 'out': failure,
             'v': {'t': '?', 'n': 1, 'c': []}}]


def play(world, who, schedule, instructions):
    found, failure = forks.forked(
            lambda: compared(world, lambda given: schedules.run(
                    functions(world, who, given), schedule, instructions)), SECONDS)
    if failure:
        return failed(world, who, failure), []
    answers, places = found
    return [e if e else {'op': 'ask'} for answer in answers for e in answer or ()], \
        [[tuple(p) for p in ps] for ps in places]


def main():
    root, worlds, traces, seed, stops = sys.argv[1:6]
    rng = random.Random(int(seed))
    with open(worlds) as source, open(traces, 'w') as target:
        for line in source:
            world = json.loads(line)
            events = []
            for node in sorted({n for s in world['threads'] for n in s}):
                events += forks.forked(lambda: [alias_run.ask(world, node, 'alone')])[0]
            many = 10 ** 9
            instructions = rng.random() < .3
            found, places = play(world, 'in turn', [(0, many), (1, many)],
                                 instructions)
            events += found
            count = 1
            lengths = [len(p) for p in places]
            for first in (0, 1):
                second = 1 - first
                for k in schedules.stops(places[first] if places else [], rng,
                                         int(stops)):
                    schedule = [(first, k)]
                    if rng.random() < .5:
                        schedule += [(second, many)]
                    else:
                        schedule += [(second, rng.randrange(lengths[second] + 1)),
                                     (first, rng.choice([many, 1, 5, 50]))]
                    if len(world['threads']) > 2:
                        schedule.insert(rng.randrange(len(schedule) + 1),
                                        (2, rng.choice([many, 10, 300])))
                    events += play(world, f'{schedule}'.replace(str(many), 'all'),
                                   schedule, instructions)[0]
                    count += 1
            for i in range(2):
                found, failure = forks.forked(
                        lambda: compared(world, lambda given: schedules.together(
                                functions(world, f'together{i}', given) * 3)), SECONDS)
                events += (failed(world, f'together{i}', failure) if failure
                           else sum(found, []))
                count += 1
            target.write(json.dumps({'id': world['id'], 'g': world['g'],
                                     'k': world['k'], 'schedules': count,
                                     'instructions': instructions,
                                     'events': events}) + '\n')


main()
