"""Questions about the standard library asked by several threads at once.

usage: thread_lib.py TRACES SEED PAIRS STOPS CROWDS"""
import importlib
import json
import random
import sys
import warnings

warnings.simplefilter('ignore')
import forks  # noqa: E402
import schedules  # noqa: E402

SECONDS = 100
NAMES = '''builtins:sum builtins:open builtins:isinstance builtins:print builtins:max
builtins:dict.update builtins:str.join builtins:int builtins:object builtins:memoryview
subprocess:run subprocess:Popen os:walk os:open os:fspath os:scandir shutil:copytree
functools:reduce functools:partial itertools:chain itertools:groupby itertools:product
math:hypot math:gcd json:dumps json:loads re:sub re:compile collections:OrderedDict
collections:deque collections:Counter.most_common asyncio:gather asyncio:run
asyncio:wait datetime:datetime datetime:datetime.now decimal:Decimal fractions:Fraction
random:Random.choices operator:itemgetter operator:attrgetter struct:pack zlib:compress
socket:socket.connect socket:create_connection ssl:create_default_context
sqlite3:connect pickle:dumps threading:Thread concurrent.futures:ThreadPoolExecutor.map
pathlib:Path.open tempfile:NamedTemporaryFile logging:getLogger logging:basicConfig
csv:reader array:array bisect:insort heapq:merge statistics:quantiles typing:NewType
typing:cast dataclasses:field dataclasses:dataclass enum:Enum contextlib:suppress
contextlib:ExitStack.push email.message:Message.get_payload http.client:HTTPConnection
xml.etree.ElementTree:parse urllib.request:urlopen zipfile:ZipFile.open tarfile:open
ctypes:cast unittest:TestCase.assertRaises unittest.mock:patch inspect:signature
types:MethodType types:SimpleNamespace weakref:finalize signal:signal select:select
hashlib:sha256 io:TextIOWrapper io:BytesIO.read codecs:open locale:setlocale
argparse:ArgumentParser.add_argument traceback:format_exc warnings:warn time:strftime
'''.split()


def find(name):
    module, _, path = name.partition(':')
    value = importlib.import_module(module)
    for part in path.split('.'):
        value = getattr(value, part)
    return value


def main():
    traces, seed, pairs, stops, crowds = sys.argv[1], *map(int, sys.argv[2:6])
    rng = random.Random(seed)
    import ask_lib

    # the questions are imported when asked, too
    def answers(names, who, given=None):
        events = []
        for name in names:
            event = ask_lib.ask(name, find(name), who=who, twice=False, keep=True)
            event['alts'] = []
            events.append(event)
            if given is not None:
                given.append((event, ask_lib.question(find(name))[1]))
        return events

    def compared(run):
        given = []
        result = run(given)
        for event, signature in given:
            if event['out'] == 'ok' and not (
                    ask_lib.question(find(event['x']))[1] == signature):
                event['out'] = 'error:unequal'
        return result

    def failed(name, who, failure):
        return {'op': 'ask', 'x': name, 'who': who, 'out': failure, 'alts': [],
                'dg': '', 'eq': 'T', 'cls': '', 'must': 'F'}
    many, count, events = 10 ** 9, 0, []

    def play(parts, who, schedule, instructions):
        nonlocal count
        count += 1

        def run(given):
            functions = [lambda part=part: answers(part, who, given) for part in parts]
            return (schedules.run(functions, schedule, instructions)
                    if schedule is not None else (schedules.together(functions), []))
        found, failure = forks.forked(lambda: compared(run), SECONDS)
        if failure:
            events.append(failed(parts[0][0], f'{parts} {who}', failure))
            return []
        for answer, part in zip(found[0], parts):
            events.extend(answer or [failed(part[0], f'{parts} {who}', 'died')])
        return [[tuple(p) for p in ps] for ps in found[1]]
    used = set()
    for i in range(pairs):
        pair = rng.sample(NAMES, 2) if rng.random() < .8 else [rng.choice(NAMES)] * 2
        used.update(pair)
        first, second = [pair[0]], [pair[1]]
        instructions = rng.random() < .3
        places = play([first, second], 'in turn', [(0, many), (1, many)], instructions)
        for k in schedules.stops(places[0] if places else [], rng, stops):
            schedule = [(0, k)]
            if rng.random() < .5:
                schedule.append((1, many))
            else:
                schedule += [(1, rng.randrange(len(places[1]) + 1)),
                             (0, rng.choice([many, 1, 20, 200]))]
            play([first, second], f'{schedule}'.replace(str(many), 'all'), schedule,
                 instructions)
    for i in range(crowds):
        names = rng.sample(NAMES, 12)
        used.update(names)
        play([rng.sample(names, len(names)) for _ in range(8)], f'crowd{i}', None, False)
    alone = []
    for name in sorted(used):
        found, failure = forks.forked(lambda: answers([name], 'alone'), SECONDS)
        alone += found or [failed(name, 'alone', failure)]
    groups = {}
    for event in alone + events:
        groups.setdefault(event['x'], []).append(event)
    with open(traces, 'w') as file:
        for i, group in enumerate(groups.values()):
            file.write(json.dumps({'id': f'lib{i}', 'schedules': count if not i else 0,
                                   'events': group}) + '\n')


main()
