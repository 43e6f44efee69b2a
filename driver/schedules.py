"""Interleavings of threads chosen beforehand.

A schedule is a list of segments (thread, steps): the thread runs for that many steps
inside of the package (lines, or instructions if asked for) and is stopped there.  After
the last segment all of the threads run freely.  A thread that waits for another one
gives way to the next segment."""
import os
import sys
import threading
import time

import paradigm

PACKAGE = os.path.dirname(paradigm.__file__) + os.sep
POLL = .002


class Thread:
    def __init__(self, function, instructions):
        self.function, self.instructions = function, instructions
        self.left = 0
        self.free = False
        self.state = 'new'
        self.places = []
        self.result = None
        self.gate = threading.Semaphore(0)
        self.stopped = threading.Event()
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        sys.settrace(self.trace)
        try:
            self.pause()
            self.result = self.function()
        finally:
            sys.settrace(None)
            self.state = 'done'
            self.stopped.set()

    def pause(self):
        self.state = 'paused'
        self.stopped.set()
        self.gate.acquire()
        self.state = 'running'

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if self.instructions:
            frame.f_trace_opcodes = True
        return self.step

    def step(self, frame, event, arg):
        if event == ('opcode' if self.instructions else 'line'):
            self.places.append((frame.f_code.co_filename[len(PACKAGE):],
                                frame.f_lasti if self.instructions
                                else frame.f_lineno))
            if not self.free:
                if self.left <= 0:
                    self.pause()
                self.left -= 1
        return self.step

    def position(self):
        frame = sys._current_frames().get(self.thread.ident)
        return len(self.places), frame and (id(frame), frame.f_lasti)

    def go(self, steps):
        """Runs until stopped or waiting for something."""
        if self.state == 'done':
            return
        if self.state == 'paused':
            self.left = steps
            self.stopped.clear()
            self.gate.release()
        seen, same = None, 0
        while not self.stopped.wait(POLL):
            now = self.position()
            same = same + 1 if now == seen else 0
            seen = now
            if same >= 5:
                # waits for another thread
                return


def run(functions, schedule, instructions=False):
    """Results and the places each of the threads went through."""
    threads = [Thread(function, instructions) for function in functions]
    for thread in threads:
        thread.thread.start()
        thread.stopped.wait()
    for index, steps in schedule:
        threads[index].go(steps)
    for thread in threads:
        thread.free = True
    for thread in threads:
        thread.gate.release()
    for thread in threads:
        thread.thread.join()
    return ([thread.result for thread in threads],
            [thread.places for thread in threads])


def together(functions):
    """All at once, changing threads as often as the interpreter can."""
    results = [None] * len(functions)
    barrier = threading.Barrier(len(functions))
    interval = sys.getswitchinterval()

    def work(i):
        barrier.wait()
        results[i] = functions[i]()
    threads = [threading.Thread(target=work, args=(i,), daemon=True)
               for i in range(len(functions))]
    sys.setswitchinterval(1e-6)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(interval)
    return results


def stops(places, rng, count):
    """Numbers of steps to stop after: the first and the last visit of every place, and
    some at random."""
    first, last = {}, {}
    for i, place in enumerate(places):
        first.setdefault(place, i)
        last[place] = i
    chosen = sorted({*first.values(), *last.values()})
    if len(chosen) > count:
        chosen = sorted(rng.sample(chosen, count))
    else:
        others = [i for i in range(len(places)) if i not in set(chosen)]
        chosen += rng.sample(others, min(len(others), count - len(chosen)))
    return chosen
