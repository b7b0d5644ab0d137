"""Runs functions in threads of which one at a time makes progress, switched by a generated plan.

The points where a switch can happen are the lines of the package's modules, so a plan is a
schedule that can be run again.
"""

import os
import sys
import threading

import elgas.utils

HOME = os.path.dirname(os.path.abspath(elgas.utils.__file__)) + os.sep


def gen_plan(s):
    """Numbers of lines to run before each switch."""
    mode = s.weighted([(3, "fine"), (3, "mixed"), (2, "coarse")])
    top = {"fine": 6, "mixed": 60, "coarse": 400}[mode]
    return [s.int(1, top) for _ in range(s.int(4, 40))]


class Threads:
    def __init__(self, functions, plan):
        self.functions = functions
        self.plan = plan
        self.turn = [threading.Semaphore(0) for _ in functions]
        self.live = list(range(len(functions)))
        self.results = [None] * len(functions)
        self.finished = threading.Semaphore(0)
        self.at = 0
        self.budget = plan[0]
        self.switches = 0
        self.free = False
        self.ours = {}

    def run(self):
        """Results of the functions, in their order."""
        threads = [
            threading.Thread(target=self.body, args=(i,), daemon=True)
            for i in range(len(self.functions))
        ]
        for t in threads:
            t.start()
        self.turn[0].release()
        for t in threads:
            t.join()
        return self.results

    def body(self, i):
        self.wait(i)

        def line(frame, event, arg):
            if event == "line":
                self.budget -= 1
                if self.budget <= 0:
                    self.switch(i)
            return line

        def entered(frame, event, arg):
            name = frame.f_code.co_filename
            ours = self.ours.get(name)
            if ours is None:
                ours = self.ours[name] = os.path.abspath(name).startswith(HOME)
            return line if ours else None

        sys.settrace(entered)
        try:
            self.results[i] = (True, self.functions[i]())
        except BaseException as e:
            self.results[i] = (False, e)
        finally:
            sys.settrace(None)
            k = self.live.index(i)
            self.live.remove(i)
            if self.live:
                self.refill()
                self.turn[self.live[k % len(self.live)]].release()

    def refill(self):
        self.at = (self.at + 1) % len(self.plan)
        self.budget = self.plan[self.at]

    def switch(self, i):
        if self.free:
            return
        self.refill()
        other = self.live[(self.live.index(i) + 1) % len(self.live)]
        if other != i:
            self.switches += 1
            self.turn[other].release()
            self.wait(i)

    def wait(self, i):
        if not self.free and not self.turn[i].acquire(timeout=20):
            # the thread whose turn it is waits for something another one holds: let them all run
            self.free = True
            for turn in self.turn:
                turn.release()
