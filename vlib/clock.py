"""Clocks of the process that can leap ahead, so that cases can let time pass between two steps.

Installed before the package under test is imported. Only the clocks that Python code looks at
are moved; what the operating system waits for (select, sleep, timeouts of sockets) is not.
"""

import functools
import time

REAL = {}
ahead = 0  # nanoseconds

# beyond the usual limits for "some time ago"
PAUSES = (0.3, 1.2, 2.5, 6, 11, 31, 61, 121, 301, 601, 1801, 3601, 7300, 90000)


def install():
    if REAL:
        return
    for name in ("time", "monotonic", "perf_counter"):
        for suffix, unit in (("", 1e-9), ("_ns", 1)):
            full = name + suffix
            fn = REAL[full] = getattr(time, full)
            # (no function: as an attribute of a class it would take an argument)
            setattr(time, full, functools.partial(now, fn, unit))


def now(fn, unit):
    return fn() + type(unit)(ahead * unit)


def leap(seconds):
    global ahead
    ahead += int(seconds * 10**9)


def pause(s, r, p=0.05):
    """Maybe let time pass."""
    if s.chance(p):
        leap(s.choice(PAUSES))
        r.label("time passes")
