"""The wall clock of the code under test: it is replaced before the code is loaded, so a harness can set it."""
import time

real_time_ns, real_time = time.time_ns, time.time
override = None


def time_ns():
    return real_time_ns() if override is None else override()


def time_():
    if override is None:
        return real_time()
    return override() / 1000000000


def install():
    time.time_ns = time_ns
    time.time = time_
