"""The clock as a parameter; imported before polog."""
import time

_real_time = time.time


class Clock:
    now = None


def _clock():
    return _real_time() if Clock.now is None else Clock.now


time.time = _clock
