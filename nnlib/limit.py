"""Time limits: one for the whole check, one for single items."""
import contextlib
import signal
import time


class TimeUp(BaseException):
    """The check's own time is used up."""


class ItemTimeUp(Exception):
    """One item takes too long; it is undecided."""


_end = None
_items = []


def _tick(sig, frame):
    now = time.time()
    if _end is not None and now > _end:
        raise TimeUp()
    if _items and now > _items[-1]:
        _items[-1] = now + 1e9
        raise ItemTimeUp("takes too long")


def start(seconds):
    global _end
    _end = time.time() + seconds
    signal.signal(signal.SIGALRM, _tick)
    signal.setitimer(signal.ITIMER_REAL, 0.5, 0.5)


def stop():
    signal.setitimer(signal.ITIMER_REAL, 0)


@contextlib.contextmanager
def item(seconds):
    _items.append(time.time() + seconds)
    try:
        yield
    finally:
        _items.pop()
