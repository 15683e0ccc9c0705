"""Common parts of the concrete (CPython) oracles.

An oracle gives JSON-able cases and judges each of them on the real code of
PUNX_REPO: ``judge(case)`` returns None, or a text which says what is wrong."""
import contextlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time

REPO = os.environ.get("PUNX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 60


class Bad(Exception):
    """the property does not hold for this case"""


class TooLong(BaseException):
    pass


def _alarm(*a):
    raise TooLong()


ORACLES = {}


class Oracle:
    def __init__(self, prop, cases, judge, rule):
        self.prop, self.cases, self.judge, self.rule = prop, cases, judge, rule


def oracle(prop, cases, rule):
    def deco(judge):
        ORACLES.setdefault(prop, []).append(Oracle(prop, cases, judge, rule))
        return judge

    return deco


def judge(o, case):
    """None or what is wrong"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with quiet():
            r = o.judge(case)
        return r
    except Bad as exc:
        return str(exc)
    except TooLong:
        return f"does not end within {CASE_SECONDS} s"
    finally:
        signal.alarm(0)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="punx-verif-")
    return SCRATCH


def cleanup():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix="c", dir=scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def size(case):
    return len(json.dumps(case))


def smaller(case):
    """cases with a part taken away"""
    def walk(x):
        if isinstance(x, dict):
            for k in list(x):
                if k not in ("t", "k", "op", "kind"):
                    y = dict(x)
                    del y[k]
                    yield y
            for k in list(x):
                for v in walk(x[k]):
                    y = dict(x)
                    y[k] = v
                    yield y
        elif isinstance(x, list):
            for n in range(len(x)):
                yield x[:n] + x[n + 1:]
            for n in range(len(x)):
                for v in walk(x[n]):
                    yield x[:n] + [v] + x[n + 1:]
        elif isinstance(x, str) and len(x) > 1:
            yield x[: len(x) // 2]
            yield x[:-1]
    return walk(case)


def shrink(o, case, detail, seconds=15):
    """a smaller case that fails in the same way (first words of the detail)"""
    end = time.time() + seconds
    head = detail.split(":")[0]
    again = True
    while again and time.time() < end:
        again = False
        for c in smaller(case):
            if time.time() > end:
                break
            try:
                d = judge(o, c)
            except Exception:  # noqa not a case any more
                continue
            if d is not None and d.split(":")[0] == head:
                case, detail, again = c, d, True
                break
    return case, detail


def brief(exc):
    return f"{type(exc).__name__}: {str(exc)[:200]}"
