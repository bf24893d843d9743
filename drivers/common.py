"""
Shared by the drivers, which run under the interpreter of the repository (PyPy 3.9) with
/repo first on the path.  A driver reads plans (one JSON object per line), executes each
against the real code and writes one behaviour per plan (one JSON object per line).

Numbers are written as exact rationals "n" or "n/d"; absent values as "None".
"""
import io
import json
import os
import signal
import sys
import contextlib
import traceback
from decimal import Decimal
from fractions import Fraction


class NotAValue(Exception):
    """the implementation returned something which is not a value of the expected kind"""


class Hang(BaseException):
    """the call did not return in time"""


def rat(x, none_ok=False):
    """exact rational of a number, as string"""
    if x is None:
        if none_ok:
            return "None"
        raise NotAValue("None")
    if isinstance(x, str):
        raise NotAValue(f"string {x!r}")
    if isinstance(x, (bool,)):
        raise NotAValue(repr(x))
    try:
        if isinstance(x, (int, Fraction)):
            f = Fraction(x)
        elif isinstance(x, Decimal):
            f = Fraction(x)
        else:
            f = Fraction(float(x))
    except (ValueError, OverflowError, TypeError) as e:
        raise NotAValue(f"{type(x).__name__} {x!r}: {e}")
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def ratn(x):
    """same, where None and NaN (pandas' None) are the absent value"""
    if x is None or (isinstance(x, float) and x != x):
        return "None"
    return rat(x)


def num(s):
    """plan number -> the int or float passed to the code"""
    if s == "None" or s is None:
        return None
    f = Fraction(s)
    return int(f) if f.denominator == 1 else float(f)


def boolean(x):
    if x is True or x is False:
        return x
    if type(x).__name__ in ("bool_", "bool"):
        return bool(x)
    raise NotAValue(f"not a truth value: {x!r}")


def integer(x):
    if isinstance(x, bool):
        raise NotAValue(repr(x))
    try:
        i = int(x)
    except Exception as e:
        raise NotAValue(repr(x))
    if i != x or abs(i) >= 2 ** 31:
        raise NotAValue(repr(x))
    return i


def string(x):
    if not isinstance(x, str):
        raise NotAValue(f"not a string: {x!r}")
    return x


def records(df):
    """rows of a data frame as dicts"""
    cols = list(df.columns)
    return [dict(zip(cols, row)) for row in df.itertuples(index=False, name=None)]


@contextlib.contextmanager
def timelimit(seconds):
    def h(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


def main(run, limit=60, head=None):
    """run(plan, emit): executes a plan; emit(event) records an event; head(plan): what else to record"""
    src, dst = sys.argv[1:3]
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            plan = json.loads(line)
            evs = []
            try:
                with timelimit(limit), quiet():
                    run(plan, evs.append)
            except Hang:
                evs.append({"op": "hang", "wf": False, "err": f"no answer within {limit} s"})
            except Exception as e:
                evs.append({"op": "crash", "wf": False,
                            "err": "".join(traceback.format_exception_only(type(e), e)).strip()[:300],
                            "at": traceback.format_tb(e.__traceback__)[-3:]})
            out = {"tid": plan["tid"], **(head(plan) if head else {}), "evs": evs}
            g.write(json.dumps(out) + "\n")
