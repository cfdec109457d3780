"""Shared by the drivers: calling the real code safely and encoding what it did."""
import contextlib, copy, io, signal, os, sys, tempfile, shutil

class Timeout(BaseException):
    pass

def _alarm(sig, frame):
    raise Timeout()

signal.signal(signal.SIGALRM, _alarm)

class Exc:
    """The call raised (or did not return): part of the observation."""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'EXC:' + self.name

timeouts = 0     # calls that did not return: code that hangs once is given less time later

def call(f, *a, **k):
    global timeouts
    # the alarm goes off again and again: the code may swallow the exception
    signal.setitimer(signal.ITIMER_REAL, (30, 10, 5, 2, 1)[min(timeouts, 4)], 0.2)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k)
    except Timeout:
        timeouts += 1
        return Exc('Timeout')
    except RecursionError:
        return Exc('RecursionError')
    except Exception as e:
        return Exc(type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def cps(s):
    return [ord(c) for c in s]

def uncps(a):
    return ''.join(chr(c) for c in a)

LIMIT = 2 ** 31 - 1

class Unencodable(Exception):
    pass

def scaled(x, k):
    """exact integer value of x*k (x must be a multiple of 1/k)"""
    y = x * k
    z = int(round(y))
    if y != z or abs(z) > LIMIT:
        raise Unencodable('not a multiple of 1/%d: %r' % (k, x))
    return z

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
