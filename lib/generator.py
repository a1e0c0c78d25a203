"""Drives scripts/fault_tree_generator.py with every random decision under control."""
import importlib.util
import os
import random
import signal
import sys

import mc


class Abandoned(BaseException):
    """The run needs more decisions than the bound."""


class Hung(BaseException):
    """The run goes on without taking decisions."""


class Controlled(random.Random):
    """A random source whose primitive decisions are numbered, recorded and replaceable."""

    def __init__(self):
        self.changes, self.bound = {}, 10 ** 9
        super().__init__(0)

    def seed(self, a=None, version=2):
        self.source = random.Random(a)
        self.seeds = a
        self.log = []

    def start(self, changes, bound):
        self.changes, self.bound, self.log = changes, bound, []

    def decide(self, alternatives, default):
        i = len(self.log)
        if i >= self.bound:
            raise Abandoned()
        v = self.changes.get(i, default)
        self.log.append((v, alternatives))
        return v

    def random(self):
        return self.decide(None, self.source.random())

    def uniform(self, a, b):
        # only a value of the output: its bounds are explored a few times
        few = sum(n == "uniform" for _, n in self.log) < 3
        return a + (b - a) * self.decide("uniform" if few else "value", self.source.random())

    def _randbelow(self, n):
        if n <= 1:
            return 0
        d = self.source.randrange(n)
        v = self.decide(n, d)
        return min(v, n - 1)

    def getrandbits(self, k):
        return self._randbelow(1 << k)


def alternatives(entry):
    value, n = entry
    if n == "value":
        return []
    if n == "uniform":
        return [0.0, 1.0]
    if n is None:
        return [x for x in (0.0, 0.5, 1 - 2.0 ** -53) if x != value]
    return [x for x in (range(n) if n <= 4 else (0, n // 2, n - 1)) if x != value]


INST = Controlled()
_modules = {}


def load(name):
    """The script as a module that draws from INST."""
    if name not in _modules:
        hidden = random.random.__self__
        if hidden is not INST:
            for k in dir(random):
                f = getattr(random, k)
                if getattr(f, "__self__", None) is hidden and hasattr(INST, k):
                    setattr(random, k, getattr(INST, k))
        d = os.path.join(mc.REPO, "scripts")
        if d not in sys.path:
            sys.path.insert(0, d)
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location(name, os.path.join(d, name + ".py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        _modules[name] = m
    return _modules[name]


def _alarm(*_):
    raise Hung()


def generate(argv, out, changes=None, bound=20000, seconds=20):
    """(status, text or error, log): runs the script's main function.
    status: "ok", "rejected" (its own error), "abandoned", "hung", "crashed"."""
    m = load("fault_tree_generator")
    INST.start(changes or {}, bound)
    if os.path.exists(out):
        os.unlink(out)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        m.main(list(argv) + ["-o", out])
        status, text = "ok", None
    except m.FactorError as e:
        status, text = "rejected", str(e)
    except m.ap.ArgumentTypeError as e:
        status, text = "rejected", str(e)
    except Abandoned:
        status, text = "abandoned", None
    except Hung:
        status, text = "hung", None
    except Exception as e:      # what the user sees is a traceback
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        status, text = "crashed", "%s: %s (%s)" % (type(e).__name__, e, tb.name)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    log = INST.log
    if status == "ok":
        with open(out) as f:
            text = f.read()
    return status, text, log
