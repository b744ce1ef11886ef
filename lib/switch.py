"""Thread switches between any two lines of the code under test: one call is
traced, and at a chosen line of it another thread runs an action to its end."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

from lib import core

NEW = 0     # switch at lines never switched at before


class Switcher:
    def __init__(self):
        self.home = os.path.join(os.path.realpath(core.REPO), 'opendis') + \
            os.sep
        self.ours, self.points = {}, set()
        self.side = ThreadPoolExecutor(1)

    def close(self):
        self.side.shutdown()

    def call(self, step, at, action=None):
        """(result or exception, other's results, lines run).  The action runs
        in the other thread at the at-th line of the step."""
        n, late = [0], []

        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                here = frame.f_code.co_filename, frame.f_lineno
                if n[0] == at or at == NEW and len(late) < 6 and \
                        here not in self.points:
                    self.points.add(here)
                    f = self.side.submit(action)
                    try:
                        f.result(2)
                    except Exception:
                        pass    # waits for this thread, or failed
                    late.append(f)
            return local

        def begin(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn not in self.ours:
                self.ours[fn] = os.path.realpath(fn).startswith(self.home)
            return local if self.ours[fn] else None
        sys.settrace(begin)
        try:
            out = step()
        except Exception as ex:
            out = ex
        finally:
            sys.settrace(None)
        others = []
        for f in late:
            try:
                others.append(f.result(60))
            except Exception as ex:
                others.append(ex)
        return out, others, n[0]
