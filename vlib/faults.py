"""An exception out of nowhere: raised at the n-th line which the repository's Python code executes.

What an interrupt (Ctrl-C), an alarm or the lack of memory does.  Lines of callbacks of weak references and of finalisers
do not count: exceptions are lost there."""
import os
import sys

TOOL = 4


class Interrupted(KeyboardInterrupt):
    pass


class OutOfMemory(MemoryError):
    pass


class Injector:
    """with injector.at(n): ... raises within the block, unless the work is done before"""

    def __init__(self, root, skip=()):
        self.root, self.skip = root, skip
        self.known = {}
        self.left = None
        self.where = None
        self.lines = 0
        m = sys.monitoring
        m.use_tool_id(TOOL, 'faults')
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, 0)

    def line(self, code, number):
        ours = self.known.get(code)
        if ours is None:
            ours = self.known[code] = code.co_filename.startswith(self.root) and code.co_name not in self.skip
        if not ours:
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                self.where = '%s:%d %s' % (os.path.relpath(code.co_filename, self.root), number, code.co_name)
                raise self.kind('injected')

    def run(self, f, n=None, kind=Interrupted):
        """(done, result or None): n is where to interrupt, None not at all"""
        self.left, self.kind, self.where, self.lines = n, kind, None, 0
        m = sys.monitoring
        m.set_events(TOOL, m.events.LINE)
        try:
            return True, f()
        except (Interrupted, OutOfMemory):
            return False, None
        finally:
            m.set_events(TOOL, 0)
            self.left = None
