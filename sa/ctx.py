"""What the checks of one run share: the parsed project and lazily computed models."""
from .project import Project


class Ctx:
    def __init__(self, root=None, overlay=None):
        self.p = Project(root, overlay)
        self._c = {}
        self.tier = 'quick'

    def lazy(self, key, f):
        if key not in self._c:
            self._c[key] = f()
        return self._c[key]

    @property
    def wire(self):
        from .wire import Wire
        return self.lazy('wire', lambda: Wire(self.p))
