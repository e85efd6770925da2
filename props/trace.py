"""Recorded sequence of calls, summarised over loops of any length."""
from .lib import *
from acev.conts import touch, _tick, seg_size, vsubst


class Trace:
    """log: ('e', event tuple) | ('loop', [(variable, lo, hi)...], log of one iteration)."""

    def __init__(self):
        self.log = []
        self.birth = _tick()

    def add(self, *ev):
        touch(self, ('event',))
        self.log.append(('e', ev))

    def _snap(self):
        return list(self.log)

    def _restore(self, s):
        self.log = list(s)

    def _finish_loop(self, fr, spec, snap):
        body = self.log[len(snap):]
        self.log = list(snap) + ([('loop', list(spec), body)] if body else [])


def only(log, keep):
    """Subsequence of the events that satisfy keep; loops without any are dropped."""
    out = []
    for p in log:
        if p[0] == 'e':
            if keep(p[1]):
                out.append(p)
        else:
            b = only(p[2], keep)
            if b:
                out.append(('loop', p[1], b))
    return out


def flat(log):
    """The events of a trace without summarised loops."""
    if any(p[0] != 'e' for p in log):
        raise Unsupported('summarised loop in a trace of given sizes')
    return [p[1] for p in log]


def var(n):
    return SymInt({((n, 1),): 1})


class Ordered(ct.SymList):
    """A list of n items item(j) whose order may be reversed any number of times; r counts the reversals."""

    class State:
        def __init__(self):
            self.r = 0

    attr = None

    def __init__(self, n, item):
        super().__init__()
        self.n, self.item = n, item
        self.state = Ordered.State()

    def _use(self):
        if self.attr is not None:
            self.attr.used(self)

    @property
    def parts(self):
        self._use()
        v = CTX().fresh('o')
        ivar(v, 0)
        x = var(v)
        return [('s', [(v, 0, self.n)], self.item(self.position(x)))]

    @parts.setter
    def parts(self, v):
        if v is not None:
            raise Unsupported('bond list rebuilt')

    def position(self, j, r=None):
        """Index of the item at position j."""
        r = self.state.r if r is None else r
        return j + imod(r, 2) * (self.n - 1 - 2 * j)

    def reverse(self):
        self._use()
        self.state.r = self.state.r + 1

    def length(self):
        return self.n

    def copy(self):
        self._use()
        c = Ordered(self.n, self.item)
        c.state.r = self.state.r
        return c

    def _bad(self, *a, **k):
        raise Unsupported('bond list changed')

    def permutes(self, o):
        return isinstance(o, Ordered) and o.item is self.item and o.n is self.n

    append = extend = __iadd__ = __setitem__ = sort = clear = pop = insert = _bad


ct.instrument_class(Ordered.State)


class OrderedAttr:
    """An attribute of the network that holds such a list and may be replaced by a reversed copy of it.  Everybody who reads the
    attribute gets a view of its own; a view that was read before a replacement is another list from then on, which has no contract."""

    def __init__(self, lst):
        self.first, self.state = lst, lst.state
        self.sets, self.uses = [], []

    def __get__(self, obj, cls=None):
        v = Ordered(self.first.n, self.first.item)
        v.state, v.attr, v.birth = self.state, self, ct._tick()
        return v

    def __set__(self, obj, v):
        if not self.first.permutes(v):
            raise Unsupported('bond list rebuilt')
        if isinstance(v, Ordered) and v.state is self.state:
            return
        for f in ct.frames():
            if any(t > f.start and b < f.start for t, b in self.uses):
                raise Unsupported('bond list replaced in a loop that uses an older one')
        self.sets.append(ct._tick())
        self.state.r = v.state.r

    def used(self, view):
        t = ct._tick()
        if any(view.birth < s for s in self.sets):
            raise Unsupported('list used that was the bond list before')
        self.uses.append((t, view.birth))
