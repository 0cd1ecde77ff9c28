"""The state at an earlier time: what a loop body or comprehension computes for an
element is worked out when it is asked for, in the state the loop found."""
from .core import ctx

MISSING = object()
epoch = [0]        # counts the marks; objects remember the one they were made in


def note(o, name=None):
    "called before the attribute, variable or collection is changed"
    m = ctx().memo
    h = m.get('heap')
    if h is None:
        return
    key = (id(o), name)
    if key in h.seen:
        return
    h.seen.add(key)
    h.log.append([o, name, read(o, name), True])


def read(o, name):
    if name is not None:
        return table(o).get(name, MISSING)
    if hasattr(o, 'entries'):
        return [list(e) if isinstance(e, list) else e for e in o.entries]
    return list(o.items)


def table(o):
    return o.locals if hasattr(o, 'locals') and not hasattr(o, 'qualname') else o.d


def swap(e):
    o, name, old, _ = e
    if name is not None:
        t = table(o)
        e[2] = t.get(name, MISSING)
        if old is MISSING:
            t.pop(name, None)
        else:
            t[name] = old
    elif hasattr(o, 'entries'):
        e[2], o.entries = o.entries, old
    else:
        e[2], o.items = o.items, old


class Heap(object):
    def __init__(self):
        self.log = []
        self.seen = set()


def mark():
    "the present, to return to later"
    m = ctx().memo
    h = m.get('heap')
    if h is None:
        h = m['heap'] = Heap()
    h.seen.clear()
    epoch[0] += 1
    return len(h.log), epoch[0]


def at(time, f, *args):
    "f(*args) in the state of an earlier time"
    h = ctx().memo['heap']
    start, since = time
    undone = [e for e in h.log[start:] if e[3] and getattr(e[0], 'birth', 0) < since]
    if not undone:
        return f(*args)
    for e in reversed(undone):
        swap(e)
        e[3] = False
    mark()
    try:
        return f(*args)
    finally:
        for e in undone:
            swap(e)
            e[3] = True
        h.seen.clear()
