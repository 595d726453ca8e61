"""
A proxy between the application and the library: every argument is compared before and after the call, then destroyed;
every returned container is copied, then destroyed. Whatever the library does afterwards is judged by the oracle of the
scenario, hence shared references show up as wrong behaviour.
"""
import inspect

from .world import Node


def dump(x, depth=0):
    """A deep, comparable description of an object."""
    if depth > 12:
        return "..."
    if isinstance(x, dict):
        return ("dict", sorted((dump(k, depth + 1), dump(v, depth + 1)) for k, v in x.items()).__repr__())
    if isinstance(x, (set, frozenset)):
        return ("set", repr(sorted(repr(dump(v, depth + 1)) for v in x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, repr([dump(v, depth + 1) for v in x]))
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return (type(x).__name__, repr(x))
    if hasattr(x, "__dict__") and not hasattr(x, "namespace_owner") and type(x).__module__ == "vt.toy" \
            and not type(x).__name__.endswith("Backend"):
        return (type(x).__name__, repr(sorted((k, repr(dump(v, depth + 1))) for k, v in vars(x).items()
                                              if k != "_hash_value")))
    return (type(x).__name__, repr(id(x)))


def mutable(x):
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, list):
        return list(x)
    return x


def destroy(x):
    if isinstance(x, dict):
        x.clear()
        x["destroyed"] = "destroyed"
    elif isinstance(x, list):
        x[:] = ["destroyed"]


class Guard:
    def __init__(self, rec):
        self.rec = rec
        self.ours = []      # containers that were passed in or returned before, in their destroyed state

    def destroy(self, name, x):
        destroy(x)
        if isinstance(x, (dict, list)):
            self.ours.append((name, x))
            self.ours = self.ours[-40:]

    def check_ours(self, name):
        """The library doesn't touch what was handed over by earlier calls."""
        for earlier, x in self.ours:
            self.rec.check(x == ({"destroyed": "destroyed"} if isinstance(x, dict) else ["destroyed"]),
                           f"a container of an earlier call of {earlier} was modified by {name}")

    def call(self, function, args, kwargs):
        args = [mutable(a) for a in args]
        kwargs = {k: mutable(v) for k, v in kwargs.items()}
        before = [dump(a) for a in args] + [dump(v) for v in kwargs.values()]
        return args, kwargs, before

    def done(self, name, args, kwargs, before):
        after = [dump(a) for a in args] + [dump(v) for v in kwargs.values()]
        self.rec.check(after == before, f"argument of {name} modified", before=[b for b, a in zip(before, after) if a != b],
                       after=[a for b, a in zip(before, after) if a != b])
        self.rec.count("guarded:" + name)
        self.check_ours(name)
        for a in list(args) + list(kwargs.values()):
            self.destroy(name, a)

    def wrap(self, mgr, _node):
        return Proxy(self, mgr)

    async def create(self, cls, args, _node):
        _, kwargs, before = self.call(cls.create, (), args)
        try:
            mgr = await cls.create(**kwargs)
        finally:
            self.done("create", (), kwargs, before)
        return mgr


class Proxy:
    def __init__(self, guard, mgr):
        self._guard, self._mgr = guard, mgr

    def __getattr__(self, name):
        attribute = getattr(self._mgr, name)
        if not inspect.iscoroutinefunction(attribute):
            return attribute
        guard = self._guard

        async def call(*args, **kwargs):
            args, kwargs, before = guard.call(attribute, args, kwargs)
            try:
                result = await attribute(*args, **kwargs)
            finally:
                guard.done(name, args, kwargs, before)
            if isinstance(result, tuple):
                parts = [mutable(r) for r in result]
                for r in result:
                    guard.destroy(name, r)
                return tuple(parts)
            copy = mutable(result)
            guard.destroy(name, result)
            return copy
        return call


def guarded(case):
    def run(rng, rec):
        Node.guard = Guard(rec)
        try:
            case(rng, rec)
        finally:
            Node.guard = None
    return run
