"""
The storage interface: overlapping operations on a slow and unreliable underlying storage (linearizability per key),
comparison of cached and uncached storages, isolation of values, typed accessors, and the Maybe types.
"""
import asyncio
import copy
import json

from omemo.storage import Just, Maybe, Nothing, NothingException, Storage, StorageException

from .loop import get_loop
from .rt import Violation

KEYS = ("", "a", "A", "a/", "/a", "/a/b", "/a/b/", "ä", "a b", "/devices/a@x/list", "/devices/a@x/list/", "0", "None")
MISSING = object()


class Failure(StorageException):
    pass


class SlowStorage(Storage):
    """An underlying storage whose operations take effect somewhere between their start and their end."""

    def __init__(self, cache, rng=None, log=None):
        super().__init__(not cache)
        self.disk, self.rng, self.log = {}, rng, log
        self.fail_rate = 0.0
        self.late = 0.0      # how many of the failures happen after the operation had its effect
        self.slow = 0
        self.calls = 0

    async def _pause(self):
        for _ in range(self.rng.randrange(self.slow + 1) if self.slow else 0):
            await asyncio.sleep(0)

    async def _op(self, effect):
        self.calls += 1
        fail = self.fail_rate and self.rng.random() < self.fail_rate
        late = fail and self.rng.random() < self.late
        await self._pause()
        if fail and not late:
            raise Failure("injected")
        result = effect()
        await self._pause()
        if late:
            raise Failure("injected after the effect")
        return result

    async def _load(self, key):
        return await self._op(lambda: Just(json.loads(self.disk[key])) if key in self.disk else Nothing())

    async def _store(self, key, value):
        text = json.dumps(value)

        def effect():
            self.disk[key] = text
        await self._op(effect)

    async def _delete(self, key):
        await self._op(lambda: self.disk.pop(key, None) and None)


def json_value(rng, depth=3):
    """Any JSON value, with a preference for the awkward ones."""
    kind = rng.randrange(9 if depth else 6)
    if kind == 0:
        return None
    if kind == 1:
        return rng.random() < 0.5
    if kind == 2:
        return rng.choice((0, 1, -1, 2**31 - 1, 2**31, 2**53 + 1, -2**70, rng.randrange(-1000, 1000)))
    if kind == 3:
        return rng.choice((0.5, -0.25, 1e300, -1e-300, 1234.5678, rng.uniform(-10, 10) + 0.125))
    if kind in (4, 5):
        return text(rng)
    if kind == 6:
        return [json_value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {text(rng): json_value(rng, depth - 1) for _ in range(rng.randrange(4))}


def text(rng):
    return rng.choice(("", "a", "null", "true", "0", "1.5", "ä€😀", "\x00\n\t\"\\", "AAAA", "a" * 300,
                       "".join(rng.choice("abc/=+-_ ß") for _ in range(rng.randrange(12)))))


def same(a, b):
    """Equal, and of the same types throughout."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def plain(rec, maybe):
    """The value of a Maybe or MISSING, insisting on a coherent Maybe."""
    rec.check(isinstance(maybe, Maybe) and maybe.is_just is not maybe.is_nothing, "not a Maybe", value=maybe)
    if maybe.is_just:
        value = maybe.from_just()
        rec.check(same(value, maybe.maybe(MISSING)), "from_just and maybe disagree", value=value)
        return value
    rec.check(maybe.maybe(MISSING) is MISSING, "default of Nothing not returned")
    return MISSING


# -- schedules ----------------------------------------------------------------------------------------------------

def schedule_case(rng, rec):
    """Overlapping operations. Writers of a key take turns; the history of each key must be linearizable."""
    loop = get_loop()
    cache = rng.random() < 0.85
    keys = rng.sample(KEYS, rng.choice((1, 1, 2, 3)))
    storages = [SlowStorage(cache, rng) for _ in range(rng.choice((1, 1, 2)))]
    for storage in storages:
        storage.slow = rng.choice((1, 2, 4, 7))
        storage.fail_rate = rng.choice((0, 0, 0.15, 0.4))
        storage.late = rng.choice((0, 0.5))
    cancelling = rng.choice((0, 0, 0.2))
    clock = [0]
    writes = {}   # (storage, key) -> [(start, end, value, landed)]; the initial value is a write in the past
    reads = {}
    serial = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    for i, storage in enumerate(storages):
        for key in keys:
            if rng.random() < 0.6:
                serial[0] += 1
                value = {"s": serial[0], "v": json_value(rng, 2)}
                storage.disk[key] = json.dumps(value)
                writes[(i, key)] = [(0, 0, value, True)]
            else:
                writes[(i, key)] = [(0, 0, MISSING, True)]
            reads[(i, key)] = []

    async def idle():
        for _ in range(rng.randrange(6)):
            await asyncio.sleep(0)

    async def impatient(coro):
        """Sometimes somebody loses patience."""
        if rng.random() >= cancelling:
            return await coro
        inner = asyncio.ensure_future(coro)
        for _ in range(rng.randrange(12)):
            await asyncio.sleep(0)
        inner.cancel()
        try:
            return await inner
        except asyncio.CancelledError:
            raise Failure("cancelled") from None

    async def writer(i, key, n):
        storage = storages[i]
        for _ in range(n):
            await idle()
            remove = rng.random() < 0.35
            serial[0] += 1
            value = MISSING if remove else {"s": serial[0], "v": json_value(rng, 2)}
            before = storage.disk.get(key)
            start = tick()
            entry = [start, None, value, None]
            writes[(i, key)].append(entry)
            try:
                await impatient(storage.delete(key) if remove else storage.store(key, value))
                landed = True
            except Failure:
                landed = None
            late = landed is None and ((key not in storage.disk) if remove else (
                key in storage.disk and same(json.loads(storage.disk[key]), value)))
            landed = landed or late
            entry[1], entry[3] = tick(), landed
            if late:
                rec.count("writes_failed_late")
            elif landed:
                rec.check((key not in storage.disk) if remove else
                          (key in storage.disk and same(json.loads(storage.disk[key]), value)),
                          "a completed write isn't in the underlying storage", key=key)
                rec.count("writes_landed")
            else:
                rec.check(storage.disk.get(key) == before, "a failed write changed the underlying storage", key=key)
                rec.count("writes_failed")

    async def reader(i, key, n):
        storage = storages[i]
        for _ in range(n):
            await idle()
            start = tick()
            try:
                value = plain(rec, await impatient(storage.load(key)))
            except Failure:
                rec.count("loads_failed")
                continue
            reads[(i, key)].append((start, tick(), value))

    async def run():
        tasks = []
        for i in range(len(storages)):
            for key in keys:
                tasks.append(writer(i, key, rng.randrange(1, 5)))
                for _ in range(rng.randrange(1, 4)):
                    tasks.append(reader(i, key, rng.randrange(1, 5)))
        await asyncio.gather(*(loop.create_task(t) for t in tasks))
        for i, storage in enumerate(storages):
            storage.fail_rate = 0
            for key in keys:
                await reader(i, key, 2)
    loop.run_until_complete(run())

    overlaps = 0
    for where in writes:
        overlaps += linearizable(rec, where, [w for w in writes[where] if w[3]], reads[where])
        rec.sig([(w[0], w[1], w[2] is MISSING, w[3]) for w in writes[where]],
                [(r[0], r[1]) for r in reads[where]])
    rec.count("loads_overlapping_writes", overlaps)
    rec.sample({"keys": keys, "cache": cache, "events": clock[0], "loads_overlapping_writes": overlaps})


def linearizable(rec, where, writes, reads):
    """
    One writer at a time, hence the writes are totally ordered: every load must return a write that may have been the
    latest during the load, and no load may return an older write than a load which ended before it started.
    """
    overlaps = 0
    seen = []  # (end of the load, index of the write it returned)
    for start, end, value in sorted(reads, key=lambda r: r[0]):
        newest_done = max(i for i, w in enumerate(writes) if w[1] <= start)
        candidates = [i for i, w in enumerate(writes) if w[0] <= end and i >= newest_done]
        floor = max([i for e, i in seen if e <= start], default=-1)
        matches = [i for i in candidates if i >= floor and (
            (writes[i][2] is MISSING) == (value is MISSING) and (value is MISSING or same(writes[i][2], value)))]
        overlaps += len(candidates) > 1
        rec.check(matches, "a load returned a value that wasn't current at any time during the load", where=where,
                  value=None if value is MISSING else value, newest_done=newest_done, floor=floor,
                  writes=[(w[0], w[1], None if w[2] is MISSING else w[2]["s"]) for w in writes], load=(start, end))
        seen.append((end, min(matches)))
        rec.count("loads_judged")
    return overlaps


# -- cached against uncached --------------------------------------------------------------------------------------

def run(coro):
    return get_loop().run_until_complete(coro)


def outcome(rec, coro):
    try:
        return ("ok", plain(rec, run(coro)))
    except TypeError:
        return ("TypeError", None)
    except ValueError:
        return ("ValueError", None)
    except Failure:
        return ("Failure", None)


def compare_case(rng, rec):
    """The same history on a cached and an uncached storage: every answer is the same."""
    cached, uncached = SlowStorage(True, rng), SlowStorage(False, rng)
    keys = rng.sample(KEYS, rng.randrange(1, 5))
    history = []
    prims = (type(None), bool, int, float, str)
    for _ in range(rng.randrange(4, 25)):
        key = rng.choice(keys)
        op = rng.choice(("store", "store", "delete", "load", "load", "bytes", "typed", "typed", "foreign"))
        fail = rng.random() < 0.15
        cached.fail_rate = uncached.fail_rate = 1 if fail else 0
        cached.late = uncached.late = rng.choice((0, 1))
        history.append((op, key, fail))
        if op in ("store", "delete", "bytes"):
            value = rng.randbytes(rng.randrange(20)) if op == "bytes" else json_value(rng)
            results = []
            for s in (cached, uncached):
                try:
                    run(s.store(key, value) if op == "store" else s.delete(key) if op == "delete"
                        else s.store_bytes(key, value))
                    results.append("ok")
                except Failure:
                    results.append("failed")
            rec.check(results == ["failed"] * 2 if fail else results == ["ok"] * 2, "failure of a write misreported",
                      op=op, results=results, fail=fail)
            rec.check(cached.disk == uncached.disk, "cached and uncached storage contents differ", op=op, key=key)
            rec.count("mutations_compared")
            continue
        if op == "foreign":  # a key nobody has touched
            key = f"fresh{rng.randrange(3)}"
        for s in (cached, uncached):
            s.fail_rate = 0
        if op == "typed":
            prim = rng.choice(prims)
            method = rng.choice(("load_primitive", "load_optional", "load_list", "load_dict", "load_bytes"))
            args = (key,) if method == "load_bytes" else (key, prim)
            got = [outcome(rec, getattr(s, method)(*args)) for s in (cached, uncached)]
        else:
            got = [outcome(rec, s.load(key)) for s in (cached, uncached)]
        rec.check(got[0][0] == got[1][0] and ((got[0][1] is MISSING and got[1][1] is MISSING)
                                               or same(got[0][1], got[1][1])),
                  "cached and uncached storage answer differently", key=key, got=got, history=history)
        rec.count("loads_compared")
    uncached.fail_rate = 0
    # Without the cache, the implementation of the storage answers: here its content changes behind the library's back
    for key in keys + ["fresh0"]:
        value = MISSING if rng.random() < 0.3 else json_value(rng)
        uncached.disk.pop(key, None)
        if value is not MISSING:
            uncached.disk[key] = json.dumps(value)
        got = outcome(rec, uncached.load(key))
        rec.check(got[0] == "ok" and (got[1] is MISSING) == (value is MISSING) and (value is MISSING or same(got[1], value)),
                  "a storage without cache didn't answer from the storage", key=key, got=got)
        rec.count("answered_without_cache")
    rec.sig(history)


# -- isolation ----------------------------------------------------------------------------------------------------

def scramble(rng, value):
    """Modify every mutable container in place."""
    if isinstance(value, dict):
        for v in list(value.values()):
            scramble(rng, v)
        value["scrambled"] = rng.random()
        if len(value) > 1 and rng.random() < 0.5:
            value.pop(next(iter(value)))
    elif isinstance(value, list):
        for v in value:
            scramble(rng, v)
        value.insert(0, "scrambled")


def container(rng):
    while True:
        value = json_value(rng, 3)
        if isinstance(value, (dict, list)) and value:
            return value


def isolation_case(rng, rec):
    storage = SlowStorage(rng.random() < 0.8, rng)
    model = {}
    trace = []
    keys = rng.sample(KEYS, rng.randrange(1, 4))
    for _ in range(rng.randrange(3, 20)):
        key = rng.choice(keys)
        op = rng.choice(("store", "store", "from_just", "maybe", "fmap", "mapped", "list", "dict", "kept", "delete"))
        trace.append((op, key))
        if op == "store" or (op not in ("delete",) and key not in model):
            value = rng.choice((container, container, lambda r: [1, 2, 3], lambda r: {"a": "b"}))(rng)
            model[key] = copy.deepcopy(value)
            run(storage.store(key, value))
            rec.check(same(value, model[key]), "a stored value was modified by storing it")
            scramble(rng, value)
            rec.count("values_mutated")
        elif op == "delete":
            model.pop(key, None)
            run(storage.delete(key))
        else:
            want = model[key]
            if op == "list" and isinstance(want, list) and all(type(x) is int for x in want):
                maybe = run(storage.load_list(key, int))
            elif op == "dict" and isinstance(want, dict) and all(type(x) is str for x in want.values()):
                maybe = run(storage.load_dict(key, str))
            else:
                maybe = run(storage.load(key))
            if op == "fmap":
                maybe.fmap(lambda v: scramble(rng, v))
            elif op == "mapped":
                mapped = maybe.fmap(lambda v: v)
                scramble(rng, mapped.from_just())
                rec.check(same(mapped.from_just(), want), "modifying a mapped value changed it")
            elif op == "maybe":
                scramble(rng, maybe.maybe(None))
            elif op == "kept":
                a = run(storage.load(key)).from_just()
                scramble(rng, a)
                rec.check(same(maybe.from_just(), want), "modifying one loaded value changed another")
            else:
                scramble(rng, maybe.from_just())
            rec.count("values_mutated")
            rec.check(same(maybe.from_just(), want), "modifying a loaded value changed the Maybe it came from", op=op)
        for k in keys:
            got = plain(rec, run(storage.load(k)))
            rec.check((got is MISSING) == (k not in model) and (got is MISSING or same(got, model[k])),
                      "modifying a value outside the storage changed what is loaded", op=op, key=k)
    rec.check({k: json.loads(v) for k, v in storage.disk.items()} == model, "storage contents differ")
    rec.sig(trace)


# -- typed accessors ----------------------------------------------------------------------------------------------

PRIMITIVES = {"null": type(None), "bool": bool, "int": int, "float": float, "str": str}


def kind_of(value):
    for name, t in PRIMITIVES.items():
        if type(value) is t:
            return name
    return "list" if isinstance(value, list) else "dict"


def compatible(value, primitive):
    """True, False, or None where Python's numeric tower makes the answer a matter of taste."""
    kind = kind_of(value)
    if kind == primitive:
        return True
    if (kind, primitive) in (("bool", "int"), ("bool", "float"), ("int", "float")):
        return None  # (widening)
    return False


def all_of(verdicts):
    verdicts = list(verdicts)
    return False if False in verdicts else None if None in verdicts else True


def expected(value, method, primitive):
    if method == "load_primitive":
        return compatible(value, primitive)
    if method == "load_optional":
        return True if value is None else compatible(value, primitive)
    if method == "load_list":
        return all_of(compatible(v, primitive) for v in value) if isinstance(value, list) else False
    if method == "load_dict":
        return all_of(compatible(v, primitive) for v in value.values()) if isinstance(value, dict) else False
    raise AssertionError(method)


def primitive_value(rng, kind):
    while True:
        value = json_value(rng, 0)
        if kind_of(value) == kind:
            return value


def typed_case(rng, rec):
    storage = SlowStorage(rng.random() < 0.6, rng)
    shapes = []
    for _ in range(rng.randrange(4, 14)):
        key = rng.choice(KEYS)
        mode = rng.randrange(6)
        kind = rng.choice(list(PRIMITIVES))
        if mode == 0:
            raw = rng.choice((b"", b"\x00", b"\xff" * 3, b"\xfb\xef\xbe", rng.randbytes(rng.randrange(70))))
            run(storage.store_bytes(key, raw))
            for s in (storage, reopened(storage, rng)):
                got = plain(rec, run(s.load_bytes(key)))
                rec.check(type(got) is bytes and got == raw, "bytes not loaded back", stored=raw, got=got)
            rec.count("bytes_round_trips")
            shapes.append(("bytes", len(raw)))
            continue
        if mode == 1:
            run(storage.delete(key))
            for method in ("load_primitive", "load_optional", "load_list", "load_dict"):
                rec.check(plain(rec, run(getattr(storage, method)(key, PRIMITIVES[kind]))) is MISSING,
                          "absent value loaded", method=method)
            rec.check(plain(rec, run(storage.load_bytes(key))) is MISSING, "absent value loaded", method="load_bytes")
            rec.check(plain(rec, run(storage.load(key))) is MISSING, "absent value loaded", method="load")
            rec.count("absent_loads")
            continue
        if mode == 2:
            value = primitive_value(rng, kind)
        elif mode == 3:
            value = [primitive_value(rng, kind) for _ in range(rng.randrange(4))]
        elif mode == 4:
            value = {text(rng): primitive_value(rng, kind) for _ in range(rng.randrange(4))}
        else:
            value = json_value(rng)
        if mode in (3, 4) and value and rng.random() < 0.4:  # one element out of line
            where = rng.randrange(len(value))
            where = where if mode == 3 else list(value)[where]
            value[where] = rng.choice((None, "x", [], {}, 0.5, 7, True))
        run(storage.store(key, copy.deepcopy(value)))
        for s in (storage, reopened(storage, rng)):
            got = plain(rec, run(s.load(key)))
            rec.check(got is not MISSING and same(got, value), "value not loaded back", stored=value, got=got)
            for method in ("load_primitive", "load_optional", "load_list", "load_dict"):
                for prim in PRIMITIVES:
                    verdict = expected(value, method, prim)
                    if verdict is None:
                        continue
                    how, got = outcome(rec, getattr(s, method)(key, PRIMITIVES[prim]))
                    if verdict:
                        rec.check(how == "ok" and got is not MISSING and same(got, value), "typed load refused or altered a value",
                                  method=method, primitive=prim, stored=value, got=(how, got))
                        rec.count("typed_accepted")
                    else:
                        rec.check(how == "TypeError", "incompatible value loaded", method=method, primitive=prim,
                                  stored=value, got=(how, got))
                        rec.count("typed_refused")
            if not isinstance(value, str):
                how, got = outcome(rec, s.load_bytes(key))
                rec.check(how == "TypeError", "incompatible value loaded as bytes", stored=value, got=(how, got))
                rec.count("typed_refused")
        shapes.append((mode, kind, repr(value)[:40]))
    rec.sig(shapes)


def reopened(storage, rng):
    other = SlowStorage(rng.random() < 0.5, rng)
    other.disk = storage.disk
    return other


# -- Maybe --------------------------------------------------------------------------------------------------------

class Custom(Exception):
    pass


def maybe_case(rng, rec):
    value = json_value(rng)
    keep = copy.deepcopy(value)
    just, nothing = Just(value), Nothing()
    scramble(rng, value)
    for _ in range(3):
        rec.check(just.is_just is True and just.is_nothing is False, "Just misreports itself")
        rec.check(nothing.is_just is False and nothing.is_nothing is True, "Nothing misreports itself")
        got = rng.choice((just.from_just, lambda: just.maybe("default")))()
        rec.check(same(got, keep), "contained value altered", got=got, want=keep)
        scramble(rng, got)
        default = rng.choice(([], {}, None, object()))
        rec.check(nothing.maybe(default) is default, "default not returned")
        try:
            nothing.from_just()
            rec.fail("Nothing yielded a value")
        except NothingException:
            pass
        calls = []
        mapped = just.fmap(lambda v: (calls.append(copy.deepcopy(v)), scramble(rng, v), [v, v])[2])
        rec.check(len(calls) == 1 and same(calls[0], keep), "mapping function not applied to the value")
        rec.check(mapped.is_just and isinstance(mapped.from_just(), list) and len(mapped.from_just()) == 2,
                  "mapped value wrong")
        rec.check(just.fmap(lambda v: None).is_just, "a value mapped to None is not a present value")
        first = just.fmap(lambda v: [v])
        second = first.fmap(lambda v: {"x": v})
        rec.check(same(second.from_just(), {"x": [keep]}), "composition of maps differs")
        rec.check(same(just.fmap(lambda v: v).from_just(), keep), "identity map differs")
        rec.check(nothing.fmap(lambda v: rec.fail("mapping function applied to Nothing")).is_nothing,
                  "mapped Nothing is present")
        try:
            just.fmap(raiser)
            rec.fail("exception of the mapping function lost")
        except Custom:
            pass
        inner = [1]
        out = just.fmap(lambda v: inner)
        inner.append(2)
        rec.check(out.from_just() == [1], "mapped value shared with the mapping function", got=out.from_just())
        rec.count("law_rounds")
    rec.sig(repr(keep)[:60])


def raiser(_value):
    raise Custom()
