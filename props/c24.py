"""C24: events reach every listener once, in order, and report whether one handled them."""

from slate.event import Event

BOUNDS = "every history of up to 5 (thorough: 6) operations (add by += or append, clear, emit) with listeners answering True, False or None, and every integer as data; events with up to 11 listeners in every combination of answers, and with 40 of which at most two, anywhere, answer True"
OUTSIDE = "listeners answering other values; listeners added or removed during an emission"
ASSUMES = []
COVERS = ("handled", "unhandled", "cleared", "no listener", "same twice")
BUDGET = {"quick": 150, "thorough": 600}


def tasks(tier):
    n = 6 if tier == "thorough" else 5
    return [(f"history {i}", "history", {"n": i}) for i in range(1, n + 1)] + [
        ("answers", "answers", {"n": 3}), ("many", "answers", {"n": 11}), ("forty", "answers", {"n": 40}), ("separate", "separate", {}), ("raising", "raising", {}), ("uncallable", "uncallable", {})]


def noop(inp):
    pass


def history(inp, n):
    ev = Event("e")
    log, want, listeners = [], [], []

    def make(k, answer):
        def f(data):
            log.append((k, data))
            return answer
        return f

    for i in range(n):
        op = inp.choice(f"op{i}", ("add", "append", "again", "clear", "emit"))
        if op in ("add", "append"):
            answer = inp.choice(f"answer{i}", (True, False, None))
            f = make(i, answer)
            if op == "add":
                same = ev
                ev += f
                inp.check(ev is same, "adding a listener keeps the event")
            else:
                inp.check(ev.append(f) is f, "append gives the listener back")
            listeners.append((i, answer, f))
        elif op == "again":
            if listeners:
                ev += listeners[0][2]
                listeners.append(listeners[0])
                inp.cover("same twice")
        elif op == "clear":
            ev.clear()
            listeners = []
            inp.cover("cleared")
        else:
            data = inp.int(f"data{i}", -5, 5)
            log.clear()
            got = ev(data)
            inp.check([k for k, d in log] == [k for k, a, f in listeners], "every listener is called once, in order")
            inp.check(inp.all([d == data for k, d in log]), "with the data")
            handled = any(a is True for k, a, f in listeners)
            inp.check(got is handled or (got == handled and type(got) is bool), "the answer is whether a listener said True")
            inp.cover("handled" if handled else "unhandled")
            if not listeners:
                inp.cover("no listener")
        inp.check(bool(ev) == (len(listeners) > 0), "an event is true while it has listeners")


def answers(inp, n):
    """Symbolic answers: the disjunction."""
    ev = Event("e")
    if n <= 12:
        bs = [inp.bool(f"b{i}") for i in range(n)]
    else:  # at most two of many
        j, k = inp.int("j", -1, n - 1), inp.int("k", -1, n - 1)
        bs = [inp.any([j == i, k == i]) for i in range(n)]
    calls = []
    for i in range(n):
        ev += lambda d, i=i: (calls.append(i), bs[i])[1]
    got = ev("x")
    inp.check(inp.iff(got, inp.any(bs)), "the answer is whether a listener said True")
    inp.check(calls == list(range(n)), "a True answer does not stop the event")


def separate(inp):
    a, b = Event("a"), Event("a")
    log = []
    if inp.cbool("first"):
        a += lambda d: log.append("a")
    if inp.cbool("second"):
        b += lambda d: log.append("b")
    a(1)
    inp.check("b" not in log, "events with the same name are separate")
    log.clear()
    b(1)
    inp.check("a" not in log, "events with the same name are separate")


def raising(inp):
    """A listener's exception reaches the emitter; the event keeps working."""
    ev = Event("e")
    log = []
    bad = [True]

    def f(d):
        if bad[0]:
            raise KeyError(d)
        log.append(1)

    ev += lambda d: log.append(0)
    ev += f
    try:
        ev(1)
        inp.fail("the exception is swallowed")
    except KeyError:
        pass
    bad[0] = False
    log.clear()
    ev(2)
    inp.check(log == [0, 1], "the event works after an exception")


def uncallable(inp):
    ev = Event("e")
    x = inp.choice("x", (None, 1, "f", (1,)))
    try:
        ev += x
        ok = False
    except ValueError:
        ok = True
    inp.check(ok and not ev, "what cannot be called is refused")
