"""C21: leaving a terminal mode restores the terminal, however the block ends."""

from slate.core import set_echo
from slate.terminal import Terminal

from engine import env as E
from props.modes import Modes

BOUNDS = "three calls of each plain switch; every manager with the other modes on or off before; every manager alone and every pair nested, cursor hidden or not, blocks ending normally, by Exception, KeyboardInterrupt, SystemExit or early return, and the output stream failing once at any operation up to the end of the block"
OUTSIDE = "the stream failing while the mode is being left; the same manager nested in itself; signals between two bytecodes"
ASSUMES = ["echo is on before (leaving no_echo turns echo on)", "a failing write writes nothing"]
COVERS = ("raised", "normal", "stream failed", "nested")
BUDGET = {"quick": 100, "thorough": 600}

KINDS = ("alt", "alt-nohide", "echo", "mouse", "batch")


def tasks(tier):
    out = [(k, "one", {"kinds": [k]}) for k in KINDS]
    out += [(f"{a} {b}", "one", {"kinds": [a, b]}) for a in KINDS for b in KINDS if a.split("-")[0] != b.split("-")[0]]
    out += [(f"fault {k}", "fault", {"kinds": [k]}) for k in KINDS]
    out += [(f"fault {a} {b}", "fault", {"kinds": [a, b]}) for a in ("alt", "mouse") for b in ("echo", "batch", "alt", "mouse") if a != b]
    out += [(f"again {k}", "again", {"kind": k}) for k in KINDS]
    out += [(f"before {k}", "before", {"kind": k}) for k in KINDS]
    out += [(f"switch {k}", "switch", {"kind": k}) for k in ("cursor", "mouse", "echo")]
    if tier == "thorough":
        out += [(f"{a} {b} {c}", "one", {"kinds": [a, b, c]}) for a in KINDS for b in KINDS for c in KINDS
                if len({a.split("-")[0], b.split("-")[0], c.split("-")[0]}) == 3]
    return out


def noop(inp):
    pass


class Stop(Exception):
    pass


def manager(t, kind):
    return {"alt": lambda: t.alt_buffer(), "alt-nohide": lambda: t.alt_buffer(hide_cursor=False),
            "echo": lambda: t.no_echo(), "mouse": lambda: t.report_mouse(), "batch": lambda: t.batch()}[kind]()


def within(inp, m, e, kinds):
    for k in kinds:
        if k.startswith("alt"):
            inp.check(m.has("1049"), "the alternate buffer is on")
            inp.check(m.has("25") == (k == "alt-nohide"), "the cursor is hidden if asked")
        elif k == "echo":
            inp.check(not e.echo, "echo is off")
        elif k == "mouse":
            inp.check(m.has("1006") and (m.has("1003") or m.has("1002")), "mouse reports are on")
        elif k == "batch":
            inp.check(m.has("2026"), "the update is synchronized")


def new_terminal(e):
    e.stdin_tty = False
    t = Terminal(stream=e.out)
    e.stdin_tty = True
    e.out.take()
    e.log.clear()
    e.ops = 0
    return t


def nest(inp, t, e, m, kinds, body):
    if not kinds:
        return body()
    with manager(t, kinds[0]):
        return nest(inp, t, e, m, kinds[1:], body)


ENDS = {"normal": None, "error": Stop, "interrupt": KeyboardInterrupt, "exit": SystemExit, "generator": GeneratorExit}


def one(inp, kinds):
    e, m = E.Env(), Modes()
    end = inp.choice("end", tuple(ENDS))
    with E.active(e):
        t = new_terminal(e)

        def body():
            inp.check(not e.out.unflushed, "the mode is on before the block runs")
            m.feed(e.out.take())
            within(inp, m, e, kinds)
            if inp.cbool("draws"):
                t.write("x", cursor=(0, 0))
                t.draw()
            if ENDS[end] is not None:
                raise ENDS[end]("end")
            return "done"

        got = None
        try:
            got = nest(inp, t, e, m, kinds, body)
        except (Stop, KeyboardInterrupt, SystemExit, GeneratorExit) as x:
            got = type(x)
        inp.check(not e.out.unflushed, "the mode is left when the block has ended")
        m.feed(e.out.take())
    inp.check(got == ("done" if ENDS[end] is None else ENDS[end]), "the block's end is passed on")
    inp.check(m.plain() and e.echo, "the terminal is as it was")
    inp.cover("normal" if end == "normal" else "raised")
    if len(kinds) > 1:
        inp.cover("nested")


def fault(inp, kinds):
    e, m = E.Env(), Modes()
    at = inp.cint("at", 0, 25)
    with E.active(e):
        t = new_terminal(e)
        inside = [None]

        def body():
            t.write_control("\x1b[2J")
            t.draw(redraw=True)
            t.write_control("\x1b[H")
            inside[0] = e.ops

        e.fail_at = at
        failed = False
        try:
            nest(inp, t, e, m, kinds, body)
        except E.Fault:
            failed = True
        inp.assume(inside[0] is None or at < inside[0])
        m.feed(e.out.take())
    if failed:
        inp.cover("stream failed")
        inp.check(m.plain() and e.echo, "the terminal is as it was after a failure of the stream")
    inp.check(failed or inside[0] is not None, "a failure is passed on")


def switch(inp, kind):
    """The plain switches: on by default, and as told last."""
    e, m = E.Env(), Modes()
    with E.active(e):
        t = new_terminal(e)
        f = {"cursor": t.show_cursor, "mouse": t.set_report_mouse, "echo": set_echo}[kind]
        for i in range(3):
            v = inp.choice(f"v{i}", (None, True, False))
            f() if v is None else f(v)
            inp.check(not e.out.unflushed, "a switch takes effect at once")
            m.feed(e.out.take())
            on = v is not False
            inp.check(e.echo == (on if kind == "echo" else True), "echo is as told")
            want = {"25"} if kind != "cursor" or on else set()
            if kind == "mouse" and on:
                inp.check(m.has("1006") and (m.has("1003") or m.has("1002")), "mouse reports are on")
                inp.check("25" in m.on, "the cursor stays")
            else:
                inp.check(m.on == want, "the terminal is as told")


def again(inp, kind):
    """A mode can be entered again after it was left by an error."""
    e, m = E.Env(), Modes()
    with E.active(e):
        t = new_terminal(e)
        for i in range(2):
            try:
                with manager(t, kind):
                    m.feed(e.out.take())
                    within(inp, m, e, [kind])
                    if inp.cbool(f"raise{i}"):
                        raise Stop()
            except Stop:
                pass
            m.feed(e.out.take())
            inp.check(m.plain() and e.echo, "the terminal is as it was, each time")


def before(inp, kind):
    """A mode leaves the modes that are not its own as they were set before."""
    e, m = E.Env(), Modes()
    end = inp.choice("end", tuple(ENDS))
    with E.active(e):
        t = new_terminal(e)
        cursor = inp.cbool("cursor") if kind != "alt" else True
        mouse = inp.cbool("mouse") if kind != "mouse" else False
        echo = inp.cbool("echo") if kind != "echo" else True
        t.show_cursor(cursor)
        if mouse:
            t.set_report_mouse(True)
        set_echo(echo)
        m.feed(e.out.take())
        was = set(m.on)
        try:
            with manager(t, kind):
                m.feed(e.out.take())
                if kind != "alt":
                    inp.check(m.has("25") == cursor, "the cursor is as told before")
                if kind != "echo":
                    inp.check(e.echo == echo, "echo is as told before")
                if kind != "mouse":
                    inp.check({x for x in m.on if x.startswith("100")} == {x for x in was if x.startswith("100")}, "mouse reports are as told before")
                if ENDS[end] is not None:
                    raise ENDS[end]("end")
        except (Stop, KeyboardInterrupt, SystemExit, GeneratorExit):
            pass
        m.feed(e.out.take())
    inp.check(m.on == was and e.echo == echo, "the other modes are as they were told before")
