"""C17, C18, C19: prompt sessions against an exact model of the co-process's output."""

import asyncio
import os
import re
import signal
import termios

import shellous

from . import world as W
from .catalog import A, B, cat
from .data import chunkings, cmp, dscn, pattern, pick


def talk(*steps, code=0):
    """Program: bytes are written, numbers are pauses, "line"/"eof" wait for input, "close" closes stdout."""
    def prog(p):
        buf = b""
        for s in steps:
            if isinstance(s, bytes):
                if s:
                    yield ("write", 1, s)
            elif isinstance(s, (int, float)):
                yield ("sleep", s)
            elif s == "line":
                while b"\n" not in buf:
                    d = yield ("read", 0, 4096)
                    if not d:
                        return code
                    buf += d
                buf = buf.split(b"\n", 1)[1]
            elif s == "eof":
                while True:
                    d = yield ("read", 0, 4096)
                    if not d:
                        break
            elif s == "close":
                yield ("close", 1)
            elif s == "closein":
                yield ("close", 0)
        return code
    return prog


def decoded(data, enc, norm, final=True):
    t = data.decode(*enc.split(maxsplit=1))
    if norm:
        t = t.replace("\r\n", "\n").replace("\r", "\n")
    return t


# -- the model ---------------------------------------------------------------
class Model:
    "The same operations on the whole text at once."

    def __init__(self, text):
        self.text = text
        self.eof = False  # end-of-file has been met

    def expect(self, rx):
        m = rx.search(self.text)
        if m is None:
            self.eof = True
            return "EOFError"
        got = (self.text[:m.start()], m.group(0))
        self.text = self.text[m.end():]
        return got

    def all(self):
        t, self.text = self.text, ""
        self.eof = True
        return t


def compiled(pat):
    if isinstance(pat, str):
        return re.compile(re.escape(pat))
    if isinstance(pat, list):
        return re.compile("|".join(re.escape(x) for x in pat))
    return pat


# text, encoding, normalise newlines, scripts
BOUND = re.compile(r"[a-z]+[^a-z]")
E_ = "expect"
CASES = {
    "plain": (b"ab>c>>d", "utf-8", False,
              [[(E_, ">"), (E_, ">"), (E_, ">"), (E_, ">"), ("all",)],
               [(E_, ">>"), ("all",), (E_, ">")],
               [(E_, ["c>", "d"]), (E_, ["c>", "d"]), ("pending",)],
               [(E_, BOUND), (E_, BOUND), (E_, BOUND), ("pending",), ("all",)],
               [("pending",), (E_, "b"), ("pending",), (E_, "d"), (E_, "x")],
               [(E_, None), ("all",)]]),
    "overlap": (b"aaabaab", "utf-8", False,
                [[(E_, "aab"), (E_, "aab"), ("all",)], [(E_, "aa"), (E_, "aa"), (E_, "aa")],
                 [(E_, re.compile("(?<=b)a")), (E_, re.compile("ab$|aab"))][:1], [(E_, "b"), (E_, "ab")]]),
    "utf8": ("\u00e9>\u20ac>\U0001f600".encode(), "utf-8", False,
             [[(E_, ">"), (E_, ">"), ("all",)], [(E_, "\u20ac"), ("all",)], [(E_, "\U0001f600"), (E_, ">")]]),
    "utf16": ("a\u20ac>b".encode("utf-16"), "utf-16", False,
              [[(E_, ">"), ("all",)], [(E_, "\u20ac"), (E_, "b")]]),
    "latin": (b"\xe9>\xff\xa0>", "latin-1", False, [[(E_, ">"), (E_, ">"), ("all",)]]),
    "replace": (b"a\xff>\xc3>\xe2\x82", "utf-8 replace", False,
                [[(E_, ">"), (E_, ">"), ("all",)], [(E_, "x")], [(E_, "\ufffd>"), ("all",)]]),
    "iso2022": ("\u3042>\u3044>".encode("iso2022_jp"), "iso2022_jp", False,
                [[(E_, ">"), (E_, "\u3044"), ("all",)]]),
    "crlf": (b"a\r\nb\r>\n\r\r\n", "utf-8", True,
             [[(E_, "\n"), (E_, ">"), (E_, "\n"), ("all",)], [(E_, "\n\n"), ("all",)],
              [(E_, "a\nb\n"), (E_, ">\n\n"), (E_, "\n"), ("all",)], [(E_, "x"), ("pending",)]]),
    "crlf-raw": (b"a\r\n>\r\n", "utf-8", False, [[(E_, "\r\n"), (E_, ">\r"), ("all",)]]),
    "crlf16": ("a\r\n>\r".encode("utf-16-le"), "utf-16-le", True, [[(E_, "\n"), (E_, ">\n"), ("all",)]]),
    "empty": (b"", "utf-8", False, [[(E_, ">"), ("all",), (E_, ">")], [("pending",), ("all",)]]),
}


async def play(w, cli, script, model, total):
    """Run the operations; compare the values with the model's, and account for all text."""
    taken = ""
    for i, op in enumerate(script):
        if op[0] == E_:
            rx = compiled(op[1] if op[1] is not None else ">")
            before = model.text
            try:
                t, m = await cli.expect(op[1])
                got = (t, m.group(0))
                taken += t + m.group(0)
            except EOFError:
                got = "EOFError"
            cmp(w, f"{i}: expect {op[1]!r} in {before!r}", got, model.expect(rx))
            if got == "EOFError":
                cmp(w, f"{i}: pending at end-of-file", cli.pending, model.text)
        elif op[0] == "all":
            got = await cli.read_all()
            taken += got
            cmp(w, f"{i}: read_all", got, model.all())
        else:
            got = cli.read_pending()
            taken += got
            cmp(w, f"{i}: read_pending", model.text.startswith(got), True)
            cmp(w, f"{i}: pending after read_pending", cli.pending, "")
            model.text = model.text[len(got):]
        known = taken + cli.pending
        cmp(w, f"{i}: text so far {known!r}", total.startswith(known), True)
        if model.eof or model.text:
            cmp(w, f"{i}: at_eof", cli.at_eof, model.eof and not model.text)
        elif cli.at_eof:
            cmp(w, f"{i}: at_eof before the end", known, total)


@dscn("talk-split", "C17", max_time=2.0)
async def _(w, sh):
    "Every split of short outputs into writes."
    name = pick(w, "text", list(CASES), ["plain", "utf8", "crlf"])
    data, enc, norm, scripts = CASES[name]
    k = pick(w, "script", list(range(len(scripts))), list(range(min(2, len(scripts)))))
    narrow = w.budget_given.get("dev", 0) and not w.budget_given.get("wide")
    if narrow and len(data) > 4:
        n = len(data)
        cuts = [chunkings(data, 1)[0], [data[:1], data[1:3], data[3:]], [data[i:i + 1] for i in range(n)]]
    else:
        cuts = chunkings(data, 5 if len(data) > 9 and not w.budget_given.get("wide") else None)
    chunks = w.data_choice("chunks", cuts)
    gap = [] if narrow else [0.001]
    who = pick(w, "use", ["command", "pipeline"] if len(data) < 8 else ["command"], ["command"])
    steps = []
    for c in chunks:
        steps += [c] + gap
    w.programs[A] = talk(*steps)
    w.programs[B] = cat()
    cmd = sh(A).set(encoding=enc)
    if who == "pipeline":
        cmd = cmd | sh(B).set(encoding=enc)
    total = decoded(data, enc, norm)
    async with cmd.prompt(">", normalize_newlines=norm) as cli:
        await play(w, cli, scripts[k], Model(total), total)
        rest = cli.pending
    cmp(w, "exit code", cli.result.exit_code, 0)
    cmp(w, "text after the end", cli.pending, rest)


@dscn("talk-chat", "C17", max_time=2.0)
async def _(w, sh):
    "command(): each answer is what the co-process wrote between two prompts, however it is split."
    answers = [b"", b"x", b"x\ny"]
    n = pick(w, "rounds", [1, 2], [1])
    full = [answers[pick(w, f"answer{i}", [0, 1, 2], [1])] + b"$>" for i in range(n)]
    cuts = [w.data_choice(f"chunks{i}", chunkings(full[i])) for i in range(n)]
    last = w.data_choice("end", ["prompt", "eof", "eof+text"])
    gap = pick(w, "gap", [0.001], [0.0])
    who = pick(w, "use", ["command", "pipeline"], ["command"])
    steps = [b"$>"]
    for c in cuts:
        steps.append("line")
        for x in c:
            steps += [x] + ([gap] if gap else [])
    if last != "prompt":
        steps += ["line"] + ([b"bye"] if last == "eof+text" else [])
    else:
        steps += ["eof"]
    w.programs[A] = talk(*steps)
    w.programs[B] = cat()
    cmd = sh(A)
    if who == "pipeline":
        cmd = cmd | sh(B)
    async with cmd.prompt("$>") as cli:
        t, m = await cli.expect()
        cmp(w, "greeting", (t, m.group(0)), ("", "$>"))
        for i in range(n):
            got = await cli.command(f"cmd{i}")
            cmp(w, f"answer {i}", got, full[i][:-2].decode())
            cmp(w, f"pending {i}", cli.pending, "")
        if last != "prompt":
            allow = w.data_choice("allow_eof", [False, True])
            want = "bye" if last == "eof+text" else ""
            try:
                got = await cli.command("quit", allow_eof=allow)
                cmp(w, "last answer", (allow, got), (True, want))
            except EOFError:
                cmp(w, "EOFError", (allow, cli.pending), (False, want))
                cmp(w, "rest", await cli.read_all(), want)
            cmp(w, "at_eof", cli.at_eof, True)
            for f in (cli.expect, lambda: cli.command("again")):
                try:
                    await f()
                    cmp(w, "no EOFError after the end", 0, 1)
                except EOFError:
                    pass
            cmp(w, "read_all after the end", await cli.read_all(), "")
    a = [x for x in w.actors if x.name == "a"][0]
    cmp(w, "input", bytes(a.got.get(0, b"")).decode(),
        "".join(f"cmd{i}\n" for i in range(n)) + ("quit\n" if last != "prompt" else ""))


@dscn("talk-big", "C17", max_time=2.0)
async def _(w, sh):
    "Output longer than one read, the prompt anywhere around the edges of reads."
    k = w.data_choice("edge", [4096, 8192, 16384, 32768, 65536, 131072])
    off = w.data_choice("offset", [-3, -2, -1, 0, 1])
    mark = w.data_choice("mark", ["<\u20ac>", "\n$ ", "\r\n#"])
    norm = w.data_choice("normalise", [False, True])
    tail = w.data_choice("tail", [0, 5, 70000])
    step = w.data_choice("write", [1 << 20, 5000])
    body = "".join(chr(97 + i % 26) if i % 61 else "\r\n"[i % 2] for i in range(k + off))
    text = body + mark + "z" * tail
    data = text.encode()
    w.programs[A] = talk(*[data[i:i + step] for i in range(0, len(data), step)])
    want = decoded(data, "utf-8", norm)
    m2 = mark.replace("\r\n", "\n") if norm else mark
    async with sh(A).prompt(m2, normalize_newlines=norm) as cli:
        t, m = await cli.expect()
        rest = await cli.read_all()
    at = want.index(m2)
    cmp(w, "text", t == want[:at], True)
    cmp(w, "match", m.group(0), m2)
    cmp(w, "rest", rest == want[at + len(m2):], True)


# -- C18 --------------------------------------------------------------------
# Output at given times; one operation may time out; then everything else is collected.
def timed(times, parts, after, code=0):
    def prog(p):
        t = 0.0
        for at, b in zip(times, parts):
            if at > t:
                yield ("sleep", at - t)
                t = at
            yield ("write", 1, b)
        if after == "closeout":
            yield ("close", 1)
        if after in ("eof", "closeout"):
            while True:
                d = yield ("read", 0, 4096)
                if not d:
                    break
        return code
    return prog


@dscn("talk-timeout", "C18", max_time=20.0)
async def _(w, sh):
    "Each operation against output that comes before, at, or after its timeout."
    parts = [b"ab", b"c>", b"d"]
    times = w.data_choice("times", [(0, 0, 0), (0, 1, 2), (1, 1, 1), (0.5, 1.5, 1.5), (2, 3, 4)])
    after = w.data_choice("then", ["eof", "exit", "closeout"])
    op = w.data_choice("operation", ["expect", "read_all", "command"])
    given = w.data_choice("timeout", [None, 0.25, 1.0, 1.75, 0])
    default = w.data_choice("default", [None, 1.0])
    again = w.data_choice("again", [0, 1])
    who = pick(w, "use", ["command", "pipeline"], ["command"])
    w.programs[A] = timed(times, parts, after)
    w.programs[B] = cat()
    limit = given if given is not None else default
    cmd = sh(A)
    if who == "pipeline":
        cmd = cmd | sh(B)
    forever = op == "read_all" and after == "eof" and limit is None
    if forever:
        cmp(w, "not applicable", 0, 0)
        return
    async with cmd.prompt(">", timeout=default) as cli:
        taken = ""
        for k in range(1 + again):
            start = w.now - 1000.0
            left = "abc>d"[len(taken):]
            # when everything the operation needs is there
            if op == "read_all":
                need = times[-1] if after != "eof" else None
                value = left
            elif ">" in left:
                need = times[1]
                value = "abc"
            else:
                need = times[-1] if after != "eof" else None
                value = "EOFError"
            if need is None and limit is None:
                break
            kw = {} if given is None else {"timeout": given}
            try:
                if op == "expect":
                    t, m = await cli.expect(**kw)
                    got = t
                    taken += t + m.group(0)
                elif op == "command":
                    got = await cli.command("x", **kw)
                    taken += got + ">"
                else:
                    got = await cli.read_all(**kw)
                    taken += got
            except EOFError:
                got = "EOFError"
            except asyncio.TimeoutError:
                got = "TimeoutError"
            except (BrokenPipeError, ConnectionResetError):
                got = "broken"
            spent = w.now - 1000.0 - start
            need_at = None if need is None else max(need - start, 0.0)
            if got == "broken":
                # the process may have gone before it was written to
                cmp(w, f"{k}: broken pipe", (op, after), ("command", "exit"))
            elif op == "command" and got == "EOFError" and after == "exit":
                pass
            elif w.hurried:  # somebody was slow: either is right
                cmp(w, f"{k}: slow {op}", got in (value, "TimeoutError", "EOFError") or got, True)
            elif limit is None or (need_at is not None and need_at < limit - 1e-9):
                cmp(w, f"{k}: {op}", got, value)
            elif need_at is None or need_at > limit + 1e-9:
                cmp(w, f"{k}: {op} after the timeout", got, "TimeoutError")
            else:
                cmp(w, f"{k}: {op} at the timeout", got in (value, "TimeoutError") or got, True)
            if got == "TimeoutError":
                cmp(w, f"{k}: time of the timeout", round(spent, 6), limit)
            cmp(w, f"{k}: text so far", "abc>d".startswith(taken + cli.pending), True)
            if got in ("TimeoutError", "EOFError") and not w.hurried:
                have = "".join(p.decode() for t, p in zip(times, parts) if t < w.now - 1000.0 - 1e-9)
                cmp(w, f"{k}: text kept", (taken + cli.pending).startswith(have) or taken + cli.pending, True)
            cmp(w, f"{k}: task.cancelling()", asyncio.current_task().cancelling(), 0)
        if after == "eof":
            cli.close()
        try:
            rest = await cli.read_all(timeout=50.0)
        except asyncio.TimeoutError:
            cmp(w, "read_all timed out after 50 s", bool(w.hurried), True)
            return
        cmp(w, "all text", taken + rest, "abc>d")
        cmp(w, "at_eof", cli.at_eof, True)


@dscn("talk-cancel", "C18", max_time=20.0)
async def _(w, sh):
    "An operation is cancelled at every possible moment; the next one gets what it has not returned."
    op = w.data_choice("operation", ["expect", "expect-many", "read_all", "send", "send-full", "command"])
    norm = w.data_choice("normalise", [False, True])
    pause = w.data_choice("pause", [0, 0.5])
    end = w.data_choice("end", ["eof", "exit"])
    text = "ab\r\nc>d\u20ace>f"
    want = decoded(text.encode(), "utf-8", norm)
    raw = text.encode()
    parts = [raw[:3], raw[3:6], raw[6:10], raw[10:]]
    big = pattern(9000 if op == "send-full" else 3).replace(b"\n", b"x") + b"\n"
    w.pipe_size = 4096 if op == "send-full" else None

    def prog(p):
        if op == "command":
            yield ("read", 0, 4096)
        for x in parts:
            yield ("write", 1, x)
            if pause:
                yield ("sleep", pause)
        if op in ("read_all", "send", "send-full", "expect-many", "command", "expect"):
            if end == "exit" and op not in ("send", "send-full"):
                return 0
            if op == "read_all":
                yield ("close", 1)
        while True:
            d = yield ("read", 0, 65536)
            if not d:
                return 0

    w.programs[A] = prog
    got = []
    w.cancel_ok = False
    w.user["begun"] = True

    async with sh(A).prompt(">", normalize_newlines=norm) as cli:
        async def work():
            if op.startswith("expect"):
                for _ in range(2 if op == "expect-many" else 1):
                    t, m = await cli.expect()
                    got.append(t + m.group(0))
            elif op == "read_all":
                got.append(await cli.read_all())
            elif op == "command":
                got.append(await cli.command("x") + ">")
            else:
                await cli.send(big, end=None)
                got.append("")

        t = asyncio.ensure_future(work())
        w.cancel_target = t
        w.cancel_ok = True
        await asyncio.wait([t])
        w.cancel_ok = False
        if t.cancelled():
            out = "CancelledError"
        else:
            out = repr(t.exception())
        u = w.user
        sofar = "".join(got)
        if not want.startswith(sofar + cli.pending):
            u["lost"] = f"{op}: returned {sofar!r}, pending {cli.pending!r}"
        if op == "command" and out == "CancelledError":
            cli.close()
        elif not (end == "exit"):
            cli.close()
        elif op in ("send", "send-full"):
            cli.close()
        rest = await cli.read_all(timeout=100.0)
        u["final"] = (op, out, sofar + rest, want, bool(w.cancels))
        u["at_eof"] = cli.at_eof
    u["input"] = bytes(w.actors[0].got.get(0, b""))
    u["big"] = big
    u["code"] = cli.result.exit_code
    cmp(w, "exit code", cli.result.exit_code, 0)


def check_cancel(s, r):
    if s.name != "talk-cancel" or r.outcome != "done":
        return []
    u = r.world.user
    msgs = []
    if "begun" not in u:
        return []  # cancelled before it began
    if r.exc is not None:
        return [f"{type(r.exc).__name__}: {r.exc} ({u.get('final')})"]
    if "lost" in u:
        msgs.append(f"text lost or out of order: {u['lost']}")
    op, out, all_, want, cancelled = u["final"]
    if all_ != want:
        if op != "command" or all_ != "":  # not written if the command was never sent
            msgs.append(f"{op}: {out}: text returned {all_!r}, the co-process wrote {want!r}")
    if not cancelled and out != "None":
        msgs.append(f"{op}: raised {out} although nobody cancelled")
    if cancelled and out not in ("CancelledError", "None"):
        msgs.append(f"{op}: cancelled, but raised {out}")
    if not u["at_eof"]:
        msgs.append("not at_eof after everything was read")
    if u["code"] != 0:
        msgs.append(f"exit code {u['code']}")
    if op.startswith("send"):
        if not u["big"].startswith(u["input"]):
            msgs.append("bytes sent twice or out of order")
        elif u["input"] not in (b"", u["big"]):
            msgs.append(f"only {len(u['input'])} of {len(u['big'])} bytes arrived")
        elif not u["input"] and out == "None":
            msgs.append("bytes sent did not arrive")
    return msgs


@dscn("talk-full", "C18", max_time=20.0)
async def _(w, sh):
    "Both sides write more than the pipes hold: send must keep reading."
    w.pipe_size = w.data_choice("pipe", [4096, None])
    k = 1 if w.pipe_size else 18
    outn = w.data_choice("output", [0, 5000 * k, 9000 * k, 40000])
    inn = w.data_choice("input", [3, 4097 * k, 9000 * k, 300000])
    order = w.data_choice("order", ["write-read", "read-write", "echo"])
    calls = w.data_choice("sends", [1, 3])
    who = pick(w, "use", ["command", "pipeline"], ["command"])
    text = pattern(outn).replace(b">", b"x") + b">"
    data = pattern(inn - 1).replace(b"\n", b"y") + b"\n"

    def prog(p):
        need = len(data) * calls
        if order == "write-read":
            yield ("write", 1, text)
        n = 0
        while n < need:
            d = yield ("read", 0, 3000)
            if not d:
                return 7
            n += len(d)
            if order == "echo":
                yield ("write", 1, d)
        if order != "write-read":
            yield ("write", 1, text)
        d = yield ("read", 0, 10)
        return 0 if not d else 8

    w.programs[A] = prog
    w.programs[B] = cat(5000)
    cmd = sh(A).set(encoding="latin-1")
    if who == "pipeline":
        cmd = cmd | sh(B).set(encoding="latin-1")
    async with cmd.prompt(">") as cli:
        for i in range(calls):
            await cli.send(data if i % 2 else data.decode("latin-1"), end="")
        t = ""
        if order == "echo":
            all_ = ""
            while len(all_) < inn * calls:
                x, m = await cli.expect(re.compile("(?s).+"))
                all_ += x + m.group(0)
            t = all_[inn * calls:]
            all_ = all_[:inn * calls]
            cmp(w, "echoed", all_ == (data * calls).decode("latin-1"), True)
        if not t.endswith(">"):
            x, m = await cli.expect()
            t += x + m.group(0)
        cmp(w, "text", t == text.decode("latin-1"), True)
        cmp(w, "pending", cli.pending, "")
    cmp(w, "exit code", cli.result.exit_code, 0)
    a = [x for x in w.actors if x.name == "a"][0]
    cmp(w, "input", bytes(a.got.get(0, b"")) == data * calls, True)


@dscn("talk-broken", "C18", max_time=20.0)
async def _(w, sh):
    "The co-process stops reading, closes its output or exits; nothing it wrote is lost."
    how = w.data_choice("how", ["exit", "closein", "closein+wait", "closeout", "kill"])
    said = w.data_choice("said", ["", "hi", "hi>yo"])
    n = w.data_choice("size", [2, 200000])
    calls = w.data_choice("sends", [1, 2, 3])
    gap = w.data_choice("gap", [0, 1.0])
    who = pick(w, "use", ["command", "pipeline"], ["command"])

    def prog(p):
        if said:
            yield ("write", 1, said.encode())
        if how == "kill":
            yield ("kill", 9)
        if how.startswith("closein"):
            yield ("close", 0)
        if how == "closein+wait":
            yield ("sleep", 5.0)
        if how == "closeout":
            yield ("close", 1)
            while True:
                d = yield ("read", 0, 65536)
                if not d:
                    break
        return 3

    w.programs[A] = prog
    w.programs[B] = cat()
    cmd = sh(A)
    if who == "pipeline":
        cmd = cmd.set(exit_codes={0, 3, -9}) | sh(B)
    errs = []
    left = None
    try:
        async with cmd.prompt(">") as cli:
            for i in range(calls):
                if gap:
                    await asyncio.sleep(gap)
                try:
                    await cli.send("x" * n)
                    errs.append(None)
                except Exception as ex:
                    errs.append(type(ex).__name__)
            text = ""
            try:
                while True:
                    t, m = await cli.expect()
                    text += t + m.group(0)
            except EOFError:
                pass
            cmp(w, "text", text + cli.pending, said)
            cmp(w, "read_all", await cli.read_all(), said.rsplit(">", 1)[-1])
            cmp(w, "at_eof", cli.at_eof, True)
    except (BrokenPipeError, ConnectionResetError) as ex:
        left = type(ex).__name__
    cmp(w, "errors of send", [e for e in errs if e not in (None, "BrokenPipeError", "ConnectionResetError")], [])
    if how == "closeout":
        cmp(w, "errors", (errs, left), ([None] * calls, None))
    elif gap and n > 100000 and calls == 3 and how in ("exit", "kill", "closein+wait", "closein"):
        # the connection has been broken for long when the last send begins
        cmp(w, "broken connection reported", (errs[-1] or left) is not None, True)
    w.user["seen"] = (errs, left)
    a = [x for x in w.actors if x.name == "a"][0]
    if how != "closein+wait" and how != "kill":
        cmp(w, "status", a.status, 3 << 8)


@dscn("talk-undecodable", "C17", max_time=20.0)
async def _(w, sh):
    "Output that cannot be decoded is reported by the operation that meets it, never skipped."
    before = w.data_choice("before", [b"", b"a", b"a>b", "\u20ac".encode()])
    bad = w.data_choice("bad", [b"\xff", b"\xe2\x82x", b"\xe2\x82"])
    after = w.data_choice("after", [b"", b"c>"] if bad != b"\xe2\x82" else [b""])
    op = w.data_choice("op", ["expect", "read_all", "send+expect", "send+read_all", "send", "leave"])
    form = pick(w, "use", ["command", "pipeline"], ["command"])
    gap = w.data_choice("gap", [0, 0.5])
    encoding = "utf-8"
    steps = [before, gap, bad, gap, after]
    n = 200000

    def prog(p):
        for s in steps:
            if isinstance(s, bytes):
                if s:
                    yield ("write", 1, s)
            elif s:
                yield ("sleep", s)
        left = n + 1 if op.startswith("send") else 0
        while left > 0:
            d = yield ("read", 0, 60000)
            if not d:
                break
            left -= len(d)
        return 0
    w.programs[A] = prog
    w.programs[B] = cat(70000)
    cmd = sh(A).set(encoding=encoding)
    if form == "pipeline":
        cmd = cmd | sh(B).set(encoding=encoding)
    errs, text = [], ""
    async with cmd.prompt(">") as cli:
        if op == "leave":
            await asyncio.sleep(2.0)
        if op.startswith("send"):
            try:
                await cli.send("x" * n)
            except UnicodeDecodeError:
                errs.append("send")
            if op == "send":
                cli.close()
        if not errs and "expect" in op:
            try:
                while True:
                    t, m = await cli.expect()
                    text += t + m.group(0)
            except (EOFError, UnicodeDecodeError) as ex:
                errs.append(type(ex).__name__)
        if not errs and "read_all" in op:
            try:
                text += await cli.read_all()
                errs.append("end")
            except UnicodeDecodeError as ex:
                errs.append(type(ex).__name__)
        text += cli.pending
        if op.startswith("send"):
            cli.close()
    good = before.decode()
    if op in ("send", "leave"):
        # the session may end before the text is read
        cmp(w, "text", good.startswith(text) or text, True)
        return
    cmp(w, "outcome", errs in (["UnicodeDecodeError"], ["send"]) or errs, True)
    if gap:
        cmp(w, "text", text, good)
    else:
        cmp(w, "text", text in (good, "") or text, True)
