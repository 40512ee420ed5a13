"""An independent RS-274 interpreter: program text in, recorded machine trace out.

Knows nothing of cq-cam.  It reads the emitted *text*, tracks every modal group the
programs use, resolves each motion into absolute start/end positions and records one
event per motion / state change.  Everything irregular becomes a `fault` record
(kind, line number, message); which faults matter is for the property monitors.
"""
from __future__ import annotations

import math
import re
from dataclasses import dataclass, field

WORD = re.compile(r"([A-Z])([+-]?(?:\d+\.?\d*|\.\d+))")

G_GROUPS = {
    "motion": {"0", "1", "2", "3", "80", "81", "82", "83", "84", "85", "86", "87", "88", "89"},
    "plane": {"17", "18", "19"},
    "distance": {"90", "91"},
    "arcdist": {"90.1", "91.1"},
    "feedmode": {"93", "94", "95"},
    "units": {"20", "21"},
    "radiuscomp": {"40", "41", "42"},
    "lengthcomp": {"43", "49"},
    "wcs": {"54", "55", "56", "57", "58", "59"},
    "planner": {"61", "61.1", "64"},
    "nonmodal": {"4", "28", "30", "53"},
    "spindlemode": {"50", "96", "97"},
}
G_OF = {c: g for g, cs in G_GROUPS.items() for c in cs}
M_GROUPS = {
    "stop": {"0", "1", "2", "30", "60"},
    "spindle": {"3", "4", "5"},
    "coolant": {"7", "8", "9"},
    "toolchange": {"6"},
}
M_OF = {c: g for g, cs in M_GROUPS.items() for c in cs}


def norm_code(txt: str) -> str:
    """'01' -> '1', '90.10' -> '90.1'"""
    f = float(txt)
    return str(int(f)) if f == int(f) else repr(f)


@dataclass
class Move:
    line: int
    text: str
    mode: int  # 0 rapid 1 line 2 cw 3 ccw
    start: tuple  # (x|None, y|None, z|None)
    end: tuple
    center: tuple | None
    words: dict
    feed: float | None  # modal feed
    feed_word: float | None  # F on this very line
    state: dict  # snapshot of the modal state
    section: int  # index of the section (comment delimited)
    label: str

    @property
    def is_rapid(self):
        return self.mode == 0

    @property
    def is_arc(self):
        return self.mode in (2, 3)

    @property
    def xy_known(self):
        return None not in (self.start[0], self.start[1], self.end[0], self.end[1])

    @property
    def moves_xy(self):
        """True when XY may change (unknown start counts as moving)"""
        if self.is_arc:
            return True
        for a, b in zip(self.start[:2], self.end[:2]):
            if b is None:
                continue
            if a is None or a != b:
                return True
        return False

    @property
    def moves_z(self):
        a, b = self.start[2], self.end[2]
        return b is not None and a != b


@dataclass
class Fault:
    kind: str
    line: int
    msg: str


@dataclass
class Trace:
    moves: list = field(default_factory=list)
    faults: list = field(default_factory=list)
    events: list = field(default_factory=list)  # (line, kind, value)
    labels: list = field(default_factory=list)
    numbers: list = field(default_factory=list)  # (line, letter, text)
    lines: int = 0
    final: dict = field(default_factory=dict)
    ended: bool = False

    def of(self, kind):
        return [f for f in self.faults if f.kind == kind]


class Machine:
    def __init__(self, assume: dict | None = None):
        self.state = dict(
            motion=None,
            plane=None,
            distance=None,
            feedmode=None,
            units=None,
            wcs=None,
            planner=None,
            lengthcomp=None,
            radiuscomp=None,
            spindle=None,  # None / 'cw' / 'ccw' / 'off'
            speed=None,
            coolant="off",
            tool=None,
            feed=None,
        )
        if assume:
            self.state.update(assume)
        self.pos = [None, None, None]
        self.trace = Trace()
        self.section = -1
        self.label = ""

    # -- helpers
    def fault(self, kind, n, msg):
        self.trace.faults.append(Fault(kind, n, msg))

    def event(self, n, kind, value=None):
        self.trace.events.append((n, kind, value, tuple(self.pos)))

    def run(self, text: str) -> Trace:
        for n, raw in enumerate(text.split("\n"), 1):
            self.line(n, raw)
        self.trace.lines = n
        self.trace.final = dict(self.state, pos=tuple(self.pos))
        return self.trace

    def strip_comments(self, n, raw):
        out, depth, buf = [], 0, []
        for ch in raw:
            if ch == "(":
                if depth:
                    self.fault("comment", n, f"nested comment: {raw!r}")
                depth += 1
            elif ch == ")":
                if not depth:
                    self.fault("comment", n, f"unbalanced ')': {raw!r}")
                else:
                    depth -= 1
                    if depth == 0:
                        self.section += 1
                        self.label = "".join(buf)
                        self.trace.labels.append((n, self.label))
                        buf = []
            elif depth:
                buf.append(ch)
            else:
                out.append(ch)
        if depth:
            self.fault("comment", n, f"comment not closed on its line: {raw!r}")
        return "".join(out)

    def line(self, n, raw):
        code = self.strip_comments(n, raw)
        if not code.strip():
            return
        if self.trace.ended:
            self.fault("after_end", n, f"code after program end: {raw!r}")
        pos, words = 0, []
        for tok in code.split():
            p = 0
            while p < len(tok):
                m = WORD.match(tok, p)
                if not m:
                    self.fault("syntax", n, f"unparsable token {tok!r} in {raw!r}")
                    return
                words.append((m.group(1), m.group(2)))
                self.trace.numbers.append((n, m.group(1), m.group(2)))
                p = m.end()
        gs, ms, vals = {}, {}, {}
        for letter, txt in words:
            if letter == "G":
                c = norm_code(txt)
                g = G_OF.get(c)
                if g is None:
                    self.fault("unknown_code", n, f"G{c}")
                    continue
                if g in gs:
                    self.fault("modal_clash", n, f"two words of group {g}: {raw!r}")
                gs[g] = c
            elif letter == "M":
                c = norm_code(txt)
                g = M_OF.get(c)
                if g is None:
                    self.fault("unknown_code", n, f"M{c}")
                    continue
                if g in ms:
                    self.fault("modal_clash", n, f"two words of group M/{g}: {raw!r}")
                ms[g] = c
            else:
                if letter in vals:
                    self.fault("duplicate_word", n, f"{letter} twice: {raw!r}")
                vals[letter] = (float(txt), txt)
        st = self.state
        # order of execution as in the RS274 table
        if "feedmode" in gs:
            st["feedmode"] = gs["feedmode"]
        fword = vals["F"][0] if "F" in vals else None
        if fword is not None:
            st["feed"] = fword
        if "S" in vals:
            st["speed"] = vals["S"][0]
            self.event(n, "speed", vals["S"][0])
        if "toolchange" in ms:
            if "T" not in vals:
                self.fault("tool", n, "M6 without T")
            if st["spindle"] in ("cw", "ccw"):
                self.fault("toolchange_spinning", n, "tool change with the spindle on")
            if st["coolant"] not in ("off", None):
                self.fault("toolchange_coolant", n, "tool change with coolant on")
        if "T" in vals:
            st["pending_tool"] = vals["T"][0]
        if "toolchange" in ms:
            st["tool"] = st.get("pending_tool")
            self.event(n, "tool", st["tool"])
        if "spindle" in ms:
            st["spindle"] = {"3": "cw", "4": "ccw", "5": "off"}[ms["spindle"]]
            self.event(n, "spindle", st["spindle"])
        if "coolant" in ms:
            st["coolant"] = {"7": "mist", "8": "flood", "9": "off"}[ms["coolant"]]
            self.event(n, "coolant", st["coolant"])
        for g in ("plane", "units", "radiuscomp", "lengthcomp", "wcs", "planner", "distance", "arcdist"):
            if g in gs:
                st[g] = gs[g]
                self.event(n, g, gs[g])
        if "lengthcomp" in gs and gs["lengthcomp"] == "43":
            if "H" not in vals:
                self.fault("tool", n, "G43 without H")
            else:
                st["H"] = vals["H"][0]
        if "nonmodal" in gs:
            if gs["nonmodal"] in ("28", "30"):
                self.event(n, "home", gs["nonmodal"])
                self.pos = [None, None, None]
        axis = {k: vals[k][0] for k in "XYZ" if k in vals}
        if "motion" in gs:
            st["motion"] = gs["motion"]
        if axis or (gs.get("motion") in ("0", "1", "2", "3")):
            self.motion(n, raw, gs, vals, axis, fword)
        if "stop" in ms:
            self.event(n, "stop", ms["stop"])
            if ms["stop"] in ("2", "30"):
                self.trace.ended = True
                if st["spindle"] in ("cw", "ccw"):
                    self.fault("end_spinning", n, "program ends with spindle on")
                if st["coolant"] not in ("off", None):
                    self.fault("end_coolant", n, "program ends with coolant on")

    def motion(self, n, raw, gs, vals, axis, fword):
        st = self.state
        mode = st["motion"]
        if mode not in ("0", "1", "2", "3"):
            self.fault("motion", n, f"axis words without a motion mode: {raw!r}")
            return
        mode = int(mode)
        if not axis:
            self.fault("motion", n, f"motion without axis words: {raw!r}")
            return
        start = tuple(self.pos)
        end = list(self.pos)
        for i, k in enumerate("XYZ"):
            if k in axis:
                if st["distance"] == "91":
                    if end[i] is None:
                        self.fault("motion", n, "incremental move from an unknown position")
                        end[i] = axis[k]
                    else:
                        end[i] += axis[k]
                else:
                    end[i] = axis[k]
        center = None
        if mode in (2, 3):
            if None in start or None in end:
                self.fault("arc", n, f"arc from an unknown position: {raw!r}")
            if "I" not in vals and "J" not in vals:
                self.fault("arc", n, f"arc without I/J: {raw!r}")
            if st.get("arcdist") == "90.1":
                center = (vals.get("I", (0,))[0], vals.get("J", (0,))[0])
            else:
                center = (
                    (start[0] or 0) + vals.get("I", (0,))[0],
                    (start[1] or 0) + vals.get("J", (0,))[0],
                )
        elif any(k in vals for k in "IJK"):
            self.fault("arc", n, f"I/J/K on a straight move: {raw!r}")
        words = {k: v[0] for k, v in vals.items()}
        mv = Move(n, raw, mode, start, tuple(end), center, words, st["feed"], fword,
                  dict(st), self.section, self.label)
        self.trace.moves.append(mv)
        self.pos = end


def run(text: str, assume: dict | None = None) -> Trace:
    return Machine(assume).run(text)


# --------------------------------------------------------------------------- geometry
def arc_sweep(m: Move) -> float:
    """Signed swept angle (ccw positive) exactly as a controller would execute it."""
    cx, cy = m.center
    a0 = math.atan2(m.start[1] - cy, m.start[0] - cx)
    a1 = math.atan2(m.end[1] - cy, m.end[0] - cx)
    full = m.start[0] == m.end[0] and m.start[1] == m.end[1]
    d = a1 - a0
    if m.mode == 3:
        while d <= 1e-12:
            d += 2 * math.pi
        return 2 * math.pi if full else d
    while d >= -1e-12:
        d -= 2 * math.pi
    return -2 * math.pi if full else d


def arc_radii(m: Move):
    cx, cy = m.center
    return (
        math.hypot(m.start[0] - cx, m.start[1] - cy),
        math.hypot(m.end[0] - cx, m.end[1] - cy),
    )


def points(m: Move, tol=2e-4):
    """XYZ points of the motion, start included."""
    s = tuple(b if a is None else a for a, b in zip(m.start, m.end))
    e = m.end
    if not m.is_arc:
        return [s, e]
    r0, r1 = arc_radii(m)
    r = max(r0, r1, 1e-9)
    sw = arc_sweep(m)
    step = 2 * math.acos(max(-1.0, 1 - min(tol / r, 1.0)))
    n = max(2, int(math.ceil(abs(sw) / max(step, 1e-3))))
    cx, cy = m.center
    a0 = math.atan2(s[1] - cy, s[0] - cx)
    pts = [s]
    for i in range(1, n):
        t = i / n
        rr = r0 + (r1 - r0) * t
        a = a0 + sw * t
        pts.append((cx + rr * math.cos(a), cy + rr * math.sin(a), s[2] + (e[2] - s[2]) * t))
    pts.append(e)
    return pts
