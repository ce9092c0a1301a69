"""Harness for watcher-py: the real module with ctypes' entry points and the C library played by stand-ins.
Each function is decided by CrossHair (z3) over its integer arguments; called with plain arguments it replays a counterexample."""
import ctypes, importlib.util, json, os, sys, types
sys.dont_write_bytecode = True
REPO = os.environ.get("SX_REPO", "/repo")
STRUCT = [None]; HANDLE = 0x1230

class Fn:
    """a C function: arguments are converted as ctypes does it for the declared types"""
    def __init__(self, f): self.f = f; self.argtypes = None; self.restype = ctypes.c_int
    def __call__(self, *a):
        r = self.f(*a)
        if self.restype is ctypes.c_int and isinstance(r, int) and r > 0xffffffff: r &= 0xffffffff
        return r
class Lib:
    def __init__(self, *a, **k): self.wtr_watcher_open = Fn(self._open); self.wtr_watcher_close = Fn(self._close); self.reset()
    def reset(self): self.opens = 0; self.closes = []; self.path = None; self.cb = None; self.refuse = False; self.answer = True; self.during = None; self.types_ok = True
    def _open(self, path, cb, cx):
        self.opens += 1; self.path = path.split(b"\0")[0] if isinstance(path, bytes) else path; self.cb = cb
        a = self.wtr_watcher_open.argtypes; self.types_ok = self.wtr_watcher_open.restype is ctypes.c_void_p and (a is None or (len(a) == 3 and a[0] is ctypes.c_char_p))
        return None if self.refuse else HANDLE
    def _close(self, h):
        self.closes.append(h); a = self.wtr_watcher_close.argtypes
        if not (a and a[0] is ctypes.c_void_p): self.types_ok = False  # an int argument would lose the pointer's upper half
        if self.during: self.cb(self.during, None)
        return self.answer
LIB = Lib()
def functype(res, *args):
    for a in args:
        if isinstance(a, type) and issubclass(a, ctypes.Structure): STRUCT[0] = a
    return lambda f: f
def load():
    real = (ctypes.CFUNCTYPE, ctypes.CDLL, ctypes.cdll.LoadLibrary)
    ctypes.CFUNCTYPE = functype; ctypes.CDLL = lambda *a, **k: LIB; ctypes.cdll.LoadLibrary = lambda *a, **k: LIB
    spec = importlib.util.spec_from_file_location("wtr_watcher_py", REPO + "/watcher-py/watcher/watcher.py"); m = importlib.util.module_from_spec(spec); sys.modules["wtr_watcher_py"] = m; spec.loader.exec_module(m)
    for e in ("exists", "isfile"): setattr(os.path, e, (lambda f: lambda p: True if "libwatcher" in str(p) else f(p))(getattr(os.path, e)))
    for k, v in list(vars(m).items()):
        if isinstance(v, type(None)) and "LIB" in k: setattr(m, k, None)
    return m
M = load(); FIELDS = [f[0] for f in STRUCT[0]._fields_]
def c_event(t, p, a, e, k): return types.SimpleNamespace(**dict(zip(FIELDS, (t, p, a, e, k))))
EFF = ["rename", "modify", "create", "destroy", "owner", "other"]; TYP = ["dir", "file", "hard_link", "sym_link", "watcher", "other"]
ODD = [1, 10, 31, 34, 47, 92, 97, 127, 0x80, 0xa9, 0xc3, 0xe2, 0xed, 0xff]
ONE = [bytes([x]) for x in range(256)]; PAIRS = [bytes([x, y]) for x in ODD for y in ODD]; SHORT = ONE[1:] + PAIRS + [b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"a\x00"]; NTEXT = len(SHORT) - 1; NPATH = len(SHORT)
def pick(l, i):
    lo, hi = 0, len(l)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if i < m: hi = m
        else: lo = m
    return l[lo]
N6 = [0, 1, 2, 3, 4, 5]; TIMES = [0, -9223372036854775808, 1700000000123456789]
def text(b): # bytes as they are to be read: UTF-8 where it is, else kept apart
    return b.decode("utf-8", "surrogateescape")
def opened():
    LIB.reset(); got = []; w = M.Watch("/w", got.append); return w, got
def is_event(ev, t, p, a, e, k): return ev.effect_time == t and ev.path_name == text(p) and ev.associated_path_name == (None if a is None else text(a)) and ev.effect_type.value == e and ev.path_type.value == k and ev.effect_type.name.lower() == EFF[e] and ev.path_type.name.lower() == TYP[k]

def event_numbers(t: int, e: int, k: int) -> bool:
    """
    pre: 0 <= e < 6 and 0 <= k < 6
    post: _
    """
    e = pick(N6, e); k = pick(N6, k)
    w, got = opened(); LIB.cb(c_event(t, b"p", None, e, k), None); w.close()
    return len(got) == 1 and is_event(got[0], t, b"p", None, e, k)
def event_bytes(i: int) -> bool:
    """
    pre: 0 <= i < 455
    post: _
    """
    s = pick(SHORT, i); w, got = opened(); LIB.cb(c_event(5, s, None, 1, 1), None); LIB.cb(c_event(6, b"q", s, 0, 1), None); w.close()
    return len(got) == 2 and is_event(got[0], 5, s, None, 1, 1) and is_event(got[1], 6, b"q", s, 0, 1)
def event_order(n: int, last: bool) -> bool:
    """
    pre: 0 <= n <= 3
    post: _
    """
    w, got = opened(); i = 0
    while i < n: LIB.cb(c_event(i, b"p", None, 1, 1), None); i += 1
    if last: LIB.during = c_event(n, b"d", None, 3, 4)
    w.close(); LIB.during = None
    return [g.effect_time for g in got] == list(range(n + 1 if last else n))
def path_given(i: int) -> bool:
    """
    pre: 0 <= i < 456
    post: _
    """
    s = b"/" + pick(SHORT, i); LIB.reset()
    try: w = M.Watch(text(s), lambda e: None)
    except ValueError: return 0 in s and LIB.opens == 0
    w.close(); return 0 not in s and LIB.opens == 1 and LIB.path == s
def refused() -> bool:
    """
    post: _
    """
    LIB.reset(); LIB.refuse = True
    try: M.Watch("/w", lambda e: None)
    except RuntimeError: return LIB.opens == 1 and not [h for h in LIB.closes if h]
    return False
def closes(how: int, again: int, answer: bool) -> bool:
    """
    pre: 0 <= how < 4 and 0 <= again < 3
    post: _
    """
    w, got = opened(); LIB.answer = answer
    if how == 1:
        with w as x:
            if x is not w or LIB.closes: return False
    elif how == 2:
        try:
            with w: raise KeyError("x")
        except KeyError: pass
        else: return False
    elif how == 3: w.__del__()
    i = 0
    while i < again: w.close(); i += 1
    if how == 0 and again == 0: del w
    return LIB.closes == [HANDLE] and LIB.types_ok
def callback_kept(again: bool) -> bool:
    """
    post: _
    """
    LIB.reset(); import gc, weakref
    class T: pass
    t = T(); r = weakref.ref(t); w = M.Watch("/w", (lambda t: lambda e: t)(t)); del t; LIB.cb = None  # the C library keeps a bare pointer
    gc.collect() if again else None
    ok = r() is not None; w.close(); return ok
def json_text(i: int) -> bool:
    """
    pre: 0 <= i < 455
    post: _
    """
    s = text(pick(SHORT, i))
    for p, a in ((s, None), ("p", s)):
        j = json.loads(M.Event(5, p, a, M.EffectType.RENAME, M.PathType.FILE).to_json())
        if j != {"effect_time": 5, "path_name": p, "associated_path_name": a, "effect_type": "rename", "path_type": "file"}: return False
    return True
def json_names(e: int, k: int, i: int) -> bool:
    """
    pre: 0 <= e < 6 and 0 <= k < 6 and 0 <= i < 3
    post: _
    """
    e = pick(N6, e); k = pick(N6, k); t = pick(TIMES, i)
    s = M.Event(t, "p", "q", M.EffectType(e), M.PathType(k)).to_json()
    return "\n" not in s and json.loads(s) == {"effect_time": t, "path_name": "p", "associated_path_name": "q", "effect_type": EFF[e], "path_type": TYP[k]}
