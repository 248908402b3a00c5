"""P08: a callable with arguments is accepted exactly when the call could be made; references mean the callable."""

from __future__ import annotations

import functools
import keyword
import sys
import types

from hypothesis import strategies as st

from vp import backends
from vp import sched as S
from vp import taskgen as G
from vp import tz as TZ
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P08"
RULE = (
    "bind: random signatures (every parameter kind, defaults, *args/**kwargs, as function, method, classmethod, callable "
    "object, partial, wrapped function) with random arguments; building the task must be refused exactly when really calling "
    "the callable raises an argument error. Non-trivial: the call has at least two parameters and two given arguments. "
    "ref: callables of every kind placed in generated modules (nested, renamed, shadowed, inherited, overridden, bound, "
    "built-in); a stored task must come back with a callable that does the same as the given one, or storing is refused. "
    "Non-trivial: the callable is not a plain module-level function."
)

NAMES = ["a", "b", "c", "d", "func", "args", "kwargs", "key"]


@st.composite
def signature(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=5, unique=True))
    kinds = sorted(draw(st.lists(st.sampled_from([0, 1, 1, 1, 3, 3]), min_size=len(names), max_size=len(names))))
    ps, seen_default = [], False
    for n, k in zip(names, kinds):
        d = draw(st.booleans())
        if k < 2:
            seen_default = seen_default or d
            d = seen_default
        ps.append([n, k, d])
    return {
        "params": ps,
        "var": draw(st.booleans()),
        "varkw": draw(st.booleans()),
        "how": draw(st.sampled_from(["function", "function", "method", "klass", "static", "object", "partial", "partialkw", "wrapped", "class", "async"])),
    }


def source(sig, name, first=None):
    ps = []
    if first:
        sig = {**sig, "params": [p for p in sig["params"] if p[0] != first]}
        k = 0 if any(p[1] == 0 for p in sig["params"]) else 1
        ps.append(([first, k, False]))
    ps += sig["params"]
    out, had_pos, slash, star = [], False, False, False
    for n, k, d in ps:
        if k == 1 and had_pos and not slash:
            out.append("/")
            slash = True
        if k == 3 and had_pos and not slash:
            out.append("/")
            slash = True
        if k == 3 and not star:
            out.append("*va" if sig["var"] else "*")
            star = True
        out.append(n + ("=0" if d else ""))
        had_pos = had_pos or k == 0
    if had_pos and not slash:
        out.append("/")
    if sig["var"] and not star:
        out.append("*va")
    if sig["varkw"]:
        out.append("**vk")
    return f"def {name}({', '.join(out)}):\n    return 'called'\n"


def callable_of(sig):
    ns: dict = {"functools": functools}
    how = sig["how"]
    if how == "async":
        exec("async " + source(sig, "f"), ns)
        return ns["f"]
    if how in ("function", "partial", "partialkw", "wrapped"):
        exec(source(sig, "f"), ns)
        f = ns["f"]
        if how == "partial":
            return functools.partial(f, 1)
        if how == "partialkw":
            return functools.partial(f, b=1)
        if how == "wrapped":
            @functools.wraps(f)
            def g(*a, **k):
                return f(*a, **k)
            exec("def w(x, *, y=1):\n    return 'called'\n", ns)
            return functools.wraps(ns["w"])(f)
        return f
    first = {"method": "self", "object": "self", "klass": "cls", "static": None, "class": "self"}[how]
    name = {"object": "__call__", "class": "__init__"}.get(how, "f")
    src = source(sig, name, first)
    if how == "class":
        src = src.replace("return 'called'", "pass")
    deco = {"klass": "    @classmethod\n", "static": "    @staticmethod\n"}.get(how, "")
    exec("class C:\n" + deco + "".join("    " + line + "\n" for line in src.splitlines()), ns)
    c = ns["C"]
    return {"method": lambda: c().f, "klass": lambda: c.f, "static": lambda: c.f, "object": c, "class": lambda: c}[how]()


@st.composite
def bind_case(draw):
    sig = draw(signature())
    c = {
        "sig": sig,
        "args": draw(st.lists(st.integers(0, 3), max_size=5)),
        "kwargs": draw(st.dictionaries(st.sampled_from(NAMES + ["zz"]), st.integers(0, 3), max_size=4)),
        "badkey": draw(st.sampled_from([False] * 9 + [True])),
        "via": draw(st.sampled_from(["task", "task", "update"])),
    }
    if draw(st.booleans()):
        # arguments that fit, or nearly
        args, kw = [], {}
        for n, k, d in sig["params"]:
            if d and draw(st.booleans()):
                k = max(k, 1)
                continue
            if k < 2 and not kw and draw(st.booleans()):
                args.append(1)
            elif k:
                kw[n] = 1
        if sig["var"] and not any(k < 2 for _, k, _ in sig["params"]):
            args += draw(st.lists(st.just(2), max_size=2))
        if sig["varkw"] and draw(st.booleans()):
            kw["zz"] = 3
        c.update(args=args, kwargs=kw, badkey=False)
    return c


def run_bind(c):
    from asyncz.tasks import Task
    from asyncz.triggers import DateTrigger

    try:
        fn = callable_of(c["sig"])
        import inspect

        inspect.signature(fn, follow_wrapped=False)
    except ValueError:
        return Outcome(False, ["no-signature"])  # a partial that can never be called
    kwargs = dict(c["kwargs"])
    if c["sig"]["how"] == "partial" and c["sig"]["params"]:
        kwargs.pop(c["sig"]["params"][0][0], None)  # the consumed parameter's name: a signature cannot tell
    if c["badkey"]:
        kwargs[5] = 1
    try:
        r = fn(*c["args"], **kwargs)
        if hasattr(r, "close"):
            r.close()
        can = True
    except TypeError:
        can = False
    try:
        if c["via"] == "task":
            Task(fn, id="x", args=list(c["args"]), kwargs=kwargs, trigger=DateTrigger(run_at=TZ.at(G.T0)))
        else:
            t = Task(lambda *a, **k: None, id="x", args=[], kwargs={}, trigger=DateTrigger(run_at=TZ.at(G.T0)))
            t.update_task(fn=fn, args=list(c["args"]), kwargs=kwargs)
        took = True
    except Exception as e:  # noqa: BLE001
        took, err = False, e
    check(took == can, lambda: f"call with args={c['args']} kwargs={kwargs} of {c['sig']['how']} {source(c['sig'], 'f')!r}: callable accepts={can}, asyncz accepts={took}" + ("" if took else f" ({err!r})"))
    return Outcome(len(c["sig"]["params"]) >= 2 and len(c["args"]) + len(kwargs) >= 2, [c["sig"]["how"], f"can={can}"])


# ------------------------------------------------------------------------------ references

MODULE = '''
import functools
LOG = []

def plain(x=1):
    return ("plain", x)

def other(x=1):
    return ("other", x)

def deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return ("deco", f(*a, **k))
    return inner

@deco
def decorated(x=1):
    return ("decorated", x)

def make():
    def nested(x=1):
        return ("nested", x)
    return nested

def shadowed(x=1):
    return ("first", x)
first_shadowed = shadowed
def shadowed(x=1):
    return ("second", x)

lam = lambda x=1: ("lam", x)
part = functools.partial(plain, 5)

renamed = make()
renamed.__qualname__ = renamed.__name__ = "plain"

gone = plain_gone = None
def gone(x=1):
    return ("gone", x)
keep_gone = gone
del gone

moved = make()
moved.__qualname__ = moved.__name__ = "elsewhere"
moved.__module__ = "no_such_module_anywhere"

def tagged(x=1):
    return ("tagged", x)
tagged.fn = other

class Base:
    def __init__(self, n=0):
        self.n = n
    def __eq__(self, o):
        return type(o) is type(self) and o.n == self.n
    def __hash__(self):
        return 1
    def __repr__(self):
        return f"{type(self).__name__}({self.n})"
    def method(self, x=1):
        return ("method", type(self).__name__, self.n, x)
    def over(self, x=1):
        return ("base-over", type(self).__name__, self.n, x)
    @classmethod
    def klass(cls, x=1):
        return ("klass", cls.__name__, x)
    @staticmethod
    def static(x=1):
        return ("static", x)
    def __call__(self, x=1):
        return ("call", type(self).__name__, self.n, x)
    def sup(self):
        return self.over
    class Inner:
        @classmethod
        def klass(cls, x=1):
            return ("inner", cls.__name__, x)
        @staticmethod
        def static(x=1):
            return ("innerstatic", x)

class Sub(Base):
    def over(self, x=1):
        return ("sub-over", type(self).__name__, self.n, x)
    @classmethod
    def klass2(cls, x=1):
        return ("klass2", cls.__name__, x)
    def sup(self):
        return super().over

class Meta(type):
    def fromclass(cls, x=1):
        return ("meta", cls.__name__, x)

class WithMeta(metaclass=Meta):
    pass

def generator(x=1):
    yield ("generator", x)

async def coro(x=1):
    return ("coro", x)
'''
EXPRS = [
    "plain", "other", "decorated", "decorated.__wrapped__", "make()", "first_shadowed", "shadowed", "lam", "part", "renamed", "keep_gone", "moved", "tagged",
    "Base(3).method", "Sub(3).method", "Sub(3).over", "Base(3).over", "Sub(3).sup()", "Base.klass", "Sub.klass", "Sub.klass2", "Base(2).klass", "Sub(2).klass",
    "Base.static", "Sub.static", "Sub(1).static", "Base(4)", "Sub(4)", "Base.Inner.klass", "Base.Inner.static", "WithMeta.fromclass",
    "[3, 1].append", "'abc'.upper", "LOG.append", "dict.fromkeys", "len", "functools.reduce", "Base", "Sub", "coro", "generator", "Base.method", "Sub.over",
    "functools.partial(Base(1).method, 4)", "type('Base', (), {'method': lambda self, x=1: ('fake', x)})().method",
]
TEXT = ["plain", "Base.static", "Base.klass", "Sub.klass", "Base.Inner.static", "decorated", "lam", "part", "renamed"]
ARGS_FOR = {"'abc'.upper": [], "dict.fromkeys": [["p"]], "len": ["abc"], "functools.reduce": None, "Base.method": "self", "Sub.over": "self"}


def ref_case():
    return st.fixed_dictionaries(
        {
            "expr": st.sampled_from(EXPRS),
            "text": st.booleans(),
            "x": st.integers(2, 9),
            "kind": st.sampled_from(["file", "sql", "pickle"]),
            "reload": st.sampled_from([False, False, False, True]),
        }
    )


def result(fn, args):
    import asyncio
    import inspect

    r = fn(*args)
    if inspect.iscoroutine(r):
        return asyncio.run(r)
    if inspect.isgenerator(r):
        return list(r)
    return r


def run_ref(c):
    from asyncz.tasks import Task
    from asyncz.triggers import DateTrigger

    name = "vp_refmod"
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    exec(MODULE, mod.__dict__)
    expr = c["expr"]
    if c["text"] and expr in TEXT:
        given = f"{name}:{expr}"
        fn = eval(expr, mod.__dict__)
    else:
        given = fn = eval(expr, mod.__dict__)
    args = ARGS_FOR.get(expr, [c["x"]])
    if args is None:
        args = [max, [1, c["x"]]]
    elif args == "self":
        args = [mod.Sub(7) if expr.startswith("Sub") else mod.Base(7), c["x"]]
    args = list(args)
    if expr == "part" or "partial(" in expr:
        args = []
    if c["reload"]:
        exec(MODULE, mod.__dict__)  # the same names now are other objects that do the same
    b = backends.CURRENT("file" if c["kind"] == "pickle" else c["kind"])
    try:
        try:
            t = Task(given, id="t", args=args, trigger=DateTrigger(run_at=TZ.at(G.T0)), scheduler=b.sched, store_alias="default", executor="default", next_run_time=TZ.at(G.T0))
        except Exception as e:  # noqa: BLE001
            check(not isinstance(given, str) and "signature" in repr(e), lambda: f"{expr}: task refused: {e!r}")
            return Outcome(False, ["no-signature"])
        if isinstance(given, str):
            check(t.fn_reference == given, f"given reference {given!r} became {t.fn_reference!r}")
        want = repr(result(fn, args))
        try:
            if c["kind"] == "pickle":
                import pickle

                data = pickle.dumps(t)
            else:
                s = b.open()
                s.add_task(t)
        except Exception:  # noqa: BLE001
            refused = True
        else:
            refused = False
        if refused:
            ok_refused = expr not in ("plain", "other", "decorated", "shadowed", "Base(3).method", "Sub(3).method", "Base.klass", "Sub.klass", "Sub.klass2", "Base.static", "Base.Inner.static", "coro", "generator", "Base", "len")
            check(ok_refused or c["reload"], lambda: f"{expr} ({'text' if isinstance(given, str) else 'object'}) is an importable callable but was refused by the durable store")
            if c["kind"] != "pickle":
                check(s.lookup_task("t") is None and list(s.get_all_tasks()) == [], lambda: f"{expr}: refused but something was stored")
            return Outcome(not isinstance(given, str), ["refused", expr])
        if c["kind"] == "pickle":
            back = pickle.loads(data)
        else:
            b.close_store(s)
            s = b.open()
            back = s.lookup_task("t")
        check(back is not None, lambda: f"{expr}: the stored task is gone (its reference {t.fn_reference!r} does not resolve)")
        got = repr(result(back.fn, list(back.args)))
        check(got == want, lambda: f"{expr}: stored as {t.fn_reference!r}; the restored callable gives {got} instead of {want}")
        return Outcome(expr not in ("plain", "other"), ["kept", expr])
    finally:
        b.dispose()
        sys.modules.pop(name, None)


PARTS = [
    Part("bind", bind_case, run_bind, quick=8000, thorough=400000),
    Part("ref", ref_case, run_ref, quick=1600, thorough=30000, setup=backends.session),
]
