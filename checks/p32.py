"""P32: a state shape never changes what a value means."""

from __future__ import annotations

import copy
import dataclasses
import json
import os
import shutil
import tempfile
from collections.abc import Mapping
from datetime import datetime, timedelta, timezone
from typing import Any, Optional

from hypothesis import strategies as st

from vp import backends, shell
from vp.runner import Outcome, Part, check

PROPERTY = "P32"
RULE = (
    "values: generated model classes of dataclasses, attrs, msgspec, Pydantic (aliases, private and renamed fields, defaults, factories, frozen, nested) and values of them: dumping gives exactly the fields in plain form, without None where asked, not connected to the value; loading it, also after JSON, gives an equal value of the same class; partial mappings change only the given fields; mappings with missing, unknown or wrongly typed fields and things that are no mappings are refused with Shape errors. "
    "foreign: the models of one library through the shapes of the others. "
    "registry: sequences of registrations, replacements, removals, lookups against a dictionary; schedulers keep the shape they were given. "
    "stored: histories of schedulers with different shapes (by name, class, instance; built-in, custom, registered or not, under its own name or another) on one durable store with registrations in between: every task is always there as it was written, restored by the shape that wrote it. "
    "defaults: scheduler and task defaults given as mappings or models with some of the fields, through each shape. "
    "Non-trivial: values, foreign: two fields or more, or a refusal; registry: a replacement or a refusal; stored: a task read by a scheduler of another shape than the one that wrote it, or of a shape that is not registered; defaults: some fields are given and some not."
)
ASSUMPTIONS = [
    "Dataclasses and attrs classes restore flat fields: nested models in them are dumped to mappings and, without validation, left as such.",
    "Fields of msgspec structs are typed: builtins of msgspec have dates, bytes and the like as text.",
    "Fields that take no part in the constructor are not restored.",
]

UTC = timezone.utc
VALUES = {
    "int": (int, st.integers(-(10**12), 10**12), [[1], {"a": 1}]),
    "str": (str, st.sampled_from(["", "a", "ü€😀", "1", "null", " x "]), [[1], {"a": 1}]),
    "bool": (bool, st.booleans(), [[1], {"a": 1}]),
    "float": (float, st.sampled_from([0.5, -2.25, 1e300, 3.0]), [[1], {"a": 1}]),
    "opt": (Optional[int], st.one_of(st.none(), st.integers(-5, 5)), [[1], {"a": 1}]),
    "list": (list[int], st.lists(st.integers(-5, 5), max_size=3), [5, {"a": 1}]),
    "dict": (dict[str, int], st.dictionaries(st.sampled_from(["a", "b", "_c"]), st.integers(-5, 5), max_size=3), [5, [1]]),
    "tuple": (tuple[int, ...], st.lists(st.integers(-5, 5), max_size=3).map(tuple), [5, {"a": 1}]),
    "bytes": (bytes, st.sampled_from([b"", b"abc", b"123"]), [[1], {"a": 1}]),
    "date": (datetime, st.integers(0, 10**9).map(lambda n: datetime(2020, 1, 1, tzinfo=UTC) + timedelta(seconds=n)), [[1], {"a": 1}]),
}
NAMES = ["a", "b", "name", "value", "x_1", "long_name", "kind"]
LIBS = ["dataclass", "attrs", "msgspec", "pydantic"]


@st.composite
def _field(draw: Any, name: str) -> dict:
    kind = draw(st.sampled_from(sorted(VALUES)))
    how = draw(st.sampled_from(["required", "default", "factory"]))
    v = VALUES[kind][1]
    return {"name": name, "kind": kind, "how": how, "default": plain_case(kind, draw(v)), "value": plain_case(kind, draw(v)), "given": draw(st.booleans())}


def plain_case(kind: str, v: Any) -> Any:
    """as JSON has it, for replay files"""
    if kind == "tuple":
        return list(v)
    if kind == "bytes":
        return v.decode()
    if kind == "date":
        return v.isoformat()
    return v


def of_case(kind: str, v: Any) -> Any:
    if kind == "tuple":
        return tuple(v)
    if kind == "bytes":
        return v.encode()
    if kind == "date":
        return datetime.fromisoformat(v)
    return copy.deepcopy(v)


_fields = st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True).flatmap(lambda names: st.tuples(*[_field(n) for n in names]).map(list))
MODEL = {
    "fields": _fields,
    "frozen": st.booleans(),
    "alias": st.booleans(),
    "nested": st.sampled_from(["no", "no", "one", "list", "dict", "opt"]),
}
SPOIL = st.sampled_from(["missing", "unknown", "type", "none", "int", "text", "list", "pairs", "type", "missing"])
_ctx = st.one_of(st.none(), st.tuples(st.sampled_from(["task_state", "task_defaults", "x"]), st.sampled_from(["load", "dump", "restore"])))
VALUE = st.fixed_dictionaries({"lib": st.sampled_from(LIBS), **MODEL, "spoil": SPOIL, "spoil_at": st.integers(0, 4), "spoil_how": st.integers(0, 1), "ctx": _ctx, "wrap": st.sampled_from(["dict", "dict", "proxy"])})
FOREIGN = st.fixed_dictionaries({"lib": st.sampled_from(LIBS), "shape": st.sampled_from([*LIBS, "any", "base"]), **MODEL, "box": st.sampled_from(["no", "list", "tuple", "dict", "deep"])})


def build(lib: str, c: dict, nested_type: Any = None) -> Any:
    """the model class; strict about unknown fields where the library lets it be"""
    import attr
    import msgspec
    import pydantic

    def typ(f: dict) -> Any:
        return VALUES[f["kind"]][0]

    def dflt(f: dict) -> Any:
        return of_case(f["kind"], f["default"])

    def mutable(f: dict) -> bool:
        return f["how"] == "factory" or f["kind"] in ("list", "dict")

    fields = c["fields"]
    inner: list = []
    if nested_type is not None:
        ann = {"one": nested_type, "list": list[nested_type], "dict": dict[str, nested_type], "opt": Optional[nested_type]}[c["nested"]]  # type: ignore[valid-type]
        inner = [("inner", ann)]
    if lib == "dataclass":
        spec: list = []
        for f in fields:
            if f["how"] == "required":
                spec.append((f["name"], typ(f)))
            elif mutable(f):
                spec.append((f["name"], typ(f), dataclasses.field(default_factory=lambda f=f: dflt(f))))
            else:
                spec.append((f["name"], typ(f), dataclasses.field(default=dflt(f))))
        return dataclasses.make_dataclass("Model", [*spec, *inner], kw_only=True, frozen=c["frozen"], slots=c["alias"])
    if lib == "attrs":
        attrs: dict = {}
        for f in fields:
            check_type = {"int": int, "str": str, "bool": bool, "float": float, "list": list, "dict": dict, "tuple": tuple, "bytes": bytes, "date": datetime, "opt": (int, type(None))}[f["kind"]]
            kw: dict = {"type": typ(f), "validator": attr.validators.instance_of(check_type)}
            if f["how"] != "required":
                kw["default"] = attr.Factory(lambda f=f: dflt(f)) if mutable(f) else dflt(f)
            attrs[("_" if c["alias"] else "") + f["name"]] = attr.ib(**kw)
        for n, t in inner:
            attrs[n] = attr.ib(type=t)
        return attr.make_class("Model", attrs, kw_only=True, frozen=c["frozen"], slots=True)
    if lib == "msgspec":
        spec = []
        for f in fields:
            if f["how"] == "required":
                spec.append((f["name"], typ(f)))
            elif mutable(f):
                spec.append((f["name"], typ(f), msgspec.field(default_factory=lambda f=f: dflt(f))))
            else:
                spec.append((f["name"], typ(f), dflt(f)))
        return msgspec.defstruct("Model", [*spec, *inner], kw_only=True, frozen=c["frozen"], forbid_unknown_fields=True, rename="camel" if c["alias"] else None)
    spec = {}
    for f in fields:
        more = {"alias": f"Alias-{f['name']}"} if c["alias"] else {}
        if f["how"] == "required":
            spec[f["name"]] = (typ(f), pydantic.Field(**more))
        elif mutable(f):
            spec[f["name"]] = (typ(f), pydantic.Field(default_factory=lambda f=f: dflt(f), **more))
        else:
            spec[f["name"]] = (typ(f), pydantic.Field(default=dflt(f), **more))
    for n, t in inner:
        spec[n] = (t, ...)
    return pydantic.create_model("Model", __config__=pydantic.ConfigDict(extra="forbid", frozen=c["frozen"]), **spec)


def camel(name: str) -> str:
    head, *rest = name.split("_")
    return head + "".join(x.title() for x in rest)


def outer(lib: str, c: dict, name: str) -> str:
    """how the mappings the library takes call the field"""
    if name == "inner" or not c["alias"]:
        return camel(name) if lib == "msgspec" and c["alias"] else name
    return {"dataclass": name, "attrs": name, "msgspec": camel(name), "pydantic": f"Alias-{name}"}[lib]


def dumped(lib: str, c: dict, name: str) -> str:
    """how the plain form calls it"""
    if lib == "msgspec":
        return outer(lib, c, name)
    if lib == "attrs" and c["alias"] and name != "inner":
        return "_" + name
    return name


def attribute(lib: str, c: dict, name: str) -> str:
    return "_" + name if lib == "attrs" and c["alias"] and name != "inner" else name


def wrap_in(how: str, v: Any) -> Any:
    return {"one": lambda: v, "list": lambda: [v, v], "dict": lambda: {"k": v}, "opt": lambda: v, "no": lambda: v}[how]()


def make(lib: str, c: dict) -> tuple:
    """(class, value, the fields of the value by name)"""
    nested_type = nested_value = None
    inner_fields: dict = {}
    if c["nested"] != "no":
        ic = {**c, "nested": "no", "alias": False, "fields": [{"name": "p", "kind": "int", "how": "required", "default": 0, "value": 7, "given": True}, {"name": "q", "kind": "opt", "how": "default", "default": 3, "value": None, "given": True}]}
        nested_type = build(lib, ic)
        inner_fields = {"p": 7, "q": None}
        nested_value = nested_type(**inner_fields)
    cls = build(lib, c, nested_type)
    data = {f["name"]: of_case(f["kind"], f["value"]) for f in c["fields"]}
    kw = {(outer(lib, c, n) if lib == "pydantic" else n): v for n, v in data.items()}
    if nested_type is not None:
        # renamed by msgspec only on the outside
        kw["inner"] = wrap_in(c["nested"], nested_value)
        data["inner"] = wrap_in(c["nested"], inner_fields)
    value = cls(**kw)
    return cls, value, data


def strip(v: Any) -> Any:
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [strip(x) for x in v]
    if isinstance(v, tuple):
        return tuple(strip(x) for x in v)
    return v


def spoil_containers(v: Any) -> None:
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil_containers(x)
        v["spoiled"] = 99
    elif isinstance(v, list):
        for x in v:
            spoil_containers(x)
        v.append(99)


def shape_of(lib: str) -> Any:
    from asyncz import shapes

    if lib == "base":
        return shapes.Shape()
    return shapes.ShapeRegistry.get(lib)


def context_of(c: Any) -> Any:
    from asyncz.shapes import ShapeContext

    return None if c["ctx"] is None else ShapeContext(entity=c["ctx"][0], operation=c["ctx"][1])


def refuses(what: str, fn: Any, kind: Any) -> None:
    try:
        r = fn()
    except kind:
        return
    except Exception as e:
        check(False, lambda: f"{what}: refused with {type(e).__name__} ({e}) instead of {kind.__name__}")  # noqa: B023
    check(False, lambda: f"{what}: must be refused, gives {r!r}")


def run_values(c: dict) -> Outcome:
    from asyncz import shapes as S

    lib = c["lib"]
    shape = shape_of(lib)
    ctx = context_of(c)
    cls, value, data = make(lib, c)
    what = f"{lib} {value!r}"
    check(shape.supports(cls) and shape.supports(value), lambda: f"{what}: not supported by its shape")
    for other in (5, "a", {}, [1], None, int):
        check(not shape.supports(other), lambda: f"the {lib} shape supports {other!r}")  # noqa: B023
    before = repr(value)
    flat = lib in ("pydantic", "msgspec") or c["nested"] == "no"

    # dump
    want = {dumped(lib, c, n): v for n, v in data.items()}
    plain = shape.dump(value, context=ctx)
    check(repr(value) == before, lambda: f"{what}: changed by dumping it: {value!r}")
    check(isinstance(plain, dict), lambda: f"{what}: dumped to {plain!r}")
    check(set(plain) == set(want), lambda: f"{what}: dumped to {plain!r}, the fields are {sorted(want)}")
    if lib != "msgspec":
        check(plain == want and all(type(plain[k]) is type(want[k]) for k in want), lambda: f"{what}: dumped to {plain!r} instead of {want!r}")
    else:
        texts = {dumped(lib, c, f["name"]) for f in c["fields"] if f["kind"] in ("bytes", "date")}
        for k, v in want.items():
            x = plain[k]
            if k in texts:
                check(isinstance(x, str), lambda: f"{what}: {k} dumped to {x!r}")  # noqa: B023
            else:
                check(x == v or (isinstance(v, tuple) and list(x) == list(v)), lambda: f"{what}: {k} dumped to {x!r}")  # noqa: B023
        json.dumps(plain)
    less = shape.dump(value, exclude_none=True, context=ctx)
    check(less == strip(plain), lambda: f"{what}: dumped without None to {less!r}")

    # and back
    if flat:
        back = shape.load(cls, copy.deepcopy(plain), context=ctx)
        check(type(back) is cls and back == value, lambda: f"{what}: dumped to {plain!r}, loaded as {back!r}")
        for n, v in data.items():
            x = getattr(back, attribute(lib, c, n))
            if n != "inner":
                check(x == v and type(x) is type(v), lambda: f"{what}: {n} loaded as {x!r}")  # noqa: B023
        if lib == "pydantic":
            j = json.loads(json.dumps(shape.dump(value, mode="json", context=ctx)))
            back = shape.load(cls, j, context=ctx)
            check(back == value, lambda: f"{what}: dumped to {j!r} for JSON, loaded as {back!r}")
        if lib == "msgspec":
            back = shape.load(cls, json.loads(json.dumps(plain)), context=ctx)
            check(back == value, lambda: f"{what}: dumped to {plain!r}, loaded as {back!r} after JSON")
        # None given by default need not be written
        if all(f["value"] is not None or (f["how"] != "required" and f["default"] is None) for f in c["fields"]) and c["nested"] == "no":
            back = shape.load(cls, less, context=ctx)
            check(back == value, lambda: f"{what}: dumped without None to {less!r}, loaded as {back!r}")
    spoil_containers(plain)
    check(repr(value) == before, lambda: f"{what}: changed together with its plain form: {value!r}")
    for op in (shape.construct, shape.validate, shape.load):
        x = op(cls, value, context=ctx)
        check(x is value or x == value, lambda: f"{what}: an instance becomes {x!r}")  # noqa: B023

    # partial mappings
    part: dict = {}
    for f in c["fields"]:
        if f["given"] or f["how"] == "required":
            part[outer(lib, c, f["name"])] = of_case(f["kind"], f["value"])
    if c["nested"] == "no":
        given = dict(part)
        if c["wrap"] == "proxy" and lib in ("dataclass", "attrs"):
            from types import MappingProxyType

            part = MappingProxyType(given)  # type: ignore[assignment]
        made = shape.construct(cls, part, context=ctx)
        check(shape.validate(cls, part, context=ctx) == made, lambda: f"{lib}: {part} is validated and constructed differently")
        for f in c["fields"]:
            v = of_case(f["kind"], f["value"] if outer(lib, c, f["name"]) in part else f["default"])
            x = getattr(made, attribute(lib, c, f["name"]))
            check(x == v and type(x) is type(v), lambda: f"{lib}: {given} gives {made!r}, {f['name']} should be {v!r}")  # noqa: B023
        check(dict(part) == given, lambda: f"{lib}: {given} was changed to {part}")

        # fields
        fields = {f.name: f for f in shape.fields(cls, context=ctx)}
        check(list(fields) == [attribute(lib, c, f["name"]) for f in c["fields"]], lambda: f"{what}: the fields are {list(fields)}")
        for f in c["fields"]:
            x = fields[attribute(lib, c, f["name"])]
            check(x.required == (f["how"] == "required"), lambda: f"{what}: {x} required")  # noqa: B023
            if f["how"] == "default" and f["kind"] not in ("list", "dict"):
                check(x.default == of_case(f["kind"], f["default"]), lambda: f"{what}: default of {x}")  # noqa: B023

        # wrong forms
        full = {outer(lib, c, f["name"]): of_case(f["kind"], f["value"]) for f in c["fields"]}
        f = c["fields"][c["spoil_at"] % len(c["fields"])]
        how = c["spoil"]
        wrong: Any = full
        if how == "missing":
            wrong.pop(outer(lib, c, f["name"]))
            if f["how"] != "required":
                return Outcome(len(data) > 1, [lib])
        elif how == "unknown":
            wrong["no_such_field"] = 1
        elif how == "type":
            if lib == "dataclass":
                return Outcome(len(data) > 1, [lib])
            wrong[outer(lib, c, f["name"])] = VALUES[f["kind"]][2][c["spoil_how"]]
        else:
            wrong = {"none": None, "int": 5, "text": '{"a": 1}', "list": [], "pairs": list(full.items())}[how]
        for op, kind in ((shape.construct, S.ShapeValidationError), (shape.validate, S.ShapeValidationError), (shape.load, S.ShapeDeserializationError)):
            refuses(f"{lib}: {op.__name__} of {cls.__annotations__} from {wrong!r}", lambda op=op: op(cls, copy.deepcopy(wrong), context=ctx), kind)
        return Outcome(True, [lib, f"refused {how}"])
    return Outcome(len(data) > 1, [lib, "nested"])


def run_foreign(c: dict) -> Outcome:
    """another library's models are kept, or plainly dumped"""
    lib = c["lib"]
    c = {**c, "alias": False}
    shape = shape_of(c["shape"])
    cls, value, data = make(lib, c)
    box = {"no": lambda v: v, "list": lambda v: [v, 5], "tuple": lambda v: (v, None), "dict": lambda v: {"k": v, "n": None}, "deep": lambda v: {"k": [{"x": (v,)}]}}[c["box"]]
    boxed = box(value)
    what = f"{c['shape']} shape: {boxed!r}"
    before = repr(boxed)
    if lib == "msgspec" and c["shape"] != "msgspec" or (lib == "msgspec" and c["box"] != "no"):
        # only its own shape looks into a struct
        plain = shape.dump(boxed)
        check(plain == box(value) or isinstance(plain, (dict, list, tuple)), lambda: f"{what}: dumped to {plain!r}")
        return Outcome(False, ["kept"])
    plain = shape.dump(boxed)
    check(repr(boxed) == before, lambda: f"{what}: changed to {boxed!r}")
    if lib == "msgspec":
        return Outcome(False, ["own"])
    check(plain == box(data), lambda: f"{what}: dumped to {plain!r}")
    less = shape.dump(boxed, exclude_none=True)
    check(less == strip(box(data)), lambda: f"{what}: dumped without None to {less!r}")
    spoil_containers(plain)
    check(repr(boxed) == before, lambda: f"{what}: changed together with its plain form: {boxed!r}")
    if c["nested"] == "no":
        back = shape.load(cls, dict(data))
        check(type(back) is cls and back == value, lambda: f"{what}: loaded as {back!r}")
    return Outcome(len(data) > 1, [f"{lib} by {c['shape']}"])


# ------------------------------------------------------------------ registry

_name = st.sampled_from(["vp-a", "vp-b", "vp-c", "any", "pydantic", "vp A", "VP-A"])
_bad_name = st.sampled_from(["", None, 5])
_cls = st.integers(0, 3)
_how_select = st.sampled_from(["name", "class", "instance"])
_reg = st.one_of(
    st.tuples(st.just("register"), _name, _cls, st.booleans(), st.booleans()),
    st.tuples(st.just("register"), _name, _cls, st.booleans(), st.booleans()),
    st.tuples(st.just("bad"), st.sampled_from(["name", "instance", "int", "none", "function"]), _bad_name),
    st.tuples(st.just("unregister"), _name),
    st.tuples(st.just("get"), _name, st.booleans()),
    st.tuples(st.just("resolve"), st.sampled_from(["none", "class", "instance", "int", "object", "dict", "tuple"]), _cls),
    st.tuples(st.just("scheduler"), _name),
)
REGISTRY = st.fixed_dictionaries({"steps": st.lists(_reg, min_size=2, max_size=14)})


def run_registry(c: dict) -> Outcome:
    from asyncz import shapes as S
    from asyncz.schedulers import AsyncIOScheduler

    R = S.ShapeRegistry
    builtins = {"any": S.AnyShape, "pydantic": S.PydanticShape, "attrs": S.AttrsShape, "dataclass": S.DataclassShape, "msgspec": S.MsgspecShape}
    model: dict = dict(builtins)
    check(set(R.available()) == set(model), lambda: f"the registered shapes are {R.available()}")
    bases = [S.Shape, S.AnyShape, S.PydanticShape, S.AnyShape]
    classes = [type(f"Vp{n}", (b,), {"name": f"vp-{n}"} if n < 3 else {}) for n, b in enumerate(bases)]
    schedulers: list = []
    notable = False
    try:
        for step in c["steps"]:
            op = step[0]
            if op == "register":
                _, name, n, replace, decorator = step
                cls = classes[n]

                def go() -> Any:
                    return S.register_shape(name, replace=replace)(cls) if decorator else R.register(name, cls, replace=replace)  # noqa: B023

                if name in model and not replace:
                    refuses(f"registering a second {name!r}", go, S.ShapeRegistrationError)
                    notable = True
                else:
                    notable = notable or name in model
                    check(go() is cls, lambda: f"registering {name!r} gives another class")  # noqa: B023
                    model[name] = cls
            elif op == "bad":
                _, how, name = step
                x: Any = {"name": classes[0], "instance": classes[0](), "int": int, "none": None, "function": lambda: None}[how]
                refuses(f"registering {x!r} as {name!r}", lambda: R.register(name if how == "name" else "vp-x", x), S.ShapeRegistrationError)  # noqa: B023
                notable = True
            elif op == "unregister":
                if step[1] in model:
                    R.unregister(step[1])
                    del model[step[1]]
                else:
                    refuses(f"removing {step[1]!r}", lambda: R.unregister(step[1]), S.ShapeNotFoundError)  # noqa: B023
                    notable = True
            elif op == "get":
                fn = S.resolve_shape if step[2] else R.get
                if step[1] in model:
                    check(type(fn(step[1])) is model[step[1]], lambda: f"{step[1]!r} is {fn(step[1])!r}")  # noqa: B023
                else:
                    refuses(f"getting {step[1]!r}", lambda: fn(step[1]), S.ShapeNotFoundError)  # noqa: B023
            elif op == "resolve":
                _, how, n = step
                cls = classes[n]
                if how == "none":
                    if "pydantic" in model:
                        check(type(S.resolve_shape(None)) is model["pydantic"] and type(S.resolve_shape()) is model["pydantic"], "no shape given: not the default one")
                elif how == "class":
                    check(type(S.resolve_shape(cls)) is cls, "a class gives another shape")
                elif how == "instance":
                    i = cls()
                    check(S.resolve_shape(i) is i, "an instance gives another shape")
                else:
                    refuses(f"resolving a {how}", lambda: S.resolve_shape({"int": 5, "object": object(), "dict": {}, "tuple": ("any",)}[how]), S.ShapeError)  # type: ignore[arg-type]  # noqa: B023
            elif "pydantic" in model:
                if step[1] in model:
                    s = AsyncIOScheduler(shape=step[1])
                    schedulers.append((s, s.shape, model[step[1]]))
                else:
                    refuses(f"a scheduler with the shape {step[1]!r}", lambda: AsyncIOScheduler(shape=step[1]), S.ShapeNotFoundError)  # noqa: B023
            check(list(R.available()) == sorted(model), lambda: f"after {step}: available are {R.available()}, registered {sorted(model)}")  # noqa: B023
            for name, cls in model.items():
                check(type(R.get(name)) is cls and R.get(name) is not R.get(name), lambda: f"after {step}: {name!r} is {R.get(name)!r} instead of {cls}")  # noqa: B023
            for s, shape, cls in schedulers:
                check(s.shape is shape and type(shape) is cls, lambda: f"after {step}: the shape of a scheduler is another")  # noqa: B023
    finally:
        for name in set(R.available()) - set(builtins):
            R.unregister(name)
        for name, cls in builtins.items():
            R.register(name, cls, replace=True)
    return Outcome(notable, ["schedulers"] if schedulers else [])


# ------------------------------------------------------------------ stored


class Box:
    dir = ""
    n = 0


BOX = Box()


def session() -> Any:
    import contextlib

    @contextlib.contextmanager
    def go() -> Any:
        os.environ.pop(backends.KEY_ENV, None)
        shell.load()
        BOX.dir = tempfile.mkdtemp(prefix="vpz", dir=backends.scratch_root())
        try:
            yield
        finally:
            shutil.rmtree(BOX.dir, ignore_errors=True)

    return go()


_select = st.one_of(
    st.tuples(st.just("builtin"), st.sampled_from(["pydantic", "dataclass", "attrs", "msgspec", "any", "none"])),
    st.tuples(st.sampled_from(["name", "class", "instance", "class"]), st.integers(0, 2)),
    st.tuples(st.sampled_from(["class", "instance"]), st.integers(0, 1)),
)
_change = st.one_of(
    st.tuples(st.just("add"), st.integers(0, 3)),
    st.tuples(st.sampled_from(["pause", "resume", "rename", "remove"]), st.integers(0, 3)),
)
_between = st.tuples(st.sampled_from(["register", "register", "unregister"]), st.integers(0, 2), st.booleans())
STORED = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["sql", "sql", "file"]),
        "steps": st.lists(st.one_of(st.tuples(st.just("open"), _select, st.lists(_change, max_size=4)), st.tuples(st.just("open"), _select, st.lists(_change, max_size=4)), _between), min_size=4, max_size=12),
    }
)


def task_facts(s: Any) -> dict:
    out = {}
    for t in s.get_tasks():
        out[t.id] = (t.name, t.fn_reference, list(t.args), dict(t.kwargs), t.executor, t.coalesce, t.max_instances, t.mistrigger_grace_time, f"{type(t.trigger).__name__} {t.trigger}", t.next_run_time, t.snapshot().schedule_state.value)
    return out


def run_stored(c: dict) -> Outcome:
    from asyncz import shapes as S

    R = S.ShapeRegistry
    BOX.n += 1
    path = os.path.join(BOX.dir, f"s{BOX.n}")
    config = {"type": "file", "directory": path} if c["kind"] == "file" else {"type": "sqlalchemy", "database": f"sqlite:///{path}.db"}
    log: list = []

    def custom(n: int) -> Any:
        def load(self: Any, model_type: Any, value: Any, *, context: Any = None) -> Any:
            log.append((n, getattr(value, "id", None)))
            return super(cls, self).load(model_type, value, context=context)

        cls = type(f"Vp{n}", (S.Shape,), {"name": f"vp-{n}", "load": load})
        return cls

    classes = [custom(n) for n in range(3)]
    registered: dict = {}
    model: dict = {}  # id -> (facts, name of the shape)
    notable = False
    labels: set = set()
    count = 0
    try:
        for step in c["steps"]:
            if step[0] in ("register", "unregister"):
                op, n, alias = step
                name = f"vp-alias-{n}" if alias else f"vp-{n}"
                if op == "register":
                    R.register(name, classes[n], replace=True)
                    registered[name] = n
                elif name in registered:
                    R.unregister(name)
                    del registered[name]
                continue
            _, (how, which), changes = step
            shape: Any
            if how == "builtin":
                shape = None if which == "none" else which
                own = "pydantic" if which == "none" else which
            else:
                own = f"vp-{which}"
                if how == "name":
                    names = [k for k, n in registered.items() if n == which]
                    if not names:
                        continue
                    shape = names[-1]
                else:
                    shape = classes[which] if how == "class" else classes[which]()
            if any(x.startswith("vp-") and x != own and x not in registered for _, x in model.values()):
                continue  # whoever wrote them is not known here
            notable = notable or any(x != own for _, x in model.values()) or (own.startswith("vp-") and own not in registered and bool(model))
            with shell.api({"default": config}, shape=shape) as (s, _):
                what = f"{c}, in {step}"
                for op, k in [("look", 0), *changes, ("look", 0)]:
                    i = f"t{k}"
                    log.clear()
                    labels.add(op)
                    if op == "look":
                        have = task_facts(s)
                        check(have == {j: f for j, (f, _) in model.items()}, lambda: f"{what}: the tasks are {have}, written were {model}")  # noqa: B023
                        for n, j in log:
                            check(model[j][1] == f"vp-{n}", lambda: f"{what}: {j}, written by {model[j][1]}, was restored by vp-{n}")  # noqa: B023
                        for j, (_, x) in model.items():
                            check(not x.startswith("vp-") or (int(x[3:]), j) in log, lambda: f"{what}: {j}, written by {x}, was not restored by it")  # noqa: B023
                        continue
                    if op == "add":
                        if i in model:
                            continue
                        count += 1
                        s.add_task("vp.targets:anyargs", id=i, name=f"n{count}", args=[count, ("x", None)], kwargs={"k": {"a": [1.5, b"z"]}}, trigger="interval", hours=count, max_instances=1 + count % 3, coalesce=bool(count % 2))
                    elif i not in model:
                        continue
                    elif op == "remove":
                        s.delete_task(i)
                        del model[i]
                        continue
                    elif op == "rename":
                        count += 1
                        s.update_task(i, name=f"r{count}")
                    else:
                        getattr(s, f"{op}_task")(i)
                    now = task_facts(s)
                    check(i in now, lambda: f"{what}: {i} is gone after {op}")  # noqa: B023
                    old = model.get(i)
                    if op == "rename" and old is not None:
                        check(now[i] == (f"r{count}", *old[0][1:]), lambda: f"{what}: renaming makes {now[i]} of {old[0]}")  # noqa: B023
                    model[i] = (now[i], own)
    finally:
        for name in registered:
            R.unregister(name)
    return Outcome(notable and bool(labels & {"add"}), sorted(labels - {"look"}))


# ------------------------------------------------------------------ defaults

_grace = st.sampled_from([None, 1.0, 5.5, 3600.0])
_settings = st.fixed_dictionaries({}, optional={"mistrigger_grace_time": _grace, "coalesce": st.booleans(), "max_instances": st.integers(1, 9)})
DEFAULTS = st.fixed_dictionaries(
    {
        "shape": st.sampled_from([*LIBS, "any", None]),
        "form": st.sampled_from(["dict", "dict", "dataclass", "attrs", "pydantic", "msgspec", "proxy"]),
        "settings": _settings,
        "task": _settings,
        "extra": st.booleans(),
        "wrong": st.sampled_from([None, None, None, None, 5, "text", [1], [["max_instances", 2]], "field"]),
    }
)
STANDARD = {"mistrigger_grace_time": 1.0, "coalesce": True, "max_instances": 1}


def run_defaults(c: dict) -> Outcome:
    import attr
    import msgspec
    import pydantic

    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.triggers import CronTrigger

    given = dict(c["settings"])
    types = {"mistrigger_grace_time": Optional[float], "coalesce": bool, "max_instances": int, "other": str}
    fields = {**given, **({"other": "x"} if c["extra"] else {})}
    form: Any = dict(fields)
    if c["form"] == "dataclass":
        form = dataclasses.make_dataclass("Defaults", [(k, types[k]) for k in fields])(**fields)
    elif c["form"] == "attrs":
        form = attr.make_class("Defaults", {k: attr.ib(type=types[k]) for k in fields})(**fields)
    elif c["form"] == "pydantic":
        form = pydantic.create_model("Defaults", **{k: (types[k], ...) for k in fields})(**fields)
    elif c["form"] == "msgspec":
        if c["shape"] != "msgspec":
            form = dict(fields)
        else:
            form = msgspec.defstruct("Defaults", [(k, types[k]) for k in fields])(**fields)
    elif c["form"] == "proxy":
        from types import MappingProxyType

        form = MappingProxyType(dict(fields))
    more = {} if c["shape"] is None else {"shape": c["shape"]}
    if c["wrong"] is not None:
        wrong = {"max_instances": "many"} if c["wrong"] == "field" else c["wrong"]
        try:
            s = AsyncIOScheduler(task_defaults=wrong, **more)
        except Exception:
            return Outcome(True, ["refused"])
        check(False, lambda: f"{more}: task_defaults={wrong!r} is accepted as {s.task_defaults.model_dump()}")
    what = f"{more}: task_defaults={form!r}"
    s = AsyncIOScheduler(task_defaults=form, **more)
    want = {**STANDARD, **given}
    have = s.task_defaults.model_dump()
    check(have == want, lambda: f"{what}: the defaults are {have}")
    t = s.add_task("vp.targets:plain", trigger=CronTrigger(minute="0"), id="a", **c["task"])
    want = {**want, **c["task"]}
    have = {k: getattr(t, k) for k in want}
    check(have == want, lambda: f"{what}: a task with {c['task']} has {have}")
    have = s.task_defaults.model_dump()
    check(have == {**STANDARD, **given}, lambda: f"{what}: adding a task made them {have}")
    if isinstance(form, Mapping):
        check(dict(form) == fields, lambda: f"{what}: was changed")
    return Outcome(0 < len(given) < 3, [c["form"]])


PARTS = [
    Part("values", lambda: VALUE, run_values, quick=800, thorough=40000),
    Part("foreign", lambda: FOREIGN, run_foreign, quick=400, thorough=15000),
    Part("registry", lambda: REGISTRY, run_registry, setup=session, quick=300, thorough=10000),
    Part("stored", lambda: STORED, run_stored, setup=session, quick=300, thorough=10000),
    Part("defaults", lambda: DEFAULTS, run_defaults, setup=session, quick=300, thorough=10000),
]
