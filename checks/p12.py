"""P12: with an encryption key, stored records are opaque and tamper-evident."""

from __future__ import annotations

from hypothesis import strategies as st

from vp import backends
from vp import taskgen as G
from vp import tasks as T
from vp import tz as TZ
from vp.runner import Outcome, Part, check

PROPERTY = "P12"
RULE = (
    "A durable store is opened with a random key, filled and updated; its raw records are searched for payload markers, "
    "compared for reuse, then re-read with the same key, another key, no key, and after bit flips, truncation, extension or "
    "splicing. Non-trivial: a record that differs from the one written (or another key) is offered for restoration."
)
ASSUMPTIONS = ["Clean-up of records that cannot be read with the configured key is documented behaviour and not judged here."]

MARK = "MARKER-payload-7261"
keytext = st.one_of(st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), min_size=1, max_size=40), st.sampled_from(["a", "b", "a ", "A", "key", "0" * 64, "ä"]))


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    return {
        "kind": draw(st.sampled_from(backends.DURABLE)),
        "key": draw(keytext),
        "key2": draw(st.none() | st.just("") | keytext),
        "defs": draw(st.lists(T.definition(), min_size=n, max_size=n)),
        "updates": draw(st.integers(0, 2)),
        "tamper": draw(
            st.lists(
                st.tuples(
                    st.integers(0, n - 1),
                    st.sampled_from(["flip", "flip", "flip", "cut", "cut_head", "extend", "splice", "zero", "nonce_only"]),
                    st.integers(0, 3000),
                    st.integers(1, 255),
                ),
                min_size=1,
                max_size=4,
            )
        ),
        "read": draw(st.sampled_from(["all", "lookup", "due"])),
    }


def restored(store, ids, how):
    """What the store hands out as tasks (refusals count as nothing)."""
    try:
        if how == "all":
            return {t.id: T.public(t) for t in store.get_all_tasks()}
        if how == "due":
            return {t.id: T.public(t) for t in store.get_due_tasks(TZ.at(4_102_444_800_000_000))}
    except Exception:
        return {}
    out = {}
    for i in ids:
        try:
            t = store.lookup_task(i)
        except Exception:
            t = None
        if t is not None:
            out[i] = T.public(t)
    return out


def tamper(raw, how, n, x, other):
    m = len(raw)
    if how == "flip":
        i = n % m
        return raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1 :]
    if how == "cut":
        return raw[: m - 1 - n % (m - 1)] if n % 2 else raw[: m - 1 - n % 20]
    if how == "cut_head":
        return raw[1 + n % 20 :]
    if how == "extend":
        return raw + bytes([x]) * (1 + n % 3)
    if how == "zero":
        return bytes(m)
    if how == "nonce_only":
        return raw[: 13 + n % 17]
    # the nonce of one record with the body of another
    return other[:13] + raw[13:] if other != raw else raw[::-1]


def run(c):
    b = backends.CURRENT(c["kind"])
    ids = T.IDS[: len(c["defs"])]
    try:
        with backends.key(c["key"]):
            s = b.open()
        tasks = []
        for i, d in zip(ids, c["defs"]):
            t = T.make(i, {**d, "attrs": {**d["attrs"], "fn": "anyargs", "args": [MARK, i], "kwargs": {"a": MARK}, "name": MARK}}, b.sched)
            tasks.append(t)
            s.add_task(t)
        seen = [b.raw()]
        for _ in range(c["updates"]):
            for t in tasks:
                s.update_task(t)
            seen.append(b.raw())
        want = {t.id: T.public(t) for t in tasks}
        blobs = [r[i] for r in seen for i in ids]
        for raw in blobs:
            for needle in (MARK.encode(), b"anyargs", b"TaskState", b"asyncz", b"vp.targets"):
                check(needle not in raw, f"{c['kind']}: {needle!r} is readable in a stored record")
        check(len(set(blobs)) == len(blobs), f"{c['kind']}: the same bytes were stored twice")
        raw = seen[-1]
        # untouched records restore exactly, by the same and by another store with the key
        check(restored(s, ids, "all") == want, f"{c['kind']}: the writing store does not restore its records")
        b.close_store(s)
        with backends.key(c["key"]):
            s = b.open()
        check(restored(s, ids, "lookup") == want and restored(s, ids, "all") == want, f"{c['kind']}: reopened with the same key, records differ")
        check(b.raw() == raw, f"{c['kind']}: reading changed records")
        for t in tasks:
            s.update_task(t)
        raw = b.raw()
        check(not set(raw.values()) & set(blobs), f"{c['kind']}: after reopening, the same bytes were stored again")
        # tampered
        bad = {}
        for i, how, n, x in c["tamper"]:
            other = raw[ids[(i + 1) % len(ids)]]
            bad[ids[i]] = tamper(bad.get(ids[i], raw[ids[i]]), how, n, x, other)
        bad = {k: v for k, v in bad.items() if v != raw[k]}
        for k, v in bad.items():
            b.put_raw(k, v)
        if bad:
            got = restored(s, ids, "all" if c["read"] == "due" else c["read"])
            check(got == {k: v for k, v in want.items() if k not in bad}, lambda: f"{c['kind']}: altered records {sorted(bad)} ({c['tamper']}): restored {sorted(got)} of {sorted(want)}")
        b.close_store(s)
        # wrong key
        for k in ids:
            b.put_raw(k, raw[k])
        wrong = c["key2"] != c["key"]
        with backends.key(c["key2"]):
            s2 = b.open()
        got = restored(s2, ids, c["read"])
        if wrong:
            check(got == {}, lambda: f"{c['kind']}: written with key {c['key']!r}, restored with {c['key2']!r}: {got}")
        elif c["read"] != "due":
            check(got == want, f"{c['kind']}: not restored with the right key")
        b.close_store(s2)
        # written without a key, read with one
        if not c["key2"]:
            for k in list(b.raw()):
                b.put_raw(k, b"x")
            with backends.key(None):
                s3 = b.open()
                s3.remove_all_tasks()
                for t in tasks:
                    s3.add_task(t)
                check(restored(s3, ids, "all") == want, f"{c['kind']}: plain records are not restored without a key")
            b.close_store(s3)
            with backends.key(c["key"]):
                s4 = b.open()
            check(restored(s4, ids, c["read"]) == {}, f"{c['kind']}: a plain record was restored although a key is configured")
    finally:
        b.dispose()
    return Outcome(bool(bad) or wrong, [c["kind"], "tampered" if bad else "untouched", "nokey" if not c["key2"] else "otherkey" if wrong else "samekey"])


PARTS = [Part("records", case, run, quick=1200, thorough=40000, setup=backends.session)]
